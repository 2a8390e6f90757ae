//! Runs /repo's current schema translation and Rust code generator on the
//! schemas of the checks.  usage: vgen OUTDIR SCHEMA...
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = std::path::Path::new(&a[1]);
    let mut bad = false;
    for s in &a[2..] {
        let Some(d) = planus_translation::translate_files(&[s]) else {
            eprintln!("vgen: schema {s} was rejected");
            bad = true;
            continue;
        };
        match planus_codegen::generate_rust(&d, true) {
            Ok(code) => {
                let stem = std::path::Path::new(s).file_stem().unwrap().to_str().unwrap();
                std::fs::write(out.join(format!("{stem}.rs")), code).unwrap();
            }
            Err(e) => {
                eprintln!("vgen: {s}: {e:?}");
                bad = true;
            }
        }
    }
    std::process::exit(bad as i32);
}
