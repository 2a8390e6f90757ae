//! llsym: solver-based symbolic execution of rustc's LLVM IR.
mod blast;
mod exec;
mod expr;
mod ir;
mod mem;
mod sat;
mod solver;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    // deep expression recursion needs a large stack
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse::<u64>().unwrap()).unwrap_or(d);
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let t0 = Instant::now();
    let src: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("read ll").into_boxed_str());
    let m = ir::Module::parse(src);
    let parse_t = t0.elapsed().as_secs_f64();
    let mut e = exec::Exec::new(m, num("--query-timeout", 60_000) as u32);
    e.sv.dump_dir = get("--dump");
    e.params = get("--params").map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    e.stop_checks = get("--stop-checks").map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    e.trace = a.iter().any(|x| x == "--trace");
    if a.iter().any(|x| x == "--profile") {
        e.profile = Some(Default::default());
    }
    e.sv.sample = num("--z3-sample", 50).max(1);
    e.max_wit = num("--witnesses", 48) as usize;
    e.mux_limit = num("--mux-limit", 1 << 16);
    if let Err(x) = e.start(&entry) {
        eprintln!("llsym: {}", x);
        std::process::exit(3);
    }
    let secs = num("--max-secs", 600);
    e.run(num("--max-paths", 1_000_000), t0 + Duration::from_secs(secs), num("--max-viol", 8) as usize);
    let wall = t0.elapsed().as_secs_f64();
    if e.sv.disagree > 0 {
        e.problems.insert("solvers disagree".into(), e.sv.disagree);
    }
    let complete = e.work.is_empty() && e.problems.is_empty();
    let status = if !e.viols.is_empty() {
        "violations"
    } else if complete {
        "ok"
    } else {
        "incomplete"
    };
    // coverage from debug locations
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for d in &e.dbg_hit {
        for (f, l, n) in e.m.dbg_stack(*d) {
            if f.contains("/rustc/") || f.contains("library/") || f.contains("/.cargo/") || f.starts_with("/root/") {
                continue;
            }
            let f = f.split("/@/").next().unwrap().to_string();
            funcs.insert(format!("{}::{}", f, n));
            lines.entry(f).or_default().insert(l);
        }
    }
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!(" \"entry\": {}, \"status\": {},\n", js(&entry), js(status)));
    o.push_str(&format!(" \"params\": {:?},\n", e.params));
    o.push_str(&format!(" \"complete\": {},\n", complete));
    o.push_str(&format!(" \"problems\": {{{}}},\n", e.problems.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"paths\": {}, \"killed\": {}, \"pending\": {}, \"instructions\": {}, \"forks\": {}, \"max_input_bytes\": {}, \"max_decisions\": {},\n", e.st.paths, e.st.killed, e.work.len(), e.st.nins, e.st.forks, e.st.max_in, e.st.max_depth));
    o.push_str(&format!(" \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"wall_s\": {:.3}, \"parse_s\": {:.3}, \"nodes\": {},\n", e.sv.queries, e.sv.sat, e.sv.unsat, e.sv.unknown, e.sv.cache_hits, e.sv.time, e.sv.max_time, wall, parse_t, e.ex.size()));
    o.push_str(&format!(" \"z3_confirmed\": {}, \"z3_unconfirmed\": {}, \"z3_decided\": {}, \"z3_s\": {:.3}, \"disagreements\": {}, \"sat_conflicts\": {},\n", e.sv.confirmed, e.sv.unconfirmed, e.sv.z3_decided, e.sv.z3_time, e.sv.disagree, e.sv.conflicts()));
    o.push_str(&format!(" \"solver\": {},\n", js(&format!("incremental CDCL over bit-blasted QF_BV (llsym), cross-checked with z3 {}", solver::Solver::version()))));
    o.push_str(&format!(" \"checks\": {}, \"checks_by_solver\": {},\n", e.st.checks, e.st.checks_solver));
    o.push_str(&format!(" \"checks_reached\": {{{}}},\n", e.checks_reached.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"covers\": {:?},\n", e.covers.iter().collect::<Vec<_>>()));
    o.push_str(&format!(" \"functions\": [{}],\n", funcs.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"lines\": {{{}}},\n", lines.iter().map(|(k, v)| format!("{}: {}", js(k), v.len())).collect::<Vec<_>>().join(", ")));
    o.push_str(" \"violations\": [");
    for (i, v) in e.viols.iter().enumerate() {
        if i > 0 {
            o.push_str(",");
        }
        o.push_str(&format!("\n  {{\"kind\": {}, \"msg\": {}, \"check\": {}, \"input\": {}, \"loc\": {}}}", js(&v.kind), js(&v.msg), v.check.map_or("null".into(), |c| c.to_string()), js(&hex(&v.input)), js(&v.loc)));
    }
    o.push_str("]\n}\n");
    if let Some(w) = get("--witness") {
        let s: String = e.witnesses.iter().map(|(i, b)| format!("{} {}\n", hex(i), hex(b))).collect();
        std::fs::write(w, s).unwrap();
    }
    match get("--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
    if let Some(p) = &e.profile {
        let mut v: Vec<_> = p.iter().map(|(k, n)| (*n, *k)).collect();
        v.sort();
        for (n, k) in v.iter().rev().take(25) {
            eprintln!("{:>12} {}", n, e.m.funcs[*k as usize].name);
        }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}
