#![allow(dead_code, unused_imports, unused_variables, unused_mut, clippy::all)]
#[macro_use]
#[path = "../../rt/src/sym.rs"]
mod sym;
mod decls;
mod fs;
mod gen;
mod insp;
mod lit;
mod names;
mod tab;
mod text;

#[cfg(not(feature = "native"))]
fn main() {
    lit::keep();
    tab::keep();
    names::keep();
    text::keep();
    insp::keep();
    decls::keep();
    gen::keep();
}
#[cfg(feature = "native")]
fn main() {
    fs::scratch(|| sym::replay_main(&[lit::ENTRIES, tab::ENTRIES, names::ENTRIES, text::ENTRIES, insp::ENTRIES, decls::ENTRIES, gen::ENTRIES]));
}
