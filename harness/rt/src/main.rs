#![allow(dead_code, unused_imports, unused_variables, unused_mut, non_camel_case_types, non_snake_case, clippy::all)]
#[macro_use]
mod sym;
mod refr;
mod tables;
mod api;
mod forms;
pub mod core_gen {
    include!(concat!(env!("VH_GEN"), "/core.rs"));
}
pub mod h_core {
    include!(concat!(env!("VH_GEN"), "/core_h.rs"));
}
pub mod more_gen {
    include!(concat!(env!("VH_GEN"), "/more.rs"));
}
pub mod h_more {
    include!(concat!(env!("VH_GEN"), "/more_h.rs"));
}
pub mod kinds_gen {
    include!(concat!(env!("VH_GEN"), "/kinds.rs"));
}
pub mod h_kinds {
    include!(concat!(env!("VH_GEN"), "/kinds_h.rs"));
}
pub mod evo_gen {
    include!(concat!(env!("VH_GEN"), "/evo.rs"));
}
pub mod h_evo {
    include!(concat!(env!("VH_GEN"), "/evo_h.rs"));
}

#[cfg(not(feature = "native"))]
fn main() {
    h_core::keep();
    h_more::keep();
    h_kinds::keep();
    h_evo::keep();
    api::keep();
    forms::keep();
}
#[cfg(feature = "native")]
fn main() {
    sym::replay_main(&[h_core::ENTRIES, h_more::ENTRIES, h_kinds::ENTRIES, h_evo::ENTRIES, api::ENTRIES, forms::ENTRIES]);
}
