#![no_std]
include!("../../hb17/src/table.rs");
