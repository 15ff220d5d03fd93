#![allow(static_mut_refs, invalid_runtime_symbol_definitions, non_upper_case_globals)]
#![allow(static_mut_refs)]
pub mod alloc;
pub mod driver;
pub mod files;
pub mod gen;
pub mod kernel;
pub mod known;
pub mod layout;
pub mod legacy;
pub mod net;
pub mod oracle;
pub mod plan;
pub mod power;
pub mod raw;
pub mod rng;
pub mod scripts;
pub mod source;
pub mod sys;
pub mod util;
pub mod vfs;
pub mod xml;

/// Referenced by the harness so that the linker keeps this crate.
pub fn keep() {}
