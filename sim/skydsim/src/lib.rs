#![allow(warnings)]
#![allow(unknown_lints, macro_expanded_macro_exports_accessed_by_absolute_paths)]
extern crate simcore as core;
extern crate simstd as std;
include!(concat!(env!("OUT_DIR"), "/root.rs"));
