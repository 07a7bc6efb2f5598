//! P09, P11 and P12 over the filter crate without randomised padding.
#![allow(dead_code, unused_imports)]
#[macro_use]
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/cli.rs"]
mod cli;
#[path = "../../harness/src/filters.rs"]
mod filters;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/sha.rs"]
mod sha;

use crate::core::*;

fn property(id: &str) -> Option<Property> {
    Some(match id {
        "P09" => filters::p09_property(),
        "P11" => filters::p11_property(),
        "P12" => filters::p12_property(),
        _ => return None,
    })
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    // hashbrown keys its hasher from the process's entropy, once
    getrandom::det::seed(0);
    let _ = xorf::BinaryFuseP32::from_slice([7; 32], &[[1, 2, 3, 4]], &[1], 0, 1024);
    std::process::exit(cli::run(&args, property, "unpadded"));
}
