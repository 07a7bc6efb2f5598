#[macro_use]
mod core;
mod cli;
mod config;
mod files;
mod filters;
mod gen;
mod pir;
mod query;
mod server;
mod sha;

use crate::core::*;

fn property(id: &str) -> Option<Property> {
    Some(match id {
        "P01" => pir::p01_property(),
        "P02" => pir::p02_property(),
        "P03" => query::p03_property(),
        "P04" => query::p04_property(),
        "P05" => query::p05_property(),
        "P06" => server::p06_property(),
        "P07" => server::p07_property(),
        "P08" => server::p08_property(),
        "P09" => filters::p09_property(),
        "P10" => server::p10_property(),
        "P11" => filters::p11_property(),
        "P12" => {
            let mut p = filters::p12_property();
            p.subs.extend(pir::p12_keyword_subs());
            p
        }
        "P13" => files::p13_property(),
        "P14" => files::p14_property(),
        "P15" => files::p15_property(),
        "P16" => files::p16_property(),
        "P17" => config::p17_property(),
        "P19" => config::p19_property(),
        "P20" => {
            let mut p = filters::p20_property();
            p.subs.extend(pir::p20_keyword_subs());
            p
        }
        "P18" => pir::p18_property(),
        "P21" => query::p21_property(),
        _ => return None,
    })
}

fn main() {
    if let Ok(kind) = std::env::var(config::HELPER) {
        config::helper(&kind);
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    warm_up();
    let code = cli::run(&args, property, "padded");
    let _ = std::fs::remove_dir_all(pir::scratch_dir());
    std::process::exit(code);
}

fn warm_up() {
    // hashbrown keys its hasher from the process's entropy, once
    getrandom::det::seed(0);
    let _ = xorf::BinaryFuseP32::from_slice([7; 32], &[[1, 2, 3, 4]], &[1], 0, 1024);
}
