//! Conformance harness: replays scenarios of the TLA+ specification into nyx and records what nyx did.
#![allow(clippy::type_complexity, clippy::too_many_arguments)]
mod util;
mod sc;
mod world;
mod p01;
mod io;
mod kepler;
mod p02;
mod p03;
mod p04;
mod p05;
mod num;
mod p07;
mod arc;
mod bls;
mod lam;
mod bpl;
mod msh;
mod sta;
mod ser;
mod noise;
mod guid;
mod force;
mod gs;
mod mc;
mod msr;
mod od;
mod p08;
mod p19;

use std::io::Write;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let prop = a[1].clone();
    let scen = match get("--scen") {
        Some(p) => std::fs::read_to_string(p)
            .unwrap()
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| serde_json::from_str(l).unwrap())
            .collect(),
        None => vec![],
    };
    let ctx = Ctx {
        seed: get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        thorough: get("--tier").map(|t| t == "thorough").unwrap_or(false),
        scen,
        scratch: get("--scratch").unwrap_or("/tmp".into()).into(),
    };
    if prop == "world" {
        return world::selftest();
    }
    if std::env::var_os("SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let mut cases = match prop.as_str() {
        "P01" => p01::cases(&ctx),
        "P02" => p02::cases(&ctx),
        "P03" => p03::cases(&ctx),
        "P04" => p04::cases(&ctx),
        "P05" => p05::cases05(&ctx),
        "P06" => p05::cases06(&ctx),
        "P07" => p07::cases(&ctx),
        "P08" => p08::cases(&ctx),
        "P19" => p19::cases(&ctx),
        "P20" => bls::cases(&ctx),
        "P25" => lam::cases(&ctx),
        "P28" => bpl::cases(&ctx),
        "P30" => msh::cases(&ctx),
        "P29" => sta::cases(&ctx),
        "P22" => ser::cases(&ctx),
        "P26" => noise::cases(&ctx),
        "P27" => io::cases27(&ctx),
        "P23" => guid::cases(&ctx),
        "P24" => force::cases(&ctx),
        "P21" => msr::cases21(&ctx),
        "P09" => od::cases09(&ctx),
        "P10" => od::cases10(&ctx),
        "P11" => od::cases11(&ctx),
        "P12" => od::cases12(&ctx),
        "P13" => gs::cases13(&ctx),
        "P14" => gs::cases14(&ctx),
        "P15" => arc::cases15(&ctx),
        "P16" => arc::cases16(&ctx),
        "P17" => mc::cases17(&ctx),
        "P18" => mc::cases18(&ctx),
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    };
    if let Some(only) = get("--case") {
        cases.retain(|c| c.id == only);
    }
    let tmo = get("--timeout").map(|s| s.parse().unwrap()).unwrap_or(25);
    let evs = run_cases(cases, tmo);
    let mut w = std::io::BufWriter::new(std::fs::File::create(get("--out").unwrap()).unwrap());
    for e in evs {
        writeln!(w, "{e}").unwrap();
    }
    w.flush().unwrap();
    std::process::exit(0);
}
