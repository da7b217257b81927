#![allow(dead_code)]
mod ctx;
#[cfg(feature = "r1cs")]
mod circ;
#[cfg(feature = "r1cs")]
mod rec;
#[cfg(feature = "gadgets")]
mod csolve;
#[cfg(feature = "gadgets")]
mod gadgets;
#[cfg(feature = "gadgets")]
mod hashes;
#[cfg(feature = "lc")]
mod r1cs;
mod engine;
#[cfg(feature = "asvc")]
mod asvc;
#[cfg(feature = "c25519")]
mod curve25519;
#[cfg(feature = "bp")]
mod bp;
#[cfg(feature = "marlin")]
mod marlin;
#[cfg(feature = "plonk")]
mod plonk;
#[cfg(feature = "groth16")]
mod groth16;
#[cfg(feature = "spartan")]
mod spartan;
#[cfg(any(feature = "libra", feature = "hyrax"))]
mod layered;
#[cfg(feature = "libra")]
mod libra;
#[cfg(feature = "hyrax")]
mod hyrax;
#[cfg(feature = "serial")]
mod serial;
#[cfg(feature = "fsall")]
mod digests;
#[cfg(feature = "layered")]
mod extend;
use ctx::Ctx;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let out = a[2].clone();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let secs: u64 = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 240 } else { 25 });
    vmodel::quiet_panics();
    let mut c = Ctx {
        prop: prop.clone(),
        seed,
        thorough,
        start: Instant::now(),
        budget: Duration::from_secs(secs),
        obls: Default::default(),
        viol: vec![],
        notes: vec![],
        paths: 0,
        conds: 0,
        samples: vec![],
        shape: String::new(),
        shapes: vec![],
        system: String::new(),
    };
    let r = vmodel::guarded(|| dispatch(&prop, &mut c));
    let mut j = c.json();
    match r {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("no check for {}", prop);
            std::process::exit(3)
        }
        Err(e) => {
            j["harness_panic"] = serde_json::json!(e);
        }
    }
    std::fs::write(&out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

fn dispatch(p: &str, c: &mut Ctx) -> bool {
    let _ = &c;
    match p {
        #[cfg(feature = "groth16")]
        "P11" => groth16::p11(c),
        #[cfg(feature = "groth16")]
        "P12" => groth16::p12(c),
        #[cfg(feature = "bp")]
        "P13" => bp::p13(c),
        #[cfg(feature = "bp")]
        "P14" => bp::p14(c),
        #[cfg(feature = "asvc")]
        "P24" => asvc::p24(c),
        #[cfg(feature = "c25519")]
        "P29" => curve25519::p29(c),
        #[cfg(feature = "spartan")]
        "P19" => spartan::p19(c),
        #[cfg(feature = "spartan")]
        "P20" => spartan::p20(c),
        #[cfg(feature = "libra")]
        "P21" => libra::p21(c),
        #[cfg(feature = "libra")]
        "P22" => libra::p22(c),
        #[cfg(feature = "hyrax")]
        "P23" => hyrax::p23(c),
        #[cfg(feature = "marlin")]
        "P15" => marlin::p15(c),
        #[cfg(feature = "marlin")]
        "P16" => marlin::p16(c),
        #[cfg(feature = "plonk")]
        "P17" => plonk::p17(c),
        #[cfg(feature = "plonk")]
        "P18" => plonk::p18(c),
        #[cfg(feature = "lc")]
        "P01" => r1cs::p01(c),
        #[cfg(feature = "lc")]
        "P02" => r1cs::p02(c),
        #[cfg(feature = "gadgets")]
        "P03" => gadgets::p03(c),
        #[cfg(feature = "gadgets")]
        "P04" => gadgets::p04(c),
        #[cfg(feature = "gadgets")]
        "P06" => gadgets::p06(c),
        #[cfg(feature = "gadgets")]
        "P08" => gadgets::p08(c),
        #[cfg(feature = "gadgets")]
        "P05" => hashes::p05(c),
        #[cfg(feature = "gadgets")]
        "P09" => hashes::p09(c),
        #[cfg(feature = "gadgets")]
        "P10" => hashes::p10(c),
        #[cfg(feature = "fsall")]
        "P26" => {
            let w = engine::Which { complete: false, sound: false, fs: true, hide: false };
            all(c, &w, true);
            digests::p26(c);
        }
        #[cfg(feature = "fsall")]
        "P27" => {
            let w = engine::Which { complete: false, sound: false, fs: false, hide: true };
            all(c, &w, false);
        }
        #[cfg(feature = "serial")]
        "P28" => serial::p28(c),
        #[cfg(feature = "layered")]
        "P25" => extend::p25(c),
        _ => return false,
    }
    true
}

/// every proof system in turn, each with a share of the time
#[cfg(feature = "fsall")]
fn all(c: &mut Ctx, w: &engine::Which, fs: bool) {
    let mut sys: Vec<(&str, fn(&mut Ctx, &engine::Which))> = vec![
        ("bulletproofs", bp::circuits),
        ("spartan nizk", spartan::nizk_runs),
        ("spartan snark", spartan::snark_runs),
        ("libra zk", libra::zk_runs),
        ("hyrax", hyrax::runs),
        ("marlin", marlin::runs),
        ("plonk", plonk::runs),
    ];
    if !fs {
        sys.push(("groth16", groth16::hide_runs));
    }
    if fs {
        sys.push(("inner product", bp::ipp_runs));
        sys.push(("libra linear", libra::gkr_runs));
    }
    let total = c.budget;
    let n = sys.len() as u32;
    for (k, (name, f)) in sys.iter().enumerate() {
        c.system = name.to_string();
        c.budget = total * (k as u32 + 1) / n;
        f(c, w);
    }
}
