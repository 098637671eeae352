#![allow(clippy::all)]
#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c08;
mod c09;
mod c19;
mod c14;
mod c07;
mod c10;
mod c16;
mod c11;
mod c12;
mod c13;
mod c15;
mod c22;
#[cfg(feature = "tls")]
mod c23;
#[cfg(feature = "async_std")]
mod c24;
mod c25;
mod c17;
mod c21;
mod c18;
mod c20;
mod city;
mod codec;
mod drv;
mod hist;
mod kit;
mod lz4;
mod memmon;
mod model;
mod ops;
mod report;
mod rng;
mod run;
mod server;
#[cfg(miri)]
mod shim;

use report::Ctx;
use std::sync::Arc;

#[global_allocator]
static ALLOC: memmon::Mon = memmon::Mon;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let id = a.first().cloned().unwrap_or_default();
    if id == "--none" { println!("VP_NONE"); return; }
    let thorough = a.iter().any(|x| x == "thorough");
    let only = a.iter().position(|x| x == "--case").and_then(|i| a.get(i + 1)).and_then(|s| s.rsplit_once(':')).map(|(p, n)| (p.to_string(), n.parse().expect("case number")));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let dir = std::env::var("VP_DIR").unwrap_or("/verif".into());
    run::install_panic_hook();
    let ctx = Arc::new(Ctx::new(&id, thorough, seed, only, &dir));
    let f: fn(&Arc<Ctx>) = match id.as_str() {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C25" => c25::run,
        #[cfg(feature = "tls")]
        "C23" => c23::run,
        #[cfg(feature = "async_std")]
        "C24" => c24::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C06" => c06::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C19" => c19::run,
        "C14" => c14::run,
        "C07" => c07::run,
        "C10" => c10::run,
        "C16" => c16::run,
        "C11" => c11::run,
        "C12" => c12::run,
        "C13" => c13::run,
        "C15" => c15::run,
        "C22" => c22::run,
        "C17" => c17::run,
        "C21" => c21::run,
        "C18" => c18::run,
        "C20" => c20::run,
        _ => { eprintln!("unknown property {id}"); std::process::exit(2) }
    };
    f(&ctx);
    std::process::exit(ctx.finish());
}
