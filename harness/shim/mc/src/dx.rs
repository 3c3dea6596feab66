//! Second model-checking binary: what needs the dictionary accessors or the random tape.
//! dx C28 quick|thorough OUT.json SECONDS [--only SCENARIO CHOICES]
//! dx C07|C17 quick|thorough OUT.json SECONDS [--only SPACE INDEX]
#![allow(dead_code)]
#[macro_use]
#[path = "../../../codec/src/dict.rs"]
mod dict;
#[path = "../../../codec/src/dict_gen.rs"]
mod dict_gen;
#[path = "../../../codec/src/engine.rs"]
mod engine;
#[path = "../../../codec/src/model.rs"]
mod model;
#[path = "../../../codec/src/util.rs"]
mod util;
mod exchange;
mod runner;
mod tape;

use engine::{dump, Ctx};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, out) = (a[1].clone(), a[2] == "thorough", a[3].clone());
    if prop == "C28" {
        let replay = a.len() > 5;
        runner::run(&a, exchange::scenarios(thorough), move || if replay { vec![] } else { exchange::findings() });
    }
    engine::install_hook();
    let t0 = std::time::Instant::now();
    let only = if a.len() > 7 { Some((a[6].clone(), a[7].parse().unwrap())) } else { None };
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(thorough, false, only)));
    {
        let (out, prop) = (out.clone(), prop.clone());
        ctx.watchdog(move |f| {
            dump(&out, &prop, "tape", ctx, Some(f), t0.elapsed().as_secs_f64());
            std::process::exit(1);
        });
    }
    match prop.as_str() {
        "C07" => tape::c07(ctx),
        "C17" => tape::c17(ctx),
        p => panic!("no such property {p}"),
    }
    dump(&out, &prop, "tape", ctx, None, t0.elapsed().as_secs_f64());
    let n = ctx.fails.lock().unwrap().len();
    std::process::exit(if n > 0 { 1 } else { 0 });
}
