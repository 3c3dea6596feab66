//! The library as it is shipped, on the real tokio runtime and real loopback sockets.
//! Replays every history (every client case) of a bounded space and compares what can be
//! observed with the model: the conformance part of the checks that use the simulated runtime.
//!
//! real PROPERTY quick|thorough OUT.json [--only SPACE INDEX]
#![allow(dead_code)]
#[path = "../../codec/src/engine.rs"]
mod engine;
mod client;
mod server;

use engine::{dump, Ctx};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, out) = (a[1].clone(), a[2] == "thorough", a[3].clone());
    engine::install_hook();
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let planned = i.payload().downcast_ref::<&str>().is_some_and(|s| *s == "the handler panicked" || *s == "the provider panicked");
        if !planned {
            def(i)
        }
    }));
    let t0 = std::time::Instant::now();
    let only = if a.len() > 6 { Some((a[5].clone(), a[6].parse().unwrap())) } else { None };
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(thorough, false, only)));
    {
        let (out, prop) = (out.clone(), prop.clone());
        ctx.watchdog(move |f| {
            dump(&out, &prop, "real", ctx, Some(f), t0.elapsed().as_secs_f64());
            std::process::exit(1);
        });
    }
    match prop.as_str() {
        "C20" | "C21" | "C22" | "C23" => {
            server::histories(ctx, &prop);
            if prop != "C23" {
                server::long(ctx, &prop);
                server::held(ctx, &prop);
            }
        }
        "C24" => server::buffers(ctx),
        "C25" | "C26" | "C27" => client::cases(ctx, &prop),
        "C28" => client::exchange(ctx),
        "C29" => server::listens(ctx),
        p => panic!("no such property {p}"),
    }
    dump(&out, &prop, "real", ctx, None, t0.elapsed().as_secs_f64());
    let n = ctx.fails.lock().unwrap().len();
    std::process::exit(if n > 0 { 1 } else { 0 });
}
