#![allow(dead_code)]
#[path = "../../../codec/src/engine.rs"]
mod engine;
#[path = "../../../codec/src/model.rs"]
mod model;
#[path = "../../../codec/src/util.rs"]
mod util;
mod client;
mod leaks;
mod runner;
mod server;
mod world;
mod shows;
pub use runner::Scenario;
pub use shows::shows;

fn scenarios(prop: &str, t: bool) -> Vec<Scenario> {
    let mut v = server::scenarios(prop, t);
    v.extend(client::scenarios(prop, t));
    v
}
fn tags(prop: &str) -> Vec<&'static str> {
    let mut v = server::tags(prop).to_vec();
    v.extend(client::tags(prop));
    v
}

/// mc PROPERTY quick|thorough OUT.json SECONDS [--only SCENARIO CHOICES]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, thorough, out) = (a[1].clone(), a[2] == "thorough", format!("{}.output", a[3]));
    *world::TAGS.lock().unwrap() = tags(&prop);
    let leaks = prop == "C18" && leaks::install(&out);
    runner::run(&a, scenarios(&prop, thorough), || if leaks { leaks::output(&out).map(|d| (d, None)).into_iter().collect() } else { vec![] })
}
