//! Enumerates the executions of a list of scenarios and writes what was covered and found.
use crate::engine::js;
use mcrt::Budget;
use std::collections::HashSet;
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: String,
    pub what: String,
    pub budget: Budget,
    pub driver: Box<dyn Fn() + Sync + Send>,
}
impl Scenario {
    pub fn new(name: &str, what: String, budget: Budget, driver: impl Fn() + Sync + Send + 'static) -> Self {
        Scenario { name: name.into(), what, budget, driver: Box::new(driver) }
    }
}

/// Records are formatted and thrown away.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = format!("{} {}", r.target(), r.args());
    }
    fn flush(&self) {}
}
/// added to the name of a scenario whose executions are repeated with the library's log records received
const LOGGED: &str = "+log";

fn jl(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}


/// a: NAME PROPERTY quick|thorough OUT.json SECONDS [--only SCENARIO CHOICES]
pub fn run(a: &[String], sc: Vec<Scenario>, last: impl FnOnce() -> Vec<(String, Option<String>)>) -> ! {
    let (prop, out) = (a[1].clone(), a[3].clone());
    let secs: u64 = a[4].parse().unwrap();
    let sc: Vec<Scenario> = match std::env::var("MC_SCENARIOS") {
        // for development: only those whose names contain this
        Ok(x) => sc.into_iter().filter(|s| s.name.contains(&x)).collect(),
        Err(_) => sc,
    };
    mcrt::install_hook();
    let t0 = Instant::now();
    if a.len() > 7 && a[5] == "--only" {
        let s = sc.iter().find(|s| s.name == a[6].trim_end_matches(LOGGED)).expect("scenario");
        if a[6].ends_with(LOGGED) && log::set_logger(&Sink).is_ok() {
            log::set_max_level(log::LevelFilter::Trace);
        }
        let choices: Vec<u32> = a[7].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let o = mcrt::run_once(&choices, s.budget, true, Default::default(), &mut vec![], &*s.driver);
        for l in &o.trace {
            eprintln!("{l}");
        }
        for f in &o.fails {
            eprintln!("FAIL {f}");
        }
        std::process::exit(if o.fails.is_empty() { 0 } else { 1 });
    }
    let on_hang = |names: Vec<String>| {
        let (out, prop) = (out.clone(), prop.clone());
        *mcrt::ON_HANG.lock().unwrap() = Some(Box::new(move |i, p| {
            let name = names.get(i).cloned().unwrap_or_default();
            let _ = std::fs::write(
                &out,
                format!(
                    "{{\"property\":{},\"cases\":0,\"ops\":0,\"states\":0,\"spaces\":[],\"samples\":[],\"complete\":false,\"diverged\":[],\"fails\":[{{\"space\":{},\"index\":0,\"choices\":{},\"detail\":\"an execution does not terminate\"}}]}}",
                    js(&prop),
                    js(&name),
                    jl(p.iter().map(|x| x.to_string()))
                ),
            );
            std::process::exit(1);
        }));
    };
    on_hang(sc.iter().map(|s| s.name.clone()).collect());
    let list: Vec<(String, Budget)> = sc.iter().map(|s| (s.name.clone(), s.budget)).collect();
    let deadline = t0 + Duration::from_secs(secs);
    let mut reps = mcrt::explore(&list, &|i| (sc[i].driver)(), deadline, 50_000_000, 8);
    let mut which: Vec<(usize, String)> = sc.iter().enumerate().map(|(i, s)| (i, s.name.clone())).collect();
    // What the library logs is not evaluated unless somebody listens: the scenarios with little to schedule once more.
    // (For C18 a logger is there already.)
    if reps.iter().all(|r| r.fails.is_empty()) && log::set_logger(&Sink).is_ok() {
        let again: Vec<usize> = (0..sc.len()).filter(|i| sc[*i].budget.preemptions == 0 && reps[*i].executions <= if a[2] == "thorough" { 1_000_000 } else { 60_000 }).collect();
        let list: Vec<(String, Budget)> = again.iter().map(|i| (format!("{}{LOGGED}", sc[*i].name), sc[*i].budget)).collect();
        on_hang(list.iter().map(|x| x.0.clone()).collect());
        log::set_max_level(log::LevelFilter::Trace);
        reps.extend(mcrt::explore(&list, &|i| (sc[again[i]].driver)(), deadline, 50_000_000, 8));
        log::set_max_level(log::LevelFilter::Off);
        which.extend(again.iter().zip(list).map(|(i, l)| (*i, l.0)));
    }
    let mut all: HashSet<u64> = HashSet::new();
    let mut s = format!("{{\"property\":{},\"seconds\":{:.3},", js(&prop), t0.elapsed().as_secs_f64());
    let mut spaces = vec![];
    let mut fails = vec![];
    let mut samples = vec![];
    let mut div = vec![];
    let (mut ex, mut st) = (0, 0);
    let mut complete = true;
    for (k, r) in reps.iter().enumerate() {
        let (i, name) = (which[k].0, &which[k].1);
        ex += r.executions;
        st += r.steps;
        all.extend(r.states.iter().map(|x| x.wrapping_mul(i as u64 * 2 + 1)));
        complete &= r.complete && r.over == 0;
        spaces.push(format!(
            "{{\"name\":{},\"cases\":{},\"steps\":{},\"states\":{},\"preemption_bound\":{},\"select_bound\":{},\"longest_choice_sequence\":{},\"cut_off\":{},\"complete\":{},\"what\":{}}}",
            js(name),
            r.executions,
            r.steps,
            r.states.len(),
            sc[i].budget.preemptions,
            sc[i].budget.selects,
            r.max_choices,
            r.over,
            r.complete,
            js(&sc[i].what)
        ));
        for t in &r.samples {
            samples.push(js(&format!("{name}: {}", t.iter().take(25).cloned().collect::<Vec<_>>().join(" | "))));
        }
        for d in r.diverged.iter().take(3) {
            div.push(js(&format!("{name}: {d}")));
        }
        for (c, f, t) in r.fails.iter().take(4) {
            fails.push(format!("{{\"space\":{},\"index\":0,\"choices\":{},\"detail\":{},\"trace\":{}}}", js(name), jl(c.iter().map(|x| x.to_string())), js(f), jl(t.iter().map(|x| js(x)))));
        }
    }
    for (d, key) in last() {
        let key = key.map_or(String::new(), |k| format!(",\"key\":{}", js(&k)));
        fails.push(format!("{{\"space\":\"overall\",\"index\":0,\"choices\":[],\"detail\":{},\"trace\":[]{key}}}", js(&d)));
    }
    s.push_str(&format!("\"cases\":{ex},\"ops\":{st},\"states\":{},\"complete\":{complete},\"spaces\":[{}],\"samples\":[{}],\"diverged\":[{}],\"fails\":[{}]}}", all.len(), spaces.join(","), samples.join(","), div.join(","), fails.join(",")));
    std::fs::write(&out, s).expect("write the result file");
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
