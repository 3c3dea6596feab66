//! Log records, panic messages and output of the library, searched for the shared secrets.
use crate::world::{report, Sec, World, SECRET};
use std::os::fd::AsRawFd;

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

fn secrets() -> Vec<Vec<u8>> {
    let mut v = vec![SECRET.to_vec()];
    if mcrt::active() {
        if let Some(w) = mcrt::ext::<World>() {
            // the caller may hold the lock: then the fixed secrets have to do
            if let Ok(s) = w.s.try_lock() {
                for x in s.secrets.iter().map(|x| &x.1).chain(s.default_secret.iter()) {
                    if let Sec::Is(b) = x {
                        v.push(b.clone());
                    }
                }
            }
        }
    }
    v
}
fn look(what: &str, text: &str) {
    if mcrt::active() && secrets().iter().any(|s| crate::shows(text, s)) {
        report("secret", || format!("{what} shows the secret: {text}"));
    }
}
struct Cap;
impl log::Log for Cap {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        look("a log record", &format!("{} {}", r.target(), r.args()));
    }
    fn flush(&self) {}
}
pub fn install(path: &str) -> bool {
    let _ = log::set_logger(&Cap);
    log::set_max_level(log::LevelFilter::Trace);
    let _ = mcrt::ON_PANIC.set(|s| look("a panic message", s));
    let Ok(f) = std::fs::File::create(path) else { return false };
    unsafe {
        dup2(f.as_raw_fd(), 1);
        dup2(f.as_raw_fd(), 2);
    }
    true
}
/// what went to standard output and standard error
pub fn output(path: &str) -> Option<String> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let t = String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).to_string();
    let _ = std::fs::remove_file(path);
    let fixed: [&[u8]; 2] = [SECRET, b"some other secret"];
    for l in t.lines() {
        if fixed.iter().any(|s| crate::shows(l, s)) {
            return Some(format!("the output shows the secret: {l}"));
        }
    }
    None
}
