//! `rand` as the library under test sees it: the generators that are seeded by the system
//! draw from a tape when the harness has put one up, and from the real generator otherwise.
pub use ::rand::*;
use ::rand::distributions::{Distribution, Standard};
use std::cell::RefCell;

/// The random octets of one run: `base` decides all of them, `over` some.
#[derive(Default, Clone)]
pub struct Tape {
    pub base: u8,
    pub over: Vec<(usize, u8)>,
    pub used: usize,
}
impl Tape {
    pub fn at(&self, i: usize) -> u8 {
        if let Some(x) = self.over.iter().find(|x| x.0 == i) {
            return x.1;
        }
        // rejection sampling has to end, whatever the base
        if i > 5000 {
            return (i.wrapping_mul(0x9E37_79B9) >> 11) as u8;
        }
        match self.base {
            0 => 0,
            1 => 0xff,
            b => (i as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_mul(b as u64) .rotate_left(b as u32) as u8,
        }
    }
}
thread_local! {
    static TAPE: RefCell<Option<Tape>> = const { RefCell::new(None) };
}
pub fn set_tape(t: Option<Tape>) -> Option<Tape> {
    TAPE.with(|x| std::mem::replace(&mut *x.borrow_mut(), t))
}
/// octets drawn so far
pub fn used() -> usize {
    TAPE.with(|x| x.borrow().as_ref().map_or(0, |t| t.used))
}
fn draw() -> u8 {
    TAPE.with(|x| {
        let mut g = x.borrow_mut();
        let t = g.as_mut().unwrap();
        t.used += 1;
        t.at(t.used - 1)
    })
}
fn on() -> bool {
    TAPE.with(|x| x.borrow().is_some())
}

#[derive(Clone, Debug, Default)]
pub struct McRng;
impl RngCore for McRng {
    fn next_u32(&mut self) -> u32 {
        if on() {
            let mut b = [0; 4];
            self.fill_bytes(&mut b);
            u32::from_le_bytes(b)
        } else {
            ::rand::thread_rng().next_u32()
        }
    }
    fn next_u64(&mut self) -> u64 {
        if on() {
            let mut b = [0; 8];
            self.fill_bytes(&mut b);
            u64::from_le_bytes(b)
        } else {
            ::rand::thread_rng().next_u64()
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if on() {
            for x in d {
                *x = draw();
            }
        } else {
            ::rand::thread_rng().fill_bytes(d)
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for McRng {}

pub fn thread_rng() -> McRng {
    McRng
}
pub fn random<T>() -> T
where
    Standard: Distribution<T>,
{
    McRng.gen()
}
pub mod rngs {
    pub use ::rand::rngs::*;
    pub use super::McRng as ThreadRng;
    pub use super::McRng as OsRng;
}
pub mod prelude {
    pub use ::rand::prelude::*;
    pub use super::{random, thread_rng};
    pub use super::McRng as ThreadRng;
}
