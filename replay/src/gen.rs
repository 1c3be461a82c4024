//! Inputs: a seeded generator that mixes ordinary, exactly representable,
//! extreme and solver-suggested values, and records what it produced.
use moledyn::prelude::*;
use rand::RngCore;
use std::fmt::Debug;

// a case touched a field that the structures' Debug output no longer shows
thread_local!(pub static UNOBSERVED: std::cell::Cell<bool> = std::cell::Cell::new(false));

pub type Res = Result<(), String>;

pub struct Gen {
    s: u64,
    pub pool: &'static [f64],
    pub log: Vec<String>,
    pub trivial: bool,
}

impl Gen {
    pub fn new(seed: u64, case: u64, pool: &'static [f64]) -> Gen {
        let mut g = Gen { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x5851F42D4C957F2D, pool, log: vec![], trivial: false };
        for _ in 0..4 { g.u64(); }
        g
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % (n as u64)) as usize }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.below(xs.len()); xs[i].clone() }
    /// small dyadic number: sums of squares of a few of them are exact
    pub fn dyadic(&mut self) -> f64 { self.range(-64, 64) as f64 / 16.0 }
    /// finite number
    pub fn f(&mut self) -> f64 {
        match self.below(20) {
            0..=6 => 6.0 * self.unit() - 3.0,
            7..=10 => self.dyadic(),
            11 | 12 => self.pick(&[0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 4.0, -3.0, 5.0, 10.0, -10.0, 100.0, 1e-3, -1e-3, 1e-9]),
            13 | 14 => {
                let e = self.range(-8, 8) as i32;
                let s = if self.u64() & 1 == 0 { 1.0 } else { -1.0 };
                s * self.unit() * 10f64.powi(e)
            }
            15..=17 if !self.pool.is_empty() => { let p = self.pool; self.pick(p) }
            _ => 20.0 * self.unit() - 10.0,
        }
    }
    /// any f64 at all
    pub fn any(&mut self) -> f64 {
        match self.below(10) {
            0..=4 => self.f(),
            5 | 6 => self.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 1e308, -1e308, 1e154, 1e155, 1e200, -1e200, 1e-200]),
            7 => f64::from_bits(self.u64()),
            8 => { let e = self.range(-320, 308) as i32; self.unit() * 10f64.powi(e) }
            _ => self.dyadic(),
        }
    }
    pub fn positive(&mut self) -> f64 {
        loop { let x = self.f().abs(); if x > 0.0 { return x; } }
    }
    pub fn positive_any(&mut self) -> f64 {
        loop { let x = self.any().abs(); if x > 0.0 && x.is_finite() { return x; } }
    }
    /// usually one, otherwise a power of ten
    pub fn scale(&mut self, p: f64, e: i64) -> f64 { if self.chance(p) { 10f64.powi(self.range(-e, e) as i32) } else { 1.0 } }
    pub fn dim(&mut self) -> usize { self.pick(&[1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6]) }
    pub fn vec(&mut self, n: usize) -> Vec<f64> {
        match self.below(4) {
            0 => (0..n).map(|_| self.dyadic()).collect(),
            _ => (0..n).map(|_| self.f()).collect(),
        }
    }
    pub fn rng(&mut self) -> Pcg64 {
        let s = (self.u64() as u128) | if self.chance(0.3) { (self.u64() as u128) << 64 } else { 0 };
        let s = if self.chance(0.5) { s % 1000 } else { s };
        self.note("seed", &s);
        moledyn::random_mod::rng_seed(s)
    }
    pub fn note<T: Debug>(&mut self, name: &str, v: &T) {
        self.log.push(format!("{} = {:?}", name, v));
    }
}

/// state of a generator, observed through what it would produce next
pub fn rng_state(r: &Pcg64) -> [u64; 3] {
    let mut c = r.clone();
    [c.next_u64(), c.next_u64(), c.next_u64()]
}

pub fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (a.abs().max(b.abs()).max(scale.abs())) || (a.is_nan() && b.is_nan())
}
pub fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// runs a closure that may panic
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
pub fn is_code(e: &Error, code: ErrorCode) -> bool { format!("{}", e) == format!("{}", code) }
