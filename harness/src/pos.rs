use moledyn::prelude::*;
use std::ops::{Add, Sub};
macro_rules! pos_entries { ($m:ident, $T:ty) => { pub mod $m { use super::*;
    type P = Position<$T>;
    pub fn add(a: &P, b: &P) -> P { a + b }
    pub fn sub(a: &P, b: &P) -> P { a - b }
    pub fn add_mut(a: &mut P, b: &mut P) -> P { Add::add(a, b) }
    pub fn sub_mut(a: &mut P, b: &mut P) -> P { Sub::sub(a, b) }
    pub fn scalar_mul(a: &P, s: $T) -> P { a.scalar_mul(s) }
    pub fn mut_scalar_mul(a: &mut P, s: $T) { a.mut_scalar_mul(s) }
    pub fn mut_add(a: &mut P, b: &P) { a.mut_add(b) }
    pub fn mut_sub(a: &mut P, b: &P) { a.mut_sub(b) }
    pub fn norm(a: &P) -> f64 { a.norm() }
    pub fn distance(a: &P, b: &P) -> Result<f64, Error> { a.distance(b) }
    pub fn clear(a: &mut P) { a.clear() }
    pub fn dim(a: &P) -> usize { a.dim() }
} } }
pos_entries!(f, f64);
pos_entries!(i, i32);
pub fn inner_product(a: &Position<f64>, b: &Position<f64>) -> Result<f64, Error> { a.inner_product(b) }
pub fn taxi_distance(a: &Position<i32>, b: &Position<i32>) -> Result<i32, Error> { a.taxi_distance(b) }
pub fn bulk_distance(t: &ContBulkTarget, p: &Position<f64>) -> Result<f64, Error> { t.distance(p) }
pub fn bulk_check_find(t: &ContBulkTarget, p: &Position<f64>) -> Result<bool, Error> { t.check_find(p) }
