use moledyn::prelude::*;
use moledyn::random_mod::*;
use moledyn::error::Category;
type P = Position<f64>;
pub fn rng_seed(s: u128) -> Pcg64 { moledyn::random_mod::rng_seed(s) }
pub fn uniform(g: &mut Pcg64) -> f64 { get_uniform(g) }
pub fn uniform_vec(g: &mut Pcg64, n: usize) -> P { get_uniform_vec(g, n) }
pub fn uniform_to_vec(g: &mut Pcg64, v: &mut P) { get_uniform_to_vec(g, v) }
pub fn uniform_to_vec_ns(g: &mut Pcg64, v: &mut P, a: f64, b: f64) { get_uniform_to_vec_nonstandard(g, v, a, b) }
pub fn gaussian(g: &mut Pcg64) -> f64 { get_gaussian(g) }
pub fn gaussian_vec(g: &mut Pcg64, n: usize) -> P { get_gaussian_vec(g, n) }
pub fn gaussian_to_vec(g: &mut Pcg64, v: &mut P) { get_gaussian_to_vec(g, v) }
pub fn gaussian_to_vec_ns(g: &mut Pcg64, v: &mut P, a: f64, b: f64) { get_gaussian_to_vec_nonstandard(g, v, a, b) }
pub fn err_msg(m: String) -> Error { Error::make_error_msg(m) }
pub fn err_syntax(c: ErrorCode) -> Error { Error::make_error_syntax(c) }
pub fn err_io(e: std::io::Error) -> Error { Error::make_error_io(e) }
pub fn err_classify(e: &Error) -> Category { e.classify() }
pub fn err_is_io(e: &Error) -> bool { e.is_io() }
pub fn err_is_data(e: &Error) -> bool { e.is_data() }
pub fn err_is_syntax(e: &Error) -> bool { e.is_syntax() }
pub fn err_eq(a: &Error, b: &Error) -> bool { a == b }
pub fn err_ne(a: &Error, b: &Error) -> bool { a != b }
pub fn circ_new(r: f64, n: usize) -> ContCircSystem { ContCircSystem::new(r, n) }
pub fn cubic_new(b: BoundaryCond, l: f64, n: usize) -> ContCubicSystem { ContCubicSystem::new(b, l, n) }
pub fn cyl_new(d: usize, r: f64, l: f64, n: usize) -> ContCylindricalSystem { ContCylindricalSystem::new(d, r, l, n) }
pub fn circ_from(a: &ContCircSystemArguments) -> ContCircSystem { ContCircSystem::convert_from(a) }
pub fn cubic_from(a: &ContCubicSystemArguments) -> ContCubicSystem { ContCubicSystem::convert_from(a) }
pub fn cyl_from(a: &ContCylindricalSystemArguments) -> ContCylindricalSystem { ContCylindricalSystem::convert_from(a) }
pub fn bulk_new(p: P, r: f64) -> ContBulkTarget { ContBulkTarget::new(p, r) }
pub fn bulk_from(a: &ContBulkTargetArguments) -> ContBulkTarget { ContBulkTarget::convert_from(a) }
