use moledyn::prelude::*;
use moledyn::time_mod::*;
type R<T> = Result<T, Error>;
macro_rules! time_entries { ($m:ident, $S:ty, $A:ty) => { pub mod $m { use super::*;
    pub fn current_time(s: &$S) -> f64 { s.current_time() }
    pub fn dt(s: &$S) -> f64 { s.dt() }
    pub fn renew(s: &mut $S) { s.renew() }
    pub fn set_tmax(s: &mut $S, t: f64) -> R<()> { s.set_tmax(t) }
    pub fn next(s: &mut $S) -> Option<f64> { s.next() }
    pub fn into_diff(s: &$S) -> TimeDiffIterator<$S> { s.into_diff() }
    pub fn diff_next(s: &mut TimeDiffIterator<$S>) -> Option<(f64, f64)> { s.next() }
    pub fn convert_from(a: &$A) -> $S { <$S>::convert_from(a) }
} } }
time_entries!(constant, ConstStep, ConstStepArguments);
time_entries!(exponential, ExponentialStep, ExponentialStepArguments);
pub fn const_new(d: f64) -> R<ConstStep> { ConstStep::new(d) }
pub fn exp_new(a: f64, b: f64, n: usize) -> R<ExponentialStep> { ExponentialStep::new(a, b, n) }
pub fn exp_set_inc(s: &mut ExponentialStep, x: f64) -> R<()> { s.set_inc(x) }
