use moledyn::prelude::*;
use moledyn::analysis::*;
use std::io::Write;
type R<T> = Result<T, Error>;
/// a writer that keeps what is written
pub struct Sink { pub text: String }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
macro_rules! bins { ($m:ident, $S:ty) => { pub mod $m { use super::*;
    pub fn from_bin_size(s: &mut $S, lo: f64, hi: f64, b: f64, l: f64) -> R<()> { s.update_from_bin_size(lo, hi, b, l) }
    pub fn from_num_bin(s: &mut $S, lo: f64, hi: f64, n: usize) -> R<()> { s.update_from_num_bin(lo, hi, n) }
    pub fn convert(lo: f64, hi: f64, n: usize) -> R<(f64, f64)> { <$S>::convert_num_bin_to_bin_size(lo, hi, n) }
    pub fn bin_pos(s: &$S, t: f64) -> Option<usize> { s.bin_pos(t) }
    pub fn lbin_pos(s: &$S, t: f64) -> Option<usize> { s.lbin_pos(t) }
    pub fn allocate(s: &mut $S) { s.allocate_vectors() }
    pub fn default() -> $S { <$S>::default() }
    pub fn clear(s: &mut $S) { s.clear() }
    pub fn draw(s: &mut $S) { s.draw() }
    pub fn export_mean_stddev(s: &$S, p: usize) -> R<String> { s.export_mean_stddev(p) }
    pub fn export_distribution(s: &$S, p: usize, w: &mut Sink) -> R<()> { s.export_distribution(p, w) }
    pub fn export_log(s: &$S, p: usize, w: &mut Sink) -> R<()> { s.export_log_scaled_distribution(p, w) }
} } }
bins!(single, TimeAnalysis);
bins!(vector, TimeVecAnalysis);
bins!(process, ProcessAnalysis);
pub fn add_single(s: &mut TimeAnalysis, x: f64) { s.add_ensemble(x) }
pub fn add_vector(s: &mut TimeVecAnalysis, x: Vec<f64>) { s.add_ensemble(x) }
pub fn add_ensemble(s: &mut ProcessAnalysis) { s.add_ensemble() }
pub fn add_pair(s: &mut ProcessAnalysis, p: Pair<f64>) { s.add_pair(p) }
