use moledyn::prelude::*;
type P = Position<f64>;
type R<T> = Result<T, Error>;
macro_rules! sys_entries { ($m:ident, $S:ty) => { pub mod $m { use super::*;
    pub fn check_inclusion(s: &$S, p: &P) -> R<bool> { s.check_inclusion(p) }
    pub fn check_bc(s: &$S, p: &mut P, d: &mut P) -> R<()> { s.check_bc(p, d) }
    pub fn random_pos(s: &$S, r: &mut Pcg64) -> R<P> { s.random_pos(r) }
    pub fn random_pos_to_vec(s: &$S, r: &mut Pcg64, v: &mut P) -> R<()> { s.random_pos_to_vec(r, v) }
    pub fn out_of_system(s: &$S) -> P { s.position_out_of_system() }
    pub fn out_of_system_to_vec(s: &$S, v: &mut P) -> R<()> { s.position_out_of_system_to_vec(v) }
} } }
sys_entries!(circ, ContCircSystem);
sys_entries!(cubic, ContCubicSystem);
sys_entries!(cyl, ContCylindricalSystem);
pub fn circ_bc_exact(s: ContCircSystem, p: &mut P, d: &mut P) -> R<()> { moledyn::system_mod::cont_circ::check_bc_exact(s, p, d) }
pub fn circ_bc_first(s: ContCircSystem, p: &mut P, d: &mut P) -> R<()> { moledyn::system_mod::cont_circ::check_bc_first_order(s, p, d) }
