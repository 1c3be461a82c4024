use moledyn::prelude::*;
type P = Position<f64>;
type R<T> = Result<T, Error>;
macro_rules! agent_entries { ($m:ident, $A:ty) => { pub mod $m { use super::*;
    pub fn mutual_displacement(a: &$A, b: &$A) -> R<(P, f64)> { a.mutual_displacement(b) }
    pub fn mutual_displacement_to_vec(a: &$A, b: &$A, v: &mut P) -> R<f64> { a.mutual_displacement_to_vec(b, v) }
    pub fn mutual_distance(a: &$A, b: &$A) -> R<f64> { a.mutual_distance(b) }
    pub fn random_move(a: &$A, g: &mut Pcg64, dt: f64) -> R<P> { a.random_move(g, dt) }
    pub fn random_move_to_vec(a: &$A, g: &mut Pcg64, dt: f64, v: &mut P) -> R<()> { a.random_move_to_vec(g, dt, v) }
    pub fn renew_uniform(a: &mut $A, s: &dyn SystemCore<f64>, t: &dyn TargetCore<f64>, g: &mut Pcg64) -> R<()> { a.renew_uniform(s, t, g) }
} } }
agent_entries!(indep, ContPassiveIndepAgent);
agent_entries!(merge, ContPassiveMergeAgent);
agent_entries!(exp, ContPassiveExpAgent);
agent_entries!(lj, ContPassiveLJAgent);
type S<'a> = &'a dyn SystemCore<f64>;
type T<'a> = &'a dyn TargetCore<f64>;
pub fn indep_new(m: MoveType, p: P) -> ContPassiveIndepAgent { ContPassiveIndepAgent::new(m, p) }
pub fn merge_new(m: MoveType, p: P, r: f64, al: f64) -> ContPassiveMergeAgent { ContPassiveMergeAgent::new(m, p, r, al) }
pub fn exp_new(i: InteractType, m: MoveType, p: P, st: f64) -> ContPassiveExpAgent { ContPassiveExpAgent::new(i, m, p, st) }
pub fn lj_new(i: InteractType, m: MoveType, p: P, st: f64) -> ContPassiveLJAgent { ContPassiveLJAgent::new(i, m, p, st) }
pub fn indep_new_uniform(s: S, t: T, g: &mut Pcg64, m: MoveType) -> R<ContPassiveIndepAgent> { ContPassiveIndepAgent::new_uniform(s, t, g, m) }
pub fn merge_new_uniform(s: S, t: T, g: &mut Pcg64, m: MoveType, r: f64, al: f64) -> R<ContPassiveMergeAgent> { ContPassiveMergeAgent::new_uniform(s, t, g, m, r, al) }
pub fn exp_new_uniform(s: S, t: T, g: &mut Pcg64, i: InteractType, m: MoveType, st: f64) -> R<ContPassiveExpAgent> { ContPassiveExpAgent::new_uniform(s, t, g, i, m, st) }
pub fn lj_new_uniform(s: S, t: T, g: &mut Pcg64, i: InteractType, m: MoveType, st: f64) -> R<ContPassiveLJAgent> { ContPassiveLJAgent::new_uniform(s, t, g, i, m, st) }
pub fn indep_from(a: &ContPassiveIndepAgentArguments) -> Vec<ContPassiveIndepAgent> { ContPassiveIndepAgent::convert_from(a) }
pub fn merge_from(a: &ContPassiveMergeAgentArguments) -> Vec<ContPassiveMergeAgent> { ContPassiveMergeAgent::convert_from(a) }
pub fn exp_from(a: &ContPassiveExpAgentArguments) -> Vec<ContPassiveExpAgent> { ContPassiveExpAgent::convert_from(a) }
pub fn lj_from(a: &ContPassiveLJAgentArguments) -> Vec<ContPassiveLJAgent> { ContPassiveLJAgent::convert_from(a) }
pub fn exp_potential(a: &ContPassiveExpAgent, r: f64) -> f64 { a.potential(r) }
pub fn exp_force(a: &ContPassiveExpAgent, r: f64) -> f64 { a.force(r) }
pub fn lj_potential(a: &ContPassiveLJAgent, r: f64) -> f64 { a.potential(r) }
pub fn lj_force(a: &ContPassiveLJAgent, r: f64) -> f64 { a.force(r) }
pub fn merge_merge(a: &mut ContPassiveMergeAgent, b: &ContPassiveMergeAgent) -> R<()> { a.merge(b) }
pub fn merge_add_size(a: &mut ContPassiveMergeAgent, n: usize) -> R<()> { a.add_size(n) }
pub fn merge_size(a: &ContPassiveMergeAgent) -> usize { a.size() }
