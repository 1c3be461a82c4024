use moledyn::prelude::*;
type R<T> = Result<T, Error>;
macro_rules! args { ($($m:ident, $S:ty, $A:ty;)*) => { $(pub mod $m { use super::*;
    pub fn from_vec(a: &[String]) -> R<$A> { <$S as Argument<$A>>::read_args_from_vec(a) }
    pub fn from_lines(l: &mut Lines<BufReader<File>>) -> R<$A> { <$S as Argument<$A>>::read_args_from_lines(l) }
    pub fn print(a: &$A, w: usize) -> String { a.print_configuration(w) }
    pub fn count() -> usize { <$S as Argument<$A>>::NUM_ARGS }
    pub fn equal(a: &$A, b: &$A) -> bool { a == b }
})* } }
args! {
    circ, ContCircSystem, ContCircSystemArguments;
    cubic, ContCubicSystem, ContCubicSystemArguments;
    cyl, ContCylindricalSystem, ContCylindricalSystemArguments;
    bulk, ContBulkTarget, ContBulkTargetArguments;
    exp, ContPassiveExpAgent, ContPassiveExpAgentArguments;
    merge, ContPassiveMergeAgent, ContPassiveMergeAgentArguments;
    lj, ContPassiveLJAgent, ContPassiveLJAgentArguments;
    indep, ContPassiveIndepAgent, ContPassiveIndepAgentArguments;
    cstep, ConstStep, ConstStepArguments;
    estep, ExponentialStep, ExponentialStepArguments;
    varsim, VariableSimulation, VariableSimulationArguments;
    parsim, ParVariableSimulation, ParVariableSimulationArguments;
    procsim, ProcessSimulation, ProcessSimulationArguments;
}
construct_dataset!(Ds, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [num_agent, usize, ptl_radius, f64, alpha, f64];
    ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
/// what the simulation-level reader produced
pub struct Read {
    pub sys: ContCylindricalSystemArguments, pub target: ContBulkTargetArguments, pub agent: ContPassiveMergeAgentArguments,
    pub time: ExponentialStepArguments, pub sim: VariableSimulationArguments, pub ds: Ds,
}
macro_rules! setups { ($($m:ident, $an:ty;)*) => { $(pub fn $m(args: &Vec<String>, out: &mut Option<Read>) -> R<()> {
    setup_simulation_fixed!(args, 15, 1, $an, "RTS", dataset, Ds, sys_arg, ContCylindricalSystem, target_arg, ContBulkTarget,
        agent_arg, ContPassiveMergeAgent, time_arg, ExponentialStep, sim_arg, VariableSimulation);
    *out = Some(Read { sys: sys_arg, target: target_arg, agent: agent_arg, time: time_arg, sim: sim_arg, ds: dataset });
    Ok(())
})* } }
setups! { setup_single, TimeAnalysis; setup_vector, TimeVecAnalysis; setup_process, ProcessAnalysis; }
pub fn ds_new(a: &ContCylindricalSystemArguments, b: &ContBulkTargetArguments, c: &ContPassiveMergeAgentArguments, d: &ExponentialStepArguments, e: &VariableSimulationArguments) -> Ds { Ds::new(a, b, c, d, e) }
pub fn ds_eq(a: &Ds, b: &Ds) -> bool { a == b }
macro_rules! descr { ($($m:ident, $T:ty;)*) => { $(pub mod $m { use super::*;
    pub fn show(x: &$T) -> String { format!("{}", x) }
    pub fn read(s: &str) -> R<$T> { s.parse() }
    pub fn round(x: &$T) -> R<$T> { show(x).parse() }
})* } }
descr! {
    d_sys, SystemType; d_bc, BoundaryCond; d_target, TargetType; d_agent, AgentType; d_move, MoveType;
    d_init, InitType<f64>; d_inter, InteractType; d_pos, Position<f64>; d_ipos, Position<i32>; d_time, TimeType;
}
pub fn ds_hash(a: &Ds) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut s = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut s);
    s.finish()
}
