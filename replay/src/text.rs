//! Data set identity, text forms of types, headers and argument vectors.
use crate::check;
use crate::gen::*;
use moledyn::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;

construct_dataset!(Ds, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveMergeAgent, agent_arg, ContPassiveMergeAgentArguments, [num_agent, usize, ptl_radius, f64, alpha, f64];
    ExponentialStep, time_arg, ExponentialStepArguments, [dt_min, f64, dt_max, f64, length, usize];
    {VariableSimulation, sim_arg, VariableSimulationArguments, [idx_set, usize]});
construct_dataset!(Dp, ContCylindricalSystem, sys_arg, ContCylindricalSystemArguments, [sys_radius, f64, sys_length, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveLJAgent, agent_arg, ContPassiveLJAgentArguments, [ptl_size, f64, strength, f64, num_agent, usize];
    ConstStep, time_arg, ConstStepArguments, [dt, f64]);
construct_dataset!(Dq, ContCircSystem, sys_arg, ContCircSystemArguments, [sys_size, f64, dim, usize];
    ContBulkTarget, target_arg, ContBulkTargetArguments, [target_size, f64];
    ContPassiveIndepAgent, agent_arg, ContPassiveIndepAgentArguments, [num_agent, usize]);

fn hash<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }

fn related(g: &mut Gen, x: f64) -> f64 {
    match g.below(12) {
        0 => -x, 1 => f64::from_bits(x.to_bits() ^ 1), 2 => x + 1.0, 3 => x * (1.0 + 1e-9), 4 => f64::from_bits(x.to_bits() ^ (1 << g.below(64))), 5 => x.trunc(), 6 => 1.0 / x,
        7 => x + 0.25, 8 => x * 1e-3, _ => g.any(),
    }
}
fn related_u(g: &mut Gen, x: usize) -> usize {
    match g.below(7) { 0 => x.wrapping_add(1), 1 => x ^ 1, 2 => x ^ (1 << g.below(64)), 3 => x.wrapping_add(1 << 53), 4 => x.wrapping_add(1 << 32), 5 => x.wrapping_sub(1), _ => g.u64() as usize }
}
fn count(g: &mut Gen) -> usize {
    match g.below(6) { 0 => 0, 1 => g.u64() as usize, 2 => (1usize << 53) + g.below(4), 3 => (1usize << 32) - 2 + g.below(4), _ => g.below(30) }
}

pub fn c22(g: &mut Gen) -> Res {
    if g.chance(0.002) {
        // parameters with the same hash under rustc's SipHash
        let mk = |n: usize| Dq { sys_size: 10.0, dim: 2, target_size: 1.0, num_agent: n };
        let (a, b) = (mk(6594712596365172885), mk(16929808989454167855));
        g.note("data sets", &(a, b));
        check!(a != b && b != a, "data sets compare equal although their parameters are different");
        return Ok(());
    }
    let mut f = [0.0; 6];
    for x in f.iter_mut() { *x = loop { let v = g.any(); if !v.is_nan() { break v; } }; }
    let u = [count(g), count(g), count(g), count(g)];
    let (mut f2, mut u2) = (f, u);
    let n = g.below(3);
    for _ in 0..n {
        if g.chance(0.6) { let i = g.below(6); let v = related(g, f[i]); f2[i] = if v.is_nan() { f[i] } else { v }; }
        else { let i = g.below(4); u2[i] = related_u(g, u[i]); }
    }
    if g.chance(0.1) { f2.swap(0, 1); }
    if g.chance(0.1) { f2.swap(4, 5); }
    if g.chance(0.1) { u2.swap(0, 1); }
    let swap3 = g.chance(0.3);
    g.note("reals", &(f, f2)); g.note("counts", &(u, u2));
    let mk = |f: &[f64; 6], u: &[usize; 4]| Ds { sys_size: f[0], dim: u[0], target_size: f[1], num_agent: u[1], ptl_radius: f[2], alpha: f[3], dt_min: f[4], dt_max: f[5], length: u[2], idx_set: u[3] };
    let mp = |f: &[f64; 6], u: &[usize; 4]| Dp { sys_radius: f[0], sys_length: f[1], dim: u[0], target_size: f[2], ptl_size: f[3], strength: f[4], num_agent: u[1], dt: f[5] };
    if swap3 {
        let (a, b) = (mp(&f, &u), mp(&f2, &u2));
        let want = f == f2 && u[..2] == u2[..2];
        check!((a == b) == want && (b == a) == want, "data sets compare {} although their parameters are {}", if a == b { "equal" } else { "different" }, if want { "equal" } else { "different" });
        check!(a == a, "a data set differs from itself");
        check!(!want || hash(&a) == hash(&b), "equal data sets hash differently");
        return Ok(());
    }
    let (a, b) = (mk(&f, &u), mk(&f2, &u2));
    let want = f == f2 && u[..3] == u2[..3];
    check!((a == b) == want && (b == a) == want, "data sets compare {} although their parameters are {}", if a == b { "equal" } else { "different" }, if want { "equal" } else { "different" });
    check!(a == a, "a data set differs from itself");
    check!(!want || hash(&a) == hash(&b), "equal data sets hash differently");
    // constructed from argument structures
    let pos = Position::new(vec![0.0]);
    let (s, t) = (ContCircSystemArguments::new(f[0], u[0]), ContBulkTargetArguments::new(pos, f[1]));
    let ag = ContPassiveMergeAgentArguments::new(MoveType::Levy, InitType::Uniform, f[2], f[3], u[1]);
    let ti = ExponentialStepArguments::new(f[4], f[5], u[2], 1.0);
    let si = VariableSimulationArguments::new(3, u[3], 7, "d".to_string());
    let c = Ds::new(&s, &t, &ag, &ti, &si);
    let got = ([c.sys_size, c.target_size, c.ptl_radius, c.alpha, c.dt_min, c.dt_max], [c.dim, c.num_agent, c.length, c.idx_set]);
    check!(got == (f, u), "a data set made from arguments carries {:?}", got);
    check!(c == a && hash(&c) == hash(&a), "data set from arguments differs from the same data set");
    Ok(())
}

// ---------------------------------------------------------------- types
fn systype(g: &mut Gen) -> SystemType {
    match g.below(5) { 0 => SystemType::ContinuousCircular, 1 => SystemType::ContinuousRectangular, 2 => SystemType::Lattice, 3 => SystemType::Network, _ => SystemType::ContinuousCylindrical(count(g)) }
}
fn bc(g: &mut Gen) -> BoundaryCond { match g.below(3) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(count(g)) } }
fn mtype(g: &mut Gen) -> MoveType { if g.chance(0.2) { MoveType::Levy } else { MoveType::Brownian(anynum(g)) } }
fn itype(g: &mut Gen) -> InitType<f64> { if g.chance(0.3) { InitType::Uniform } else { InitType::SpecificPosition(pos(g)) } }
fn inter(g: &mut Gen) -> InteractType {
    match g.below(5) { 0 => InteractType::Coulomb2D, 1 => InteractType::Coulomb3D, 2 => InteractType::LennardJones(anynum(g)), _ => InteractType::Exponential(count(g), anynum(g)) }
}
fn anynum(g: &mut Gen) -> f64 { loop { let x = g.any(); if !x.is_nan() { return x; } } }
fn pos(g: &mut Gen) -> Position<f64> {
    let n = g.pick(&[1usize, 1, 2, 2, 3, 4, 6]);
    Position::new((0..n).map(|_| anynum(g)).collect())
}
const AGENTS: [AgentType; 12] = [AgentType::ContinuousPassiveIndependent, AgentType::ContinuousPassiveInteracting, AgentType::ContinuousActiveIndependent, AgentType::ContinuousActiveInteracting,
    AgentType::LatticePassiveIndependent, AgentType::LatticePassiveInteracting, AgentType::LatticeActiveIndependent, AgentType::LatticeActiveInteracting,
    AgentType::NetworkPassiveIndependent, AgentType::NetworkPassiveInteracting, AgentType::NetworkActiveIndependent, AgentType::NetworkActiveInteracting];
const TARGETS: [TargetType; 5] = [TargetType::ContinuousInBulk, TargetType::ContinuousAtBoundary, TargetType::LatticeInBulk, TargetType::LatticeAtBoundary, TargetType::NetworkSingleNode];

fn round<T: Display + FromStr + PartialEq + Debug>(v: T) -> Res where T::Err: Debug {
    let s = format!("{}", v);
    match caught(|| s.parse::<T>()) {
        Ok(Ok(w)) => { check!(w == v, "{:?} is written as {:?} and read back as {:?}", v, s, w); Ok(()) }
        Ok(Err(e)) => Err(format!("{:?} is written as {:?}, which is rejected: {:?}", v, s, e)),
        Err(p) => Err(format!("{:?} is written as {:?}, reading it panics: {}", v, s, p)),
    }
}
fn reads<T: FromStr + PartialEq + Debug>(s: &str, want: Option<T>) -> Res where T::Err: Debug {
    match (caught(|| s.parse::<T>().ok()), want) {
        (Err(p), _) => Err(format!("reading {:?} panics: {}", s, p)),
        (Ok(a), b) => { check!(a == b, "{:?} is read as {:?} instead of {:?}", s, a, b); Ok(()) }
    }
}
/// a word that is neither a number nor a keyword
fn junk(g: &mut Gen) -> String { g.pick(&["", "x", "1x", "--1", "1..", "ñ", "1e", "1,", "0x1", "one", "+-3", "1_0", "é..", "\u{1F600}"]).to_string() }

pub fn c23(g: &mut Gen) -> Res {
    let w = g.below(22);
    g.note("kind", &w);
    match w {
        0 => round(systype(g)), 1 => round(bc(g)), 2 => round(g.pick(&TARGETS)), 3 => round(g.pick(&AGENTS)), 4 => round(mtype(g)), 5 => round(itype(g)), 6 | 7 => round(inter(g)),
        8 => round(pos(g)),
        9 => { let n = 1 + g.below(4); round(Position::new((0..n).map(|_| g.u64() as i32).collect::<Vec<i32>>())) }
        // short forms
        10 => { let n = count(g); let z = n == 0;
            reads(&n.to_string(), if z { None } else { Some(SystemType::ContinuousCylindrical(n)) })?;
            reads(&n.to_string(), if z { None } else { Some(BoundaryCond::Mixed(n)) })?;
            reads("Reflective", Some(BoundaryCond::Reflection))?; reads("Periodic", Some(BoundaryCond::Periodic))?;
            reads("Circular", Some(SystemType::ContinuousCircular))?; reads("Rectangular", Some(SystemType::ContinuousRectangular)) }
        11 => { let x = anynum(g); reads(&x.to_string(), Some(MoveType::Brownian(x)))?; reads("Levy", Some(MoveType::Levy)) }
        12 => { let p = pos(g); let sep = g.pick(&[",", ":"]); let s = p.coordinate.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep);
            reads(&s, Some(InitType::SpecificPosition(p.clone())))?; reads(&s, Some(p.clone()))?; reads(&format!("({})", s), Some(p))?; reads("Uniform", Some(InitType::<f64>::Uniform)) }
        13 => { let (n, x) = (count(g), anynum(g)); reads(&format!("Exponential({},{})", n, x), Some(InteractType::Exponential(n, x)))?; reads(&format!("LennardJones({})", x), Some(InteractType::LennardJones(x)))?;
            reads("Coulomb2D", Some(InteractType::Coulomb2D))?; reads("Coulomb3D", Some(InteractType::Coulomb3D)) }
        // malformed
        14 => { let j = junk(g); reads::<SystemType>(&j, None)?; reads::<BoundaryCond>(&j, None)?; reads::<MoveType>(&j, None)?; reads::<TargetType>(&j, None)?; reads::<AgentType>(&j, None)?; reads::<InteractType>(&j, None) }
        15 => { let j = junk(g);
            reads::<MoveType>(&format!("Brownian with diffusion coefficient {}", j), None)?;
            reads::<InteractType>(&format!("Lennard Jones potential with particle size {}", j), None)?;
            reads::<InteractType>(&format!("Exponential form interaction in {} D with typical length 1.5", j), None)?;
            reads::<InteractType>(&format!("Exponential form interaction in 2 D with typical length {}", j), None)?;
            reads::<SystemType>(&format!("Continuous Cylindrical system. 0..{}", j), None)?;
            reads::<BoundaryCond>(&format!("Mixed Boundary Condition. 0..{}", j), None) }
        16 => { let j = junk(g);
            reads::<InteractType>(&format!("Exponential({},0.5)", j), None)?; reads::<InteractType>(&format!("Exponential(2,{})", j), None)?; reads::<InteractType>(&format!("LennardJones({})", j), None)?;
            reads::<InteractType>("Exponential", None)?; reads::<InteractType>("Exponential(2)", None)?; reads::<InteractType>("LennardJones", None) }
        17 => { let n = 1 + g.below(4); let b = g.below(n); let j = junk(g); let j = if j.contains(',') { "1x".to_string() } else { j };
            let v: Vec<String> = (0..n).map(|i| if i == b { j.clone() } else { anynum(g).to_string() }).collect();
            let s = v.join(",");
            reads::<Position<f64>>(&s, None)?; reads::<Position<f64>>(&format!("({})", s), None)?; reads::<InitType<f64>>(&format!("({})", s), None)?; reads::<InitType<f64>>(&format!("Initialize all agents at ({})", s), None) }
        18 => { let s = g.pick(&["Continuous", "Continuous Foo", "Continuous Cylindrical", "Continuous Cylindrical system.", "Continuous Cylindrical system. 0", "Brownian", "Mixed", "Mixed Boundary Condition.", "Initialize", "Initialize all", "Initialize all agents", "Initialize all agents at", "Lennard", "Coulomb potential in 4 D", "Coulomb", "Exponential form interaction in", "Foo bar"]);
            reads::<SystemType>(s, None)?; reads::<BoundaryCond>(s, None)?; reads::<MoveType>(s, None)?; reads::<InitType<f64>>(s, None)?; reads::<InteractType>(s, None)?; reads::<Position<f64>>(s, None) }
        // arbitrary words never panic
        _ => {
            let words = ["Continuous", "Cylindrical", "Circular", "system.", "0..3", "0..", "0", "Mixed", "Boundary", "Condition.", "Brownian", "with", "diffusion", "coefficient", "1.5", "Levy", "Exponential", "form", "interaction", "in", "2", "D", "typical", "length", "Coulomb", "potential", "3", "Lennard", "Jones", "Initialize", "all", "agents", "at", "(1,2)", "Exponential(", "Exponential(2,", "LennardJones(1", "é", "Constant", "Time", "step", "size", "\u{1F600}"];
            let n = g.below(11);
            let s = (0..n).map(|_| g.pick(&words)).collect::<Vec<_>>().join(" ");
            g.note("text", &s);
            caught(|| { let _ = (s.parse::<SystemType>().is_ok(), s.parse::<BoundaryCond>().is_ok(), s.parse::<MoveType>().is_ok(), s.parse::<InitType<f64>>().is_ok(), s.parse::<InteractType>().is_ok(), s.parse::<Position<f64>>().is_ok(), s.parse::<moledyn::time_mod::TimeType>().is_ok()); })
        }
    }
}

// ---------------------------------------------------------------- headers
fn text(g: &mut Gen) -> String {
    let n = g.below(8);
    let s: String = (0..n).map(|_| g.pick(&['a', 'b', ':', ' ', '/', '.', '0', '_', '-', '(', ',', 'é', '\t', '#'])).collect();
    s.trim().to_string()
}
fn circ(g: &mut Gen) -> ContCircSystemArguments { let (a, b) = (anynum(g), count(g)); let mut x = ContCircSystemArguments::new(a, b); x.sys_type = systype(g); x.bctype = bc(g); x }
fn cubic(g: &mut Gen) -> ContCubicSystemArguments { let (c, a, b) = (bc(g), anynum(g), count(g)); let mut x = ContCubicSystemArguments::new(c, a, b); x.sys_type = systype(g); x }
fn cyl(g: &mut Gen) -> ContCylindricalSystemArguments { ContCylindricalSystemArguments::new(systype(g), bc(g), anynum(g), anynum(g), count(g)) }
fn bulk(g: &mut Gen) -> ContBulkTargetArguments { let mut x = ContBulkTargetArguments::new(pos(g), anynum(g)); x.target_type = g.pick(&TARGETS); x }
fn indep(g: &mut Gen) -> ContPassiveIndepAgentArguments { let mut x = ContPassiveIndepAgentArguments::new(mtype(g), itype(g), count(g)); x.agent_type = g.pick(&AGENTS); x }
fn merge(g: &mut Gen) -> ContPassiveMergeAgentArguments { let mut x = ContPassiveMergeAgentArguments::new(mtype(g), itype(g), anynum(g), anynum(g), count(g)); x.agent_type = g.pick(&AGENTS); x.size = count(g); x }
fn expa(g: &mut Gen) -> ContPassiveExpAgentArguments { let mut x = ContPassiveExpAgentArguments::new(mtype(g), itype(g), anynum(g), count(g), anynum(g), count(g)); x.agent_type = g.pick(&AGENTS); x }
fn lj(g: &mut Gen) -> ContPassiveLJAgentArguments { let mut x = ContPassiveLJAgentArguments::new(mtype(g), itype(g), anynum(g), anynum(g), count(g)); x.agent_type = g.pick(&AGENTS); x }
fn cstep(g: &mut Gen) -> ConstStepArguments { ConstStepArguments::new(anynum(g), anynum(g)) }
fn estep(g: &mut Gen) -> ExponentialStepArguments { ExponentialStepArguments::new(anynum(g), anynum(g), count(g), anynum(g)) }
fn seed(g: &mut Gen) -> u128 { (g.u64() as u128) << if g.chance(0.5) { 64 } else { 0 } | g.u64() as u128 }
fn vsim(g: &mut Gen) -> VariableSimulationArguments { VariableSimulationArguments::new(count(g), count(g), seed(g), text(g)) }
fn psim(g: &mut Gen) -> ParVariableSimulationArguments { ParVariableSimulationArguments::new(count(g), seed(g), count(g), text(g)) }
fn osim(g: &mut Gen) -> ProcessSimulationArguments { ProcessSimulationArguments::new(count(g), anynum(g), count(g), seed(g), text(g)) }

macro_rules! arguments { ($m:ident, $k:expr) => { match $k {
    0 => $m!(ContCircSystem, circ), 1 => $m!(ContCubicSystem, cubic), 2 => $m!(ContCylindricalSystem, cyl), 3 => $m!(ContBulkTarget, bulk), 4 => $m!(ContPassiveIndepAgent, indep),
    5 => $m!(ContPassiveMergeAgent, merge), 6 => $m!(ContPassiveExpAgent, expa), 7 => $m!(ContPassiveLJAgent, lj), 8 => $m!(ConstStep, cstep), 9 => $m!(ExponentialStep, estep),
    10 => $m!(VariableSimulation, vsim), 11 => $m!(ParVariableSimulation, psim), _ => $m!(ProcessSimulation, osim) } } }

pub fn scratch(name: &str) -> std::path::PathBuf {
    let d = std::env::var("VREPLAY_TMP").expect("VREPLAY_TMP");
    std::path::Path::new(&d).join(name)
}

pub fn c24(g: &mut Gen) -> Res {
    let n = 1 + g.below(4);
    let width = g.pick(&[0usize, 1, 5, 10, 20, 30]);
    g.note("width", &width);
    let ks: Vec<usize> = (0..n).map(|_| g.below(13)).collect();
    let mut header = String::new();
    type Check = Box<dyn Fn(&mut Lines<BufReader<File>>) -> Res>;
    let mut checks: Vec<Check> = vec![];
    for k in ks {
        macro_rules! one { ($s:ident, $mk:ident) => {{
            let a = $mk(g);
            g.note(stringify!($s), &a);
            header += &a.print_configuration(width);
            checks.push(Box::new(move |l: &mut Lines<BufReader<File>>| match caught(|| <$s as Argument<_>>::read_args_from_lines(l)) {
                Ok(Ok(b)) => { check!(a == b, "{:?} is printed as {:?} and read back as {:?}", a, a.print_configuration(width), b); Ok(()) }
                Ok(Err(e)) => Err(format!("{:?} is printed as {:?}, which is rejected: {}", a, a.print_configuration(width), e)),
                Err(p) => Err(format!("{:?} is printed as {:?}, reading it panics: {}", a, a.print_configuration(width), p)),
            }));
        }}}
        arguments!(one, k);
    }
    let tail = "==== DATA\n1.5\n";
    let p = scratch("header.dat");
    std::fs::write(&p, header.clone() + tail).map_err(|e| format!("harness: {}", e))?;
    let mut l = BufReader::new(File::open(&p).map_err(|e| format!("harness: {}", e))?).lines();
    for c in checks { c(&mut l)?; }
    let next = l.next().map(|x| x.unwrap());
    check!(next.as_deref() == Some("==== DATA"), "after reading the printed structures the next line is {:?}", next);
    Ok(())
}

// ---------------------------------------------------------------- argument vectors
fn shown<A: Debug>(a: &A) -> String { format!("{:?}", a) }

pub fn c25(g: &mut Gen) -> Res {
    if g.chance(0.3) { return ranges(g); }
    let k = g.below(13);
    g.note("structure", &k);
    // words of a valid argument vector with the values they denote, in declaration order
    let f = |g: &mut Gen, w: &mut Vec<String>| -> f64 { let x = anynum(g); w.push(x.to_string()); x };
    let u = |g: &mut Gen, w: &mut Vec<String>| -> usize { let x = count(g); w.push(x.to_string()); x };
    let b = |g: &mut Gen, w: &mut Vec<String>| -> BoundaryCond { let x = bc(g); let s = x.to_string(); w.push(match x { BoundaryCond::Mixed(n) if n > 0 && g.chance(0.5) => n.to_string(), _ => s }); x };
    let s = |g: &mut Gen, w: &mut Vec<String>| -> SystemType { let x = systype(g); w.push(x.to_string()); x };
    let m = |g: &mut Gen, w: &mut Vec<String>| -> MoveType { let x = mtype(g); w.push(match x { MoveType::Brownian(c) if g.chance(0.5) => c.to_string(), _ => x.to_string() }); x };
    let i = |g: &mut Gen, w: &mut Vec<String>| -> InitType<f64> { let x = itype(g); let t = x.to_string(); w.push(match &x { InitType::SpecificPosition(p) if g.chance(0.5) => p.to_string(), _ => t }); x };
    let p = |g: &mut Gen, w: &mut Vec<String>| -> Position<f64> { let x = pos(g); w.push(x.to_string()); x };
    let sd = |g: &mut Gen, w: &mut Vec<String>| -> u128 { let x = seed(g); w.push(x.to_string()); x };
    let t = |g: &mut Gen, w: &mut Vec<String>| -> String { let x = text(g); w.push(x.clone()); x };
    let mut w: Vec<String> = vec![];
    let want: String;
    let read: fn(&[String]) -> Result<String, Error>;
    macro_rules! go { ($s:ident, $e:expr) => {{ want = shown(&$e); read = |a| <$s as Argument<_>>::read_args_from_vec(a).map(|x| shown(&x)); let n = <$s as Argument<_>>::NUM_ARGS; check!(n == w.len(), "declares {} arguments for {} fields", n, w.len()); }} }
    match k {
        0 => { let e = ContCircSystemArguments::new(f(g, &mut w), u(g, &mut w)); check!(e.sys_type == SystemType::ContinuousCircular && e.bctype == BoundaryCond::Reflection, "fixed fields {:?}", e); go!(ContCircSystem, e) }
        1 => { let e = ContCubicSystemArguments::new(b(g, &mut w), f(g, &mut w), u(g, &mut w)); check!(e.sys_type == SystemType::ContinuousRectangular, "fixed fields {:?}", e); go!(ContCubicSystem, e) }
        2 => { let e = ContCylindricalSystemArguments::new(s(g, &mut w), b(g, &mut w), f(g, &mut w), f(g, &mut w), u(g, &mut w)); go!(ContCylindricalSystem, e) }
        3 => { let e = ContBulkTargetArguments::new(p(g, &mut w), f(g, &mut w)); check!(e.target_type == TargetType::ContinuousInBulk, "fixed fields {:?}", e); go!(ContBulkTarget, e) }
        4 => { let e = ContPassiveIndepAgentArguments::new(m(g, &mut w), i(g, &mut w), u(g, &mut w)); check!(e.agent_type == AgentType::ContinuousPassiveIndependent, "fixed fields {:?}", e); go!(ContPassiveIndepAgent, e) }
        5 => { let e = ContPassiveMergeAgentArguments::new(m(g, &mut w), i(g, &mut w), f(g, &mut w), f(g, &mut w), u(g, &mut w)); check!(e.agent_type == AgentType::ContinuousPassiveInteracting && e.size == 1, "fixed fields {:?}", e); go!(ContPassiveMergeAgent, e) }
        6 => { let e = ContPassiveExpAgentArguments::new(m(g, &mut w), i(g, &mut w), f(g, &mut w), u(g, &mut w), f(g, &mut w), u(g, &mut w)); go!(ContPassiveExpAgent, e) }
        7 => { let e = ContPassiveLJAgentArguments::new(m(g, &mut w), i(g, &mut w), f(g, &mut w), f(g, &mut w), u(g, &mut w)); go!(ContPassiveLJAgent, e) }
        8 => { let e = ConstStepArguments::new(f(g, &mut w), f(g, &mut w)); go!(ConstStep, e) }
        9 => { let e = ExponentialStepArguments::new(f(g, &mut w), f(g, &mut w), u(g, &mut w), f(g, &mut w)); go!(ExponentialStep, e) }
        10 => { let e = VariableSimulationArguments::new(u(g, &mut w), u(g, &mut w), sd(g, &mut w), t(g, &mut w)); go!(VariableSimulation, e) }
        11 => { let e = ParVariableSimulationArguments::new(u(g, &mut w), sd(g, &mut w), u(g, &mut w), t(g, &mut w)); go!(ParVariableSimulation, e) }
        _ => { let e = ProcessSimulationArguments::new(u(g, &mut w), f(g, &mut w), u(g, &mut w), sd(g, &mut w), t(g, &mut w)); go!(ProcessSimulation, e) }
    }
    g.note("arguments", &w);
    let run = |w: &[String]| caught(|| read(w)).map_err(|p| format!("reading {:?} panics: {}", w, p));
    match run(&w)? { Ok(a) => check!(a == want, "{:?} is read as {} instead of {}", w, a, want), Err(e) => return Err(format!("{:?} is rejected: {}", w, e)) }
    // missing
    let short = g.below(w.len());
    check!(run(&w[..short])?.is_err(), "{} of {} arguments are accepted", short, w.len());
    // malformed
    let j = g.pick(&["", "x", "1x", "--1", "Continuous", "Brownian", "Initialize all", "Mixed", "é"]).to_string();
    let at = g.below(w.len());
    if !(k >= 10 && at + 1 == w.len()) {
        let mut v = w.clone();
        v[at] = j.clone();
        check!(run(&v)?.is_err(), "argument {} = {:?} is accepted in {:?}", at, j, v);
    }
    Ok(())
}

fn ranges(g: &mut Gen) -> Res {
    const NUM_SKIP: usize = 1;
    let (a, b) = (anynum(g), count(g));
    let (p, c) = (pos(g), anynum(g));
    let (m, i, r, al, n) = (mtype(g), itype(g), anynum(g), anynum(g), count(g));
    let (d, tm) = (anynum(g), anynum(g));
    let (e, x, sd, dir) = (count(g), count(g), seed(g), text(g));
    let args: Vec<String> = vec!["prog".to_string(), a.to_string(), b.to_string(), p.to_string(), c.to_string(), m.to_string(), i.to_string(), r.to_string(), al.to_string(), n.to_string(),
        d.to_string(), tm.to_string(), e.to_string(), x.to_string(), sd.to_string(), dir.clone()];
    g.note("arguments", &args);
    define_total_num_args!(ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    check!(TOTAL_NUM_ARGS + NUM_SKIP == args.len(), "the total number of arguments is {}", TOTAL_NUM_ARGS);
    let go = || -> Result<bool, Error> {
        read_arguments!(args, s, ContCircSystem, t, ContBulkTarget, ag, ContPassiveMergeAgent, ti, ConstStep, si, VariableSimulation);
        Ok(s == ContCircSystemArguments::new(a, b) && t == ContBulkTargetArguments::new(p.clone(), c) && ag == ContPassiveMergeAgentArguments::new(m, i.clone(), r, al, n)
            && ti == ConstStepArguments::new(d, tm) && si == VariableSimulationArguments::new(e, x, sd, dir.clone()))
    };
    match caught(go) { Ok(Ok(true)) => Ok(()), Ok(Ok(false)) => Err("consecutive structures are read from wrong ranges".to_string()), Ok(Err(e)) => Err(format!("valid arguments rejected: {}", e)), Err(p) => Err(format!("panics: {}", p)) }
}
