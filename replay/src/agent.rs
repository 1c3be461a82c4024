//! Agents: displacement, Brownian steps, placement, interaction, merging.
use crate::check;
use crate::gen::*;
use crate::sys::{ordinary_size, system, Sys};
use moledyn::prelude::*;
use moledyn::random_mod::get_gaussian;

fn exp_agent(p: Vec<f64>, mt: MoveType) -> ContPassiveExpAgent { let n = p.len(); ContPassiveExpAgent::new(InteractType::Exponential(n, 0.7), mt, Position::new(p), 1.3) }
fn lj_agent(p: Vec<f64>, mt: MoveType) -> ContPassiveLJAgent { ContPassiveLJAgent::new(InteractType::LennardJones(0.9), mt, Position::new(p), 1.3) }
fn indep_agent(p: Vec<f64>, mt: MoveType) -> ContPassiveIndepAgent { ContPassiveIndepAgent::new(mt, Position::new(p)) }
fn merge_agent(p: Vec<f64>, mt: MoveType) -> ContPassiveMergeAgent { ContPassiveMergeAgent::new(mt, Position::new(p), 0.1, 1.5) }

fn displacement<A: AgentCore<f64> + Clone + PartialEq>(mk: fn(Vec<f64>, MoveType) -> A, a: &[f64], b: &[f64], out: &[f64]) -> Res {
    let (x, y) = (mk(a.to_vec(), MoveType::Brownian(1.0)), mk(b.to_vec(), MoveType::Brownian(2.0)));
    let (x0, y0) = (x.clone(), y.clone());
    let n = a.len();
    check!(x.pos().coordinate == a, "pos() gives {:?}", x.pos().coordinate);
    let r = x.mutual_displacement(&y);
    let rev = y.mutual_displacement(&x);
    let d = x.mutual_distance(&y);
    let mut v = Position::new(out.to_vec());
    let w = x.mutual_displacement_to_vec(&y, &mut v);
    check!(x == x0 && y == y0, "agent modified");
    if n != b.len() {
        check!(r.is_err() && rev.is_err() && d.is_err() && w.is_err(), "different dimensions accepted: {} {} {} {}", r.is_err(), rev.is_err(), d.is_err(), w.is_err());
        for e in vec![r.err(), rev.err(), d.err(), w.err()] { check!(is_code(&e.unwrap(), ErrorCode::InvalidDimension), "wrong error code"); }
        return Ok(());
    }
    let diff: Vec<f64> = a.iter().zip(b).map(|(p, q)| q - p).collect();
    let e = diff.iter().map(|c| c * c).sum::<f64>().sqrt();
    let (u, du) = r.map_err(|e| format!("error {}", e))?;
    let (ur, dr) = rev.map_err(|e| format!("error {}", e))?;
    let d = d.map_err(|e| format!("error {}", e))?;
    check!(close(d, e, 0.0), "mutual_distance {} instead of {}", d, e);
    check!(close(du, e, 0.0) && close(dr, e, 0.0), "distance {} / {} instead of {}", du, dr, e);
    check!(u.dim() == n && ur.dim() == n, "dimension of the direction");
    if e > 0.0 {
        for i in 0..n {
            check!(close(u.coordinate[i], diff[i] / e, 1.0), "direction[{}] is {} instead of {}", i, u.coordinate[i], diff[i] / e);
            check!(close(ur.coordinate[i], -diff[i] / e, 1.0), "swapped direction[{}] is {} instead of {}", i, ur.coordinate[i], -diff[i] / e);
        }
    }
    if out.len() != n {
        let er = w.err().ok_or("output vector of another dimension accepted")?;
        check!(is_code(&er, ErrorCode::InvalidDimension), "wrong error code");
    } else {
        let dw = w.map_err(|e| format!("in-place: error {}", e))?;
        check!(close(dw, e, 0.0), "in-place distance {} instead of {}", dw, e);
        check!(v.dim() == n, "in-place dimension");
        if e > 0.0 { for i in 0..n { check!(close(v.coordinate[i], diff[i] / e, 1.0), "in-place direction[{}] is {} instead of {}", i, v.coordinate[i], diff[i] / e); } }
    }
    Ok(())
}

pub fn c08(g: &mut Gen) -> Res {
    let n = g.pick(&[1usize, 1, 2, 2, 3, 3, 4, 5]);
    let m = if g.chance(0.2) { g.range(1, 6) as usize } else { n };
    let (a, b) = (g.vec(n), g.vec(m));
    let k = if g.chance(0.2) { g.below(7) } else { n };
    let out = g.vec(k);
    let w = g.below(4);
    g.note("agent kind", &w); g.note("a", &a); g.note("b", &b); g.note("output vector", &out);
    match w { 0 => displacement(exp_agent, &a, &b, &out), 1 => displacement(lj_agent, &a, &b, &out), 2 => displacement(indep_agent, &a, &b, &out), _ => displacement(merge_agent, &a, &b, &out) }
}

fn step<A: Passive<f64, f64> + Clone + PartialEq>(g: &mut Gen, x: A, n: usize, mt: MoveType, dim_field: usize) -> Res {
    let mut rng = g.rng();
    let dt = if g.chance(0.1) { 0.0 } else { g.positive() };
    let k = if g.chance(0.2) { g.below(7) } else { n };
    let before = if g.chance(0.3) { vec![0.0; k] } else { g.vec(k) };
    g.note("dt", &dt); g.note("vector", &before);
    let o0 = rng.clone();
    let x0 = x.clone();
    let _ = dim_field;
    let d = match mt { MoveType::Brownian(d) => Some(d), _ => None };
    let inplace = g.chance(0.5);
    g.note("in place", &inplace);
    if inplace {
        let mut v = Position::new(before.clone());
        let r = x.random_move_to_vec(&mut rng, dt, &mut v);
        check!(x == x0, "agent modified");
        if k != n || d.is_none() {
            let e = r.err().ok_or("no error")?;
            check!(v.coordinate == before, "vector modified although an error was returned");
            check!(rng_state(&rng) == rng_state(&o0), "random numbers drawn although an error was returned");
            let id = is_code(&e, ErrorCode::InvalidDimension); let fe = is_code(&e, ErrorCode::FeatureNotProvided);
            check!(id && k != n || fe && d.is_none(), "wrong error {}", e);
            return Ok(());
        }
        r.map_err(|e| format!("error {}", e))?;
        let l = (2.0 * d.unwrap() * dt).sqrt();
        let mut o = o0.clone();
        check!(v.dim() == n, "dimension");
        for i in 0..n {
            let z = get_gaussian(&mut o);
            let e = before[i] + l * z;
            check!(close(v.coordinate[i], e, before[i].abs() + (l * z).abs()), "coordinate {} is {} instead of {}", i, v.coordinate[i], e);
        }
        check!(rng_state(&rng) == rng_state(&o), "not exactly one draw per coordinate");
    } else {
        let r = x.random_move(&mut rng, dt);
        check!(x == x0, "agent modified");
        match d {
            None => {
                let e = r.err().ok_or("no error for non-Brownian movement")?;
                check!(is_code(&e, ErrorCode::FeatureNotProvided), "wrong error {}", e);
                check!(rng_state(&rng) == rng_state(&o0), "random numbers drawn although an error was returned");
            }
            Some(d) => {
                let v = r.map_err(|e| format!("error {}", e))?;
                let l = (2.0 * d * dt).sqrt();
                let mut o = o0.clone();
                check!(v.dim() == n, "dimension");
                for i in 0..n {
                    let e = l * get_gaussian(&mut o);
                    check!(close(v.coordinate[i], e, e), "coordinate {} is {} instead of {}", i, v.coordinate[i], e);
                }
                check!(rng_state(&rng) == rng_state(&o), "not exactly one draw per coordinate");
            }
        }
    }
    Ok(())
}

pub fn c09(g: &mut Gen) -> Res {
    let n = g.dim();
    let p = g.vec(n);
    let mt = if g.chance(0.15) { MoveType::Levy } else { MoveType::Brownian(if g.chance(0.1) { 0.0 } else { g.positive() }) };
    let w = g.below(4);
    g.note("agent kind", &w); g.note("pos", &p); g.note("movement", &mt);
    match w {
        0 => step(g, exp_agent(p, mt), n, mt, n),
        1 => step(g, lj_agent(p, mt), n, mt, n),
        2 => step(g, indep_agent(p, mt), n, mt, n),
        _ => {
            let mut a = merge_agent(p, mt);
            if g.chance(0.5) { let s = g.range(1, 9) as usize; if a.add_size(s).is_ok() { let m = a.mtype; return step(g, a, n, m, n); } }
            step(g, a, n, mt, n)
        }
    }
}

fn placed(s: &Sys, t: &ContBulkTarget, p: &Position<f64>) -> Res {
    check!(p.dim() == s.dim(), "dimension {} in a system of dimension {}", p.dim(), s.dim());
    check!(s.core().check_inclusion(p) == Ok(true), "outside the system by its inclusion test: {:?}", p.coordinate);
    check!(s.member(&p.coordinate) != Some(false), "outside the system: {:?}", p.coordinate);
    check!(t.check_find(p) == Ok(false), "on the target: {:?}", p.coordinate);
    let d: f64 = p.coordinate.iter().zip(&t.target_pos.coordinate).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt();
    check!(d >= t.target_size * (1.0 - 1e-9), "on the target at distance {}: {:?}", d, p.coordinate);
    Ok(())
}

pub fn c10(g: &mut Gen) -> Res {
    let n = g.pick(&[1usize, 2, 2, 3, 3, 4]);
    let s = system(g, ordinary_size, n);
    // a target that leaves a part of the system free
    let frac = g.pick(&[0.05, 0.3, 0.7, 0.9]);
    let mb = (0..n).map(|i| s.bound(i)).fold(f64::INFINITY, f64::min);
    let c: Vec<f64> = (0..n).map(|i| if g.chance(0.5) { 0.0 } else { 0.9 * s.bound(i) * (2.0 * g.unit() - 1.0) }).collect();
    let t = ContBulkTarget::new(Position::new(c), frac * mb);
    g.note("target", &t);
    let mut rng = g.rng();
    let mt = if g.chance(0.2) { MoveType::Levy } else { MoveType::Brownian(g.positive()) };
    let m = g.pick(&[n, n, n, 1, 2, 3, 5]);
    let p = g.vec(m);
    let w = g.below(8);
    g.note("kind", &w); g.note("movement", &mt); g.note("previous position", &p);
    let (a, b) = (g.positive(), g.f());
    g.note("parameters", &(a, b));
    let (sy, ta) = (s.core(), &t as &dyn TargetCore<f64>);
    let er = |e: Error| format!("error {}", e);
    match w {
        0 => { let x = ContPassiveIndepAgent::new_uniform(sy, ta, &mut rng, mt).map_err(er)?; placed(&s, &t, &x.pos)?; check!(x.mtype == mt && x.dim == n && x.itype == InitType::Uniform, "fields {:?}", x); }
        1 => {
            let x = ContPassiveMergeAgent::new_uniform(sy, ta, &mut rng, mt, a, b).map_err(er)?;
            placed(&s, &t, &x.pos)?;
            check!(x.mtype == mt && x.dim == n && x.itype == InitType::Uniform && x.ptl_radius == a && x.alpha == b && x.size == 1, "fields {:?}", x);
        }
        2 => {
            let it = InteractType::Exponential(m, a);
            match ContPassiveExpAgent::new_uniform(sy, ta, &mut rng, it, mt, b) {
                Ok(x) => {
                    check!(m == n, "interaction of dimension {} accepted in a system of dimension {}", m, n);
                    placed(&s, &t, &x.pos)?;
                    check!(x.mtype == mt && x.exp_dim == n && x.itype == InitType::Uniform && x.int_type == it && x.gamma == a && x.strength == b, "fields {:?}", x);
                    check!(close(x.coeff_pot, b, 0.0) && close(x.coeff_force, b / a, 0.0), "coefficients {:?}", x);
                }
                Err(e) => check!(m != n, "error {}", e),
            }
        }
        3 => {
            let it = InteractType::LennardJones(a);
            let x = ContPassiveLJAgent::new_uniform(sy, ta, &mut rng, it, mt, b).map_err(er)?;
            placed(&s, &t, &x.pos)?;
            check!(x.mtype == mt && x.dim == n && x.itype == InitType::Uniform && x.int_type == it && x.ptl_size == a && x.strength == b, "fields {:?}", x);
        }
        4 => { let mut x = indep_agent(p, mt); x.renew_uniform(sy, ta, &mut rng).map_err(er)?; placed(&s, &t, &x.pos)?; check!(x.mtype == mt && x.dim == n, "fields {:?}", x); }
        5 => {
            let mut x = merge_agent(p, mt);
            x.alpha = b; x.ptl_radius = a;
            let k = g.below(5);
            let grown = k > 0 && x.add_size(k).is_ok();
            g.note("grown by", &k);
            let _ = grown;
            let r = x.renew_uniform(sy, ta, &mut rng);
            match mt {
                MoveType::Brownian(_) => {
                    r.map_err(er)?;
                    check!(x.mtype == MoveType::Brownian(1.0), "diffusion coefficient {:?}", x.mtype);
                }
                _ => {}
            }
            placed(&s, &t, &x.pos)?;
            check!(x.size == 1 && x.dim == n && x.alpha == b && x.ptl_radius == a, "fields {:?}", x);
        }
        6 => { let mut x = exp_agent(p, mt); x.renew_uniform(sy, ta, &mut rng).map_err(er)?; placed(&s, &t, &x.pos)?; check!(x.mtype == mt && x.exp_dim == n && x.gamma == 0.7 && x.strength == 1.3, "fields {:?}", x); }
        _ => { let mut x = lj_agent(p, mt); x.renew_uniform(sy, ta, &mut rng).map_err(er)?; placed(&s, &t, &x.pos)?; check!(x.mtype == mt && x.dim == n && x.ptl_size == 0.9 && x.strength == 1.3, "fields {:?}", x); }
    }
    Ok(())
}

pub fn c11(g: &mut Gen) -> Res {
    let n = g.dim();
    let len = match g.below(8) { 0 => g.positive().max(1e-9).min(1e9), 1 => g.pick(&[1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 2.0, 10.0, 100.0, 1e3, 1e4]), _ => (0.05 + 3.0 * g.unit()) * g.scale(0.3, 6) };
    let st = if g.chance(0.1) { g.f() } else { (0.1 + 5.0 * g.unit()) * g.pick(&[1.0, 1.0, -1.0]) * g.scale(0.2, 6) };
    let r = len * (0.3 + 4.0 * g.unit());
    let w = g.below(8);
    g.note("kind", &w); g.note("length", &len); g.note("strength", &st); g.note("r", &r); g.note("dim", &n);
    let mt = MoveType::Brownian(1.0);
    let itype = if g.chance(0.5) { InitType::Uniform } else { InitType::SpecificPosition(Position::new(g.vec(n))) };
    let k = if g.chance(0.05) { g.range(5, 70) } else { g.range(1, 4) } as usize;
    let s = ContCubicSystem::new(BoundaryCond::Reflection, 1.0, n);
    let t = ContBulkTarget::new(Position::new(vec![0.0; n]), 0.1);
    let mut rng = g.rng();
    fn fd<A: Interaction<f64, f64>>(a: &A, r: f64, v: &dyn Fn(f64) -> f64, f: f64) -> Res {
        let e = v(r);
        let sc = f.abs() * r;
        check!(close(a.potential(r), e, 0.0) || (a.potential(r) - e).abs() <= 1e-9 * sc, "potential {} instead of {}", a.potential(r), e);
        check!(close(a.force(r), f, 0.0) || (a.force(r) - f).abs() <= 1e-9 * e.abs() / r, "force {} instead of {}", a.force(r), f);
        // minus the numerical derivative of the agent's own potential
        let h = 1e-5 * r;
        let d = -(a.potential(r + h) - a.potential(r - h)) / (2.0 * h);
        check!((a.force(r) - d).abs() <= 1e-5 * (d.abs() + a.force(r).abs() + a.potential(r).abs() / r), "force {} but minus the derivative of the potential is {}", a.force(r), d);
        Ok(())
    }
    if w < 4 {
        let v = move |r: f64| st * (-r / len).exp();
        let f = st / len * (-r / len).exp();
        let it = InteractType::Exponential(n, len);
        match w {
            0 => fd(&ContPassiveExpAgent::new(it, mt, Position::new(vec![0.0; n]), st), r, &v, f),
            1 => fd(&ContPassiveExpAgent::new_uniform(&s, &t, &mut rng, it, mt, st).map_err(|e| e.to_string())?, r, &v, f),
            2 => {
                let mut x = ContPassiveExpAgent::new(it, mt, Position::new(vec![0.0; n]), st);
                let n2 = g.dim();
                let s2 = ContCubicSystem::new(BoundaryCond::Reflection, 1.0, n2);
                let t2 = ContBulkTarget::new(Position::new(vec![0.0; n2]), 0.1);
                x.renew_uniform(&s2, &t2, &mut rng).map_err(|e| e.to_string())?;
                fd(&x, r, &v, f)
            }
            _ => { let xs = ContPassiveExpAgent::convert_from(&ContPassiveExpAgentArguments::new(mt, itype, len, n, st, k)); check!(xs.len() == k, "{} agents instead of {}", xs.len(), k); for x in &xs { fd(x, r, &v, f)?; } Ok(()) }
        }
    } else {
        let v = move |r: f64| 4.0 * st * ((len / r).powi(12) - (len / r).powi(6));
        let f = 4.0 * st * (12.0 * (len / r).powi(12) - 6.0 * (len / r).powi(6)) / r;
        let it = InteractType::LennardJones(len);
        match w {
            4 => fd(&ContPassiveLJAgent::new(it, mt, Position::new(vec![0.0; n]), st), r, &v, f),
            5 => fd(&ContPassiveLJAgent::new_uniform(&s, &t, &mut rng, it, mt, st).map_err(|e| e.to_string())?, r, &v, f),
            6 => {
                let mut x = ContPassiveLJAgent::new(it, mt, Position::new(vec![0.0; n]), st);
                x.renew_uniform(&s, &t, &mut rng).map_err(|e| e.to_string())?;
                fd(&x, r, &v, f)
            }
            _ => { let xs = ContPassiveLJAgent::convert_from(&ContPassiveLJAgentArguments::new(mt, itype, len, st, k)); check!(xs.len() == k, "{} agents instead of {}", xs.len(), k); for x in &xs { fd(x, r, &v, f)?; } Ok(()) }
        }
    }
}

fn coef(a: &ContPassiveMergeAgent) -> Option<f64> { match a.mtype { MoveType::Brownian(d) => Some(d), _ => None } }

pub fn c12(g: &mut Gen) -> Res {
    let alpha = if g.chance(0.2) { g.f().max(-6.0).min(6.0) } else { g.pick(&[1.0, 0.5, 2.0, 1.5, 0.0, 0.3, -1.0, 3.0]) };
    let mk = |g: &mut Gen| {
        let mt = if g.chance(0.15) { MoveType::Levy } else { MoveType::Brownian(1.0) };
        let mut a = ContPassiveMergeAgent::new(mt, Position::new(vec![g.unit(), g.unit()]), 0.1, alpha);
        if g.chance(0.6) { a.size = if g.chance(0.1) { g.range(21, 2_000_000_000) } else { g.range(1, 20) } as usize; if let MoveType::Brownian(_) = a.mtype { a.mtype = MoveType::Brownian((a.size as f64).powf(-alpha)); } }
        a
    };
    let merged = |a: &ContPassiveMergeAgent, size: usize| -> Res {
        check!(a.size == size && a.size() == size, "size {} instead of {}", a.size, size);
        let e = (size as f64).powf(-a.alpha);
        check!(close(coef(a).unwrap_or(f64::NAN), e, 0.0), "diffusion coefficient {:?} instead of {}", a.mtype, e);
        Ok(())
    };
    if g.chance(0.35) {
        let (mut a, b) = (mk(g), mk(g));
        g.note("a", &a); g.note("b", &b);
        let (a0, b0) = (a.clone(), b.clone());
        let add = g.chance(0.5);
        let r = if add { a.add_size(b.size) } else { a.merge(&b) };
        check!(b == b0, "other agent modified");
        match r {
            Ok(()) => { check!(coef(&a0).is_some(), "non-Brownian mover merged"); merged(&a, a0.size + b.size)?; check!(a.pos == a0.pos && a.dim == a0.dim && a.alpha == a0.alpha && a.ptl_radius == a0.ptl_radius, "other fields changed"); }
            Err(e) => { check!(a == a0, "failed merge changed the agent: {:?}", a); check!(coef(&a0).is_none(), "error {}", e); }
        }
        return Ok(());
    }
    let n = if g.chance(0.05) { g.range(8, 70) } else { g.range(0, 7) } as usize;
    let xs: Vec<ContPassiveMergeAgent> = (0..n).map(|_| mk(g)).collect();
    let mut l = if g.chance(0.5) { LinkedList::from(xs.clone()) } else { let mut l = LinkedList::new(); for x in &xs { l.push(x.clone()); } l };
    g.note("sizes", &xs.iter().map(|x| (x.size, coef(x))).collect::<Vec<_>>());
    let mut order: Vec<usize> = (0..n).collect();
    let mut model = xs;
    let steps = g.range(1, 8);
    for _ in 0..steps {
        if g.chance(0.3) { l.into_double_iter(); let k = g.below(6); for _ in 0..k { l.indicies_double(); } }
        if g.chance(0.15) { let x = mk(g); g.note("push", &(x.size, coef(&x))); order.push(model.len()); model.push(x.clone()); l.push(x); continue; }
        let (i, j) = (g.below(n + 2), g.below(n + 2));
        g.note("merge", &(i, j));
        let before = (l.links.clone(), l.contents.clone(), l.head, l.tail, l.current);
        let live = |k: usize| order.contains(&k);
        let good = live(i) && live(j) && i != j && coef(&model[i]).is_some();
        let r = l.merge(i, j);
        check!(r.is_ok() == good, "merge({}, {}) returned {:?}, expected success: {}", i, j, r, good);
        if good {
            let s = model[i].size + model[j].size;
            model[i].size = s; model[i].mtype = MoveType::Brownian((s as f64).powf(-model[i].alpha));
            order.retain(|&k| k != j);
            merged(&l.contents[i], s)?;
            for k in 0..model.len() { if k != i && k != j { check!(l.contents[k] == model[k], "entry {} changed", k); } }
        } else {
            let after = (l.links.clone(), l.contents.clone(), l.head, l.tail, l.current);
            check!(before == after, "failed merge changed the list");
        }
        let seen = crate::list::walk(&l)?;
        check!(seen == order, "live entries {:?} instead of {:?}", seen, order);
        let tot: usize = seen.iter().map(|&k| l.contents[k].size).sum();
        let exp: usize = order.iter().map(|&k| model[k].size).sum();
        check!(tot == exp, "total size {} instead of {}", tot, exp);
    }
    Ok(())
}
