//! Systems: boundary steps, inclusion, random and outside positions, construction.
use crate::check;
use crate::gen::*;
use moledyn::prelude::*;

#[derive(Clone, Debug)]
pub enum Sys { Circ(ContCircSystem), Cubic(ContCubicSystem), Cyl(ContCylindricalSystem) }

impl Sys {
    pub fn core(&self) -> &dyn SystemCore<f64> {
        match self { Sys::Circ(s) => s, Sys::Cubic(s) => s, Sys::Cyl(s) => s }
    }
    pub fn dim(&self) -> usize { match self { Sys::Circ(s) => s.dim, Sys::Cubic(s) => s.dim, Sys::Cyl(s) => s.dim } }
    /// number of leading circular coordinates
    pub fn round(&self) -> usize {
        match self { Sys::Circ(s) => s.dim, Sys::Cubic(_) => 0, Sys::Cyl(s) => match s.sys_type { SystemType::ContinuousCylindrical(d) => d, _ => 0 } }
    }
    pub fn radius(&self) -> f64 { match self { Sys::Circ(s) => s.sys_size, Sys::Cubic(s) => s.sys_size, Sys::Cyl(s) => s.sys_radius } }
    pub fn half(&self) -> f64 { match self { Sys::Circ(s) => s.sys_size, Sys::Cubic(s) => s.sys_size, Sys::Cyl(s) => s.sys_length } }
    /// number of leading reflecting box coordinates
    pub fn reflecting(&self) -> usize {
        match self {
            Sys::Cubic(s) => match s.bctype { BoundaryCond::Reflection => s.dim, BoundaryCond::Periodic => 0, BoundaryCond::Mixed(d) => d },
            _ => self.round(),
        }
    }
    pub fn bound(&self, i: usize) -> f64 { if i < self.round() { self.radius() } else { self.half() } }
    pub fn finite(&self) -> bool { self.radius().is_finite() && self.half().is_finite() }
    /// geometric membership; None when rounding of the norm could decide it
    pub fn member(&self, x: &[f64]) -> Option<bool> {
        let d = self.round();
        if x.iter().any(|c| c.is_nan()) { return Some(false); }
        for c in &x[d..] { if c.abs() > self.half() { return Some(false); } }
        if d == 0 { return Some(true); }
        let r = self.radius();
        if r < 1e-150 || (r > 1e150 && r.is_finite()) { return None; }      // squares under- or overflow
        if x[..d].iter().any(|c| c.abs() > r) { return Some(false); }
        if r.is_infinite() { return Some(true); }
        let s: f64 = x[..d].iter().map(|c| (c / r) * (c / r)).sum();
        if s < 1.0 - 1e-9 { return Some(true); }
        if s > 1.0 + 1e-9 { return Some(false); }
        // exactly representable case
        if r > 1e-3 && r < 1e3 {
            let e = |v: f64| (v * 1024.0).fract() == 0.0;
            if e(r) && x[..d].iter().all(|&c| e(c)) {
                let q: f64 = x[..d].iter().map(|c| c * c).sum();
                return Some(q <= r * r);
            }
        }
        None
    }
}

pub fn system(g: &mut Gen, size: fn(&mut Gen) -> f64, dim: usize) -> Sys {
    let s = match g.below(3) {
        0 => { let r = size(g); Sys::Circ(ContCircSystem::new(r, dim)) }
        1 => {
            let b = match g.below(3) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(g.below(dim + 1)) };
            let l = size(g);
            Sys::Cubic(ContCubicSystem::new(b, l, dim))
        }
        _ => { let d = g.below(dim + 1); let (r, l) = (size(g), size(g)); Sys::Cyl(ContCylindricalSystem::new(d, r, l, dim)) }
    };
    g.note("system", &s);
    s
}
pub fn ordinary_size(g: &mut Gen) -> f64 {
    match g.below(6) {
        0 => 1.0,
        1 => g.pick(&[0.5, 2.0, 4.0, 0.25, 8.0, 3.0, 5.0, 1.5]),
        2 => { let e = g.range(-6, 6) as i32; (0.1 + g.unit()) * 10f64.powi(e) }
        3 => g.positive(),
        _ => 0.5 + 3.0 * g.unit(),
    }
}
pub fn extreme_size(g: &mut Gen) -> f64 { if g.chance(0.6) { ordinary_size(g) } else if g.chance(0.1) { f64::INFINITY } else { g.positive_any() } }
/// point near the system: around walls, on walls, corners, inside or outside
pub fn point(g: &mut Gen, s: &Sys, far: f64) -> Vec<f64> {
    let n = s.dim();
    let mode = g.below(5);
    (0..n).map(|i| {
        let b = s.bound(i);
        match mode {
            0 => b * (2.0 * g.unit() - 1.0),
            1 => g.pick(&[b, -b, 0.0, 0.0, 0.0, b / 2.0, -b / 2.0]),
            2 => b * (g.dyadic() / 4.0) * if far > 1.0 { 1.25 } else { 1.0 },
            3 => b * far * (2.0 * g.unit() - 1.0),
            _ => g.f(),
        }
    }).collect()
}

pub fn c01(g: &mut Gen) -> Res {
    let dim = g.dim();
    let s = system(g, extreme_size, dim);
    let wild = g.chance(0.5);
    let mut p = point(g, &s, 1.0);
    let mut d = point(g, &s, 3.0);
    if wild {
        for x in p.iter_mut().chain(d.iter_mut()) { if g.chance(0.3) { *x = g.any(); } }
    }
    if g.chance(0.2) { for x in d.iter_mut() { *x *= 50.0; } }
    g.note("pos", &p); g.note("dp", &d);
    let mut q = Position::new(p.clone());
    let mut dq = Position::new(d.clone());
    let r = caught(|| s.core().check_bc(&mut q, &mut dq)).map_err(|e| format!("check_bc panicked: {}", e))?;
    if r.is_ok() {
        check!(q.dim() == dim, "dimension changed to {}", q.dim());
        check!(!q.coordinate.iter().any(|x| x.is_nan()), "success with NaN coordinate: {:?}", q.coordinate);
        check!(!s.finite() || q.coordinate.iter().all(|x| x.is_finite()), "success with infinite coordinate: {:?}", q.coordinate);
        check!(s.core().check_inclusion(&q) == Ok(true), "success but not inside by the inclusion test: {:?}", q.coordinate);
        check!(s.member(&q.coordinate) != Some(false), "success but outside the domain: {:?}", q.coordinate);
    }
    Ok(())
}

fn norm(x: &[f64]) -> f64 { x.iter().map(|c| c * c).sum::<f64>().sqrt() }

/// the image prescribed for a point outside; None if rounding could decide the outcome
fn image(s: &Sys, x: &[f64]) -> Option<Vec<f64>> {
    let d = s.round();
    let mut y = x.to_vec();
    if d > 0 {
        let n = norm(&x[..d]);
        let r = s.radius();
        if (n - r).abs() <= 1e-9 * r && s.member(&[&x[..d], &vec![0.0; x.len() - d][..]].concat()).is_none() { return None; }
        let out = s.member(&[&x[..d], &vec![0.0; x.len() - d][..]].concat()) == Some(false);
        if out { let t = (2.0 * r - n) / n; for c in &mut y[..d] { *c *= t; } }
    }
    let l = s.half();
    for i in d..x.len() {
        if x[i] > l { y[i] = if i < s.reflecting() { 2.0 * l - x[i] } else { x[i] - 2.0 * l }; }
        else if x[i] < -l { y[i] = if i < s.reflecting() { -2.0 * l - x[i] } else { x[i] + 2.0 * l }; }
    }
    Some(y)
}

pub fn c02(g: &mut Gen) -> Res {
    let dim = g.dim();
    let s = system(g, ordinary_size, dim);
    let p = point(g, &s, 1.0);
    let d = match g.below(4) {
        0 => point(g, &s, 0.3),
        1 => point(g, &s, 4.0),
        2 => { let mut v = vec![0.0; dim]; let i = g.below(dim); v[i] = s.bound(i) * g.pick(&[1.0, 2.0, -1.0, -2.0, 1.5, -1.5, 3.0, -3.0, 0.5, 4.0]); v }
        _ => point(g, &s, 2.0),
    };
    g.note("pos", &p); g.note("dp", &d);
    let mut q = Position::new(p.clone());
    let mut dq = Position::new(d.clone());
    let r = s.core().check_bc(&mut q, &mut dq);
    check!(dq.coordinate == d, "displacement modified to {:?}", dq.coordinate);
    check!(q.dim() == dim, "dimension changed");
    let moved: Vec<f64> = p.iter().zip(&d).map(|(a, b)| a + b).collect();
    let scale = (0..dim).map(|i| s.bound(i)).fold(0.0, f64::max) + moved.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    match s.member(&moved) {
        None => { g.trivial = true; return Ok(()); }
        Some(true) => {
            check!(r.is_ok(), "error for a point inside");
            check!(q.coordinate == moved, "inside but changed to {:?}", q.coordinate);
        }
        Some(false) => {
            let y = match image(&s, &moved) { Some(y) => y, None => { g.trivial = true; return Ok(()); } };
            let exact = match &s { Sys::Cubic(_) => moved.iter().all(|c| (c * 1024.0).fract() == 0.0) && (s.half() * 1024.0).fract() == 0.0, _ => false };
            let near = !exact && (0..dim).any(|i| i >= s.round() && (y[i].abs() - s.half()).abs() <= 1e-9 * scale)
                || s.round() > 0 && (norm(&y[..s.round()]) - s.radius()).abs() <= 1e-9 * scale;
            if !near {
                let m = s.member(&y);
                if let Some(m) = m { check!(r.is_ok() == m, "image {:?} inside: {}, but result {:?}", y, m, r); }
            }
            if r.is_ok() || !near {
                for i in 0..dim {
                    let untouched = i >= s.round() && moved[i].abs() <= s.half();
                    let good = if untouched { q.coordinate[i] == moved[i] } else { close(q.coordinate[i], y[i], scale) };
                    check!(good, "coordinate {} is {} instead of {}", i, q.coordinate[i], y[i]);
                }
            }
        }
    }
    Ok(())
}

pub fn c03(g: &mut Gen) -> Res {
    let dim = g.dim();
    let s = system(g, extreme_size, dim);
    let n = if g.chance(0.15) { g.below(8) } else { dim };
    let mut p = if n == dim { let f = g.pick(&[1.0, 1.0, 1.1, 2.0]); point(g, &s, f) } else { g.vec(n) };
    if g.chance(0.25) && n > 0 { let i = g.below(n); p[i] = g.any(); }
    if n == dim && s.finite() && g.chance(0.3) {
        // push towards the wall in one coordinate
        let i = g.below(n); let b = s.bound(i);
        let f = g.pick(&[1.0, -1.0, 1.0 + 1e-6, 1.0 - 1e-6, 1.0 + f64::EPSILON, 1.001, -1.001]);
        if g.chance(0.5) { for x in p.iter_mut() { *x = 0.0; } }
        p[i] = b * f;
    }
    if n == dim && g.chance(0.2) && s.round() >= 2 {
        // pythagorean point
        let r = s.radius();
        for x in p[..s.round()].iter_mut() { *x = 0.0; }
        let (a, b) = g.pick(&[(3.0 / 5.0, 4.0 / 5.0), (0.6, -0.8), (5.0 / 13.0, 12.0 / 13.0)]);
        p[0] = r * a; let k = s.round() - 1; p[k] = r * b;
    }
    g.note("pos", &p);
    let q = Position::new(p.clone());
    let r = s.core().check_inclusion(&q);
    check!(q.coordinate.iter().zip(&p).all(|(a, b)| same(*a, *b)), "position modified");
    if n != dim {
        match r { Err(e) => check!(is_code(&e, ErrorCode::InvalidDimension), "wrong error {}", e), Ok(b) => return Err(format!("answered {} for dimension {}", b, n)) }
        return Ok(());
    }
    let big = p.iter().any(|c| c.is_finite() && c.abs() > 1e150) || s.radius() > 1e150 || s.radius() < 1e-150;
    match r {
        Err(e) => return Err(format!("error {} for the system's dimension", e)),
        Ok(b) => match s.member(&p) {
            Some(m) if !(big && s.round() > 0) || !m && p.iter().any(|c| c.is_nan()) => check!(b == m, "inclusion is {} but membership is {}", b, m),
            _ => g.trivial = true,
        },
    }
    Ok(())
}

pub fn c04(g: &mut Gen) -> Res {
    let dim = g.pick(&[1usize, 2, 2, 3, 3, 4, 5]);
    let s = system(g, ordinary_size, dim);
    let mut rng = g.rng();
    let skip = g.below(4);
    for _ in 0..skip { moledyn::random_mod::get_uniform(&mut rng); }
    let inplace = g.chance(0.5);
    let n = if inplace && g.chance(0.15) { g.below(8) } else { dim };
    let before = g.vec(n);
    let mut v = Position::new(before.clone());
    if inplace && g.chance(0.2) && n == dim { for x in v.coordinate.iter_mut() { *x = g.pick(&[f64::NAN, f64::INFINITY, 1e9, 0.0]); } }
    g.note("in place", &inplace); g.note("vector", &v.coordinate);
    let mut o = rng.clone();
    let rounds = g.pick(&[1, 1, 5]);
    for _ in 0..rounds {
        let x = if inplace {
            let r = s.core().random_pos_to_vec(&mut rng, &mut v);
            if n != dim {
                check!(r.is_err(), "vector of dimension {} accepted", n);
                check!(v.coordinate == before, "rejected vector modified to {:?}", v.coordinate);
                check!(is_code(&r.unwrap_err(), ErrorCode::InvalidDimension), "wrong error code");
                return Ok(());
            }
            r.map_err(|e| format!("error {}", e))?;
            v.coordinate.clone()
        } else { s.core().random_pos(&mut rng).map_err(|e| format!("error {}", e))?.coordinate };
        check!(x.len() == dim, "dimension {}", x.len());
        check!(s.member(&x) != Some(false), "outside the system: {:?}", x);
        check!(s.core().check_inclusion(&Position::new(x.clone())) == Ok(true), "outside by the inclusion test: {:?}", x);
        let mut done = false;
        for _ in 0..100000 {
            let u: Vec<f64> = (0..dim).map(|_| moledyn::random_mod::get_uniform(&mut o)).collect();
            let up: Vec<f64> = (0..dim).map(|i| s.bound(i) * (2.0 * u[i] - 1.0)).collect();
            let same = (0..dim).all(|i| (x[i] - up[i]).abs() <= 1e-9 * s.bound(i));
            let flip = (0..dim).all(|i| (x[i] + up[i]).abs() <= 1e-9 * s.bound(i));
            if same || flip { done = true; break; }
            check!(s.member(&up) != Some(true), "draw {:?} lies inside but {:?} was returned", up, x);
        }
        check!(done, "not the affine image of fresh draws: {:?}", x);
    }
    Ok(())
}

pub fn c05(g: &mut Gen) -> Res {
    let dim = g.pick(&[1usize, 1, 2, 2, 3, 4, 5, 7, 10]);
    let s = system(g, |g| match g.below(3) { 0 => { let e = g.range(-100, 100) as i32; (0.1 + g.unit()) * 10f64.powi(e) } _ => ordinary_size(g) }, dim);
    let p = s.core().position_out_of_system();
    check!(p.dim() == dim, "dimension {}", p.dim());
    check!(s.core().check_inclusion(&p) == Ok(false), "inside by the inclusion test: {:?}", p.coordinate);
    check!(s.member(&p.coordinate) != Some(true), "inside the domain: {:?}", p.coordinate);
    let n = if g.chance(0.2) { g.below(8) } else { dim };
    let before = g.vec(n);
    g.note("vector", &before);
    let mut v = Position::new(before.clone());
    match s.core().position_out_of_system_to_vec(&mut v) {
        Ok(()) => { check!(n == dim, "vector of dimension {} accepted", n); check!(v.coordinate == p.coordinate, "writes {:?} instead of {:?}", v.coordinate, p.coordinate); }
        Err(e) => { check!(n != dim, "vector of the right dimension rejected"); check!(is_code(&e, ErrorCode::InvalidDimension), "wrong error {}", e); check!(v.coordinate == before, "rejected vector modified"); }
    }
    Ok(())
}

pub fn c30(g: &mut Gen) -> Res {
    let size = |g: &mut Gen| match g.below(4) { 0 => g.any(), 1 => g.pick(&[0.0, -0.0, -1.0, f64::NAN, 5e-324, f64::NEG_INFINITY, -1e-300]), _ => ordinary_size(g) };
    let (a, b) = (size(g), size(g));
    let dim = g.below(6);
    let d = if g.chance(0.15) { usize::max_value() } else { g.below(8) };
    let d2 = if g.chance(0.8) { d } else { g.below(8) };
    let args = g.chance(0.5);
    let bc = match g.below(3) { 0 => BoundaryCond::Periodic, 1 => BoundaryCond::Reflection, _ => BoundaryCond::Mixed(d) };
    let types = [SystemType::ContinuousCircular, SystemType::ContinuousRectangular, SystemType::ContinuousCylindrical(d), SystemType::Lattice, SystemType::Network];
    g.note("from arguments", &args); g.note("sizes", &(a, b)); g.note("dim", &dim); g.note("bc", &bc); g.note("split", &(d, d2));
    match g.below(3) {
        0 => {
            g.note("shape", &"circ");
            let r = caught(|| if args { ContCircSystem::convert_from(&ContCircSystemArguments::new(a, dim)) } else { ContCircSystem::new(a, dim) });
            let ok = a > 0.0 && dim > 0;
            check!(r.is_ok() == ok, "constructed: {}, valid: {}", r.is_ok(), ok);
            if let Ok(s) = r { check!(s.sys_size == a && s.dim == dim && s.sys_type == SystemType::ContinuousCircular && s.bctype == BoundaryCond::Reflection, "built {:?}", s); }
        }
        1 => {
            g.note("shape", &"cubic");
            let r = caught(|| if args { ContCubicSystem::convert_from(&ContCubicSystemArguments::new(bc, a, dim)) } else { ContCubicSystem::new(bc, a, dim) });
            let ok = a > 0.0 && dim > 0 && match bc { BoundaryCond::Mixed(d) => d <= dim, _ => true };
            check!(r.is_ok() == ok, "constructed: {}, valid: {}", r.is_ok(), ok);
            if let Ok(s) = r { check!(s.sys_size == a && s.dim == dim && s.sys_type == SystemType::ContinuousRectangular && s.bctype == bc, "built {:?}", s); }
        }
        _ => {
            g.note("shape", &"cyl");
            let ty = if g.chance(0.8) { SystemType::ContinuousCylindrical(d) } else { g.pick(&types) };
            let bc = if g.chance(0.8) { BoundaryCond::Mixed(d2) } else { bc };
            g.note("type", &ty); g.note("bc", &bc);
            let r = caught(|| if args { ContCylindricalSystem::convert_from(&ContCylindricalSystemArguments::new(ty, bc, a, b, dim)) } else { ContCylindricalSystem::new(d, a, b, dim) });
            let sizes = a > 0.0 && b > 0.0 && dim > 0 && d <= dim;
            let ok = sizes && (!args || ty == SystemType::ContinuousCylindrical(d) && bc == BoundaryCond::Mixed(d));
            check!(r.is_ok() == ok, "constructed: {}, valid: {}", r.is_ok(), ok);
            if let Ok(s) = r { check!(s.sys_radius == a && s.sys_length == b && s.dim == dim && s.sys_type == SystemType::ContinuousCylindrical(d) && s.bctype == BoundaryCond::Mixed(d), "built {:?}", s); }
        }
    }
    Ok(())
}
