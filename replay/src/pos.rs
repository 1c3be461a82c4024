//! Positions and bulk targets.
use crate::check;
use crate::gen::*;
use moledyn::prelude::*;
use std::ops::{Add, Sub};

fn dist(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt() }
fn exact(v: &[f64]) -> bool { v.iter().all(|c| (c * 1024.0).fract() == 0.0 && c.abs() < 1000.0) }

pub fn c06(g: &mut Gen) -> Res {
    let n = g.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 6]);
    let m = if g.chance(0.15) { g.below(7) } else { n };
    let c = g.vec(n);
    let mut r = if g.chance(0.3) { g.f() } else { g.positive() };
    let mut p = g.vec(m);
    if n == m && n > 0 && g.chance(0.4) {
        // at or next to the rim
        let k = g.below(n);
        p = c.clone();
        if n > 1 && g.chance(0.5) { let j = (k + 1) % n; let u = g.pick(&[1.0, 0.5, 0.25]); p[k] += 3.0 * u; p[j] += 4.0 * u; r = g.pick(&[5.0 * u, 5.0 * u, 5.0 * u * (1.0 + 1e-6), 5.0 * u * (1.0 - 1e-6)]); }
        else { p[k] += g.pick(&[1.0, -1.0]) * r * g.pick(&[1.0, 1.0, 1.0 + 1e-6, 1.0 - 1e-6]); }
    }
    g.note("centre", &c); g.note("radius", &r); g.note("pos", &p);
    let t = ContBulkTarget::new(Position::new(c.clone()), r);
    let q = Position::new(p.clone());
    let f = t.check_find(&q);
    let d = t.distance(&q);
    check!(q.coordinate == p && t.target_pos.coordinate == c && t.target_size == r, "operand modified");
    if n != m {
        check!(f.is_err() && d.is_err(), "no error for dimensions {} and {}: {:?} {:?}", n, m, f, d);
        check!(is_code(&f.unwrap_err(), ErrorCode::InvalidDimension) && is_code(&d.unwrap_err(), ErrorCode::InvalidDimension), "wrong error code");
        return Ok(());
    }
    let e = dist(&c, &p);
    let f = f.map_err(|e| format!("error {}", e))?;
    let d = d.map_err(|e| format!("error {}", e))?;
    check!(close(d, e, 0.0), "distance {} instead of {}", d, e);
    if (e - r).abs() > 1e-9 * (e.abs() + r.abs()) { check!(f == (e < r), "found {} at distance {} with radius {}", f, e, r); }
    else if exact(&c) && exact(&p) && exact(&[r]) {
        let s: f64 = c.iter().zip(&p).map(|(a, b)| (a - b) * (a - b)).sum();
        check!(f == (r > 0.0 && s < r * r), "found {} at distance {} with radius {}", f, e, r);
    }
    Ok(())
}

pub fn c07(g: &mut Gen) -> Res {
    let n = g.pick(&[0usize, 1, 2, 2, 3, 3, 4, 5, 7]);
    let m = if g.chance(0.25) { g.below(8) } else { n };
    if g.chance(0.6) {
        let a = g.vec(n); let b = g.vec(m); let s = g.f();
        g.note("a", &a); g.note("b", &b); g.note("s", &s);
        let p = Position::new(a.clone()); let q = Position::new(b.clone());
        let un = |p: &Position<f64>, q: &Position<f64>| p.coordinate == a && q.coordinate == b;
        let eqv = |p: &Position<f64>, f: &dyn Fn(usize) -> f64| p.dim() == n && (0..n).all(|i| p.coordinate[i] == f(i));
        for &sub in &[false, true] {
            let e = |i: usize| if sub { a[i] - b[i] } else { a[i] + b[i] };
            let nm = if sub { "sub" } else { "add" };
            let r = caught(|| if sub { &p - &q } else { &p + &q });
            check!(un(&p, &q), "{} modified an operand", nm);
            check!(r.is_ok() == (n == m), "{} of dimensions {} and {} returned: {}", nm, n, m, r.is_ok());
            if let Ok(r) = r { check!(eqv(&r, &e), "{} gives {:?}", nm, r.coordinate); }
            let mut x = p.clone(); let mut y = q.clone();
            let r = caught(|| if sub { Sub::sub(&mut x, &mut y) } else { Add::add(&mut x, &mut y) });
            check!(un(&x, &y), "{} by mutable reference modified an operand", nm);
            check!(r.is_ok() == (n == m), "{} by mutable reference of dimensions {} and {} returned: {}", nm, n, m, r.is_ok());
            if let Ok(r) = r { check!(eqv(&r, &e), "{} by mutable reference gives {:?}", nm, r.coordinate); }
            let mut x = p.clone();
            let r = caught(|| if sub { x.mut_sub(&q) } else { x.mut_add(&q) });
            check!(q.coordinate == b, "in-place {} modified the other operand", nm);
            check!(r.is_ok() == (n == m), "in-place {} of dimensions {} and {} returned: {}", nm, n, m, r.is_ok());
            if r.is_ok() { check!(eqv(&x, &e), "in-place {} gives {:?}", nm, x.coordinate); }
        }
        let r = p.scalar_mul(s);
        check!(p.coordinate == a && eqv(&r, &|i| a[i] * s), "scalar_mul gives {:?}", r.coordinate);
        let mut x = p.clone(); x.mut_scalar_mul(s);
        check!(eqv(&x, &|i| a[i] * s), "mut_scalar_mul gives {:?}", x.coordinate);
        let nn = dist(&a, &vec![0.0; n]);
        check!(close(p.norm(), nn, 0.0), "norm {} instead of {}", p.norm(), nn);
        let d = p.distance(&q); let ip = p.inner_product(&q);
        check!(un(&p, &q), "distance or inner product modified an operand");
        if n != m {
            check!(d.is_err() && ip.is_err(), "distance or inner product of dimensions {} and {} succeeded", n, m);
            check!(is_code(&d.unwrap_err(), ErrorCode::InvalidDimension) && is_code(&ip.unwrap_err(), ErrorCode::InvalidDimension), "wrong error code");
        } else {
            let d = d.map_err(|e| format!("distance: {}", e))?; let ip = ip.map_err(|e| format!("inner product: {}", e))?;
            check!(close(d, dist(&a, &b), 0.0), "distance {} instead of {}", d, dist(&a, &b));
            let e: f64 = a.iter().zip(&b).map(|(x, y)| x * y).sum();
            let sc: f64 = a.iter().zip(&b).map(|(x, y)| (x * y).abs()).sum();
            check!(close(ip, e, sc), "inner product {} instead of {}", ip, e);
        }
        let mut x = p.clone(); x.clear();
        check!(eqv(&x, &|_| 0.0), "clear gives {:?}", x.coordinate);
        check!(p.dim() == n, "dim");
    } else {
        let big = g.chance(0.3);
        let v = |g: &mut Gen| if big { match g.below(4) { 0 => g.range(-(1 << 31), (1 << 31) - 1), 1 => g.pick(&[i32::max_value() as i64, i32::min_value() as i64, 0, 1, -1]), _ => g.range(-70000, 70000) } } else { g.range(-20, 20) } as i32;
        let a: Vec<i32> = (0..n).map(|_| v(g)).collect();
        let b: Vec<i32> = (0..m).map(|_| v(g)).collect();
        let s = g.range(-30, 30) as i32;
        g.note("a", &a); g.note("b", &b); g.note("s", &s);
        let p = Position::new(a.clone()); let q = Position::new(b.clone());
        let un = |p: &Position<i32>, q: &Position<i32>| p.coordinate == a && q.coordinate == b;
        let fits = |x: i64| x >= i32::min_value() as i64 && x <= i32::max_value() as i64;
        for &sub in &[false, true] {
            let k = n.min(m);
            let e: Vec<i64> = (0..k).map(|i| if sub { a[i] as i64 - b[i] as i64 } else { a[i] as i64 + b[i] as i64 }).collect();
            if !e.iter().all(|&x| fits(x)) { continue; }
            let ex: Vec<i32> = e.iter().map(|&x| x as i32).collect();
            let nm = if sub { "sub" } else { "add" };
            let r = caught(|| if sub { &p - &q } else { &p + &q });
            check!(un(&p, &q), "{} modified an operand", nm);
            check!(r.is_ok() == (n == m), "{} of dimensions {} and {} returned: {}", nm, n, m, r.is_ok());
            if let Ok(r) = r { check!(r.coordinate == ex, "{} gives {:?}", nm, r.coordinate); }
            let mut x = p.clone(); let mut y = q.clone();
            let r = caught(|| if sub { Sub::sub(&mut x, &mut y) } else { Add::add(&mut x, &mut y) });
            check!(un(&x, &y), "{} by mutable reference modified an operand", nm);
            check!(r.is_ok() == (n == m), "{} by mutable reference of dimensions {} and {} returned: {}", nm, n, m, r.is_ok());
            if let Ok(r) = r { check!(r.coordinate == ex, "{} by mutable reference gives {:?}", nm, r.coordinate); }
            let mut x = p.clone();
            let r = caught(|| if sub { x.mut_sub(&q) } else { x.mut_add(&q) });
            check!(r.is_ok() == (n == m), "in-place {} of dimensions {} and {} returned: {}", nm, n, m, r.is_ok());
            if r.is_ok() { check!(x.coordinate == ex && q.coordinate == b, "in-place {} gives {:?}", nm, x.coordinate); }
        }
        let e: Vec<i64> = a.iter().map(|&x| x as i64 * s as i64).collect();
        if e.iter().all(|&x| fits(x)) {
            let ex: Vec<i32> = e.iter().map(|&x| x as i32).collect();
            check!(p.scalar_mul(s).coordinate == ex && p.coordinate == a, "scalar_mul");
            let mut x = p.clone(); x.mut_scalar_mul(s);
            check!(x.coordinate == ex, "mut_scalar_mul gives {:?}", x.coordinate);
        }
        let fa: Vec<f64> = a.iter().map(|&x| x as f64).collect();
        let fb: Vec<f64> = b.iter().map(|&x| x as f64).collect();
        let nn = dist(&fa, &vec![0.0; n]);
        let r = caught(|| p.norm()).map_err(|e| format!("norm panicked: {}", e))?;
        check!(close(r, nn, 0.0), "norm {} instead of {}", r, nn);
        let d = caught(|| p.distance(&q)).map_err(|e| format!("distance panicked: {}", e))?;
        let taxi: i64 = a.iter().zip(&b).map(|(x, y)| (*x as i64 - *y as i64).abs()).sum();
        let t = if n != m || fits(taxi) { Some(caught(|| p.taxi_distance(&q)).map_err(|e| format!("taxi distance panicked: {}", e))?) } else { None };
        check!(un(&p, &q), "distance modified an operand");
        if n != m {
            check!(is_code(&d.err().ok_or("distance of different dimensions succeeded")?, ErrorCode::InvalidDimension), "wrong error code");
            check!(is_code(&t.unwrap().err().ok_or("taxi distance of different dimensions succeeded")?, ErrorCode::InvalidDimension), "wrong error code");
        } else {
            let d = d.map_err(|e| format!("distance: {}", e))?;
            check!(close(d, dist(&fa, &fb), 0.0), "distance {} instead of {}", d, dist(&fa, &fb));
            if let Some(t) = t { let t = t.map_err(|e| format!("taxi: {}", e))?; check!(t as i64 == taxi, "taxi distance {} instead of {}", t, taxi); }
        }
        let mut x = p.clone(); x.clear();
        check!(x.coordinate == vec![0; n], "clear gives {:?}", x.coordinate);
    }
    Ok(())
}
