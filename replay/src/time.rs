//! Time iterators.
use crate::check;
use crate::gen::*;
use moledyn::prelude::*;

fn limit(g: &mut Gen) -> f64 { match g.below(8) { 0 => 0.0, 1 => g.pick(&[1e-16, 1e-11, 1e-9, 1e-14, 9.9e-11, 1e-10, 1e-15]), 2 => g.any(), 3 => -g.positive(), _ => { let e = g.range(-2, 3) as i32; g.unit() * 10f64.powi(e) } } }
fn stepsize(g: &mut Gen) -> f64 { match g.below(6) { 0 => g.any(), 1 => g.pick(&[0.0, -1.0, 1e-15, 1e-16, f64::NAN, 0.25, 0.5, 1.0]), 2 => g.pick(&[0.25, 0.5, 0.125, 1.0]), _ => { let e = g.range(-3, 1) as i32; (0.01 + g.unit()) * 10f64.powi(e) } } }

/// sequence of one iterator against the property
fn run<T: Iterator<Item = f64> + TimeIterator>(it: &mut T, tmax: Option<f64>, steps: usize) -> Result<Vec<f64>, String> {
    let mut out = vec![];
    let mut due = 0.0f64;
    let exceeds = |t: f64| match tmax { Some(m) => t > m, None => t > f64::MAX };
    for k in 0..steps {
        check!(it.current_time() == due, "current time {} instead of {}", it.current_time(), due);
        match it.next() {
            Some(t) => {
                check!(t == due, "time {} is {} instead of {}", k, t, due);
                check!(!exceeds(t), "time {} passes the limit {:?}", t, tmax);
                out.push(t);
                let dt = it.dt();
                check!(dt > 0.0, "step {}", dt);
                check!(it.current_time() == t + dt, "next time {} is not {} + {}", it.current_time(), t, dt);
                due = t + dt;
            }
            None => {
                check!(exceeds(due), "ended at {} below the limit {:?}", due, tmax);
                for _ in 0..3 { check!(it.next().is_none(), "yields a time after the end"); }
                return Ok(out);
            }
        }
    }
    Ok(out)
}

pub fn c16(g: &mut Gen) -> Res {
    let (dt, tm) = (stepsize(g), limit(g));
    let steps = g.pick(&[5, 40, 200]);
    let args = g.chance(0.4);
    g.note("from arguments", &args); g.note("step", &dt); g.note("limit", &tm);
    let norm = |t: f64, tiny: f64| if t < tiny { None } else { Some(t) };
    if g.chance(0.5) {
        let ok_dt = dt >= 1e-15; let ok_t = tm >= 0.0;
        let mut it = if args {
            let r = caught(|| ConstStep::convert_from(&ConstStepArguments::new(dt, tm)));
            check!(r.is_ok() == (ok_dt && ok_t), "constructed: {}", r.is_ok());
            match r { Ok(x) => x, Err(_) => return Ok(()) }
        } else {
            let r = ConstStep::new(dt);
            check!(r.is_ok() == ok_dt, "constructed: {}", r.is_ok());
            let mut it = match r { Ok(x) => x, Err(_) => return Ok(()) };
            let before = it.clone();
            let r = it.set_tmax(tm);
            check!(r.is_ok() == ok_t, "limit accepted: {}", r.is_ok());
            if !ok_t { check!(format!("{:?}", it) == format!("{:?}", before), "rejected limit changed the iterator"); return Ok(()); }
            it
        };
        check!(it.dt() == dt && it.titype == TimeType::Constant(dt), "fields {:?}", it);
        let lim = norm(tm, 1e-10);
        let cfg = it.clone();
        let a = run(&mut it, lim, steps)?;
        for w in a.windows(2) { check!(w[1] == w[0] + dt, "times {:?}", w); }
        it.renew();
        check!(format!("{:?}", it) == format!("{:?}", cfg), "renewing gives {:?} instead of {:?}", it, cfg);
        let b = run(&mut it, lim, steps)?;
        check!(a == b, "renewed sequence differs");
        // limit changed in between
        let t2 = g.positive();
        it.renew();
        it.set_tmax(t2).map_err(|e| e.to_string())?;
        run(&mut it, norm(t2, 1e-10), steps)?;
    } else {
        let mx = if g.chance(0.2) { stepsize(g) } else { dt * (1.0 + 50.0 * g.unit()) };
        let len = g.pick(&[0usize, 1, 2, 3, 9, 10, 11, 12, 30]);
        g.note("max step", &mx); g.note("length", &len);
        let ok_t = tm >= 0.0;
        let mut it = if args {
            let ok = dt >= 1e-15 && dt <= mx && len >= 10 && ok_t;
            let r = caught(|| ExponentialStep::convert_from(&ExponentialStepArguments::new(dt, mx, len, tm)));
            check!(r.is_ok() == ok || len > 0 && len < 10 && r.is_ok(), "constructed: {}", r.is_ok());
            match r { Ok(x) => x, Err(_) => return Ok(()) }
        } else {
            let r = ExponentialStep::new(dt, mx, len);
            check!(r.is_ok() == (dt >= 1e-15 && dt <= mx && len > 0), "constructed: {}", r.is_ok());
            let mut it = match r { Ok(x) => x, Err(_) => return Ok(()) };
            let before = it.clone();
            let r = it.set_tmax(tm);
            check!(r.is_ok() == ok_t, "limit accepted: {}", r.is_ok());
            if !ok_t { check!(format!("{:?}", it) == format!("{:?}", before), "rejected limit changed the iterator"); return Ok(()); }
            it
        };
        check!(it.dt() == dt && it.titype == TimeType::Exponential(dt, mx, len), "fields {:?}", it);
        let lim = norm(tm, 1e-15);
        let cfg = it.clone();
        let a = run(&mut it, lim, steps)?;
        it.renew();
        check!(format!("{:?}", it) == format!("{:?}", cfg), "renewing gives {:?} instead of {:?}", it, cfg);
        let b = run(&mut it, lim, steps)?;
        check!(a == b, "renewed sequence differs");
    }
    Ok(())
}

fn good_exp(g: &mut Gen) -> Option<ExponentialStep> {
    let mn = { let e = g.range(-4, 0) as i32; (0.1 + g.unit()) * 10f64.powi(e) };
    let mx = mn * g.pick(&[1.0, 1.1, 3.0, 10.0, 100.0, 1000.0]);
    let len = g.pick(&[1usize, 2, 3, 4, 5, 9, 10, 11, 15, 20]);
    let args = g.chance(0.3);
    g.note("exponential", &(mn, mx, len, args));
    let mut it = if args { if len < 10 { return None; } ExponentialStep::convert_from(&ExponentialStepArguments::new(mn, mx, len, 0.0)) } else { ExponentialStep::new(mn, mx, len).ok()? };
    if g.chance(0.4) { let inc = 1.0 + 3.0 * g.unit(); g.note("set_inc", &inc); it.set_inc(inc).ok()?; }
    if g.chance(0.3) { let t = mn * (5.0 + 300.0 * g.unit()); g.note("limit", &t); it.set_tmax(t).ok()?; }
    Some(it)
}

pub fn c17(g: &mut Gen) -> Res {
    if g.chance(0.3) {
        let (mn, mx, len) = (stepsize(g), stepsize(g), g.pick(&[0usize, 1, 2, 3, 9, 10, 50]));
        g.note("range", &(mn, mx, len));
        let r = ExponentialStep::new(mn, mx, len);
        let ok = mn >= 1e-15 && mn <= mx && len > 0;
        check!(r.is_ok() == ok, "constructed: {}", r.is_ok());
        let r2 = caught(|| ExponentialStep::convert_from(&ExponentialStepArguments::new(mn, mx, len, 1.0)));
        check!(!r2.is_ok() || ok, "invalid schedule built from arguments");
        check!(r2.is_ok() || !ok || len < 10, "valid schedule rejected");
        for mut it in r.ok().into_iter().chain(r2.ok()) {
            check!(it.inc > 1.0, "increase ratio {}", it.inc);
            let inc = match g.below(3) { 0 => g.any(), 1 => g.pick(&[1.0, 0.5, 0.0, -1.0, f64::NAN, 1.0 + f64::EPSILON]), _ => 1.0 + 5.0 * g.unit() };
            g.note("set_inc", &inc);
            let before = it.clone();
            let r = it.set_inc(inc);
            check!(r.is_ok() == (inc > 1.0), "ratio {} accepted: {}", inc, r.is_ok());
            if r.is_err() { check!(it == before, "rejected ratio changed the schedule"); }
            check!(it.inc > 1.0 && (r.is_err() || it.inc <= inc), "increase ratio {} after set_inc({})", it.inc, inc);
        }
        return Ok(());
    }
    let mut it = match good_exp(g) { Some(x) => x, None => { g.trivial = true; return Ok(()); } };
    check!(it.inc > 1.0, "increase ratio {}", it.inc);
    let (mn, mx, len) = match it.titype { TimeType::Exponential(a, b, c) => (a, b, c), _ => return Err("type".to_string()) };
    let start = it.clone();
    let rounds = 2;
    for _ in 0..rounds {
        let mut dt = mn; let mut cnt = 0;
        for k in 0..120 {
            if cnt == len && dt < mx { dt *= it.inc; if dt > mx { dt = mx; } cnt = 0; }
            if it.next().is_none() { break; }
            cnt += 1;
            let e = it.dt();
            check!(e >= mn && e <= mx, "step {} outside [{}, {}]", e, mn, mx);
            check!(close(e, dt, 0.0), "step {} is {} instead of {}", k, e, dt);
        }
        it.renew();
        check!(it == start, "renewing gives {:?} instead of {:?}", it, start);
    }
    Ok(())
}

fn diff<T: Iterator<Item = f64> + TimeIterator + Clone + PartialEq + std::fmt::Debug>(g: &mut Gen, mut it: T) -> Res {
    let skip = g.pick(&[0, 0, 1, 5, 12]);
    g.note("already taken", &skip);
    for _ in 0..skip { it.next(); }
    let before = it.clone();
    let d: Vec<(f64, f64)> = it.into_diff().take(100).collect();
    check!(it == before, "original changed");
    let ts: Vec<f64> = it.clone().take(100).collect();
    check!(d.len() == ts.len(), "{} pairs for {} times", d.len(), ts.len());
    let mut o = it.clone();
    for k in 0..d.len() {
        check!(d[k].0 == ts[k], "time {} is {} instead of {}", k, d[k].0, ts[k]);
        o.next();
        let e = o.current_time();
        check!(d[k].0 + d[k].1 == e, "time {} with step {} but the next time is {}", d[k].0, d[k].1, e);
        if k + 1 < d.len() { check!(d[k].0 + d[k].1 == d[k + 1].0, "time {} with step {} followed by {}", d[k].0, d[k].1, d[k + 1].0); }
    }
    Ok(())
}

pub fn c18(g: &mut Gen) -> Res {
    if g.chance(0.3) {
        let dt = 0.001 + g.unit();
        let mut it = ConstStep::new(dt).map_err(|e| e.to_string())?;
        if g.chance(0.5) { let t = 30.0 * g.unit(); g.note("limit", &t); it.set_tmax(t).map_err(|e| e.to_string())?; }
        g.note("constant", &dt);
        diff(g, it)
    } else {
        match good_exp(g) { Some(it) => diff(g, it), None => { g.trivial = true; Ok(()) } }
    }
}
