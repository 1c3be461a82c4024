//! Histogram analyses, observed through their Debug output and exports.
use crate::check;
use crate::gen::*;
use moledyn::analysis::{Pair, VarN, VarTime};
use moledyn::prelude::*;
use std::fmt::Debug;

/// one field of a Debug-printed structure: nested lists of numbers
#[derive(Clone, Debug)]
enum N { V(f64), L(Vec<N>) }
impl N {
    fn f(&self) -> f64 { match self { N::V(x) => *x, _ => f64::NAN } }
    fn l(&self) -> &[N] { match self { N::L(x) => x, _ => &[] } }
    fn fs(&self) -> Vec<f64> { self.l().iter().map(|x| x.f()).collect() }
}
fn parse(s: &[u8], i: &mut usize) -> N {
    if s[*i] == b'[' {
        *i += 1;
        let mut v = vec![];
        while s[*i] != b']' { if s[*i] == b',' || s[*i] == b' ' { *i += 1; continue; } v.push(parse(s, i)); }
        *i += 1;
        return N::L(v);
    }
    let a = *i;
    while *i < s.len() && !b",] }".contains(&s[*i]) { *i += 1; }
    N::V(std::str::from_utf8(&s[a..*i]).unwrap().parse().unwrap_or(f64::NAN))
}
pub struct D(String);
impl D {
    fn of<T: Debug>(t: &T) -> D { D(format!("{:?}", t)) }
    fn get(&self, name: &str) -> N {
        let pat1 = format!("{{ {}: ", name); let pat2 = format!(", {}: ", name);
        let i = self.0.find(&pat1).map(|i| i + pat1.len()).or(self.0.find(&pat2).map(|i| i + pat2.len()));
        match i { Some(mut i) => parse(self.0.as_bytes(), &mut i), None => { crate::gen::UNOBSERVED.with(|u| u.set(true)); N::V(f64::NAN) } }
    }
    fn f(&self, name: &str) -> f64 { self.get(name).f() }
}

#[derive(Clone, Debug)]
struct Conf { by_num: bool, min: f64, max: f64, bin: f64, lbin: f64, num: usize }
fn conf(g: &mut Gen, wild: bool) -> Conf {
    let mut min = match g.below(5) { 0 => 0.0, 1 => g.pick(&[1e-3, 0.1, 1.0, 0.5]), _ => 2.0 * g.unit() };
    let mut max = min + match g.below(3) { 0 => g.pick(&[1.0, 10.0, 5.0, 0.5]), _ => 20.0 * g.unit() + 1e-3 };
    let mut bin = match g.below(3) { 0 => g.pick(&[0.1, 0.5, 1.0, 0.25, 2.0]), _ => (max - min) * (0.005 + g.unit()) };
    let sc = g.scale(0.2, 5);
    min *= sc; max *= sc; bin *= sc;
    let mut lbin = match g.below(3) { 0 => g.pick(&[1.2, 2.0, 1.1, 1.5, 10.0]), _ => 1.02 + 2.0 * g.unit() };
    let mut num = g.range(10, 60) as usize;
    if wild {
        if g.chance(0.3) { min = g.pick(&[-1.0, -1e-20, f64::NAN, f64::INFINITY, 1e-16, 1e-15, 100.0, 5e-324, 0.0, -0.0]); }
        if g.chance(0.3) { max = if g.chance(0.5) { g.any() } else { g.pick(&[min, 0.0, -1.0, f64::NAN, f64::INFINITY, 1e13, 1e-15]) }; }
        if g.chance(0.3) { bin = g.pick(&[0.0, -0.1, f64::NAN, f64::INFINITY, 1e300, -1.0, 100.0]); }
        if g.chance(0.3) { lbin = g.pick(&[1.0, 0.9, 0.0, -2.0, f64::NAN, f64::INFINITY, 1e300, 1.0001]); }
        if g.chance(0.3) { num = g.below(13); }
    }
    let c = Conf { by_num: g.chance(0.4), min, max, bin, lbin, num };
    g.note("configuration", &c);
    c
}
impl Conf {
    fn time(&self) -> f64 { if self.min < 1e-15 { 1e-15 } else { self.min } }
    fn valid(&self) -> bool {
        let range = self.min >= 0.0 && self.max.is_finite() && self.max > self.time();
        range && if self.by_num { self.num >= 10 } else { self.bin > 0.0 && self.lbin > 1.0 && self.bin.is_finite() && self.lbin.is_finite() }
    }
    fn apply<B: Bin>(&self, b: &mut B) -> Result<(), Error> {
        if self.by_num { b.update_from_num_bin(self.min, self.max, self.num) } else { b.update_from_bin_size(self.min, self.max, self.bin, self.lbin) }
    }
}
fn sample(g: &mut Gen, d: &D) -> f64 {
    let (min, max, bin, lbin) = (d.f("min_time"), d.f("max_time"), d.f("bin_size"), d.f("lbin_size"));
    let x = match g.below(9) {
        0 => min, 1 => max,
        2 => min + bin * g.range(0, 60) as f64,
        3 => min * lbin.powi(g.range(0, 40) as i32),
        4 => g.pick(&[0.0, -1.0, 1e15, -1e15, max * (1.0 + 1e-15), min * (1.0 - 1e-15), 1e308, -1e308]),
        5 => min + bin * g.unit(),
        6 => g.f(),
        _ => min + (max - min) * g.unit(),
    };
    if x.is_finite() { x } else { min }
}
/// acceptable bin indices of a sample (two when rounding may decide), empty outside the range
fn bins(d: &D, x: f64, log: bool) -> Vec<usize> {
    let (min, max) = (d.f("min_time"), d.f("max_time"));
    if !(x >= min && x <= max) { return vec![]; }
    let (p, n) = if log { ((x / min).log2() / d.f("lbin_size").log2(), d.f("num_lbin") as usize) } else { ((x - min) / d.f("bin_size"), d.f("num_bin") as usize) };
    let p = p.max(0.0);
    let tol = 1e-9 * p.max(1.0) + if log { 1e-13 / d.f("lbin_size").log2() } else { 0.0 };
    let mut v = vec![(p.floor() as usize).min(n - 1)];
    for q in &[(p - tol).max(0.0).floor() as usize, (p + tol).floor() as usize] { let q = (*q).min(n - 1); if !v.contains(&q) { v.push(q); } }
    v
}
/// exactly one of the acceptable bins grew by one
fn counted(before: &[f64], after: &[f64], ok: &[usize], what: &str, x: f64) -> Res {
    check!(before.len() == after.len(), "{} bins resized", what);
    let diff: Vec<(usize, f64)> = (0..after.len()).filter(|&i| before[i] != after[i]).map(|i| (i, after[i] - before[i])).collect();
    if ok.is_empty() { check!(diff.is_empty(), "sample {} outside the range counted in {} bins {:?}", x, what, diff); }
    else { check!(diff.len() == 1 && diff[0].1 == 1.0 && ok.contains(&diff[0].0), "sample {} belongs to {} bin {:?} but counted in {:?}", x, what, ok, diff); }
    Ok(())
}
fn setup<B: Bin + Debug>(b: &mut B, c: &Conf) -> Result<bool, String> {
    let before = format!("{:?}", b);
    let r = caught(|| c.apply(b)).map_err(|e| format!("configuration panicked: {}", e))?;
    check!(r.is_ok() == c.valid(), "configuration accepted: {}, valid: {}", r.is_ok(), c.valid());
    if r.is_err() { check!(format!("{:?}", b) == before, "rejected configuration changed the analysis"); return Ok(false); }
    let d = D::of(b);
    check!(d.f("min_time") == c.time() && d.f("max_time") == c.max, "range [{}, {}]", d.f("min_time"), d.f("max_time"));
    if c.by_num { check!(d.f("num_bin") == c.num as f64 && d.f("num_lbin") == c.num as f64, "bins {} {}", d.f("num_bin"), d.f("num_lbin")); check!(close(d.f("bin_size"), (c.max - c.time()) / c.num as f64, 0.0), "bin size {}", d.f("bin_size")); }
    else { check!(d.f("bin_size") == c.bin && d.f("lbin_size") == c.lbin, "bin sizes"); }
    if d.f("num_bin") > 2e4 || d.f("num_lbin") > 2e4 || d.f("num_bin") < 1.0 { check!(d.f("num_bin") >= 1.0 && d.f("num_lbin") >= 1.0, "no bins"); return Ok(false); }
    b.allocate_vectors();
    Ok(true)
}
/// fewer rounds for many bins
fn few<B: Debug>(b: &B, rounds: usize) -> usize { let d = D::of(b); let n = d.f("num_bin").max(d.f("num_lbin")); if n > 3000.0 { 1 } else if n > 200.0 { rounds.min(5) } else { rounds } }
fn pair(t: f64, v: f64) -> Result<Pair<f64>, String> { format!("({:e},{:e})", t, v).parse::<Pair<f64>>().map_err(|e| e.to_string()) }

pub fn c19(g: &mut Gen) -> Res {
    let wild = g.chance(0.4);
    let c = conf(g, wild);
    let k = g.below(3);
    g.note("analysis", &k);
    let rounds = g.pick(&[1, 1, 3, 3, 8, 8, 8, 40]);
    match k {
        0 => {
            let mut a = TimeAnalysis::default();
            if !setup(&mut a, &c)? { return Ok(()); }
            for _ in 0..few(&a, rounds) {
                let d = D::of(&a);
                let x = sample(g, &d);
                g.note("sample", &x);
                caught(|| Var1::add_ensemble(&mut a, x)).map_err(|e| format!("recording panicked: {}", e))?;
                let e = D::of(&a);
                check!(e.f("ensemble") == d.f("ensemble") + 1.0, "ensemble count {}", e.f("ensemble"));
                check!(same(e.f("mean"), d.f("mean") + x) && same(e.f("stddev"), d.f("stddev") + x * x), "running sums");
                counted(&d.get("count").fs(), &e.get("count").fs(), &bins(&d, x, false), "linear", x)?;
                counted(&d.get("lcount").fs(), &e.get("lcount").fs(), &bins(&d, x, true), "logarithmic", x)?;
            }
        }
        1 => {
            let mut a = TimeVecAnalysis::default();
            if !setup(&mut a, &c)? { return Ok(()); }
            for _ in 0..few(&a, rounds) {
                let d = D::of(&a);
                let xs: Vec<f64> = (0..10).map(|_| sample(g, &d)).collect();
                g.note("samples", &xs);
                caught(|| VarN::add_ensemble(&mut a, xs.clone())).map_err(|e| format!("recording panicked: {}", e))?;
                let e = D::of(&a);
                check!(e.f("ensemble") == d.f("ensemble") + 1.0, "ensemble count {}", e.f("ensemble"));
                for (i, &x) in xs.iter().enumerate() {
                    check!(same(e.get("means").fs()[i], d.get("means").fs()[i] + x) && same(e.get("stddevs").fs()[i], d.get("stddevs").fs()[i] + x * x), "running sums of {}", i);
                    counted(&d.get("count").l()[i].fs(), &e.get("count").l()[i].fs(), &bins(&d, x, false), "linear", x)?;
                    counted(&d.get("lcount").l()[i].fs(), &e.get("lcount").l()[i].fs(), &bins(&d, x, true), "logarithmic", x)?;
                }
            }
        }
        _ => {
            let mut a = ProcessAnalysis::default();
            if !setup(&mut a, &c)? { return Ok(()); }
            for _ in 0..few(&a, rounds) {
                let d = D::of(&a);
                let (t, x) = (sample(g, &d), g.f());
                g.note("sample", &(t, x));
                let p = pair(t, x)?;
                caught(|| a.add_pair(p)).map_err(|e| format!("recording panicked: {}", e))?;
                let e = D::of(&a);
                check!(e.f("tot_point") == d.f("tot_point") + 1.0, "point count {}", e.f("tot_point"));
                check!(same(e.f("long_term_mean"), d.f("long_term_mean") + x) && same(e.f("long_term_stddev"), d.f("long_term_stddev") + x * x), "running sums");
                for &(log, cn, mn, sn) in &[(false, "count", "mean", "stddev"), (true, "lcount", "log_mean", "log_stddev")] {
                    let (b, f) = (d.get(cn).fs(), e.get(cn).fs());
                    counted(&b, &f, &bins(&d, t, log), cn, t)?;
                    let (m0, m1, s0, s1) = (d.get(mn).fs(), e.get(mn).fs(), d.get(sn).fs(), e.get(sn).fs());
                    for i in 0..f.len() {
                        let h = f[i] != b[i];
                        check!(same(m1[i], if h { m0[i] + x } else { m0[i] }) && same(s1[i], if h { s0[i] + x * x } else { s0[i] }), "sums of {} bin {}", cn, i);
                    }
                }
                a.add_ensemble();
                check!(D::of(&a).f("ensemble") == d.f("ensemble") + 1.0, "ensemble count");
            }
        }
    }
    Ok(())
}

fn moments(xs: &[f64]) -> (f64, f64, f64) {
    let n = xs.len() as f64;
    let m = xs.iter().sum::<f64>() / n;
    let ms = xs.iter().map(|x| x * x).sum::<f64>() / n;
    let v = xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n;
    (m, v, ms)
}
fn stat_ok(xs: &[f64], mean: f64, sd: f64, what: &str) -> Res {
    if xs.is_empty() { return Ok(()); }
    let (m, v, ms) = moments(xs);
    check!(close(mean, m, ms.sqrt()), "{}: mean {} instead of {}", what, mean, m);
    check!(!sd.is_nan() && sd >= 0.0, "{}: standard deviation {}", what, sd);
    check!((sd * sd - v).abs() <= 1e-9 * ms, "{}: standard deviation {} instead of {}", what, sd, v.sqrt());
    Ok(())
}
fn data(g: &mut Gen, d: &D, n: usize) -> Vec<f64> {
    if g.chance(0.2) { let x = sample(g, d); let x = if x.abs() > 1e100 { 0.1 } else { x }; return vec![x; n]; }
    (0..n).map(|_| { let x = sample(g, d); if x.abs() > 1e100 { 1e100 } else { x } }).collect()
}

pub fn c20(g: &mut Gen) -> Res {
    let c = conf(g, false);
    let k = g.below(3);
    let n = g.pick(&[1usize, 1, 2, 2, 3, 3, 7, 7, 20, 20, 150]);
    let clear = g.chance(0.5);
    g.note("analysis", &k); g.note("samples before clearing", &clear);
    macro_rules! go { ($t:ty, $add:expr, $stats:expr) => {{
        let mut a = <$t>::default();
        if !setup(&mut a, &c)? { return Ok(()); }
        let fresh = a.clone();
        let d = D::of(&a);
        if clear {
            let m = g.pick(&[0usize, 1, 4]);
            for x in data(g, &d, m) { let y = g.f(); $add(&mut a, x, y)?; }
            if g.chance(0.7) { a.draw(); }
            a.clear();
        }
        let xs = data(g, &d, n);
        let ys: Vec<f64> = (0..n).map(|_| g.f()).collect();
        g.note("samples", &xs); g.note("values", &ys);
        let mut b = fresh.clone();
        for i in 0..n { $add(&mut a, xs[i], ys[i])?; $add(&mut b, xs[i], ys[i])?; }
        if clear {
            a.draw(); b.draw();
            let (p, q) = (format!("{:?}", a), format!("{:?}", b));
            check!(p == q, "cleared analysis differs from a fresh one");
            check!(a.export_mean_stddev(5).ok() == b.export_mean_stddev(5).ok(), "exports differ");
        } else { a.draw(); }
        $stats(&D::of(&a), &xs, &ys)?;
    }} }
    match k {
        0 => go!(TimeAnalysis, |a: &mut TimeAnalysis, x: f64, _y: f64| -> Res { Var1::add_ensemble(a, x); Ok(()) }, |d: &D, xs: &[f64], _ys: &[f64]| stat_ok(xs, d.f("mean"), d.f("stddev"), "sample")),
        1 => go!(TimeVecAnalysis, |a: &mut TimeVecAnalysis, x: f64, y: f64| -> Res { VarN::add_ensemble(a, (0..10).map(|i| if i % 2 == 0 { x } else { y + i as f64 }).collect()); Ok(()) },
            |d: &D, xs: &[f64], ys: &[f64]| -> Res { for i in 0..10 { let v: Vec<f64> = if i % 2 == 0 { xs.to_vec() } else { ys.iter().map(|y| y + i as f64).collect() }; stat_ok(&v, d.get("means").fs()[i], d.get("stddevs").fs()[i], &format!("variable {}", i))?; } Ok(()) }),
        _ => go!(ProcessAnalysis, |a: &mut ProcessAnalysis, x: f64, y: f64| -> Res { a.add_pair(pair(x, y)?); a.add_ensemble(); Ok(()) }, |d: &D, _xs: &[f64], ys: &[f64]| stat_ok(ys, d.f("long_term_mean"), d.f("long_term_stddev"), "process")),
    }
    Ok(())
}

fn drawn<T: Default + Bin + Debug>(g: &mut Gen) -> Result<Option<(T, Conf)>, String> {
    let c = conf(g, false);
    let mut a = T::default();
    if !setup(&mut a, &c)? { return Ok(None); }
    Ok(Some((a, c)))
}
fn density(d: &D, hist: &[f64], lhist: &[f64], count: &[f64], lcount: &[f64]) -> Res {
    let (n, bin, lbin, min) = (d.f("ensemble"), d.f("bin_size"), d.f("lbin_size"), d.f("min_time"));
    check!(hist.len() == count.len() && lhist.len() == lcount.len(), "histogram lengths");
    for i in 0..hist.len() { check!(close(hist[i] * bin * n, count[i], 0.0), "linear bin {}: density {} for count {}", i, hist[i], count[i]); }
    for i in 0..lhist.len() {
        let w = min * lbin.powi(i as i32) * (lbin - 1.0);
        if !w.is_finite() || w < 1e-300 { continue; }
        let tol = 1e-9 + 1e-14 * i as f64;
        check!(same(lhist[i] * w * n, lcount[i]) || (lhist[i] * w * n - lcount[i]).abs() <= tol * lcount[i], "logarithmic bin {}: density {} for count {}", i, lhist[i], lcount[i]);
    }
    Ok(())
}

pub fn c21(g: &mut Gen) -> Res {
    let n = g.pick(&[1usize, 1, 2, 2, 5, 5, 30, 30, 200]);
    let k = g.below(3);
    g.note("analysis", &k);
    let rounds = g.pick(&[1, 1, 2]);
    match k {
        0 => {
            let mut a: TimeAnalysis = match drawn(g)? { Some((a, _)) => a, None => { g.trivial = true; return Ok(()); } };
            for r in 0..rounds {
                if r > 0 { a.clear(); }
                let xs = data(g, &D::of(&a), n); g.note("samples", &xs);
                for &x in &xs { Var1::add_ensemble(&mut a, x); }
                a.draw();
                let d = D::of(&a);
                density(&d, &d.get("hist").fs(), &d.get("lhist").fs(), &d.get("count").fs(), &d.get("lcount").fs())?;
            }
        }
        1 => {
            let mut a: TimeVecAnalysis = match drawn(g)? { Some((a, _)) => a, None => { g.trivial = true; return Ok(()); } };
            for r in 0..rounds {
                if r > 0 { a.clear(); }
                for _ in 0..n.min(5) { let xs = data(g, &D::of(&a), 10); g.note("samples", &xs); VarN::add_ensemble(&mut a, xs); }
                a.draw();
                let d = D::of(&a);
                for v in 0..10 { density(&d, &d.get("hist").l()[v].fs(), &d.get("lhist").l()[v].fs(), &d.get("count").l()[v].fs(), &d.get("lcount").l()[v].fs())?; }
            }
        }
        _ => {
            let mut a: ProcessAnalysis = match drawn(g)? { Some((a, _)) => a, None => { g.trivial = true; return Ok(()); } };
            for r in 0..rounds {
                if r > 0 { a.clear(); }
                let ts = data(g, &D::of(&a), n);
                let ys: Vec<f64> = if g.chance(0.3) { vec![g.f(); n] } else { (0..n).map(|_| g.f()).collect() };
                g.note("times", &ts); g.note("values", &ys);
                for i in 0..n { let p = pair(ts[i], ys[i])?; a.add_pair(p); }
                let e = D::of(&a);
                a.draw();
                let d = D::of(&a);
                for &(log, cn, mn, sn) in &[(false, "count", "mean", "stddev"), (true, "lcount", "log_mean", "log_stddev")] {
                    let (c, m, s) = (d.get(cn).fs(), d.get(mn).fs(), d.get(sn).fs());
                    check!(c == e.get(cn).fs(), "counts changed by drawing");
                    for i in 0..c.len() {
                        if c[i] == 0.0 { continue; }
                        let v: Vec<f64> = (0..n).filter(|&j| bins(&e, ts[j], log) == vec![i]).map(|j| ys[j]).collect();
                        if v.len() as f64 == c[i] { stat_ok(&v, m[i], s[i], &format!("{} bin {}", cn, i))?; }
                    }
                }
            }
        }
    }
    Ok(())
}

fn lines(d: &D, text: &[u8], log: bool, counts: &[Vec<f64>], values: &[Vec<Vec<f64>>]) -> Res {
    let s = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    let (min, bin, lbin) = (d.f("min_time"), d.f("bin_size"), d.f("lbin_size"));
    let nb = counts[0].len();
    let want: Vec<usize> = (0..nb).filter(|&i| counts.iter().any(|c| c[i] > 0.0)).collect();
    let got: Vec<&str> = s.lines().collect();
    check!(got.len() == want.len(), "{} lines for {} non-empty {} bins", got.len(), want.len(), if log { "logarithmic" } else { "linear" });
    for (ln, &i) in got.iter().zip(&want) {
        let f: Vec<f64> = ln.split('\t').map(|w| w.trim()).filter(|w| !w.is_empty()).map(|w| w.parse::<f64>().map_err(|e| format!("{}: {:?}", e, w))).collect::<Result<_, _>>()?;
        let e = if log { min * lbin.powi(i as i32) * lbin.sqrt() } else { min + (i as f64 + 0.5) * bin };
        let tol = 1e-9 * e.abs() + if log { 0.0 } else { 1e-6 * bin };
        check!((f[0] - e).abs() <= tol, "bin {}: centre {} instead of {}", i, f[0], e);
        let mut x = vec![];
        for v in 0..counts.len() { x.push(counts[v][i]); for q in &values[v] { x.push(q[i]); } }
        check!(f.len() == x.len() + 1, "bin {}: {} columns: {:?}", i, f.len(), ln);
        for (a, b) in f[1..].iter().zip(&x) { check!(same(*a, *b) || close(*a, *b, 0.0), "bin {}: line {:?}, expected {:?}", i, ln, x); }
    }
    Ok(())
}

pub fn c26(g: &mut Gen) -> Res {
    let n = g.pick(&[0usize, 1, 2, 5, 30]);
    let k = g.below(3);
    let prec = g.pick(&[0usize, 5, 10, 20]);
    g.note("analysis", &k); g.note("width", &prec);
    let (mut lin, mut log) = (vec![], vec![]);
    macro_rules! export { ($a:expr) => { $a.export_distribution(prec, &mut lin).map_err(|e| e.to_string())?; $a.export_log_scaled_distribution(prec, &mut log).map_err(|e| e.to_string())?; } }
    match k {
        0 => {
            let mut a: TimeAnalysis = match drawn(g)? { Some((a, _)) => a, None => { g.trivial = true; return Ok(()); } };
            let xs = data(g, &D::of(&a), n); g.note("samples", &xs);
            for &x in &xs { Var1::add_ensemble(&mut a, x); }
            a.draw(); export!(a);
            let d = D::of(&a);
            lines(&d, &lin, false, &[d.get("count").fs()], &[vec![d.get("hist").fs()]])?;
            lines(&d, &log, true, &[d.get("lcount").fs()], &[vec![d.get("lhist").fs()]])
        }
        1 => {
            let mut a: TimeVecAnalysis = match drawn(g)? { Some((a, _)) => a, None => { g.trivial = true; return Ok(()); } };
            for _ in 0..n.min(4) { let xs = data(g, &D::of(&a), 10); g.note("samples", &xs); VarN::add_ensemble(&mut a, xs); }
            a.draw(); export!(a);
            let d = D::of(&a);
            let m = |s: &str| d.get(s).l().iter().map(|x| x.fs()).collect::<Vec<_>>();
            lines(&d, &lin, false, &m("count"), &m("hist").into_iter().map(|x| vec![x]).collect::<Vec<_>>())?;
            lines(&d, &log, true, &m("lcount"), &m("lhist").into_iter().map(|x| vec![x]).collect::<Vec<_>>())
        }
        _ => {
            let mut a: ProcessAnalysis = match drawn(g)? { Some((a, _)) => a, None => { g.trivial = true; return Ok(()); } };
            let xs = data(g, &D::of(&a), n); g.note("times", &xs);
            for &x in &xs { let y = g.f(); let p = pair(x, y)?; a.add_pair(p); }
            a.draw(); export!(a);
            let d = D::of(&a);
            lines(&d, &lin, false, &[d.get("count").fs()], &[vec![d.get("mean").fs(), d.get("stddev").fs()]])?;
            lines(&d, &log, true, &[d.get("lcount").fs()], &[vec![d.get("log_mean").fs(), d.get("log_stddev").fs()]])
        }
    }
}
