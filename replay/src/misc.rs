//! Randomness and errors.
use crate::check;
use crate::gen::*;
use moledyn::prelude::*;
use moledyn::random_mod::*;
use rand::Rng;
use rand_distr::{Open01, StandardNormal};

pub fn c28(g: &mut Gen) -> Res {
    let n = g.pick(&[0usize, 1, 2, 3, 4, 7]);
    let seed = (g.u64() as u128) << 64 | g.u64() as u128;
    let seed = if g.chance(0.5) { seed % 100 } else { seed };
    let (mut r, mut o) = (rng_seed(seed), rng_seed(seed));
    check!(rng_state(&r) == rng_state(&o), "equal seeds give different generators");
    let other = seed ^ (1 << g.below(127));
    check!(rng_state(&rng_seed(other)) != rng_state(&r), "seeds {} and {} give the same generator", seed, other);
    let w = g.below(9);
    let before = g.vec(n);
    let (mut a, mut b) = (g.f(), g.f());
    if w == 4 && a > b { let t = a; a = b; b = t; }
    if w == 6 { b = b.abs(); }
    g.note("operation", &w); g.note("seed", &seed); g.note("vector", &before); g.note("parameters", &(a, b));
    for _ in 0..2 {
        let mut v = Position::new(before.clone());
        let uni = |o: &mut Pcg64| -> f64 { o.sample(Open01) };
        let nor = |o: &mut Pcg64| -> f64 { o.sample(StandardNormal) };
        let (got, want): (Vec<f64>, Vec<f64>) = match w {
            0 => (vec![get_uniform(&mut r)], vec![uni(&mut o)]),
            1 => (vec![get_gaussian(&mut r)], vec![nor(&mut o)]),
            2 => (get_uniform_vec(&mut r, n).coordinate, (0..n).map(|_| uni(&mut o)).collect()),
            3 => { get_uniform_to_vec(&mut r, &mut v); (v.coordinate, (0..n).map(|_| uni(&mut o)).collect()) }
            4 => { get_uniform_to_vec_nonstandard(&mut r, &mut v, a, b); (v.coordinate, (0..n).map(|i| before[i] + (a + (b - a) * uni(&mut o))).collect()) }
            5 => (get_gaussian_vec(&mut r, n).coordinate, (0..n).map(|_| nor(&mut o)).collect()),
            6 => { get_gaussian_to_vec_nonstandard(&mut r, &mut v, a, b); (v.coordinate, (0..n).map(|i| before[i] + (a + b * nor(&mut o))).collect()) }
            7 => { get_gaussian_to_vec(&mut r, &mut v); (v.coordinate, (0..n).map(|_| nor(&mut o)).collect()) }
            _ => { let k = g.pick(&[1usize, 2, 3]); (get_uniform_vec(&mut r, k).coordinate.into_iter().chain(get_gaussian_vec(&mut r, k).coordinate).collect(), { let mut x: Vec<f64> = (0..k).map(|_| uni(&mut o)).collect(); x.extend((0..k).map(|_| nor(&mut o))); x }) }
        };
        check!(got.len() == want.len(), "{} coordinates instead of {}", got.len(), want.len());
        let sc = a.abs().max(b.abs());
        for i in 0..got.len() {
            let s = if w == 4 || w == 6 { before[i].abs() + sc * 4.0 } else { 1.0 };
            check!(close(got[i], want[i], s), "coordinate {} is {} instead of {}", i, got[i], want[i]);
            if w == 0 || w == 2 || w == 3 { check!(got[i] > 0.0 && got[i] < 1.0, "uniform draw {}", got[i]); }
        }
        check!(rng_state(&r) == rng_state(&o), "not exactly one draw per coordinate");
    }
    Ok(())
}

pub fn c29(g: &mut Gen) -> Res {
    use std::io::{Error as IE, ErrorKind};
    let mk = |g: &mut Gen| -> (Error, u8, String) {
        let kinds = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::WriteZero];
        match g.below(5) {
            0 => { let n = g.below(5); let m: String = (0..n).map(|_| g.pick(&['a', 'I', '/', ' '])).collect(); (Error::make_error_msg(m.clone()), 0, format!("message {:?}", m)) }
            1 => { let k = g.pick(&kinds); (Error::make_error_io(IE::from(k)), 1, format!("io {:?}", k)) }
            2 => { let n = g.range(1, 40) as i32; (Error::make_error_io(IE::from_raw_os_error(n)), 1, format!("os error {}", n)) }
            _ => {
                let c = codes();
                let i = g.below(c.len());
                let (c, cat) = c.into_iter().nth(i).unwrap();
                let s = format!("code {:?}", c);
                (Error::make_error_syntax(c), cat, s)
            }
        }
    };
    let (a, ca, na) = mk(g);
    let (b, cb, nb) = mk(g);
    g.note("a", &na); g.note("b", &nb);
    for (e, c) in &[(&a, ca), (&b, cb)] {
        let (d, i, s) = (e.is_data(), e.is_io(), e.is_syntax());
        check!((d, i, s) == (*c == 0, *c == 1, *c == 2), "data/io/syntax predicates are {} {} {}", d, i, s);
        let k = e.classify() as u8;
        let _ = k;
    }
    check!((a == b) == (ca == cb), "equality is {} for categories {} and {}", a == b, ca, cb);
    check!((b == a) == (ca == cb), "equality is not symmetric");
    check!((a != b) == (ca != cb), "inequality");
    let (x, y) = (a.classify(), b.classify());
    check!((x == y) == (ca == cb), "classes {:?} and {:?}", x as u8, y as u8);
    Ok(())
}
fn codes() -> Vec<(ErrorCode, u8)> {
    vec![
        (ErrorCode::Message("x".to_string().into_boxed_str()), 0), (ErrorCode::Io(std::io::Error::from(std::io::ErrorKind::NotFound)), 1),
        (ErrorCode::InvalidDimension, 2), (ErrorCode::InvalidType, 2), (ErrorCode::InvalidConfiguration, 2), (ErrorCode::InvalidNumberOfArguments, 2),
        (ErrorCode::InvalidArgumentInput, 2), (ErrorCode::InvalidFormat, 2), (ErrorCode::InvalidFile, 2), (ErrorCode::TooLargeTimeStep, 2),
        (ErrorCode::FeatureNotProvided, 2), (ErrorCode::UnexpectedEnd, 2),
    ]
}
