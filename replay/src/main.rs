//! Replays inputs against the real code and compares with the contracts' clauses.
mod gen;
mod sys;
mod pos;
mod agent;
mod list;
mod time;
mod stat;
mod text;
mod misc;
use gen::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

type Case = fn(&mut Gen) -> Res;
fn oracle(p: &str) -> Option<Case> {
    Some(match p {
        "C01" => sys::c01, "C02" => sys::c02, "C03" => sys::c03, "C04" => sys::c04, "C05" => sys::c05, "C30" => sys::c30,
        "C06" => pos::c06, "C07" => pos::c07,
        "C08" => agent::c08, "C09" => agent::c09, "C10" => agent::c10, "C11" => agent::c11, "C12" => agent::c12,
        "C13" => list::c13, "C14" => list::c14, "C15" => list::c15,
        "C16" => time::c16, "C17" => time::c17, "C18" => time::c18,
        "C19" => stat::c19, "C20" => stat::c20, "C21" => stat::c21, "C26" => stat::c26,
        "C22" => text::c22, "C23" => text::c23, "C24" => text::c24, "C25" => text::c25,
        "C28" => misc::c28, "C29" => misc::c29,
        _ => return None,
    })
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}
fn list_json(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")) }

fn one(f: Case, seed: u64, k: u64, pool: &'static [f64]) -> (Res, Vec<String>, bool) {
    let mut g = Gen::new(seed, k, pool);
    UNOBSERVED.with(|u| u.set(false));
    let r = match caught(|| f(&mut g)) { Ok(r) => r, Err(p) => Err(format!("panicked: {}", p)) };
    if UNOBSERVED.with(|u| u.replace(false)) { return (Ok(()), g.log, true); }
    (r, g.log, g.trivial)
}

static CUR: AtomicU64 = AtomicU64::new(0);
static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    // vreplay PROP SEED FIRST COUNT SECONDS [hint values...]
    let f = oracle(&a[1]).expect("unknown property");
    let seed: u64 = a[2].parse().unwrap();
    let first: u64 = a[3].parse().unwrap();
    let count: u64 = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let hang: f64 = 20.0;
    let pool: &'static [f64] = Box::leak(a[6..].iter().filter_map(|x| x.parse().ok()).collect::<Vec<f64>>().into_boxed_slice());
    let (tx, rx) = mpsc::channel();
    CUR.store(first, Ordering::SeqCst);
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let t0 = Instant::now();
        let mut samples: Vec<String> = vec![];
        let mut k = first;
        while k < first + count && (count == 1 || t0.elapsed().as_secs_f64() < secs) {
            CUR.store(k, Ordering::SeqCst);
            let t1 = Instant::now();
            let (r, log, trivial) = one(f, seed, k, pool);
            if t1.elapsed().as_secs_f64() > 2.0 { eprintln!("{} seed {} case {}: {:.1} s", std::env::args().nth(1).unwrap(), seed, k, t1.elapsed().as_secs_f64()); }
            if !trivial { NONTRIVIAL.fetch_add(1, Ordering::SeqCst); }
            if let Err(m) = r { let _ = tx.send((k, Some((m, log)), samples)); return; }
            if samples.len() < 3 && !trivial { samples.push(log.join("; ")); }
            k += 1;
        }
        let _ = tx.send((k, None, samples));
    }).unwrap();
    let mut last = (u64::max_value(), Instant::now());
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((k, r, samples)) => {
                let n = NONTRIVIAL.load(Ordering::SeqCst);
                match r {
                    Some((m, log)) => println!("{{\"violation\":true,\"case\":{},\"evaluations\":{},\"nontrivial\":{},\"message\":{},\"input\":{},\"samples\":{}}}", k, k + 1 - first, n, esc(&m), list_json(&log), list_json(&samples)),
                    None => println!("{{\"violation\":false,\"evaluations\":{},\"nontrivial\":{},\"samples\":{}}}", k - first, n, list_json(&samples)),
                }
                return;
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let c = CUR.load(Ordering::SeqCst);
                if c != last.0 { last = (c, Instant::now()); }
                else if last.1.elapsed().as_secs_f64() > hang {
                    println!("{{\"violation\":true,\"case\":{},\"evaluations\":{},\"nontrivial\":{},\"message\":{},\"input\":[],\"samples\":[]}}", c, c + 1 - first, NONTRIVIAL.load(Ordering::SeqCst), esc("does not terminate (no result after 20 s)"));
                    std::process::exit(0);
                }
            }
            Err(_) => { println!("{{\"violation\":true,\"case\":{},\"evaluations\":0,\"nontrivial\":0,\"message\":\"worker died\",\"input\":[],\"samples\":[]}}", CUR.load(Ordering::SeqCst)); return; }
        }
    }
}
