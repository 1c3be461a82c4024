//! The agent list and its traversals, against a plain vector of live indices.
use crate::check;
use crate::gen::*;
use moledyn::prelude::*;

/// forward walk with all well-formedness conditions
pub fn walk<T>(l: &LinkedList<T>) -> Result<Vec<usize>, String> {
    let n = l.links.len();
    check!(n == l.contents.len(), "{} links but {} contents", n, l.contents.len());
    let mut seen = vec![];
    let mut prev = None;
    let mut cur = l.head;
    while let Some(i) = cur {
        check!(i < n, "link to {} in a list of {}", i, n);
        check!(l.links[i].alive, "dead entry {} reached", i);
        check!(!seen.contains(&i), "entry {} reached twice", i);
        check!(l.links[i].prev == prev, "previous link of {} is {:?} instead of {:?}", i, l.links[i].prev, prev);
        seen.push(i);
        prev = Some(i);
        cur = l.links[i].next;
    }
    check!(l.tail == prev, "tail {:?} instead of {:?}", l.tail, prev);
    for i in 0..n { check!(!l.links[i].alive || seen.contains(&i), "live entry {} not reached", i); }
    for c in &l.current { if let Some(i) = c { check!(*i < n && l.links[*i].alive, "cursor at {:?}, not a live entry (cursors {:?})", i, l.current); } }
    Ok(seen)
}

fn build(g: &mut Gen, n: usize) -> LinkedList<i64> {
    if g.chance(0.5) { LinkedList::from((0..n as i64).map(|x| 100 + x).collect()) } else { let mut l = LinkedList::new(); for x in 0..n as i64 { l.push(100 + x); } l }
}

pub fn c13(g: &mut Gen) -> Res {
    if g.chance(0.05) {
        let n = g.below(5);
        let mut l = LinkedList::from((0..n).map(|_| Position::new(vec![g.f(), g.f()])).collect::<Vec<_>>());
        let mut order: Vec<usize> = (0..n).collect();
        if n > 0 && g.chance(0.5) { let k = g.below(n); l.del(k).map_err(|e| e.to_string())?; order.retain(|&x| x != k); }
        let before = l.contents.clone();
        l.clear();
        check!(walk(&l)? == order, "clear changed the links");
        for k in 0..n { if order.contains(&k) { check!(l.contents[k].coordinate == vec![0.0, 0.0], "entry {} not cleared", k); } else { check!(l.contents[k] == before[k], "dead entry {} changed", k); } }
        return Ok(());
    }
    let long = g.chance(0.05);
    let n = if long { g.below(70) } else { g.below(6) };
    let mut l = build(g, n);
    g.note("length", &n);
    let mut order: Vec<usize> = (0..n).collect();
    let mut contents: Vec<i64> = (0..n as i64).map(|x| 100 + x).collect();
    check!(walk(&l)? == order, "constructed list");
    let steps = if long { g.range(1, 90) } else { g.range(1, 14) };
    for _ in 0..steps {
        match g.below(12) {
            0 | 1 => { let x = g.range(0, 50); g.note("push", &x); l.push(x); order.push(contents.len()); contents.push(x); }
            2 | 3 | 4 => {
                let k = g.below(contents.len() + 2);
                let before = (l.links.clone(), l.head, l.tail, l.current);
                let r = l.del(k);
                g.note("del", &k);
                if order.contains(&k) { check!(r.is_ok(), "deleting live entry {} failed", k); order.retain(|&x| x != k); }
                else {
                    check!(r.is_err(), "deleting dead or missing entry {} succeeded", k);
                    check!(before == (l.links.clone(), l.head, l.tail, l.current), "failed deletion changed the list");
                }
            }
            5 => { g.note("connect_all", &()); check!(l.connect_all().is_ok(), "connect_all failed"); order = (0..contents.len()).collect(); }
            6 => { g.note("into_iter", &()); l.into_iter(); }
            7 => { g.note("into_double_iter", &()); l.into_double_iter(); }
            8 => { g.note("get", &()); l.get(); }
            9 => { g.note("get_mut", &()); if let Some(x) = l.get_mut() { let _ = x; } }
            10 => { let w = g.below(3); g.note("step", &w); match w { 0 => { l.enumerate(); } 1 => { l.enumerate_mut(); } _ => { l.indicies(); } } }
            _ => {
                let w = g.below(3); g.note("double step", &w);
                match w { 0 => { l.get_double(); } 1 => { l.enumerate_double(); } _ => { l.indicies_double(); } }
            }
        }
        let seen = walk(&l)?;
        check!(seen == order, "live entries {:?} instead of {:?}", seen, order);
        check!(l.contents == contents, "contents {:?} instead of {:?}", l.contents, contents);
    }
    Ok(())
}

fn prepare(g: &mut Gen, n: usize) -> Result<(LinkedList<i64>, Vec<usize>), String> {
    let mut l = build(g, n);
    let mut order: Vec<usize> = (0..n).collect();
    g.note("length", &n);
    for _ in 0..g.below(4) { if n > 0 { let k = g.below(n); if l.del(k).is_ok() { order.retain(|&x| x != k); g.note("del", &k); } } }
    if g.chance(0.15) { l.connect_all().map_err(|e| e.to_string())?; order = (0..n).collect(); g.note("connect_all", &()); }
    if g.chance(0.3) { l.push(100 + n as i64); order.push(n); g.note("push", &()); }
    Ok((l, order))
}

pub fn c14(g: &mut Gen) -> Res {
    let n = if g.chance(0.05) { g.below(70) } else { g.below(7) };
    let (mut l, mut order) = prepare(g, n)?;
    if g.chance(0.3) { l.into_double_iter(); for _ in 0..g.below(4) { l.indicies_double(); } }
    l.into_iter();
    let mut done: Vec<usize> = vec![];
    let mut dead: Vec<usize> = vec![];
    let deleting = g.chance(0.6);
    loop {
        let expect = order.iter().cloned().find(|k| !done.contains(k));
        let w = g.below(5);
        let got: Option<(Option<usize>, Option<i64>)> = match w {
            0 => l.get().map(|x| (None, Some(*x))),
            1 => l.get_mut().map(|x| (None, Some(*x))),
            2 => l.enumerate().map(|(i, x)| (Some(i), Some(*x))),
            3 => l.enumerate_mut().map(|(i, x)| (Some(i), Some(*x))),
            _ => l.indicies().map(|i| (Some(i), None)),
        };
        g.note("step yields", &got);
        match (got, expect) {
            (None, None) => break,
            (None, Some(k)) => return Err(format!("traversal ended before live entry {}", k)),
            (Some(x), None) => return Err(format!("yields {:?} after the last live entry", x)),
            (Some((i, x)), Some(k)) => {
                if let Some(i) = i { check!(i == k, "yields entry {} instead of {}", i, k); }
                if let Some(x) = x { check!(x == 100 + k as i64, "yields contents {} for entry {}", x, k); }
                done.push(k);
            }
        }
        if deleting && g.chance(0.5) {
            let k = if g.chance(0.5) { *done.last().unwrap() } else { g.below(l.links.len()) };
            let live = !dead.contains(&k) && order.contains(&k);
            let r = l.del(k);
            g.note("del", &k);
            check!(r.is_ok() == live, "deletion of {}: {:?}", k, r);
            if live { dead.push(k); order.retain(|&x| x != k); }
        }
        check!(done.len() < 90, "endless traversal");
    }
    check!(l.indicies().is_none(), "traversal restarts");
    Ok(())
}

pub fn c15(g: &mut Gen) -> Res {
    if g.chance(0.3) { return c15_merge(g); }
    let n = if g.chance(0.03) { g.below(20) } else { g.below(7) };
    let (mut l, mut order) = prepare(g, n)?;
    if g.chance(0.3) { l.into_iter(); for _ in 0..g.below(4) { l.get(); } }
    l.into_double_iter();
    let deleting = g.chance(0.6);
    let mut done: Vec<(usize, usize)> = vec![];
    loop {
        let mut expect = None;
        'o: for (a, &i) in order.iter().enumerate() { for &j in &order[a + 1..] { if !done.contains(&(i, j)) { expect = Some((i, j)); break 'o; } } }
        let w = g.below(3);
        let got: Option<(Option<(usize, usize)>, Option<(i64, i64)>)> = match w {
            0 => l.get_double().map(|(x, y)| (None, Some((*x, *y)))),
            1 => l.enumerate_double().map(|(i, x, j, y)| (Some((i, j)), Some((*x, *y)))),
            _ => l.indicies_double().map(|p| (Some(p), None)),
        };
        g.note("step yields", &got);
        match (got, expect) {
            (None, None) => break,
            (None, Some(k)) => return Err(format!("traversal ended before pair {:?}", k)),
            (Some(x), None) => return Err(format!("yields {:?} after the last pair", x)),
            (Some((i, x)), Some(k)) => {
                if let Some(i) = i { check!(i == k, "yields pair {:?} instead of {:?}", i, k); }
                if let Some(x) = x { check!(x == (100 + k.0 as i64, 100 + k.1 as i64), "yields contents {:?} for pair {:?}", x, k); }
                done.push(k);
            }
        }
        if deleting && g.chance(0.4) {
            let k = done.last().unwrap().1;
            g.note("del", &k);
            l.del(k).map_err(|e| format!("deletion failed: {}", e))?;
            order.retain(|&x| x != k);
        }
        check!(done.len() < 300, "endless traversal");
    }
    check!(l.indicies_double().is_none(), "traversal restarts");
    Ok(())
}

fn c15_merge(g: &mut Gen) -> Res {
    let n = if g.chance(0.03) { g.range(7, 20) } else { g.range(2, 6) } as usize;
    let mut l = LinkedList::from((0..n).map(|k| ContPassiveMergeAgent::new(MoveType::Brownian(1.0), Position::new(vec![k as f64]), 0.1, 1.0)).collect::<Vec<_>>());
    let mut order: Vec<usize> = (0..n).collect();
    g.note("merging traversal of length", &n);
    l.into_double_iter();
    let mut done: Vec<(usize, usize)> = vec![];
    loop {
        let mut expect = None;
        'o: for (a, &i) in order.iter().enumerate() { for &j in &order[a + 1..] { if !done.contains(&(i, j)) { expect = Some((i, j)); break 'o; } } }
        let got = l.indicies_double();
        g.note("step yields", &got);
        check!(got == expect, "yields {:?} instead of {:?}", got, expect);
        let (i, j) = match got { None => break, Some(p) => p };
        done.push((i, j));
        if g.chance(0.4) { g.note("merge", &(i, j)); l.merge(i, j).map_err(|e| format!("merge failed: {}", e))?; order.retain(|&x| x != j); }
        check!(done.len() < 300, "endless traversal");
    }
    Ok(())
}
