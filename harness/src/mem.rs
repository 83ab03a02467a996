//! What the library keeps allocated: an allocator that counts, per thread, the bytes and
//! blocks outstanding, and monitors that compare the counts before and after whole
//! lifetimes (everything must come back) and between rounds of the same work in one
//! long-lived manager (nothing may pile up).
use crate::bssm::{self, Bs};
use crate::engine::{Dom, Forest, Nd, Val};
use crate::ensure;
use crate::generic::{legal, order, rand_fn};
use crate::mssm::{self, Ms};
use crate::rt::*;
use bss::prelude::*;
use mss::prelude::{MddNode, ZmddNode};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};

thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static OFF: Cell<u32> = const { Cell::new(0) };
}
pub struct Counting;
fn note(bytes: isize, blocks: isize) {
    let _ = OFF.try_with(|o| {
        if o.get() == 0 {
            let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
            let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize, 1);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize, 0);
        System.realloc(p, l, n)
    }
}
/// Allocations of the monitor's own books are not counted.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    OFF.with(|o| o.set(o.get() + 1));
    let r = f();
    OFF.with(|o| o.set(o.get() - 1));
    r
}
fn now() -> (isize, isize) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}

/// Run a whole workload (managers, handles, enumerations, in whatever state it leaves
/// them) and require everything it allocated to be returned.
fn lifetime(c: &mut Case, what: &str, f: CaseFn) -> R {
    let rng = c.rng.clone();
    let mut over = (0, 0);
    for go in 0..2 {
        c.rng = rng.clone();
        let a = now();
        let ok = matches!(guarded(|| f(c)), Ok(Ok(())));
        let b = now();
        if !ok {
            // judged by the property the workload belongs to
            c.count("workloads_not_finished");
            return Ok(());
        }
        over = (b.0 - a.0, b.1 - a.1);
        if over == (0, 0) {
            c.count("lifetimes_returned_everything");
            return Ok(());
        }
        if go == 0 {
            c.count("lifetimes_repeated");
        }
    }
    Err(format!("{}: with every manager and handle of the workload dropped, {} bytes in {} blocks are still allocated", what, over.0, over.1))
}

pub fn lifetime_case(c: &mut Case) -> R {
    use crate::engine::*;
    use crate::generic::*;
    match c.rng.below(26) {
        0 => lifetime(c, "bdd", sem_case::<FBdd>),
        1 => lifetime(c, "zdd", sem_case::<FZdd>),
        2 => lifetime(c, "mdd", sem_case::<FMdd>),
        3 => lifetime(c, "mtmdd", sem_case::<FMt<i64>>),
        4 => lifetime(c, "mtmdd2", sem_case::<FMt2<i32>>),
        5 => lifetime(c, "zmdd", sem_case::<FZm<i64>>),
        6 => lifetime(c, "bdd with collections", gc_case::<FBdd>),
        7 => lifetime(c, "zdd with collections", gc_case::<FZdd>),
        8 => lifetime(c, "mtmdd2 with collections", gc_case::<FMt2<i32>>),
        9 | 10 => lifetime(c, "binary handles", bssm::handle_gc_case),
        11 | 12 => lifetime(c, "multi-state handles", mssm::handle_gc_case::<i64>),
        13 => lifetime(c, "binary probabilities", |c| bssm::prob_case(c, false)),
        14 => lifetime(c, "binary importance", |c| bssm::prob_case(c, true)),
        15 => lifetime(c, "multi-state probabilities", |c| mssm::prob_case::<i32>(c, false)),
        16 => lifetime(c, "multi-state importance", |c| mssm::prob_case::<i32>(c, true)),
        17 => lifetime(c, "minimal sets", bssm::minsol_case),
        18 => lifetime(c, "minimal vectors", mssm::minsol_case::<i32>),
        19 => lifetime(c, "counting and enumeration", bssm::count_case),
        20 => lifetime(c, "multi-state counting and enumeration", mssm::count_case::<i64>),
        21 => lifetime(c, "set families", bssm::family_case),
        22 => lifetime(c, "expressions", |c| bssm::rpn_case(c, false)),
        23 => lifetime(c, "multi-state expressions", |c| mssm::rpn_case::<i64>(c, false)),
        24 => lifetime(c, "navigation", bssm::nav_case),
        _ => lifetime(c, "multi-state navigation", mssm::nav_case::<i32>),
    }
}

/// Handles that are dropped (or cloned) after their manager: they can no longer be used,
/// but must let go of everything.
pub fn outlive_case(c: &mut Case) -> R {
    let what = c.rng.below(3);
    let a = now();
    let n = 2 + c.rng.below(6);
    match what {
        0 => {
            let b = bssm::new_bs(c, n);
            let mut hs: Vec<BddNode> = (0..6).map(|_| bssm::expr(c, &b, 3, false).0).collect();
            let z = b.m.minpath(&b.vars[0]);
            let it = hs[0].bdd_extract(&[true]);
            let Bs { m, vars, names, .. } = b;
            drop(m);
            hs.push(hs[0].clone());
            drop((vars, names, it));
            while !hs.is_empty() {
                let i = c.rng.below(hs.len());
                hs.swap_remove(i);
            }
            drop(z);
        }
        1 => {
            let mut m = ZddMgr::new();
            let mut hs: Vec<ZddNode> = vec![m.base()];
            for i in 0..n {
                let x = m.singleton(&format!("e{}", i));
                let k = c.rng.below(hs.len());
                let y = if c.rng.chance(1, 2) { hs[k].product(&x) } else { hs[k].union(&x) };
                hs.push(y);
            }
            let it = hs[n].extract(&[true]);
            drop(m);
            hs.push(hs[0].clone());
            drop(it);
            while !hs.is_empty() {
                let i = c.rng.below(hs.len());
                hs.swap_remove(i);
            }
        }
        _ => {
            let s: Ms<i32> = mssm::new_ms_n(c, 2, 5, 100);
            let mut hs: Vec<MddNode<i32>> = (0..4).map(|_| mssm::expr(c, &s, 3, false, true).0).collect();
            let z = s.m.minpath(&s.vars[0]);
            let it = hs[0].mdd_extract(&[1].into_iter().collect());
            let Ms { m, vars, names, rad, pts, hid, .. } = s;
            drop(m);
            hs.push(hs[0].clone());
            drop((vars, names, rad, pts, hid, it));
            while !hs.is_empty() {
                let i = c.rng.below(hs.len());
                hs.swap_remove(i);
            }
            drop(z);
        }
    }
    let b = now();
    ensure!(a == b, "with manager and handles dropped in that order {} bytes in {} blocks are still allocated", b.0 - a.0, b.1 - a.1);
    c.count("handles_outliving_their_manager");
    Ok(())
}

/// The same round of work over and over in one manager; `round` ends with nothing held
/// that it made. What is allocated afterwards must settle.
fn rounds(c: &mut Case, what: &str, n: usize, mut round: impl FnMut(&mut Case, usize) -> Result<(), String>) -> R {
    let rng = c.rng.clone();
    let mut done = 0;
    let mut last = (0, 0);
    // a table may settle late; what piles up goes on growing: each stage is four times as
    // long as the one before it, and growth has to be seen in three stages in a row
    for stage in 0..4 {
        let upto = (n / 4).max(8) << (2 * stage);
        while done < upto {
            c.rng = rng.clone();
            round(c, done)?;
            done += 1;
        }
        let at = now();
        let grown = (at.0 - last.0, at.1 - last.1);
        last = at;
        if stage > 0 {
            c.max("bytes_grown_between_rounds", grown.0.max(0) as u64);
            c.max("blocks_grown_between_rounds", grown.1.max(0) as u64);
            if grown.0 <= 64 && grown.1 <= 2 {
                c.add("rounds_of_the_same_work", done as u64);
                c.seen(&(what, at));
                return Ok(());
            }
            c.count("growth_followed_up");
        }
        ensure!(stage < 3, "{}: the same work over and over keeps growing: {} rounds left {} more bytes in {} more blocks allocated than a quarter of them", what, done, grown.0, grown.1);
    }
    Ok(())
}

pub fn steady_bss(c: &mut Case) -> R {
    let n = 3 + c.rng.below(6);
    let mut b = bssm::new_bs(c, n);
    b.m.bdd().set_gc_threshold(if c.rng.chance(1, 2) { 40 } else { 1 << 16 });
    b.m.zdd().set_gc_threshold(0);
    let pv: HashMap<String, f64> = b.names.iter().map(|s| (s.clone(), 0.25)).collect();
    let depth = 2 + c.rng.below(3);
    let text = format!("{} {} & {} |", b.names[0], b.names[1], b.names[2]);
    let which = c.rng.next();
    let k = 40 + c.rng.below(120);
    let many: Vec<BddNode> = if c.rng.chance(1, 3) { (0..7 + c.rng.below(60)).map(|i| b.m.defvar(&format!("many{}", i))).collect() } else { Vec::new() };
    if !many.is_empty() {
        c.count("rounds_over_many_components");
    }
    rounds(c, "binary analyses", k, |c, stamp| {
        if !many.is_empty() {
            let f = if which >> 20 & 1 == 1 { b.m.or(&many) } else { b.m.kofn(2, &many) };
            ensure!(b.m.minpath(&f).is_some() && b.m.mincut(&f).is_some(), "not monotone");
        }
        let on = |i: u32| which >> i & 1 == 1;
        let f = bssm::expr(c, &b, depth, true).0;
        let g = bssm::expr(c, &b, depth, false).0;
        if on(0) {
            f.prob(&pv, &[true]);
            g.prob(&pv, &[true, false]);
        }
        if on(1) {
            f.bmeas(&pv, &[true]);
        }
        if on(2) {
            b.m.minpath(&f);
        }
        if on(3) {
            b.m.mincut(&f);
        }
        if on(4) {
            f.bdd_count(&[true]);
            let mut it = g.bdd_extract(&[true]);
            it.next();
        }
        if on(5) {
            f.dot();
            f.size();
            b.m.get_varorder();
        }
        if on(6) {
            b.m.rpn(&text)?;
            b.m.rpn(&format!("{} save(t{}) load(t{}) &", text, stamp, stamp))?;
            let _ = b.m.rpn("1 ?");
        }
        if on(7) {
            let v = b.vars.clone();
            b.m.kofn(1 + v.len() / 2, &v);
            b.m.and(&v);
            b.m.or(&v);
        }
        if on(8) {
            f.dual();
            f.ite(&g, &f);
            g.not();
        }
        if on(9) {
            let z = b.names[0].clone();
            b.m.defvar(&z);
            f.get_children();
        }
        if on(10) {
            b.m.clear_cache();
        }
        drop((f, g));
        b.m.bdd().gc(&[]);
        b.m.zdd().empty();
        Ok(())
    })
}
pub fn steady_zdd(c: &mut Case) -> R {
    let mut m = ZddMgr::new();
    m.set_gc_threshold(if c.rng.chance(1, 2) { 30 } else { 1 << 16 });
    let names: Vec<String> = (0..3 + c.rng.below(5)).map(|i| format!("e{}", i)).collect();
    let which = c.rng.next();
    let k = 40 + c.rng.below(120);
    rounds(c, "set families", k, |c, _| {
        let sets = |c: &mut Case| -> Vec<Vec<String>> { (0..1 + c.rng.below(5)).map(|_| names.iter().filter(|_| c.rng.chance(1, 3)).cloned().collect()).collect() };
        let (x, y) = (sets(c), sets(c));
        let (f, g) = (m.from_sets(&x), m.from_sets(&y));
        let on = |i: u32| which >> i & 1 == 1;
        if on(0) {
            f.union(&g);
        }
        if on(1) {
            f.intersect(&g);
            f.setdiff(&g);
        }
        if on(2) {
            f.product(&g);
        }
        if on(3) {
            f.divide(&g);
        }
        if on(4) {
            f.count(&[true]);
            let mut it = f.extract(&[true]);
            it.next();
        }
        if on(5) {
            f.dot();
            f.size();
            f.get_children();
        }
        if on(6) {
            m.clear_cache();
        }
        drop((f, g));
        m.set_gc_threshold(0);
        m.empty();
        Ok(())
    })
}
pub fn steady_mss<V: Val>(c: &mut Case) -> R {
    let mut s: Ms<V> = mssm::new_ms_n(c, 6, 5, 150);
    s.m.set_gc_threshold(if c.rng.chance(1, 2) { 60 } else { 1 << 16 });
    let pv: HashMap<String, Vec<f64>> = s.names.iter().zip(&s.rad).map(|(n, &r)| (n.clone(), vec![1.0 / r as f64; r])).collect();
    let dom: HashMap<String, usize> = s.names.iter().cloned().zip(s.rad.iter().copied()).collect();
    let depth = 2 + c.rng.below(3);
    let text = format!("{} {} max 3 min", s.names[0], s.names[s.names.len() - 1]);
    let ss: HashSet<V> = [V::of(1), V::of(2)].into_iter().collect();
    let which = c.rng.next();
    let k = 40 + c.rng.below(80);
    // a system of many components, analysed as a whole
    let many: Vec<MddNode<V>> = if c.rng.chance(1, 3) { (0..7 + c.rng.below(30)).map(|i| s.m.defvar(&format!("many{}", i), 2 + i % 2)).collect() } else { Vec::new() };
    if !many.is_empty() {
        c.count("rounds_over_many_components");
    }
    rounds(c, "multi-state analyses", k, |c, stamp| {
        if !many.is_empty() {
            let f = if which >> 20 & 1 == 1 { s.m.max(&many) } else { s.m.min(&many) };
            ensure!(s.m.minpath(&f).is_some() && s.m.mincut(&f).is_some(), "not monotone");
        }
        let on = |i: u32| which >> i & 1 == 1;
        let mut f = mssm::expr(c, &s, depth, false, true).0;
        let g = mssm::expr(c, &s, depth, true, false).0;
        let l: Vec<V> = ss.iter().copied().collect();
        if on(0) {
            f.prob(&pv, &l);
        }
        if on(1) {
            f.bmeas(&pv, &l);
        }
        let mut z: Vec<ZmddNode<V>> = Vec::new();
        if on(2) {
            z.extend(s.m.minpath(&f));
        }
        if on(3) {
            z.extend(s.m.mincut(&f));
        }
        if on(4) {
            for z in &z {
                z.extract(&z.labels().into_iter().collect()).take(3).count();
            }
        }
        if on(5) {
            f.mdd_count(&ss);
            let mut it = f.mdd_extract(&ss);
            it.next();
        }
        if on(6) {
            f.dot();
            f.size();
            f.get_children();
            s.m.get_varorder();
        }
        if on(7) {
            s.m.rpn(&format!("{} save(t{}) load(t{}) max {} +", text, stamp, stamp, 100 + stamp), &dom)?;
            let _ = s.m.rpn("1 ?", &dom);
        }
        if on(8) {
            let v = s.vars.clone();
            s.m.min(&v);
            s.m.max(&v);
        }
        if on(9) {
            g.not();
            g.ite(&f, &f);
            s.m.value(V::of(1000 + stamp as i64));
            s.m.minpath(&s.m.value(V::of(7)));
        }
        if on(10) {
            let (z, r) = (s.names[0].clone(), s.rad[0]);
            s.m.defvar(&z, r);
        }
        if on(11) {
            s.m.clear_cache();
        }
        drop((f, g, z));
        s.m.gc(&[]);
        Ok(())
    })
}
/// The same, on a forest used directly: results are collected away after each round.
pub fn steady_forest<F: Forest>(c: &mut Case) -> R {
    let dom = Dom::random(&mut c.rng, F::BIN, false);
    let ord = order(&mut c.rng, dom.n());
    let mut f = F::build(&dom, &ord);
    let ops = 4 + c.rng.below(30);
    let clear = c.rng.chance(1, 4);
    let k = 40 + c.rng.below(120);
    rounds(c, F::NAME, k, |c, stamp| {
        let mut pool: Vec<Nd> = (0..4 * F::KINDS.len()).map(|i| rand_fn(&mut f, &mut c.rng, &dom, F::KINDS[i % F::KINDS.len()])).collect();
        for _ in 0..ops {
            let o = c.rng.below(F::OPS.len());
            let a: Vec<Nd> = F::OPS[o].args.iter().filter_map(|k| {
                let v: Vec<Nd> = pool.iter().copied().filter(|n| n.t == *k).collect();
                if v.is_empty() { None } else { Some(v[c.rng.below(v.len())]) }
            }).collect();
            if a.len() == F::OPS[o].args.len() && legal(&f, o, &a) {
                pool.push(f.apply(o, &a));
            }
        }
        if F::KINDS.contains(&1) {
            f.leaf(1, 500 + stamp as i64);
        }
        f.dot(pool[0]);
        if clear {
            f.clear();
        }
        f.gc(&[]);
        Ok(())
    })?;
    c.count("forest_rounds_settled");
    Ok(())
}
