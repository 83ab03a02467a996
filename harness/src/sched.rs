//! When automatic collection runs: the documented schedule ("live-node count at which
//! automatic gc fires; re-armed to twice the surviving set, never below this value"),
//! followed online from the outside. Every operation is a single one that ends in a new
//! handle, so the monitor knows after each whether a collection had to happen, could not
//! have happened, or may have.
use crate::bssm::{new_bs, reach_bdd, reach_zdd};
use crate::ensure;
use crate::engine::Val;
use crate::mssm::{self, new_ms_n, Ms};
use crate::rt::*;
use bss::prelude::*;
use mss::prelude::MddNode;
use std::collections::HashMap;

const UNKNOWN: usize = usize::MAX / 4;
/// The operation may be made of several, each with a handle of its own.
const SEVERAL: usize = UNKNOWN + 1;

struct Watch {
    floor: usize,
    tmin: usize,
    tmax: usize,
    /// (slots, live) of each sub-forest after the last step
    slots: Vec<(usize, usize)>,
}
impl Watch {
    fn new(floor: usize, slots: Vec<(usize, usize)>) -> Watch {
        Watch { floor, tmin: floor, tmax: floor, slots }
    }
    fn set(&mut self, floor: usize) {
        self.floor = floor;
        self.tmin = floor;
        self.tmax = floor;
    }
    fn rearmed(&self, live: usize) -> usize {
        self.floor.max(2 * live)
    }
    /// A collection asked for: whether it re-arms the automatic one is not promised.
    fn explicit(&mut self, live: usize, slots: Vec<(usize, usize)>) {
        let t = self.rearmed(live);
        self.tmin = self.tmin.min(t);
        self.tmax = self.tmax.max(t);
        self.slots = slots;
    }
    /// One operation: live nodes before and after, the range the live nodes must lie in if
    /// a collection has just run, and how many nodes the operation can have allocated.
    #[allow(clippy::too_many_arguments)]
    fn step(&mut self, c: &mut Case, what: &str, l0: usize, l1: usize, lo: usize, hi: usize, alloc: usize, slots: Vec<(usize, usize)>) -> R {
        ensure!(l1 >= lo, "{}: {} nodes are live, the handles reach {}", what, l1, lo);
        let mut idle = false;
        if l1 > hi && alloc == SEVERAL {
            self.tmin = self.tmin.min(self.floor);
            self.tmax = self.tmax.max(self.rearmed(l1));
        } else if l1 > hi {
            ensure!(
                l1 < self.tmax,
                "{}: {} nodes are live, the handles reach only {}, and collection was due at {} (set to {})",
                what,
                l1,
                lo,
                self.tmax,
                self.floor
            );
            idle = true;
            c.count("operations_below_threshold");
        } else if l1 >= self.tmax || l1 < l0 {
            if l1 < l0 {
                ensure!(
                    l0.saturating_add(alloc) >= self.tmin,
                    "{}: collected {} of {} live nodes although the operation allocates at most {} and collection is due at {} (set to {})",
                    what,
                    l0 - l1,
                    l0,
                    alloc,
                    self.tmin,
                    self.floor
                );
                c.count("collections_observed");
                if l0 < self.tmax {
                    c.count("collections_caused_inside_an_operation");
                }
            }
            let t = self.rearmed(l1);
            if t > self.floor {
                c.count("thresholds_raised");
                c.seen(&(self.floor, t));
            }
            self.tmin = t;
            self.tmax = t;
            c.max("highest_threshold_followed", t as u64);
        } else {
            let t = self.rearmed(l1);
            idle = alloc == 0 && l0.saturating_add(alloc) < self.tmin;
            if !idle {
                self.tmin = self.tmin.min(t);
                self.tmax = self.tmax.max(t);
            }
        }
        if idle {
            // nothing was reclaimed: a table may have grown only if it was full
            for (a, b) in self.slots.iter().zip(&slots) {
                ensure!(b.0 == a.0 || b.0 == b.1, "{}: the node table grew from {} to {} slots with only {} in use", what, a.0, b.0, b.1);
            }
        }
        self.slots = slots;
        c.count("steps_followed");
        Ok(())
    }
}

fn pick_floor(c: &mut Case) -> usize {
    match c.rng.below(6) {
        0 => 0,
        1 => c.rng.below(20),
        2 | 3 => c.rng.below(300),
        4 => c.rng.below(1500),
        _ => 1 << c.rng.below(12),
    }
}
fn sz(x: (u64, u64, u64)) -> usize {
    (x.0 + x.1) as usize + 2
}
fn pairs(a: usize, b: usize) -> usize {
    a.saturating_mul(b).saturating_mul(8)
}
/// How strongly handles are dropped in the current phase, out of 16.
fn phase(c: &mut Case, drop: &mut usize) {
    if c.rng.chance(1, 12) {
        *drop = *c.rng.pick(&[0, 0, 1, 4, 9, 16]);
    }
}
fn thin<T>(c: &mut Case, pool: &mut Vec<T>, drop: usize, keep: usize) {
    let most = if drop == 0 { 60 } else { 24 };
    while pool.len() > keep && (pool.len() > most || c.rng.chance(drop, 20)) {
        let i = c.rng.below(pool.len());
        pool.swap_remove(i);
    }
}

pub fn bdd(c: &mut Case, big: bool) -> R {
    let n = if big { 26 + c.rng.below(14) } else { 3 + c.rng.below(14) };
    let mut b = new_bs(c, n);
    let m = |b: &crate::bssm::Bs| (b.m.bdd().live_node_count(), vec![(b.m.bdd().size().1, b.m.bdd().live_node_count())]);
    let (_, s0) = m(&b);
    let mut w = Watch::new(1 << 16, s0);
    if !big {
        let f = pick_floor(c);
        b.m.bdd().set_gc_threshold(f);
        w.set(f);
    }
    let mut pool: Vec<BddNode> = b.vars.clone();
    let pv: HashMap<String, f64> = b.names.iter().map(|s| (s.clone(), c.rng.f64())).collect();
    let mut drop = 1;
    if big {
        pool.clear();
        for _ in 0..6 {
            let k = 40 + c.rng.below(300);
            pool.push(crate::bssm::big_dag(c, &b, k));
        }
        w.explicit(b.m.bdd().live_node_count(), m(&b).1);
    }
    let steps = if big { 120 } else { 60 + c.rng.below(140) };
    for step in 0..steps {
        let l0 = b.m.bdd().live_node_count();
        let pick = |c: &mut Case| pool[c.rng.below(pool.len())].clone();
        let (f, g) = (pick(c), pick(c));
        let (what, r, alloc) = match c.rng.below(16) {
            0 => ("zero", b.m.zero(), 0),
            1 => ("one", b.m.one(), 0),
            2 => ("not", f.not(), 8 * sz(f.size())),
            3 => {
                let h = pick(c);
                ("ite", f.ite(&g, &h), UNKNOWN)
            }
            4 => ("dual", f.dual(), SEVERAL),
            5 => {
                let i = c.rng.below(n);
                let (z, o) = (b.m.zero(), b.m.one());
                let l = b.m.bdd().live_node_count();
                let (_, s) = m(&b);
                // the two constants are operations of their own
                let (lo, _) = (reach(&pool, &b, &[&f, &g]), 0);
                w.step(c, "constants", l0, l, lo, lo, 0, s)?;
                ("create_node", b.m.create_node(b.hid[i], &z, &o), 1)
            }
            6 if !big => {
                let k = c.rng.below(n + 1);
                let x: Vec<BddNode> = b.vars.clone();
                ("kofn", b.m.kofn(k, &x), SEVERAL)
            }
            7 if !big => {
                let t = b.m.minpath(&f);
                std::mem::drop(t);
                // the analysis leaves nodes behind; the next operation must see to them
                let l = b.m.bdd().live_node_count();
                let s = m(&b).1;
                let lo = reach(&pool, &b, &[&f, &g]);
                ensure!(l >= lo, "minpath: {} nodes are live, the handles reach {}", l, lo);
                if l < l0 {
                    w.explicit(l, s);
                } else {
                    w.slots = s;
                }
                c.count("analyses_between");
                continue;
            }
            8 if step % 5 == 0 => {
                b.m.bdd().gc(&[&f]);
                let (l, s) = m(&b);
                let lo = reach(&pool, &b, &[&f, &g]);
                ensure!(l == lo, "an explicit collection leaves {} nodes live, the handles reach {}", l, lo);
                w.explicit(l, s);
                continue;
            }
            9 if step % 7 == 0 && !big => {
                let t = pick_floor(c);
                b.m.bdd().set_gc_threshold(t);
                w.set(t);
                c.count("thresholds_set");
                continue;
            }
            10 => {
                // other ways to get hold of a node allocate nothing and collect nothing
                let k = f.get_children();
                let x = f.clone();
                let what = if big { 9 } else { c.rng.below(9) };
                match what {
                    0 => std::mem::drop(f.prob(&pv, &[true])),
                    1 => std::mem::drop(f.bmeas(&pv, &[true])),
                    2 => std::mem::drop(f.bdd_count(&[true])),
                    3 => std::mem::drop(f.bdd_extract(&[true]).take(5).count()),
                    4 => std::mem::drop(f.dot()),
                    5 => std::mem::drop((f.size(), b.m.size(), b.m.get_varorder())),
                    6 => {
                        let nm = b.names[c.rng.below(n)].clone();
                        b.m.defvar(&nm);
                    }
                    7 => std::mem::drop(f.prob(&pv, &[false, true])),
                    _ => std::mem::drop((f.eq(&g), f.get_label(), f.get_level(), f.is_one())),
                }
                let (l, s) = m(&b);
                ensure!(l == l0 && s[0].0 == w.slots[0].0, "looking at a diagram (kind {}) changed the live nodes from {} to {}, the slots from {} to {}", what, l0, l, w.slots[0].0, s[0].0);
                c.count("looks_that_left_the_forest_alone");
                if let Some((p, q)) = k {
                    pool.push(p);
                    pool.push(q);
                }
                pool.push(x);
                continue;
            }
            k => {
                let a = pairs(sz(f.size()), sz(g.size()));
                match k % 3 {
                    0 => ("and", f.and(&g), a),
                    1 => ("or", f.or(&g), a),
                    _ => ("xor", f.xor(&g), a),
                }
            }
        };
        // kept out of the next operand choice, but held here: a handle is a handle
        pool.push(r);
        let (l1, s) = m(&b);
        let lo = reach(&pool, &b, &[&f, &g]);
        let l0 = if what == "create_node" { w.slots[0].1 } else { l0 };
        w.step(c, what, l0, l1, lo, lo, alloc, s)?;
        if big {
            if l1 > 300_000 {
                pool.truncate(6);
            }
            // results of results would grow without end
            while pool.last().map_or(false, |x| pool.len() > 1 && x.size().0 > 6000) && c.rng.chance(3, 4) {
                pool.pop();
            }
            c.max("live_nodes_followed", l1 as u64);
            if w.tmax > 1 << 16 {
                c.count("default_threshold_raised");
            }
        }
        phase(c, &mut drop);
        thin(c, &mut pool, drop, 3);
        if c.rng.chance(1, 40) {
            b.m.clear_cache();
            ensure!(b.m.bdd().live_node_count() == l1, "clearing the caches changed the number of live nodes");
        }
    }
    Ok(())
}
fn reach(pool: &[BddNode], b: &crate::bssm::Bs, more: &[&BddNode]) -> usize {
    let mgr = b.vars[0].get_mgr();
    let mgr = mgr.borrow();
    reach_bdd(pool.iter().chain(b.vars.iter()).chain(more.iter().copied()), &mgr) + 3
}

pub fn zdd(c: &mut Case) -> R {
    let mut m = ZddMgr::new();
    let f = pick_floor(c).min(400);
    let st = |m: &ZddMgr| (m.live_node_count(), vec![(m.size().1, m.live_node_count())]);
    let mut w = Watch::new(f, st(&m).1);
    m.set_gc_threshold(f);
    let ne = 3 + c.rng.below(9);
    let names: Vec<String> = (0..ne).map(|i| format!("e{}", i)).collect();
    let mut pool: Vec<ZddNode> = vec![m.base()];
    let grab = m.base().get_mgr();
    w.explicit(m.live_node_count(), st(&m).1);
    let mut drop = 1;
    for step in 0..60 + c.rng.below(140) {
        let l0 = m.live_node_count();
        let pick = |c: &mut Case| pool[c.rng.below(pool.len())].clone();
        let (f, g) = (pick(c), pick(c));
        let a = pairs(sz(f.size()), sz(g.size()));
        let (what, r, alloc) = match c.rng.below(12) {
            0 => ("empty", m.empty(), 0),
            1 => ("base", m.base(), 0),
            2 | 3 => ("singleton", m.singleton(c.rng.pick(&names)), 1),
            4 | 5 => ("union", f.union(&g), a),
            6 => ("intersect", f.intersect(&g), a),
            7 => ("setdiff", f.setdiff(&g), a),
            8 => ("divide", f.divide(&g), UNKNOWN),
            9 if step % 9 == 0 => {
                let t = pick_floor(c).min(400);
                m.set_gc_threshold(t);
                w.set(t);
                c.count("thresholds_set");
                continue;
            }
            10 => {
                let k = f.get_children();
                let what = c.rng.below(5);
                match what {
                    0 => std::mem::drop((f.count(&[true]), f.count(&[false, true]))),
                    1 => std::mem::drop(f.extract(&[true]).take(5).count()),
                    2 => std::mem::drop(f.dot()),
                    3 => std::mem::drop((f.size(), m.size())),
                    _ => std::mem::drop((f.eq(&g), f.get_label(), f.get_level(), f.is_one())),
                }
                let (l, s) = st(&m);
                ensure!(l == l0 && s[0].0 == w.slots[0].0, "looking at a family (kind {}) changed the live nodes from {} to {}", what, l0, l);
                c.count("looks_that_left_the_forest_alone");
                if let Some((p, q)) = k {
                    pool.push(p);
                    pool.push(q);
                }
                continue;
            }
            _ if f.count(&[true]).saturating_mul(g.count(&[true])) < 3000 => ("product", f.product(&g), UNKNOWN),
            _ => ("intersect", f.intersect(&g), a),
        };
        pool.push(r);
        let (l1, s) = st(&m);
        let lo = reach_zdd(pool.iter().chain([&f, &g]), &grab.borrow()) + 3;
        w.step(c, what, l0, l1, lo, lo, alloc, s)?;
        c.count("family_steps_followed");
        phase(c, &mut drop);
        thin(c, &mut pool, drop, 2);
        if c.rng.chance(1, 40) {
            m.clear_cache();
            ensure!(m.live_node_count() == l1, "clearing the caches changed the number of live nodes");
        }
    }
    Ok(())
}

fn sub<V: Val>(s: &Ms<V>) -> (usize, Vec<(usize, usize)>) {
    let g = s.vars[0].get_mgr();
    let g = g.borrow();
    (
        s.m.live_node_count(),
        vec![(g.mtmdd().size().1, g.mtmdd().live_node_count()), (g.mdd().size().1, g.mdd().live_node_count())],
    )
}
pub fn mdd<V: Val>(c: &mut Case) -> R {
    let mut s: Ms<V> = new_ms_n(c, 2, 6, 400);
    let pv: HashMap<String, Vec<f64>> = s.names.iter().zip(&s.rad).map(|(n, &r)| (n.clone(), vec![1.0 / r as f64; r])).collect();
    let f = pick_floor(c);
    let mut w = Watch::new(f, sub(&s).1);
    s.m.set_gc_threshold(f);
    let mut vals: Vec<MddNode<V>> = s.vars.clone();
    let mut bools: Vec<MddNode<V>> = Vec::new();
    let mut drop = 1;
    for step in 0..50 + c.rng.below(110) {
        let l0 = s.m.live_node_count();
        let mut held: Vec<MddNode<V>> = Vec::new();
        let v = |c: &mut Case, h: &mut Vec<MddNode<V>>| {
            let x = vals[c.rng.below(vals.len())].clone();
            h.push(x.clone());
            x
        };
        let (f, g) = (v(c, &mut held), v(c, &mut held));
        let a = pairs(sz(f.size()), sz(g.size()));
        let (what, r, alloc) = match c.rng.below(18) {
            0 => ("boolean", s.m.boolean(c.rng.chance(1, 2)), 0),
            1 => ("value", s.m.value(V::of(c.rng.range(0, 12))), 1),
            2 => ("undet_value", s.m.undet_value(), 0),
            3 | 4 => ("min", f.min(&g), a),
            5 | 6 => ("max", f.max(&g), a),
            7 => {
                let i = c.rng.below(s.rad.len());
                let ks: Vec<MddNode<V>> = (0..s.rad[i])
                    .map(|_| {
                        let k = vals.iter().filter(|x| x.get_level().is_none()).count();
                        if k == 0 {
                            s.vars[0].clone()
                        } else {
                            vals.iter().filter(|x| x.get_level().is_none()).nth(c.rng.below(k)).unwrap().clone()
                        }
                    })
                    .collect();
                if ks.iter().any(|k| k.get_level().is_some()) {
                    continue;
                }
                held.extend(ks.iter().cloned());
                ("create_node", s.m.create_node(s.hid[i], &ks), 1)
            }
            8 => ("eq", f.eq(&g), a),
            9 => ("lt", f.lt(&g), a),
            10 => ("ge", f.ge(&g), a),
            11 | 12 if bools.len() > 1 => {
                let (p, q) = (bools[c.rng.below(bools.len())].clone(), bools[c.rng.below(bools.len())].clone());
                held.push(p.clone());
                held.push(q.clone());
                let a = pairs(sz(p.size()), sz(q.size()));
                match c.rng.below(4) {
                    0 => ("and", p.and(&q), a),
                    1 => ("or", p.or(&q), a),
                    2 => ("xor", p.xor(&q), a),
                    _ => ("not", p.not(), a),
                }
            }
            13 if !bools.is_empty() => {
                let p = bools[c.rng.below(bools.len())].clone();
                held.push(p.clone());
                ("ite", p.ite(&f, &g), UNKNOWN)
            }
            14 if step % 5 == 0 => {
                s.m.gc(&[&f]);
                let (l, sl) = sub(&s);
                let lo = reach_ms(&s, &[&vals, &bools, &held]);
                ensure!(l >= lo && l <= lo + 4, "an explicit collection leaves {} nodes live, the handles reach {}", l, lo);
                w.explicit(l, sl);
                continue;
            }
            15 if step % 7 == 0 => {
                let t = pick_floor(c);
                s.m.set_gc_threshold(t);
                w.set(t);
                c.count("thresholds_set");
                continue;
            }
            16 => {
                let k = f.get_children();
                let what = c.rng.below(8);
                let ss: std::collections::HashSet<V> = [V::of(1)].into_iter().collect();
                let mut h = f.clone();
                match what {
                    0 => std::mem::drop(h.prob(&pv, &[V::of(1)])),
                    1 => std::mem::drop(h.bmeas(&pv, &[V::of(0), V::of(2)])),
                    2 => std::mem::drop(f.mdd_count(&ss)),
                    3 => std::mem::drop(f.mdd_extract(&ss).take(5).count()),
                    4 => std::mem::drop(f.dot()),
                    5 => std::mem::drop((f.size(), s.m.size(), s.m.get_varorder())),
                    6 => {
                        let i = c.rng.below(s.rad.len());
                        s.m.defvar(&s.names[i], s.rad[i]);
                    }
                    _ => std::mem::drop((f.get_label(), f.get_level(), f.is_one(), f.value())),
                }
                let (l, sl) = sub(&s);
                ensure!(l == l0 && (0..2).all(|i| sl[i].0 == w.slots[i].0), "looking at a diagram (kind {}) changed the live nodes from {} to {}", what, l0, l);
                c.count("looks_that_left_the_forest_alone");
                vals.extend(k.into_iter().flatten());
                continue;
            }
            _ => ("max", f.max(&g), a),
        };
        if r.is_boolean() {
            bools.push(r);
        } else {
            vals.push(r);
        }
        let (l1, sl) = sub(&s);
        let lo = reach_ms(&s, &[&vals, &bools, &held]);
        w.step(c, what, l0, l1, lo, lo + 4, alloc, sl)?;
        c.count("multi_state_steps_followed");
        phase(c, &mut drop);
        thin(c, &mut vals, drop, 2);
        thin(c, &mut bools, drop, 0);
    }
    Ok(())
}
fn reach_ms<V: Val>(s: &Ms<V>, hs: &[&Vec<MddNode<V>>]) -> usize {
    let all: Vec<&MddNode<V>> = s.vars.iter().chain(hs.iter().flat_map(|x| x.iter())).collect();
    mssm::reach(&all)
}
