//! Monitors of the binary-state layer, through its public handle API. Every handle is
//! shadowed by the truth table it must denote; the oracles work on the tables.
use crate::ensure;
use crate::num::*;
use crate::rt::*;
use bss::prelude::*;
use std::collections::{BTreeSet, HashMap, HashSet};

pub type Tab = Vec<bool>;
pub type Set = BTreeSet<String>;
pub type Family = BTreeSet<Set>;

pub struct Bs {
    pub m: BssMgr,
    pub names: Vec<String>,
    pub vars: Vec<BddNode>,
    /// header ids in declaration order
    pub hid: Vec<usize>,
    /// variables made from headers of the forest, in any order of levels, instead of defvar
    pub raw: bool,
    /// unused variables above all others
    pub pad: usize,
}
impl Bs {
    pub fn n(&self) -> usize {
        self.names.len()
    }
}

pub fn var_name(rng: &mut Rng, i: usize, style: usize) -> String {
    match style {
        0 => format!("x{}", i),
        1 => format!("{}", (b'A' + (i % 26) as u8) as char).repeat(1 + i / 26),
        2 => format!("comp_{}_{}", 97 - (i % 97), i),
        3 => format!("pump-{}.v[{}]", i, rng.below(3)) + &"'".repeat(i % 3),
        // names that look like numbers, operators or keywords but are none
        5 => ["--1", "00", "2", "1.5", "1e3", "+-2", "load(", "save)", "TRUE", "false", "a&b", "~x", "2147483648", "-0", "undet", "x?y"][i % 16].to_string() + &"_".repeat(i / 16),
        _ => ["é", "βeta", "名", "x", "X", "xx", "x1", "x10", "1x", "save", "load", "T", "true", "min", "n0", "n00"][i % 16].to_string() + &"_".repeat(i / 16),
    }
}

pub fn new_bs(c: &mut Case, n: usize) -> Bs {
    let mut m = BssMgr::new();
    let style = c.rng.below(6);
    let names: Vec<String> = (0..n).map(|i| var_name(&mut c.rng, i, style)).collect();
    let vars: Vec<BddNode> = names.iter().map(|s| m.defvar(s)).collect();
    let hid = vars.iter().map(|v| v.get_header().expect("a variable has a header")).collect();
    Bs { m, names, vars, hid, raw: false, pad: 0 }
}
/// As `new_bs`, but in a part of the cases the headers are created in the forest itself, in an
/// order that is not that of the levels.
pub fn new_bs_any(c: &mut Case, n: usize) -> Bs {
    if !c.rng.chance(1, 6) {
        return new_bs(c, n);
    }
    let m = BssMgr::new();
    let style = c.rng.below(6);
    let names: Vec<String> = (0..n).map(|i| var_name(&mut c.rng, i, style)).collect();
    let mut ord: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut ord);
    let (zero, one) = (m.zero(), m.one());
    let mut hid = vec![0; n];
    let mut pad = 0;
    if c.rng.chance(1, 12) {
        // unused variables above all others take the first few hundred header ids
        for i in 0..260 + c.rng.below(20) {
            one.get_mgr().borrow_mut().create_header(n + i, &format!("unused {}", i));
            pad += 1;
        }
        c.count("managers_with_over_256_headers");
    }
    for &i in &ord {
        hid[i] = one.get_mgr().borrow_mut().create_header(i, &names[i]);
    }
    let vars = (0..n).map(|i| m.create_node(hid[i], &zero, &one)).collect();
    c.count("managers_with_headers_out_of_order");
    Bs { m, names, vars, hid, raw: true, pad }
}

/// Between two rounds of work on one manager: handles are dropped, nodes are reclaimed (so
/// that their ids come back for other functions), variables are declared.
pub fn churn(c: &mut Case, b: &mut Bs, pool: &mut Vec<(BddNode, Tab)>, maxn: usize) {
    if c.rng.chance(1, 3) {
        let keep = c.rng.below(3);
        let mut i = 0;
        pool.retain(|_| {
            i += 1;
            i <= keep
        });
        b.m.bdd().gc(&[]);
        c.count("rounds_after_reclaiming");
    } else if c.rng.chance(1, 5) {
        let t = b.m.bdd().live_node_count() + c.rng.below(8);
        b.m.bdd().set_gc_threshold(t);
    }
    if b.n() < maxn && b.pad == 0 && c.rng.chance(1, 5) {
        let name = format!("late {}", b.n()).replace(' ', ["_", ".", "-"][c.rng.below(3)]);
        let v = if b.raw {
            let (zero, one) = (b.m.zero(), b.m.one());
            let h = one.get_mgr().borrow_mut().create_header(b.n(), &name);
            b.m.create_node(h, &zero, &one)
        } else {
            b.m.defvar(&name)
        };
        b.hid.push(v.get_header().expect("a variable has a header"));
        b.vars.push(v);
        b.names.push(name);
        for (_, t) in pool.iter_mut() {
            let u = t.clone();
            t.extend(u);
        }
        c.count("variables_declared_late");
    }
}

/// The table of a node, read through the navigation API only.
pub fn tab_of(node: &BddNode, n: usize) -> Tab {
    let mgr = node.get_mgr();
    let g = mgr.borrow();
    fn rec(g: &BddManager, id: usize, k: usize, memo: &mut HashMap<(usize, usize), Tab>) -> Tab {
        if let Some(t) = memo.get(&(id, k)) {
            return t.clone();
        }
        let t = if k == 0 {
            match g.get_node(&id).expect("node id is live") {
                Node::One => vec![true],
                Node::Zero => vec![false],
                _ => panic!("not a determined leaf below all variables"),
            }
        } else {
            let (lo, hi) = match g.get_node(&id).expect("node id is live") {
                Node::NonTerminal(f) if g.level(&id) == Some(k - 1) => (f.edge(0), f.edge(1)),
                _ => (id, id),
            };
            let mut t = rec(g, lo, k - 1, memo);
            t.extend(rec(g, hi, k - 1, memo));
            t
        };
        memo.insert((id, k), t.clone());
        t
    }
    rec(&g, node.get_id(), n, &mut HashMap::new())
}

pub fn build_tab(b: &Bs, t: &[bool]) -> BddNode {
    fn rec(b: &Bs, t: &[bool], memo: &mut HashMap<Vec<bool>, BddNode>) -> BddNode {
        if t.len() == 1 {
            return if t[0] { b.m.one() } else { b.m.zero() };
        }
        if let Some(x) = memo.get(t) {
            return x.clone();
        }
        let h = t.len() / 2;
        let k = t.len().trailing_zeros() as usize - 1;
        let lo = rec(b, &t[..h], memo);
        let hi = rec(b, &t[h..], memo);
        let r = b.m.create_node(b.hid[k], &lo, &hi);
        memo.insert(t.to_vec(), r.clone());
        r
    }
    rec(b, t, &mut HashMap::new())
}

pub fn var_tab(n: usize, i: usize) -> Tab {
    (0..1usize << n).map(|x| x >> i & 1 == 1).collect()
}
pub fn const_tab(n: usize, v: bool) -> Tab {
    vec![v; 1 << n]
}
pub fn z2(a: &Tab, b: &Tab, f: impl Fn(bool, bool) -> bool) -> Tab {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
pub fn ite_tab(a: &Tab, b: &Tab, e: &Tab) -> Tab {
    (0..a.len()).map(|i| if a[i] { b[i] } else { e[i] }).collect()
}
pub fn atleast_tab(n: usize, k: usize, ts: &[&Tab]) -> Tab {
    (0..1usize << n).map(|x| ts.iter().filter(|t| t[x]).count() >= k).collect()
}

/// A random expression built with the handle operators, with its table.
pub fn expr(c: &mut Case, b: &Bs, depth: usize, mono: bool) -> (BddNode, Tab) {
    let n = b.n();
    if depth == 0 || c.rng.chance(1, 8) {
        if n == 0 || c.rng.chance(1, 14) {
            let v = c.rng.chance(1, 2);
            return (if v { b.m.one() } else { b.m.zero() }, const_tab(n, v));
        }
        let i = c.rng.below(n);
        return (b.vars[i].clone(), var_tab(n, i));
    }
    let (f, s) = expr(c, b, depth - 1, mono);
    let k = if mono { [0, 1, 5, 6, 7][c.rng.below(5)] } else { c.rng.below(8) };
    match k {
        3 => return (f.not(), s.iter().map(|x| !x).collect()),
        5 | 6 | 7 => {
            let mut fs = vec![f];
            let mut ss = vec![s];
            for _ in 0..c.rng.below(4) {
                let (g, t) = if c.rng.chance(1, 6) { (fs[0].clone(), ss[0].clone()) } else { expr(c, b, depth - 1, mono) };
                fs.push(g);
                ss.push(t);
            }
            let kk = match k {
                5 => ss.len(),
                6 => 1,
                _ => c.rng.below(ss.len() + 2),
            };
            let want = atleast_tab(n, kk, &ss.iter().collect::<Vec<_>>());
            let got = match k {
                5 => b.m.and(&fs),
                6 => b.m.or(&fs),
                _ => b.m.kofn(kk, &fs),
            };
            return (got, want);
        }
        _ => {}
    }
    let (g, t) = expr(c, b, depth - 1, mono);
    match k {
        0 => (f.and(&g), z2(&s, &t, |x, y| x & y)),
        1 => (f.or(&g), z2(&s, &t, |x, y| x | y)),
        2 => (f.xor(&g), z2(&s, &t, |x, y| x ^ y)),
        _ => {
            let (h, u) = expr(c, b, depth - 1, mono);
            (f.ite(&g, &h), ite_tab(&s, &t, &u))
        }
    }
}

pub fn mono_tab(c: &mut Case, n: usize) -> Tab {
    let full = (1usize << n) - 1;
    match c.rng.below(3) {
        0 => {
            let k = c.rng.below(2 * n + 2);
            let sets: Vec<usize> = (0..k).map(|_| (c.rng.next() as usize & c.rng.next() as usize) & full).collect();
            (0..=full).map(|x| sets.iter().any(|s| s & x == *s)).collect()
        }
        1 => {
            let w: Vec<usize> = (0..n).map(|_| c.rng.below(6)).collect();
            let t = c.rng.below(w.iter().sum::<usize>() + 2);
            (0..=full).map(|x| (0..n).filter(|i| x >> i & 1 == 1).map(|i| w[i]).sum::<usize>() >= t).collect()
        }
        _ => {
            // a random chain of one-step upward closures
            let p = 2 + c.rng.below(60);
            let mut t: Tab = (0..=full).map(|_| c.rng.chance(1, p)).collect();
            for i in 0..n {
                for x in 0..=full {
                    if x >> i & 1 == 1 && t[x ^ (1 << i)] {
                        t[x] = true;
                    }
                }
            }
            t
        }
    }
}
pub fn is_mono(t: &[bool]) -> bool {
    let n = t.len().trailing_zeros() as usize;
    (0..t.len()).all(|x| !t[x] || (0..n).all(|i| t[x | 1 << i]))
}
pub fn rand_tab(c: &mut Case, n: usize) -> Tab {
    let full = 1usize << n;
    match c.rng.below(4) {
        0 => {
            let p = 1 + c.rng.below(9);
            (0..full).map(|_| c.rng.chance(p, 10)).collect()
        }
        1 => {
            // depends on a subset of the variables only
            let m = c.rng.next() as usize;
            let s = c.rng.next();
            (0..full).map(|x| hash_of(&(x & m, s)) & 1 == 1).collect()
        }
        2 => {
            let mut t = const_tab(n, c.rng.chance(1, 2));
            for _ in 0..1 + c.rng.below(3) {
                let i = c.rng.below(full);
                t[i] = !t[i];
            }
            t
        }
        _ => {
            // weights modulo something: many shared sub-functions
            let w: Vec<usize> = (0..n).map(|_| c.rng.below(4)).collect();
            let m = 2 + c.rng.below(4);
            let r = c.rng.below(m);
            (0..full).map(|x| (0..n).filter(|i| x >> i & 1 == 1).map(|i| w[i]).sum::<usize>() % m == r).collect()
        }
    }
}
/// A function (handle + table) made in one of several ways.
pub fn any_fn(c: &mut Case, b: &Bs) -> (BddNode, Tab) {
    let n = b.n();
    match c.rng.below(6) {
        0 | 1 => {
            let d = 1 + c.rng.below(4);
            expr(c, b, d, false)
        }
        2 => {
            let t = mono_tab(c, n);
            (build_tab(b, &t), t)
        }
        3 => {
            // sum of minterms / product of maxterms through the operators
            let t = if n <= 5 { rand_tab(c, n) } else { const_tab(n, false) };
            if n > 5 {
                return (b.m.zero(), t);
            }
            let mut f = b.m.zero();
            for x in 0..t.len() {
                if t[x] {
                    let mut g = b.m.one();
                    for i in 0..n {
                        let l = if x >> i & 1 == 1 { b.vars[i].clone() } else { b.vars[i].not() };
                        g = g.and(&l);
                    }
                    f = f.or(&g);
                }
            }
            (f, t)
        }
        _ => {
            let t = rand_tab(c, n);
            (build_tab(b, &t), t)
        }
    }
}
pub fn show_tab(t: &[bool]) -> String {
    t.iter().map(|&x| if x { '1' } else { '0' }).collect()
}
pub fn support(t: &[bool]) -> Vec<usize> {
    let n = t.len().trailing_zeros() as usize;
    (0..n).filter(|i| (0..t.len()).any(|x| t[x] != t[x ^ (1 << i)])).collect()
}
fn nsize(c: &mut Case, hi: usize) -> usize {
    match c.rng.below(12) {
        0 => c.rng.below(2),
        1..=7 => 2 + c.rng.below(4.min(hi - 1)),
        _ => 1 + c.rng.below(hi),
    }
}
const SSS: [&[bool]; 6] = [&[true], &[false], &[true, false], &[false, true], &[], &[true, true]];
fn pick_ss(c: &mut Case) -> &'static [bool] {
    if c.rng.chance(2, 3) {
        SSS[c.rng.below(2)]
    } else {
        SSS[c.rng.below(6)]
    }
}

// ---------------------------------------------------------------- P17, P18
fn weight<T: Copy + std::ops::Mul<Output = T> + std::ops::Sub<Output = T> + From<f64>>(p: &[T], x: usize, skip: Option<usize>) -> T {
    let mut w = T::from(1.0);
    for (i, &pi) in p.iter().enumerate() {
        if Some(i) != skip {
            w = w * if x >> i & 1 == 1 { pi } else { T::from(1.0) - pi };
        }
    }
    w
}
fn model_prob<T: Copy + std::ops::Add<Output = T> + std::ops::Mul<Output = T> + std::ops::Sub<Output = T> + From<f64>>(t: &[bool], p: &[T], ss: &[bool]) -> T {
    let mut r = T::from(0.0);
    for x in 0..t.len() {
        if ss.contains(&t[x]) {
            r = r + weight(p, x, None);
        }
    }
    r
}
fn model_bm<T: Copy + std::ops::Add<Output = T> + std::ops::Mul<Output = T> + std::ops::Sub<Output = T> + From<f64>>(t: &[bool], p: &[T], ss: &[bool], i: usize) -> T {
    let (mut a, mut b) = (T::from(0.0), T::from(0.0));
    for x in 0..t.len() {
        if ss.contains(&t[x]) {
            let w = weight(p, x, Some(i));
            if x >> i & 1 == 1 {
                a = a + w;
            } else {
                b = b + w;
            }
        }
    }
    a - b
}
fn rand_p(c: &mut Case, style: usize) -> f64 {
    match style {
        0 => c.rng.below(17) as f64 / 16.0,
        1 => *c.rng.pick(&[0.0, 1.0, 0.5, 0.25]),
        2 => *c.rng.pick(&[1e-9, 1e-3, 0.999, 0.9999999, 0.3]),
        _ => c.rng.f64(),
    }
}
struct Pv {
    p: Vec<f64>,
    map: HashMap<String, f64>,
    z: Vec<Zp>,
    zmap: HashMap<String, Zp>,
}
fn rand_pv(c: &mut Case, names: &[String]) -> Pv {
    let style = c.rng.below(4);
    let miss = c.rng.chance(1, 5);
    let mut r = Pv { p: vec![], map: HashMap::new(), z: vec![], zmap: HashMap::new() };
    for s in names {
        let z = Zp(c.rng.next() % P61);
        let p = rand_p(c, style);
        if miss && c.rng.chance(1, 3) {
            c.count("vars_without_probability");
            r.p.push(0.0);
            r.z.push(Zp(0));
        } else {
            r.p.push(p);
            r.z.push(z);
            r.map.insert(s.clone(), p);
            r.zmap.insert(s.clone(), z);
        }
    }
    if c.rng.chance(1, 4) {
        r.map.insert("never declared".into(), 0.3);
        r.zmap.insert("never declared".into(), Zp(7));
    }
    r
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-10 + 1e-9 * b.abs()
}

pub fn prob_case(c: &mut Case, bm: bool) -> R {
    if c.idx % 40 == 7 {
        return prob_big(c, bm);
    }
    let n = nsize(c, 8);
    let mut b = new_bs_any(c, n);
    let mut pool: Vec<(BddNode, Tab)> = Vec::new();
    for _ in 0..1 + c.rng.below(5) {
        churn(c, &mut b, &mut pool, 9);
        let f = any_fn(c, &b);
        pool.push(f);
        if c.rng.chance(1, 5) {
            b.m.bdd().gc(&[]);
        }
        let pv = rand_pv(c, &b.names);
        for _ in 0..1 + c.rng.below(3) {
            let (f, t) = &pool[c.rng.below(pool.len())];
            let (f, t) = (f.clone(), t.clone());
            let ss = pick_ss(c);
            c.seen(&(&t, ss, bm));
            if !bm {
                let want = model_prob(&t, &pv.p, ss);
                let got = f.prob(&pv.map, ss);
                c.log(|| format!("prob of table {} p={:?} ss={:?} -> {} (model {})", show_tab(&t), pv.p, ss, got, want));
                ensure!(near(got, want), "prob({:?}) of table {} (variables {:?}, p {:?}) is {} but the total probability of those states is {}", ss, show_tab(&t), b.names, pv.p, got, want);
                let zw = model_prob(&t, &pv.z, ss);
                let zg = f.prob(&pv.zmap, ss);
                ensure!(zw == zg, "prob({:?}) of table {} in exact field arithmetic is {:?}, the sum over states is {:?}", ss, show_tab(&t), zg, zw);
                c.count("probabilities_compared");
                if zw != Zp(0) && zw != Zp(1) {
                    c.count("nontrivial_probabilities");
                }
            } else {
                let got = f.bmeas(&pv.map, ss);
                let zg = f.bmeas(&pv.zmap, ss);
                let sup = support(&t);
                let keys: BTreeSet<&String> = got.keys().collect();
                let want: BTreeSet<&String> = sup.iter().map(|&i| &b.names[i]).collect();
                c.log(|| format!("bmeas of table {} p={:?} ss={:?} -> {:?}", show_tab(&t), pv.p, ss, got));
                ensure!(keys == want, "bmeas of table {} reports variables {:?}, the function depends on {:?}", show_tab(&t), keys, want);
                ensure!(zg.len() == sup.len(), "bmeas key sets differ between number types");
                for &i in &sup {
                    let w = model_bm(&t, &pv.p, ss, i);
                    let g = got[&b.names[i]];
                    ensure!(near(g, w), "bmeas({:?}) of table {} for {} is {}, P(.|up)-P(.|down) is {} (p {:?})", ss, show_tab(&t), b.names[i], g, w, pv.p);
                    let zw = model_bm(&t, &pv.z, ss, i);
                    ensure!(zg[&b.names[i]] == zw, "bmeas({:?}) of table {} for {} in exact field arithmetic is {:?}, expected {:?}", ss, show_tab(&t), b.names[i], zg[&b.names[i]], zw);
                    c.count("importances_compared");
                }
            }
        }
    }
    Ok(())
}

/// Random shared diagram over many variables: handle + list of its nodes as (level, lo, hi).
pub fn big_dag(c: &mut Case, b: &Bs, nodes: usize) -> BddNode {
    let n = b.n();
    let mut by: Vec<Vec<BddNode>> = vec![vec![b.m.zero(), b.m.one()]];
    let per = (nodes / n).max(1);
    for l in 0..n {
        let mut cur = Vec::new();
        for _ in 0..per {
            let pick = |c: &mut Case| {
                let d = if c.rng.chance(3, 4) { by.len() - 1 } else { c.rng.below(by.len()) };
                let v = &by[d];
                v[c.rng.below(v.len())].clone()
            };
            let lo = pick(c);
            let hi = pick(c);
            cur.push(b.m.create_node(b.hid[l], &lo, &hi));
        }
        by.push(cur);
    }
    by.last().unwrap()[0].clone()
}
/// Bottom-up evaluation over the structure, with variable `fix.0` forced to `fix.1`.
fn walk_prob(f: &BddNode, z: &[Zp], ss: &[bool], fix: Option<(usize, bool)>) -> Zp {
    let mgr = f.get_mgr();
    let g = mgr.borrow();
    fn rec(g: &BddManager, id: usize, z: &[Zp], ss: &[bool], fix: Option<(usize, bool)>, memo: &mut HashMap<usize, Zp>) -> Zp {
        if let Some(x) = memo.get(&id) {
            return *x;
        }
        let r = match g.get_node(&id).unwrap() {
            Node::One => Zp(ss.contains(&true) as u64),
            Node::Zero => Zp(ss.contains(&false) as u64),
            Node::Undet => panic!("undetermined leaf"),
            Node::NonTerminal(nt) => {
                let l = g.level(&id).unwrap();
                let p = match fix {
                    Some((v, x)) if v == l => Zp(x as u64),
                    _ => z[l],
                };
                let a = rec(g, nt.edge(0), z, ss, fix, memo);
                let b = rec(g, nt.edge(1), z, ss, fix, memo);
                (Zp(1) - p) * a + p * b
            }
        };
        memo.insert(id, r);
        r
    }
    rec(&g, f.get_id(), z, ss, fix, &mut HashMap::new())
}
pub fn levels_in(f: &BddNode) -> (BTreeSet<usize>, usize) {
    let mgr = f.get_mgr();
    let g = mgr.borrow();
    let mut seen = HashSet::new();
    let mut st = vec![f.get_id()];
    let mut lv = BTreeSet::new();
    let mut nn = 0;
    while let Some(id) = st.pop() {
        if seen.insert(id) {
            if let Node::NonTerminal(x) = g.get_node(&id).unwrap() {
                nn += 1;
                lv.insert(g.level(&id).unwrap());
                st.push(x.edge(0));
                st.push(x.edge(1));
            }
        }
    }
    (lv, nn)
}
fn prob_big(c: &mut Case, bm: bool) -> R {
    let wide = c.rng.chance(1, 40);
    let n = if wide { 260 + c.rng.below(60) } else { 10 + c.rng.below(60) };
    if wide {
        c.count("systems_with_over_256_components");
    }
    let b = new_bs_any(c, n);
    let f = match c.rng.below(3) {
        0 => {
            let k = if wide { c.rng.below(12) } else { c.rng.below(n + 2) };
            b.m.kofn(k, &b.vars)
        }
        1 => {
            // series of parallels, with one shared component
            let mut g = b.m.one();
            let s = b.vars[c.rng.below(n)].clone();
            for ch in b.vars.chunks(3) {
                let mut v = ch.to_vec();
                v.push(s.clone());
                g = g.and(&b.m.or(&v));
            }
            g
        }
        _ => {
            let k = 4 * n;
            big_dag(c, &b, k)
        }
    };
    let pv = rand_pv(c, &b.names);
    let (lv, nn) = levels_in(&f);
    c.max("max_diagram_nodes", nn as u64);
    c.max("max_variables", n as u64);
    c.count("large_diagrams");
    for ss in [&[true][..], &[false], &[true, false], &[]] {
        if !bm {
            let zg = f.prob(&pv.zmap, ss);
            let zw = walk_prob(&f, &pv.z, ss, None);
            ensure!(zg == zw, "prob({:?}) of a {}-node diagram over {} variables is {:?} in exact field arithmetic, expected {:?}", ss, nn, n, zg, zw);
            c.count("probabilities_compared");
            let pg = f.prob(&pv.map, ss);
            ensure!((-1e-9..=1.0 + 1e-9).contains(&pg), "prob {} outside [0,1]", pg);
        } else {
            let g = f.bmeas(&pv.zmap, ss);
            let keys: BTreeSet<&String> = g.keys().collect();
            let want: BTreeSet<&String> = lv.iter().map(|&i| &b.names[i]).collect();
            ensure!(keys == want, "bmeas over a {}-node diagram reports variables {:?}, it depends on {:?}", nn, keys, want);
            for (j, &i) in lv.iter().enumerate() {
                if wide && j % 23 != 5 && i < n - 2 {
                    continue;
                }
                let w = walk_prob(&f, &pv.z, ss, Some((i, true))) - walk_prob(&f, &pv.z, ss, Some((i, false)));
                ensure!(g[&b.names[i]] == w, "bmeas({:?}) for {} over a {}-node diagram is {:?}, expected {:?}", ss, b.names[i], nn, g[&b.names[i]], w);
                c.count("importances_compared");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P21 (binary half)
fn iv_eps(w: f64) -> f64 {
    1e-9 + 1e-9 * w.abs()
}
pub fn interval_case(c: &mut Case) -> R {
    let n = 1 + c.rng.below(6);
    let b = new_bs_any(c, n);
    let grid = [0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0];
    let few = c.rng.chance(2, 3);
    let shared = {
        let a = c.rng.below(6);
        (grid[a], grid[a + 1])
    };
    for _ in 0..2 {
        let (f, t) = any_fn(c, &b);
        let boxes: Vec<(f64, f64)> = (0..n)
            .map(|_| {
                if few && c.rng.chance(3, 4) {
                    return shared;
                }
                let (x, y) = if few { (*c.rng.pick(&grid), *c.rng.pick(&grid)) } else { (c.rng.f64(), c.rng.f64()) };
                if x <= y {
                    (x, y)
                } else {
                    (y, x)
                }
            })
            .collect();
        let pv: HashMap<String, Iv> = (0..n).map(|i| (b.names[i].clone(), Iv(boxes[i].0, boxes[i].1))).collect();
        let ss = pick_ss(c);
        let ip = f.prob(&pv, ss);
        let ib = f.bmeas(&pv, ss);
        c.log(|| format!("table {} boxes {:?} ss {:?}: prob {:?} bmeas {:?}", show_tab(&t), boxes, ss, ip, ib));
        let sup = support(&t);
        for k in 0..12 {
            let p: Vec<f64> = boxes
                .iter()
                .map(|&(lo, hi)| match (k, c.rng.below(3)) {
                    (0, _) => lo,
                    (1, _) => hi,
                    (_, 0) => lo,
                    (_, 1) => hi,
                    _ => lo + (hi - lo) * c.rng.f64(),
                })
                .collect();
            let w = model_prob(&t, &p, ss);
            ensure!(ip.0 - iv_eps(w) <= w && w <= ip.1 + iv_eps(w), "interval prob({:?}) [{}, {}] of table {} with boxes {:?} does not contain {} at point {:?}", ss, ip.0, ip.1, show_tab(&t), boxes, w, p);
            for &i in &sup {
                let w = model_bm(&t, &p, ss, i);
                let r = ib.get(&b.names[i]).copied().ok_or_else(|| format!("bmeas has no entry for {}", b.names[i]))?;
                ensure!(r.0 - iv_eps(w) <= w && w <= r.1 + iv_eps(w), "interval bmeas({:?}) of {} [{}, {}] for table {} with boxes {:?} does not contain {} at point {:?}", ss, b.names[i], r.0, r.1, show_tab(&t), boxes, w, p);
            }
            c.count("points_checked_in_enclosures");
        }
        // degenerate boxes reproduce the point results
        let style = c.rng.below(4);
        let p: Vec<f64> = (0..n).map(|_| rand_p(c, style)).collect();
        let dv: HashMap<String, Iv> = (0..n).map(|i| (b.names[i].clone(), Iv(p[i], p[i]))).collect();
        let fv: HashMap<String, f64> = (0..n).map(|i| (b.names[i].clone(), p[i])).collect();
        let (d, q) = (f.prob(&dv, ss), f.prob(&fv, ss));
        ensure!(near(d.0, q) && near(d.1, q), "degenerate boxes give [{}, {}], the point probability is {}", d.0, d.1, q);
        let (d, q) = (f.bmeas(&dv, ss), f.bmeas(&fv, ss));
        for (k, v) in &q {
            let r = d.get(k).copied().ok_or("importance key sets differ between number types")?;
            ensure!(near(r.0, *v) && near(r.1, *v), "degenerate boxes give importance [{}, {}] for {}, the point value is {}", r.0, r.1, k, v);
            c.count("degenerate_boxes_compared");
        }
        c.seen(&(t, ss, "iv"));
    }
    Ok(())
}

// ---------------------------------------------------------------- P22
pub fn fam_of_zdd(z: &ZddNode, what: &str) -> Result<Family, String> {
    let it = z.extract(&[true]);
    let len = it.len();
    let mut r = Family::new();
    let mut k = 0u64;
    for v in it {
        let s: Set = v.iter().cloned().collect();
        ensure!(s.len() == v.len(), "{}: a set of the family lists an element twice: {:?}", what, v);
        ensure!(r.insert(s), "{}: the set {:?} is enumerated twice", what, v);
        k += 1;
    }
    ensure!(k == len, "{}: len() says {} but {} sets were enumerated", what, len, k);
    ensure!(z.extract(&[]).next().is_none() && z.count(&[]) == 0, "{}: selecting no outcome selects something", what);
    for ss in [vec![false], vec![true, false]] {
        let it = z.extract(&ss);
        let (l, n) = (it.len(), z.count(&ss));
        let m = it.count() as u64;
        ensure!(l == n && m == n, "{}: count({:?}) is {}, the enumeration announces {} and yields {}", what, ss, n, l, m);
    }
    let cnt = z.count(&[true]);
    ensure!(cnt == k, "{}: count() says {} but {} sets were enumerated", what, cnt, k);
    Ok(r)
}
fn minimal_sets(t: &[bool], names: &[String]) -> Family {
    let n = names.len();
    (0..t.len())
        .filter(|&x| t[x] && (0..n).all(|i| x >> i & 1 == 0 || !t[x ^ (1 << i)]))
        .map(|x| (0..n).filter(|i| x >> i & 1 == 1).map(|i| names[i].clone()).collect())
        .collect()
}
pub fn dual_tab(t: &[bool]) -> Tab {
    let m = t.len() - 1;
    (0..t.len()).map(|x| !t[m ^ x]).collect()
}
pub fn minsol_case(c: &mut Case) -> R {
    if c.idx % 50 == 11 {
        return minsol_big(c);
    }
    let n = nsize(c, 9);
    let mut b = new_bs_any(c, n);
    if c.rng.chance(1, 4) {
        b.m.zdd().set_gc_threshold(c.rng.below(40));
        b.m.bdd().set_gc_threshold(c.rng.below(40));
    }
    // families kept, with their models
    let mut fams: Vec<(ZddNode, Family)> = Vec::new();
    for _ in 0..1 + c.rng.below(5) {
        churn(c, &mut b, &mut Vec::new(), 9);
        if c.rng.chance(1, 8) {
            fams.clear();
            b.m.zdd().set_gc_threshold(0);
            drop(b.m.zdd().empty());
        }
        let n = b.n();
        let (f, t) = match c.rng.below(6) {
            0 => any_fn(c, &b),
            1 => {
                let d = 2 + c.rng.below(3);
                expr(c, &b, d, true)
            }
            2 => {
                // monotone but for one point
                let mut t = mono_tab(c, n);
                let i = c.rng.below(t.len());
                t[i] = !t[i];
                (build_tab(&b, &t), t)
            }
            _ => {
                let t = mono_tab(c, n);
                (build_tab(&b, &t), t)
            }
        };
        let d = f.dual();
        ensure!(tab_of(&d, n) == dual_tab(&t), "dual of table {} (variables {:?}) has table {}, expected {}", show_tab(&t), b.names, show_tab(&tab_of(&d, n)), show_tab(&dual_tab(&t)));
        ensure!(d.dual().eq(&f), "dual(dual(f)) is not f for table {}", show_tab(&t));
        ensure!(tab_of(&f, n) == t, "taking the dual changed f");
        c.count("duals_compared");
        let mono = is_mono(&t);
        c.seen(&(&t, "min"));
        for cut in [false, true] {
            let what = if cut { "mincut" } else { "minpath" };
            let r = if cut { b.m.mincut(&f) } else { b.m.minpath(&f) };
            c.log(|| format!("{} of {} (monotone {}) -> {}", what, show_tab(&t), mono, if r.is_some() { "family" } else { "None" }));
            ensure!(r.is_some() == mono, "{} of table {} (variables {:?}) is {}, but the function is{} monotone", what, show_tab(&t), b.names, if r.is_some() { "a family" } else { "None" }, if mono { "" } else { " not" });
            ensure!(tab_of(&f, n) == t, "{} changed the function itself", what);
            match r {
                None => c.count("non_monotone_refused"),
                Some(z) => {
                    let want = if cut { minimal_sets(&dual_tab(&t), &b.names) } else { minimal_sets(&t, &b.names) };
                    let got = fam_of_zdd(&z, what)?;
                    ensure!(got == want, "{} of table {} (variables {:?}) is {:?}, expected {:?}", what, show_tab(&t), b.names, got, want);
                    c.count(if cut { "cut_families" } else { "path_families" });
                    if want.len() > 2 {
                        c.count("families_of_3_or_more");
                    }
                    let again = if cut { b.m.mincut(&f) } else { b.m.minpath(&f) };
                    ensure!(again.map(|a| a.eq(&z)) == Some(true), "{} of the same function twice gives different families", what);
                    fams.push((z, got));
                }
            }
        }
        if c.rng.chance(1, 4) {
            b.m.bdd().gc(&[]);
        }
    }
    // all families of this manager are still what they were, and share one set algebra
    for (i, (z, m)) in fams.iter().enumerate() {
        ensure!(&fam_of_zdd(z, "kept family")? == m, "a family changed while others were computed");
        for (y, k) in fams.iter().take(i) {
            ensure!(z.eq(y) == (m == k), "families {:?} and {:?}: handle equality is {}", m, k, z.eq(y));
            if c.rng.chance(1, 3) {
                let u: Family = m.union(k).cloned().collect();
                ensure!(fam_of_zdd(&z.union(y), "union")? == u, "union of {:?} and {:?}", m, k);
                let u: Family = m.intersection(k).cloned().collect();
                ensure!(fam_of_zdd(&z.intersect(y), "intersect")? == u, "intersect of {:?} and {:?}", m, k);
                let u: Family = m.difference(k).cloned().collect();
                ensure!(fam_of_zdd(&z.setdiff(y), "setdiff")? == u, "setdiff of {:?} and {:?}", m, k);
                c.count("family_algebra");
            }
        }
    }
    Ok(())
}
pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    let mut r: u128 = 1;
    for i in 0..k {
        r = r * (n - i) as u128 / (i + 1) as u128;
    }
    r as u64
}
/// Minimal sets of functions of more than 256 components.
fn minsol_wide(c: &mut Case) -> R {
    let n = 260 + c.rng.below(40);
    let b = new_bs_any(c, n);
    let mut ids: Vec<usize> = (0..n).collect();
    if c.rng.chance(1, 2) {
        // neighbours swapped: groups stay narrow in the order of the variables
        for i in (0..n - 1).step_by(3) {
            ids.swap(i, i + 1);
        }
    }
    let w = 1 + c.rng.below(4);
    let groups: Vec<&[usize]> = ids.chunks(w).collect();
    let pick = |g: &[usize]| g.iter().map(|&i| b.vars[i].clone()).collect::<Vec<_>>();
    let want: Family = groups.iter().map(|g| g.iter().map(|&i| b.names[i].clone()).collect()).collect();
    let f = b.m.or(&groups.iter().map(|g| b.m.and(&pick(g))).collect::<Vec<_>>());
    let p = b.m.minpath(&f).ok_or("an or of ands was refused")?;
    ensure!(fam_of_zdd(&p, "minpath")? == want, "minpath of an or of {} conjunctions over {} components is wrong", groups.len(), n);
    let d = b.m.and(&groups.iter().map(|g| b.m.or(&pick(g))).collect::<Vec<_>>());
    ensure!(f.dual().eq(&d), "the dual of an or of ands over {} components is not the and of ors", n);
    let q = b.m.mincut(&d).ok_or("an and of ors was refused")?;
    ensure!(fam_of_zdd(&q, "mincut")? == want, "mincut of an and of {} disjunctions over {} components is wrong", groups.len(), n);
    // negating one component somewhere spoils it
    let i = c.rng.below(n);
    let h = f.or(&b.vars[i].not());
    let clean = i != ids[n - 1] || n % w != 1 || w == 1;
    if w > 1 && clean {
        ensure!(b.m.minpath(&h).is_none() && b.m.mincut(&h).is_none(), "a function falling in one of {} components was given minimal sets", n);
    }
    c.count("systems_with_over_256_components");
    Ok(())
}
fn minsol_big(c: &mut Case) -> R {
    if c.rng.chance(1, 8) {
        return minsol_wide(c);
    }
    let n = if c.rng.chance(1, 2) { 10 + c.rng.below(10) } else { 30 + c.rng.below(33) };
    let b = new_bs_any(c, n);
    let k = 1 + c.rng.below(n);
    if binom(n as u64, k as u64) > 1 << 32 {
        c.count("families_with_more_than_2^32_sets");
    }
    let f = b.m.kofn(k, &b.vars);
    let p = b.m.minpath(&f).ok_or("kofn refused as non-monotone by minpath")?;
    let q = b.m.mincut(&f).ok_or("kofn refused as non-monotone by mincut")?;
    ensure!(p.count(&[true]) == binom(n as u64, k as u64), "minpath of {}-of-{} has {} sets", k, n, p.count(&[true]));
    ensure!(q.count(&[true]) == binom(n as u64, (n - k + 1) as u64), "mincut of {}-of-{} has {} sets", k, n, q.count(&[true]));
    for (z, size) in [(&p, k), (&q, n - k + 1)] {
        for s in z.extract(&[true]).take(300) {
            let u: HashSet<&String> = s.iter().collect();
            ensure!(u.len() == size && s.len() == size, "a minimal set of {}-of-{} has size {} instead of {}", k, n, s.len(), size);
        }
    }
    c.count("large_families");
    // a bridge-like random network of pairs: paths of an or of ands, exactly known
    let m = n / 2;
    let terms: Vec<BddNode> = (0..m).map(|i| b.vars[2 * i].and(&b.vars[2 * i + 1])).collect();
    let g = b.m.or(&terms);
    let p = b.m.minpath(&g).ok_or("or of ands refused")?;
    let want: Family = (0..m).map(|i| [b.names[2 * i].clone(), b.names[2 * i + 1].clone()].into_iter().collect()).collect();
    ensure!(fam_of_zdd(&p, "minpath")? == want, "minpath of an or of {} pairs is wrong", m);
    let q = b.m.mincut(&g).ok_or("or of ands refused")?;
    ensure!(q.count(&[true]) == 1 << m, "mincut of an or of {} pairs has {} sets", m, q.count(&[true]));
    // breaking monotonicity in one place far from the root must be noticed
    let h = g.xor(&b.m.and(&b.vars[..2 + c.rng.below(n - 2)]));
    let nots = b.m.minpath(&h).is_some();
    // g xor (a conjunction implying g) drops the top points: never monotone (the all-ones point)
    ensure!(!nots && b.m.mincut(&h).is_none(), "a non-monotone function over {} variables was given minimal sets", n);
    Ok(())
}

// ---------------------------------------------------------------- P24
pub fn count_case(c: &mut Case) -> R {
    if c.idx % 50 == 9 {
        return count_big(c);
    }
    let n = nsize(c, 8);
    let mut b = new_bs_any(c, n);
    let mut pool: Vec<(BddNode, Tab)> = Vec::new();
    for _ in 0..1 + c.rng.below(4) {
        churn(c, &mut b, &mut pool, 9);
        if pool.is_empty() || c.rng.chance(3, 4) {
            let f = any_fn(c, &b);
            pool.push(f);
        }
        let (f, t) = pool[c.rng.below(pool.len())].clone();
        let sup = support(&t);
        // the assignments are over every variable up to the highest one the function depends on
        let k = sup.last().map(|x| x + 1).unwrap_or(0);
        for ss in SSS {
            let want: BTreeSet<Vec<(String, bool)>> = (0..1usize << k)
                .filter(|&x| ss.contains(&t[x]))
                .map(|x| {
                    let mut v: Vec<(String, bool)> = (0..k).map(|i| (b.names[i].clone(), x >> i & 1 == 1)).collect();
                    v.sort();
                    v
                })
                .collect();
            let cnt = f.bdd_count(ss);
            ensure!(cnt == want.len() as u64, "bdd_count({:?}) of table {} (variables {:?}) is {}, there are {} such assignments", ss, show_tab(&t), b.names, cnt, want.len());
            let it = f.bdd_extract(ss);
            ensure!(it.len() == cnt, "bdd_extract({:?}).len() is {}, bdd_count is {}", ss, it.len(), cnt);
            let mut got = BTreeSet::new();
            let mut rows = 0;
            for row in it {
                rows += 1;
                let mut v: Vec<(String, bool)> = row.iter().map(|s| match s.strip_prefix('~') {
                    Some(x) => (x.to_string(), false),
                    None => (s.clone(), true),
                }).collect();
                v.sort();
                ensure!(got.insert(v), "bdd_extract({:?}) of table {} enumerates {:?} twice", ss, show_tab(&t), row);
            }
            c.log(|| format!("table {} ss {:?}: count {} rows {}", show_tab(&t), ss, cnt, rows));
            ensure!(got == want, "bdd_extract({:?}) of table {} (variables {:?}) enumerates {:?}, expected {:?}", ss, show_tab(&t), b.names, got, want);
            c.add("assignments_enumerated", rows);
            c.count("enumerations_compared");
        }
        c.seen(&(&t, "count"));
        // size: distinct non-constant sub-functions along the order, reached leaves, edges
        let want = model_size(&t);
        ensure!(f.size() == want, "size() of table {} (variables {:?}) is {:?}, the reduced diagram has {:?}", show_tab(&t), b.names, f.size(), want);
        c.count("sizes_compared");
        // an enumeration stays open while its handle goes, and the manager works, collects
        // and learns new variables
        if c.rng.chance(1, 3) {
            let ss = pick_ss(c);
            let norm = |v: Vec<Vec<String>>| {
                let mut v = v;
                v.iter_mut().for_each(|r| r.sort());
                v.sort();
                v
            };
            let want = norm(f.bdd_extract(ss).collect::<Vec<_>>());
            let cnt = f.bdd_count(ss);
            let mut it = f.bdd_extract(ss);
            drop(f);
            pool.clear();
            let mut got = Vec::new();
            for _ in 0..c.rng.below(3) {
                got.extend(it.next());
            }
            for _ in 0..1 + c.rng.below(3) {
                churn(c, &mut b, &mut pool, 9);
                b.m.bdd().gc(&[]);
                pool.push(any_fn(c, &b));
                got.extend(it.next());
            }
            ensure!(it.len() == cnt, "an open enumeration reports len() {} after other work, {} before", it.len(), cnt);
            got.extend(it);
            let got = norm(got);
            ensure!(got == want, "an enumeration of table {} held open during other work gave {:?}, undisturbed it gives {:?}", show_tab(&t), got, want);
            c.count("enumerations_interrupted_by_work");
        }
    }
    Ok(())
}
/// Size of the reduced ordered diagram, computed from the table alone.
pub fn model_size(t: &[bool]) -> (u64, u64, u64) {
    let mut subs: HashSet<Vec<bool>> = HashSet::new();
    let mut leaves: HashSet<bool> = HashSet::new();
    fn rec(t: &[bool], subs: &mut HashSet<Vec<bool>>, leaves: &mut HashSet<bool>) {
        if t.len() == 1 {
            leaves.insert(t[0]);
            return;
        }
        let (a, b) = t.split_at(t.len() / 2);
        if a == b {
            return rec(a, subs, leaves);
        }
        if subs.insert(t.to_vec()) {
            rec(a, subs, leaves);
            rec(b, subs, leaves);
        }
    }
    rec(t, &mut subs, &mut leaves);
    (subs.len() as u64, leaves.len() as u64, 2 * subs.len() as u64)
}
fn count_big(c: &mut Case) -> R {
    let n = 20 + c.rng.below(42);
    let b = new_bs_any(c, n);
    let k = c.rng.below(n + 1);
    let f = b.m.kofn(k, &b.vars);
    let want: u64 = (k as u64..=n as u64).map(|j| binom(n as u64, j)).sum();
    if k > 0 {
        ensure!(f.bdd_count(&[true]) == want, "{}-of-{} has {} satisfying assignments, bdd_count says {}", k, n, want, f.bdd_count(&[true]));
        ensure!(f.bdd_count(&[false]) == (1u64 << n) - want, "{}-of-{}: bdd_count([false]) is {}", k, n, f.bdd_count(&[false]));
        ensure!(f.bdd_count(&[true, false]) == 1u64 << n, "bdd_count over both outcomes is not 2^{}", n);
        let size = f.size();
        ensure!(size == ((k * (n - k + 1)) as u64, 2, 2 * (k * (n - k + 1)) as u64), "size of {}-of-{} is {:?}", k, n, size);
    }
    // a diagram with long skips
    let i = c.rng.below(n);
    let j = c.rng.below(n);
    let g = b.vars[i].and(&b.vars[j]);
    let top = i.max(j) as u32;
    let want = if i == j { 1u64 << top } else { 1u64 << (top - 1) };
    ensure!(g.bdd_count(&[true]) == want, "x{} & x{} over {} variables: bdd_count {} expected {}", i, j, n, g.bdd_count(&[true]), want);
    let first: Vec<Vec<String>> = f.bdd_extract(&[true, false]).take(200).collect();
    let uniq: HashSet<&Vec<String>> = first.iter().collect();
    ensure!(uniq.len() == first.len(), "an assignment is enumerated twice");
    if k > 0 {
        for r in &first {
            ensure!(r.len() == n, "an assignment of {}-of-{} lists {} of {} variables", k, n, r.len(), n);
        }
    }
    c.count("large_counts");
    Ok(())
}

// ---------------------------------------------------------------- P26
/// Products of families over disjoint elements: so many sets that only their number is known.
fn family_big(c: &mut Case) -> R {
    let mut m = ZddMgr::new();
    let mut names: Vec<String> = Vec::new();
    // per group: the family, its number of sets, its element range, whether it has the empty set
    let mut groups: Vec<(ZddNode, u64, std::ops::Range<usize>)> = Vec::new();
    let mut total = 1u64;
    let want = 2 + c.rng.below(30);
    while groups.len() < want {
        let w = 1 + c.rng.below(5);
        let at = names.len();
        let mine: Vec<String> = (at..at + w).map(|i| format!("e{}", i)).collect();
        let kind = c.rng.below(4);
        let sets: Vec<Vec<String>> = (0..1usize << w)
            .filter(|x| match kind {
                0 => x.count_ones() == 1,
                1 => true,
                2 => *x > 0,
                _ => x.count_ones() as usize <= 1 || *x == (1 << w) - 1,
            })
            .map(|x| (0..w).filter(|i| x >> i & 1 == 1).map(|i| mine[i].clone()).collect())
            .collect();
        let k = sets.len() as u64;
        if total > (1 << 61) / k {
            break;
        }
        total *= k;
        let z = m.from_sets(&sets);
        ensure!(z.count(&[true]) == k, "a family of {} sets has {}", k, z.count(&[true]));
        names.extend(mine);
        groups.push((z, k, at..at + w));
    }
    let mut ord: Vec<usize> = (0..groups.len()).collect();
    c.rng.shuffle(&mut ord);
    let mut p = m.base();
    for &i in &ord {
        p = p.product(&groups[i].0);
    }
    ensure!(p.count(&[true]) == total, "the product of families of {:?} sets over disjoint elements has {} sets, expected {}", groups.iter().map(|g| g.1).collect::<Vec<_>>(), p.count(&[true]), total);
    if total > 1 << 32 {
        c.count("families_with_more_than_2^32_sets");
    }
    // the order of the factors does not matter
    let mut p2 = m.base();
    for (z, _, _) in &groups {
        p2 = p2.product(z);
    }
    ensure!(p.eq(&p2), "two orders of multiplication of {} families give different families", groups.len());
    // dividing takes a factor out again
    let i = c.rng.below(groups.len());
    let mut rest = m.base();
    for (j, (z, _, _)) in groups.iter().enumerate() {
        if j != i {
            rest = rest.product(z);
        }
    }
    let q = p.divide(&groups[i].0);
    ensure!(q.eq(&rest) && q.count(&[true]) == total / groups[i].1, "dividing a product of {} sets by a factor of {} leaves {} sets", total, groups[i].1, q.count(&[true]));
    // the sets enumerated first are members, each once
    let mut seen: HashSet<Vec<String>> = HashSet::new();
    for mut s in p.extract(&[true]).take(200) {
        s.sort();
        let one = m.from_sets(std::slice::from_ref(&s));
        ensure!(p.intersect(&one).eq(&one), "an enumerated set {:?} is not a member", s);
        ensure!(seen.insert(s), "a set is enumerated twice");
    }
    ensure!(seen.len() as u64 == total.min(200), "{} of {} sets were enumerated", seen.len(), total);
    // inclusion and exclusion with a second product that shares some factors
    let mut r = m.base();
    let (mut rn, mut both) = (1u64, 1u64);
    for (z, k, at) in &groups {
        if c.rng.chance(1, 2) {
            r = r.product(z);
            rn *= k;
            both *= k;
        } else {
            // one set of the group, as a family
            let s = z.extract(&[true]).nth(c.rng.below(*k as usize)).ok_or("a set is missing")?;
            ensure!(s.iter().all(|x| names[at.clone()].contains(x)), "a set {:?} of other elements", s);
            r = r.product(&m.from_sets(&[s]));
        }
    }
    let extra = m.singleton("another");
    let r2 = r.union(&extra);
    ensure!(r2.count(&[true]) == rn + 1, "{} sets and another make {}", rn, r2.count(&[true]));
    let (u, n, d) = (p.union(&r2), p.intersect(&r2), p.setdiff(&r2));
    ensure!(n.eq(&r) && n.count(&[true]) == both, "the common part of families of {} and {} sets has {} sets, expected {}", total, rn + 1, n.count(&[true]), both);
    ensure!(u.count(&[true]) == total + 1, "the union of families of {} and {} sets with {} in common has {} sets", total, rn + 1, both, u.count(&[true]));
    ensure!(d.count(&[true]) == total - both, "the difference of families of {} and {} sets with {} in common has {} sets", total, rn + 1, both, d.count(&[true]));
    ensure!(r2.setdiff(&p).eq(&extra) && d.union(&n).eq(&p), "difference and common part do not make up the family");
    c.count("large_families");
    c.seen(&(total, rn, i));
    Ok(())
}
pub fn family_case(c: &mut Case) -> R {
    if c.idx % 40 == 9 {
        return family_big(c);
    }
    let mut m = ZddMgr::new();
    let wide = c.rng.chance(1, 150);
    let ne = if wide { 260 + c.rng.below(20) } else { 1 + c.rng.below(8) };
    if wide {
        c.count("families_over_256_elements");
    }
    let style = c.rng.below(6);
    let names: Vec<String> = (0..ne).map(|i| var_name(&mut c.rng, i, style)).collect();
    let tiny = c.rng.chance(1, 3);
    if tiny {
        m.set_gc_threshold(c.rng.below(60));
    }
    let mut pool: Vec<(ZddNode, Family)> = vec![(m.empty(), Family::new()), (m.base(), [Set::new()].into_iter().collect())];
    let steps = 4 + c.rng.below(10);
    for _ in 0..steps {
        let (z, f) = match c.rng.below(9) {
            0 => {
                let s = c.rng.pick(&names).clone();
                (m.singleton(&s), [[s].into_iter().collect::<Set>()].into_iter().collect::<Family>())
            }
            1 | 2 => {
                let k = c.rng.below(7);
                let dens = 1 + c.rng.below(4);
                let mut sets: Vec<Vec<String>> = Vec::new();
                for _ in 0..k {
                    let mut s: Vec<String> = names.iter().filter(|_| c.rng.chance(dens, 6)).cloned().collect();
                    if wide && c.rng.chance(2, 3) {
                        // few elements, of which some are a multiple of 256 apart
                        let i = c.rng.below(ne);
                        s = vec![names[i].clone(), names[(i + 256) % ne].clone(), names[c.rng.below(3)].clone()];
                    }
                    c.rng.shuffle(&mut s);
                    if !s.is_empty() && c.rng.chance(1, 6) {
                        s.push(s[0].clone());
                    }
                    sets.push(s);
                }
                if k > 1 && c.rng.chance(1, 4) {
                    sets.push(sets[0].clone());
                }
                c.log(|| format!("from_sets {:?}", sets));
                let f: Family = sets.iter().map(|s| s.iter().cloned().collect()).collect();
                (m.from_sets(&sets), f)
            }
            o => {
                let (a, fa) = pool[c.rng.below(pool.len())].clone();
                let (b, fb) = pool[c.rng.below(pool.len())].clone();
                c.log(|| format!("op {} on {:?} and {:?}", o, fa, fb));
                match o {
                    3 => (a.union(&b), fa.union(&fb).cloned().collect()),
                    4 => (a.intersect(&b), fa.intersection(&fb).cloned().collect()),
                    5 => (a.setdiff(&b), fa.difference(&fb).cloned().collect()),
                    6 => {
                        if fa.len() * fb.len() > 600 {
                            continue;
                        }
                        let mut r = Family::new();
                        for x in &fa {
                            for y in &fb {
                                r.insert(x.union(y).cloned().collect());
                            }
                        }
                        (a.product(&b), r)
                    }
                    7 => {
                        if fb.is_empty() {
                            continue;
                        }
                        let q = quotient(&fa, &fb);
                        if !q.is_empty() {
                            c.count("nonempty_quotients");
                        }
                        (a.divide(&b), q)
                    }
                    _ => {
                        // quotient of a product
                        if fb.is_empty() || fa.len() * fb.len() > 600 {
                            continue;
                        }
                        let p = a.product(&b);
                        let pf = fam_of_zdd(&p, "product")?;
                        let q = quotient(&pf, &fb);
                        c.count("nonempty_quotients");
                        (p.divide(&b), q)
                    }
                }
            }
        };
        let got = fam_of_zdd(&z, "family")?;
        ensure!(got == f, "the family is {:?}, expected {:?}", got, f);
        for (y, g) in &pool {
            ensure!(y.eq(&z) == (g == &f), "equality of families {:?} and {:?} is {}", g, f, y.eq(&z));
        }
        ensure!(z.is_zero() == f.is_empty(), "is_zero is {} for {:?}", z.is_zero(), f);
        ensure!(z.is_one() == (f.len() == 1 && f.contains(&Set::new())), "is_one is {} for {:?}", z.is_one(), f);
        c.count("families_compared");
        c.seen(&f);
        if c.rng.chance(1, 6) {
            m.clear_cache();
        }
        if pool.len() > 6 {
            let k = c.rng.below(pool.len());
            pool.swap_remove(k);
        }
        pool.push((z, f));
    }
    for (z, f) in &pool {
        ensure!(&fam_of_zdd(z, "kept family")? == f, "a kept family changed: expected {:?}", f);
        let (nn, nv, e) = z.size();
        ensure!(e == 2 * nn && (nv <= 2 && nv >= 1), "size() of a family is {:?}", z.size());
        let mut cur = Some(z.clone());
        let mut last = usize::MAX;
        while let Some(x) = cur {
            // levels strictly decrease along the present edges, and every present edge leads somewhere
            cur = match x.get_children() {
                None => None,
                Some((_, h)) => {
                    let l = x.get_level().ok_or("non-terminal family without level")?;
                    ensure!(l < last, "levels do not decrease along a path");
                    last = l;
                    ensure!(!h.is_zero(), "zero-suppression violated: the present edge leads to the empty family");
                    ensure!(x.get_label().map(|s| names.contains(&s)) == Some(true), "unknown element label {:?}", x.get_label());
                    Some(h)
                }
            };
        }
    }
    Ok(())
}
/// The largest Q with every q disjoint from and combined with every set of g a set of f.
fn quotient(f: &Family, g: &Family) -> Family {
    let d = match g.iter().next() {
        None => return Family::new(),
        Some(d) => d,
    };
    f.iter()
        .filter(|s| d.is_subset(s))
        .map(|s| s.difference(d).cloned().collect::<Set>())
        .filter(|q| g.iter().all(|d| q.is_disjoint(d) && f.contains(&q.union(d).cloned().collect::<Set>())))
        .collect()
}

// ---------------------------------------------------------------- P27 (binary half)
pub fn nary_case(c: &mut Case) -> R {
    if c.idx % 20 == 4 {
        return kofn_big(c);
    }
    let n = nsize(c, 7);
    let b = new_bs_any(c, n);
    for _ in 0..1 + c.rng.below(3) {
        let k = if c.rng.chance(1, 4000) { 256 + c.rng.below(20) } else { c.rng.below(8) };
        c.max("longest_list", k as u64);
        let mut fs: Vec<(BddNode, Tab)> = Vec::new();
        for _ in 0..k {
            let f = if !fs.is_empty() && c.rng.chance(1, 6) {
                fs[c.rng.below(fs.len())].clone()
            } else if n > 0 && c.rng.chance(1, 2) {
                let i = c.rng.below(n);
                (b.vars[i].clone(), var_tab(n, i))
            } else {
                any_fn(c, &b)
            };
            fs.push(f);
        }
        let hs: Vec<BddNode> = fs.iter().map(|x| x.0.clone()).collect();
        let ts: Vec<&Tab> = fs.iter().map(|x| &x.1).collect();
        let a = tab_of(&b.m.and(&hs), n);
        ensure!(a == atleast_tab(n, k, &ts), "and of {} functions {:?} is {}", k, ts.iter().map(|t| show_tab(t)).collect::<Vec<_>>(), show_tab(&a));
        let o = tab_of(&b.m.or(&hs), n);
        ensure!(o == atleast_tab(n, 1, &ts), "or of {} functions {:?} is {}", k, ts.iter().map(|t| show_tab(t)).collect::<Vec<_>>(), show_tab(&o));
        let all: Vec<usize> = if k > 255 { [0, 1, 2, 255, 256, 257, k - 1, k, k + 1].to_vec() } else { (0..=k + 2).collect() };
        for kk in all.into_iter().chain([1 << 40, usize::MAX - 1, usize::MAX]) {
            let g = tab_of(&b.m.kofn(kk, &hs), n);
            let w = if kk > k { const_tab(n, false) } else { atleast_tab(n, kk, &ts) };
            ensure!(g == w, "at least {} of {} functions {:?} is {}, expected {}", kk, k, ts.iter().map(|t| show_tab(t)).collect::<Vec<_>>(), show_tab(&g), show_tab(&w));
            c.count("kofn_compared");
            c.seen(&(kk, &ts));
        }
        if k == 0 {
            c.count("empty_lists");
        }
    }
    Ok(())
}
fn kofn_big(c: &mut Case) -> R {
    let n = match c.rng.below(60) {
        0 => 260 + c.rng.below(20),
        1 if c.rng.chance(1, 3) => 500 + c.rng.below(200),
        _ => 20 + c.rng.below(60),
    };
    if n > 256 {
        c.count("kofn_over_256_components");
    }
    let b = new_bs_any(c, n);
    let k = if n >= 500 && c.rng.chance(2, 3) { n / 3 + c.rng.below(n / 3) } else { c.rng.below(n + 2) };
    let mut vs = b.vars.clone();
    if n >= 500 {
        // highest level first: other orders take too long
        vs.sort_by_key(|v| std::cmp::Reverse(v.get_level()));
    } else {
        c.rng.shuffle(&mut vs);
    }
    let f = b.m.kofn(k, &vs);
    let z: Vec<Zp> = (0..n).map(|_| Zp(c.rng.next() % P61)).collect();
    let pv: HashMap<String, Zp> = (0..n).map(|i| (b.names[i].clone(), z[i])).collect();
    // distribution of the number of working components
    let mut d = vec![Zp(0); n + 2];
    d[0] = Zp(1);
    for p in &z {
        for j in (0..=n).rev() {
            let up = if j > 0 { d[j - 1] * *p } else { Zp(0) };
            d[j] = d[j] * (Zp(1) - *p) + up;
        }
    }
    let mut w = Zp(0);
    for x in d.iter().take(n + 1).skip(k) {
        w = w + *x;
    }
    let g = f.prob(&pv, &[true]);
    ensure!(g == w, "at least {} of {} components: probability polynomial differs (got {:?}, expected {:?})", k, n, g, w);
    c.count("large_kofn");
    Ok(())
}

// ---------------------------------------------------------------- P28
#[derive(Clone, Debug)]
enum Ex {
    C(bool),
    V(String),
    Not(Box<Ex>),
    Bin(u8, Box<Ex>, Box<Ex>),
    Ite(Box<Ex>, Box<Ex>, Box<Ex>),
}
fn ev(e: &Ex, env: &HashMap<String, bool>) -> bool {
    match e {
        Ex::C(b) => *b,
        Ex::V(s) => env[s],
        Ex::Not(a) => !ev(a, env),
        Ex::Bin(o, a, b) => {
            let (x, y) = (ev(a, env), ev(b, env));
            match o {
                0 => x & y,
                1 => x | y,
                _ => x ^ y,
            }
        }
        Ex::Ite(a, b, d) => {
            if ev(a, env) {
                ev(b, env)
            } else {
                ev(d, env)
            }
        }
    }
}
/// The documented grammar, executed on expression trees.
fn rpn_model(toks: &[String]) -> Option<Ex> {
    let mut st: Vec<Ex> = Vec::new();
    let mut mem: HashMap<String, Ex> = HashMap::new();
    for t in toks {
        match t.as_str() {
            "0" | "False" => st.push(Ex::C(false)),
            "1" | "True" => st.push(Ex::C(true)),
            "&" | "|" | "^" => {
                let y = st.pop()?;
                let x = st.pop()?;
                let o = match t.as_str() {
                    "&" => 0,
                    "|" => 1,
                    _ => 2,
                };
                st.push(Ex::Bin(o, Box::new(x), Box::new(y)));
            }
            "~" => {
                let x = st.pop()?;
                st.push(Ex::Not(Box::new(x)));
            }
            "?" => {
                let z = st.pop()?;
                let y = st.pop()?;
                let x = st.pop()?;
                st.push(Ex::Ite(Box::new(x), Box::new(y), Box::new(z)));
            }
            s if s.starts_with("save(") && s.ends_with(')') => {
                let x = st.last()?.clone();
                mem.insert(s[5..s.len() - 1].to_string(), x);
            }
            s if s.starts_with("load(") && s.ends_with(')') => st.push(mem.get(&s[5..s.len() - 1])?.clone()),
            s => st.push(Ex::V(s.to_string())),
        }
    }
    if st.len() == 1 {
        st.pop()
    } else {
        None
    }
}
fn ex_size(e: &Ex) -> usize {
    1 + match e {
        Ex::Not(a) => ex_size(a),
        Ex::Bin(_, a, b) => ex_size(a) + ex_size(b),
        Ex::Ite(a, b, d) => ex_size(a) + ex_size(b) + ex_size(d),
        _ => 0,
    }
}
fn gen_rpn(c: &mut Case, names: &[String], len: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut depth = 0usize;
    let mut saved: Vec<String> = Vec::new();
    let ids = ["a", "1", "x0", "save", "", "(", "))", "É", "0"];
    for _ in 0..len {
        match c.rng.below(16) {
            0 | 1 if depth >= 2 => {
                out.push("&".into());
                depth -= 1
            }
            2 | 3 if depth >= 2 => {
                out.push("|".into());
                depth -= 1
            }
            4 if depth >= 2 => {
                out.push("^".into());
                depth -= 1
            }
            5 if depth >= 1 => out.push("~".into()),
            6 if depth >= 3 => {
                out.push("?".into());
                depth -= 2
            }
            7 if depth >= 1 => {
                // now and then under the name of a variable
                let id = if c.rng.chance(1, 5) { c.rng.pick(names).as_str() } else { *c.rng.pick(&ids) };
                saved.push(id.into());
                out.push(format!("save({})", id));
            }
            8 if !saved.is_empty() => {
                let id = c.rng.pick(&saved).clone();
                out.push(format!("load({})", id));
                depth += 1;
            }
            9 => {
                out.push(c.rng.pick(&["0", "1", "True", "False"]).to_string());
                depth += 1;
            }
            _ => {
                out.push(c.rng.pick(names).clone());
                depth += 1;
            }
        }
    }
    while depth > 1 {
        let o = if depth >= 3 && c.rng.chance(1, 3) { "?" } else { *c.rng.pick(&["&", "|", "^"]) };
        depth -= if o == "?" { 2 } else { 1 };
        out.push(o.into());
    }
    out
}
/// Expressions with hundreds of names and operands waiting on the stack.
fn rpn_wide(c: &mut Case) -> R {
    let n = 256 + c.rng.below(60);
    let names: Vec<String> = (0..n).map(|i| if i % 50 == 7 { format!("{}{}", "long".repeat(70), i) } else { format!("v{}", i) }).collect();
    let mut m = BssMgr::new();
    if c.rng.chance(1, 2) {
        m.bdd().set_gc_threshold(c.rng.below(200));
    }
    let mut kept: Vec<(BddNode, Ex)> = Vec::new();
    for round in 0..2 {
        let mut toks: Vec<String> = Vec::new();
        let mut depth = 0;
        let all = round == 0 || c.rng.chance(1, 2);
        for s in &names {
            toks.push(s.clone());
            depth += 1;
            if c.rng.chance(1, 9) {
                toks.push("~".into());
            }
            if !all && depth > 1 && c.rng.chance(1, 2) {
                toks.push(c.rng.pick(&["&", "|"]).to_string());
                depth -= 1;
            }
        }
        let first = if c.rng.chance(1, 2) { "&" } else { "|" };
        while depth > 1 {
            let o = if depth % 7 == 0 { *c.rng.pick(&["&", "|", "^"]) } else { first };
            toks.push(o.into());
            depth -= 1;
        }
        if c.rng.chance(1, 4) {
            toks.push("&".into());
        }
        let text = toks.join(" ");
        c.log(|| format!("rpn {:?}", text));
        match (m.rpn(&text), rpn_model(&toks)) {
            (Err(_), None) => c.count("malformed_expressions_refused"),
            (Ok(_), None) => return Err(format!("an expression of {} tokens is malformed but was accepted", toks.len())),
            (Err(e), Some(_)) => return Err(format!("an expression of {} tokens is well formed but was refused: {}", toks.len(), e)),
            (Ok(f), Some(e)) => {
                judge_rpn(&f, &e, &m.get_varorder(), &text)?;
                kept.push((f, e));
                c.count("expressions_over_256_names");
            }
        }
        ensure!(m.get_varorder() == names, "the names are not declared in the order of their first use");
    }
    for (f, e) in &kept {
        judge_rpn(f, e, &names, "(kept result)")?;
    }
    Ok(())
}
pub fn rpn_case(c: &mut Case, gc: bool) -> R {
    if c.idx % 400 == 31 {
        return rpn_wide(c);
    }
    let style = [0, 1, 2, 4][c.rng.below(4)];
    let nn = 1 + c.rng.below(6);
    let mut names: Vec<String> = (0..nn).map(|i| var_name(&mut c.rng, i, style)).collect();
    if c.rng.chance(1, 4) {
        names.push(c.rng.pick(&["save(", "load", "&&", "00", "-1", "save)", "~x", "true", "2", "(", "a|b"]).to_string());
    }
    let bssm = c.rng.chance(1, 2);
    let mut m1 = BddMgr::new();
    let mut m2 = BssMgr::new();
    if gc || c.rng.chance(1, 4) {
        m1.set_gc_threshold(c.rng.below(30));
        m2.bdd().set_gc_threshold(c.rng.below(30));
    }
    let mut kept: Vec<(BddNode, Ex)> = Vec::new();
    for round in 0..2 + c.rng.below(4) {
        if gc {
            // a collection falls due somewhere inside the next expression
            let more = c.rng.below(14);
            m1.set_gc_threshold(m1.live_node_count() + more);
            m2.bdd().set_gc_threshold(m2.bdd().live_node_count() + more);
        }
        let len = c.rng.below(18);
        let mut toks = gen_rpn(c, &names, len);
        // damage some of them
        for _ in 0..[0, 0, 1, 1, 2][c.rng.below(5)] {
            let i = c.rng.below(toks.len() + 1);
            match c.rng.below(4) {
                0 if i < toks.len() => {
                    toks.remove(i);
                }
                1 => toks.insert(i, c.rng.pick(&["&", "|", "^", "~", "?", "save(q)", "load(q)", "load(a)", "1"]).to_string()),
                2 if i < toks.len() && c.rng.chance(1, 4) => {
                    // recall something under a name that means something elsewhere
                    toks[i] = if c.rng.chance(1, 2) { format!("load({})", c.rng.pick(&names)) } else { format!("load({})", c.rng.pick(&["1", "x0", "a", "True", ""])) }
                }
                2 if i < toks.len() => toks[i] = c.rng.pick(&["&", "|", "?", "~", "load(zz)"]).to_string(),
                _ => toks.truncate(i),
            }
        }
        let text = if c.rng.chance(1, 3) { toks.join("  \t\n ") + "\n" } else { toks.join(" ") };
        let model = rpn_model(&toks).filter(|e| ex_size(e) < 4000);
        if model.is_none() && rpn_model(&toks).is_some() {
            continue;
        }
        c.log(|| format!("round {}: rpn {:?} -> model {}", round, text, if model.is_some() { "ok" } else { "error" }));
        c.seen(&toks);
        let got = if bssm { m2.rpn(&text) } else { m1.rpn(&text) };
        let order = if bssm { m2.get_varorder() } else { m1.get_varorder() };
        match (got, model) {
            (Err(_), None) => c.count("malformed_expressions_refused"),
            (Ok(_), None) => return Err(format!("rpn {:?} is malformed but was accepted", text)),
            (Err(e), Some(_)) => return Err(format!("rpn {:?} is well formed but was refused: {}", text, e)),
            (Ok(f), Some(e)) => {
                judge_rpn(&f, &e, &order, &text)?;
                c.count("expressions_compared");
                kept.push((f, e));
            }
        }
        for t in &toks {
            // a name used in an accepted or refused expression is declared at most once
            ensure!(order.iter().filter(|x| *x == t).count() <= 1, "variable {:?} declared twice: {:?}", t, order);
        }
    }
    let order = if bssm { m2.get_varorder() } else { m1.get_varorder() };
    for (f, e) in &kept {
        judge_rpn(f, e, &order, "(kept result)")?;
    }
    Ok(())
}
fn judge_rpn(f: &BddNode, e: &Ex, order: &[String], text: &str) -> R {
    let n = order.len();
    if n > 10 {
        // sampled points
        let mut seed = crate::rt::hash_of(&text);
        for k in 0..40 {
            let mut env: HashMap<String, bool> = HashMap::new();
            for s in order {
                seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                env.insert(s.clone(), if k % 4 == 0 { seed >> 60 == 0 } else { seed >> 63 == 1 });
            }
            let mut h = f.clone();
            while let Some((lo, hi)) = h.get_children() {
                let l = h.get_label().ok_or("a node without a label")?;
                h = if env[&l] { hi } else { lo };
            }
            let w = ev(e, &env);
            ensure!(h.is_one() == w && h.is_zero() == !w, "rpn {:?} over {} variables is {} at a sampled point, the expression is {}", text, n, h.is_one(), w);
        }
        return Ok(());
    }
    let t = tab_of(f, n);
    for (x, &got) in t.iter().enumerate() {
        let env: HashMap<String, bool> = order.iter().enumerate().map(|(i, s)| (s.clone(), x >> i & 1 == 1)).collect();
        let w = ev(e, &env);
        ensure!(got == w, "rpn {:?} (variable order {:?}) is {} at {:?}, the expression is {}", text, order, got, env, w);
    }
    Ok(())
}

// ---------------------------------------------------------------- P15
pub fn reach_bdd<'a>(hs: impl Iterator<Item = &'a BddNode>, mgr: &BddManager) -> usize {
    let mut seen = HashSet::new();
    let mut st: Vec<usize> = hs.map(|h| h.get_id()).collect();
    let mut k = 0;
    while let Some(id) = st.pop() {
        if seen.insert(id) {
            if let Some(Node::NonTerminal(x)) = mgr.get_node(&id) {
                k += 1;
                st.push(x.edge(0));
                st.push(x.edge(1));
            }
        }
    }
    k
}
pub fn reach_zdd<'a>(hs: impl Iterator<Item = &'a ZddNode>, mgr: &ZddManager) -> usize {
    let mut seen = HashSet::new();
    let mut st: Vec<usize> = hs.map(|h| h.get_id()).collect();
    let mut k = 0;
    while let Some(id) = st.pop() {
        if seen.insert(id) {
            if let Some(Node::NonTerminal(x)) = mgr.get_node(&id) {
                k += 1;
                st.push(x.edge(0));
                st.push(x.edge(1));
            }
        }
    }
    k
}

pub fn handle_gc_case(c: &mut Case) -> R {
    if c.rng.chance(1, 3) {
        return handle_gc_zdd(c);
    }
    let n = 2 + c.rng.below(7);
    let b = new_bs(c, n);
    let mut floor = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.below(20),
        _ => c.rng.below(120),
    };
    b.m.bdd().set_gc_threshold(floor);
    let mut floor_max = floor;
    let mut pool: Vec<(BddNode, Tab)> = b.vars.iter().enumerate().map(|(i, v)| (v.clone(), var_tab(n, i))).collect();
    let mut iters: Vec<(BddPath, Tab, u64)> = Vec::new();
    let mut maxreach = 0usize;
    let mut live_before;
    let steps = 30 + c.rng.below(if c.tier == Tier::Thorough { 300 } else { 120 });
    let gcs0 = 0u64;
    let mut gcs = gcs0;
    for step in 0..steps {
        live_before = b.m.bdd().live_node_count();
        let pick = |c: &mut Case| pool[c.rng.below(pool.len())].clone();
        let mut wrapped = true;
        match c.rng.below(18) {
            0..=3 => {
                let (f, s) = pick(c);
                let (g, t) = pick(c);
                let r = match c.rng.below(3) {
                    0 => (f.and(&g), z2(&s, &t, |x, y| x & y)),
                    1 => (f.or(&g), z2(&s, &t, |x, y| x | y)),
                    _ => (f.xor(&g), z2(&s, &t, |x, y| x ^ y)),
                };
                pool.push(r);
            }
            4 => {
                let (f, s) = pick(c);
                pool.push((f.not(), s.iter().map(|x| !x).collect()));
            }
            5 => {
                let (f, s) = pick(c);
                let (g, t) = pick(c);
                let (h, u) = pick(c);
                pool.push((f.ite(&g, &h), ite_tab(&s, &t, &u)));
            }
            6 => {
                let (f, s) = pick(c);
                pool.push((f.dual(), dual_tab(&s)));
            }
            7 => {
                // intermediate results of a chain are dropped at once
                let d = 2 + c.rng.below(3);
                let r = expr(c, &b, d, false);
                pool.push(r);
            }
            8 => {
                let t = rand_tab(c, n);
                let f = build_tab(&b, &t);
                pool.push((f, t));
            }
            9 => {
                // children handles outlive the parent handle
                let i = c.rng.below(pool.len());
                let (f, s) = pool.swap_remove(i);
                if let (Some((lo, hi)), Some(l)) = (f.get_children(), f.get_level()) {
                    let cof = |v: bool| -> Tab { (0..s.len()).map(|x| s[if v { x | 1 << l } else { x & !(1 << l) }]).collect() };
                    drop(f);
                    pool.push((lo, cof(false)));
                    pool.push((hi, cof(true)));
                    c.count("children_outliving_parent");
                } else {
                    pool.push((f, s));
                }
                wrapped = false;
            }
            10 | 11 => {
                let (f, s) = pick(c);
                if c.rng.chance(1, 2) {
                    pool.push((f.clone(), s));
                }
                drop(f);
                wrapped = false;
            }
            12 | 13 => {
                while pool.len() > 3 && c.rng.chance(2, 3) {
                    let i = c.rng.below(pool.len());
                    pool.swap_remove(i);
                }
                wrapped = false;
            }
            14 => {
                let keep: Vec<&BddNode> = pool.iter().filter(|_| c.rng.chance(1, 3)).map(|x| &x.0).collect();
                b.m.bdd().gc(&keep);
                let its: Vec<&BddNode> = Vec::new();
                if iters.is_empty() {
                    let mgr = b.vars[0].get_mgr();
                    let r = reach_bdd(pool.iter().map(|x| &x.0).chain(b.vars.iter()).chain(its), &mgr.borrow());
                    let live = b.m.bdd().live_node_count();
                    ensure!(live == r + 3, "after an explicit collection {} nodes are live; the handles reach {} (plus 3 terminals)", live, r);
                    c.count("exact_collections");
                }
                c.count("explicit_collections");
                wrapped = false;
            }
            15 => {
                let (f, s) = pick(c);
                let mut it = f.bdd_extract(&[true]);
                drop(f);
                let mut k = 0;
                for _ in 0..c.rng.below(4) {
                    k += it.next().is_some() as u64;
                }
                iters.push((it, s, k));
                wrapped = false;
            }
            16 => {
                let (f, s) = pick(c);
                let r = b.m.minpath(&f);
                ensure!(r.is_some() == is_mono(&s), "minpath under automatic collection: monotone {} but {}", is_mono(&s), r.is_some());
                if let Some(z) = r {
                    ensure!(fam_of_zdd(&z, "minpath")? == minimal_sets(&s, &b.names), "minpath under automatic collection is wrong for {}", show_tab(&s));
                }
                wrapped = false;
            }
            _ => {
                if c.rng.chance(1, 3) {
                    floor = c.rng.below(150);
                    floor_max = floor_max.max(floor);
                    b.m.bdd().set_gc_threshold(floor);
                }
                let i = c.rng.below(n);
                let k = c.rng.below(n + 1);
                let vs: Vec<usize> = (0..n).filter(|&j| j != i).collect();
                let hs: Vec<BddNode> = vs.iter().map(|&j| b.vars[j].clone()).collect();
                let ts: Vec<Tab> = vs.iter().map(|&j| var_tab(n, j)).collect();
                pool.push((b.m.kofn(k, &hs), atleast_tab(n, k, &ts.iter().collect::<Vec<_>>())));
            }
        }
        let live = b.m.bdd().live_node_count();
        if live < live_before {
            gcs += 1;
        }
        {
            let mgr = b.vars[0].get_mgr();
            let r = reach_bdd(pool.iter().map(|x| &x.0).chain(b.vars.iter()), &mgr.borrow());
            maxreach = maxreach.max(r);
        }
        if wrapped && iters.is_empty() {
            // unreachable nodes cannot pile up beyond a constant factor of what was ever needed
            let bound = floor_max.max(4 * (maxreach + 8)) + (4 << n);
            ensure!(live <= bound, "step {}: {} nodes are live although the handles never reached more than {} and collection is set to {}", step, live, maxreach, floor);
        }
        // spot checks
        for _ in 0..2 {
            let (f, s) = &pool[c.rng.below(pool.len())];
            ensure!(&tab_of(f, n) == s, "step {}: a live handle now denotes {}, it was built as {}", step, show_tab(&tab_of(f, n)), show_tab(s));
            let (g, t) = &pool[c.rng.below(pool.len())];
            ensure!(f.eq(g) == (s == t), "step {}: handle equality {} for {} and {}", step, f.eq(g), show_tab(s), show_tab(t));
        }
        c.add("handle_checks", 2);
        if step % 16 == 15 {
            for (i, v) in b.vars.iter().enumerate() {
                ensure!(tab_of(v, n) == var_tab(n, i), "variable {} no longer denotes itself", b.names[i]);
            }
        }
        if !iters.is_empty() && c.rng.chance(1, 4) {
            let i = c.rng.below(iters.len());
            let (it, s, k) = iters.swap_remove(i);
            let total = k + it.count() as u64;
            let kk = support(&s).last().map(|x| x + 1).unwrap_or(0);
            let want = (0..1usize << kk).filter(|&x| s[x]).count() as u64;
            ensure!(total == want, "an enumeration held across collections produced {} of {} assignments of {}", total, want, show_tab(&s));
            c.count("enumerations_across_collections");
        }
        if pool.len() > 24 {
            pool.truncate(12);
        }
    }
    for (f, s) in &pool {
        ensure!(&tab_of(f, n) == s, "at the end a live handle denotes {}, it was built as {}", show_tab(&tab_of(f, n)), show_tab(s));
        c.seen(s);
    }
    // everything dropped: only the variables remain
    pool.clear();
    iters.clear();
    b.m.bdd().gc(&[]);
    ensure!(b.m.bdd().live_node_count() == n + 3, "with only the {} variables held, {} nodes stay live", n, b.m.bdd().live_node_count());
    c.add("collections_observed", gcs);
    Ok(())
}

fn handle_gc_zdd(c: &mut Case) -> R {
    let mut m = ZddMgr::new();
    let ne = 2 + c.rng.below(7);
    let names: Vec<String> = (0..ne).map(|i| format!("e{}", i)).collect();
    let mut floor = c.rng.below(60);
    let mut floor_max = floor;
    m.set_gc_threshold(floor);
    let mut pool: Vec<(ZddNode, Family)> = vec![(m.base(), [Set::new()].into_iter().collect())];
    let mut iters: Vec<(ZddPath, Family, Family)> = Vec::new();
    let mut maxreach = 0;
    let steps = 30 + c.rng.below(100);
    let mut gcs = 0;
    for step in 0..steps {
        let live_before = m.live_node_count();
        let mut wrapped = true;
        let pick = |c: &mut Case| pool[c.rng.below(pool.len())].clone();
        match c.rng.below(14) {
            0 => {
                let s = c.rng.pick(&names).clone();
                let z = m.singleton(&s);
                pool.push((z, [[s].into_iter().collect::<Set>()].into_iter().collect()));
            }
            1 | 2 => {
                let dens = 1 + c.rng.below(4);
                let sets: Vec<Vec<String>> = (0..c.rng.below(6)).map(|_| names.iter().filter(|_| c.rng.chance(dens, 6)).cloned().collect()).collect();
                let f: Family = sets.iter().map(|s| s.iter().cloned().collect()).collect();
                pool.push((m.from_sets(&sets), f));
            }
            3..=6 => {
                let (a, fa) = pick(c);
                let (b, fb) = pick(c);
                let r = match c.rng.below(5) {
                    0 => (a.union(&b), fa.union(&fb).cloned().collect()),
                    1 => (a.intersect(&b), fa.intersection(&fb).cloned().collect()),
                    2 => (a.setdiff(&b), fa.difference(&fb).cloned().collect()),
                    3 if fa.len() * fb.len() <= 200 => {
                        let mut r = Family::new();
                        for x in &fa {
                            for y in &fb {
                                r.insert(x.union(y).cloned().collect());
                            }
                        }
                        (a.product(&b), r)
                    }
                    4 if !fb.is_empty() => (a.divide(&b), quotient(&fa, &fb)),
                    _ => continue,
                };
                pool.push(r);
            }
            7 => {
                let i = c.rng.below(pool.len());
                let (z, f) = pool.swap_remove(i);
                match (z.get_children(), z.get_label()) {
                    (Some((lo, hi)), Some(l)) => {
                        drop(z);
                        pool.push((lo, f.iter().filter(|s| !s.contains(&l)).cloned().collect()));
                        pool.push((
                            hi,
                            f.iter()
                                .filter(|s| s.contains(&l))
                                .map(|s| {
                                    let mut s = s.clone();
                                    s.remove(&l);
                                    s
                                })
                                .collect(),
                        ));
                        c.count("children_outliving_parent");
                    }
                    _ => pool.push((z, f)),
                }
                wrapped = false;
            }
            8 | 9 => {
                while pool.len() > 2 && c.rng.chance(2, 3) {
                    let i = c.rng.below(pool.len());
                    pool.swap_remove(i);
                }
                wrapped = false;
            }
            10 => {
                let (z, f) = pick(c);
                let mut it = z.extract(&[true]);
                drop(z);
                let mut got = Family::new();
                for _ in 0..c.rng.below(3) {
                    if let Some(s) = it.next() {
                        got.insert(s.into_iter().collect());
                    }
                }
                iters.push((it, f, got));
                wrapped = false;
            }
            11 => {
                let (z, f) = pick(c);
                pool.push((z.clone(), f));
                drop(z);
                wrapped = false;
            }
            12 => {
                floor = c.rng.below(80);
                floor_max = floor_max.max(floor);
                m.set_gc_threshold(floor);
                wrapped = false;
            }
            _ => {
                m.clear_cache();
                wrapped = false;
            }
        }
        let live = m.live_node_count();
        if live < live_before {
            gcs += 1;
        }
        if let Some((z, _)) = pool.first() {
            let mgr = z.get_mgr();
            maxreach = maxreach.max(reach_zdd(pool.iter().map(|x| &x.0), &mgr.borrow()));
        }
        if wrapped && iters.is_empty() {
            let bound = floor_max.max(4 * (maxreach + 8)) + (4 << ne);
            ensure!(live <= bound, "step {}: {} family nodes are live although the handles never reached more than {}", step, live, maxreach);
        }
        let (z, f) = &pool[c.rng.below(pool.len())];
        ensure!(&fam_of_zdd(z, "live family")? == f, "step {}: a live family handle changed, it was {:?}", step, f);
        let (y, g) = &pool[c.rng.below(pool.len())];
        ensure!(z.eq(y) == (f == g), "step {}: handle equality {} for {:?} and {:?}", step, z.eq(y), f, g);
        c.count("handle_checks");
        if !iters.is_empty() && c.rng.chance(1, 4) {
            let i = c.rng.below(iters.len());
            let (it, f, mut got) = iters.swap_remove(i);
            for s in it {
                got.insert(s.into_iter().collect());
            }
            ensure!(got == f, "an enumeration held across collections gave {:?}, expected {:?}", got, f);
            c.count("enumerations_across_collections");
        }
        if pool.len() > 20 {
            pool.truncate(10);
        }
    }
    for (z, f) in &pool {
        ensure!(&fam_of_zdd(z, "live family")? == f, "at the end a live family handle changed, it was {:?}", f);
        c.seen(f);
    }
    // let go of everything, a few handles at a time, down to none; then start over
    iters.clear();
    c.rng.shuffle(&mut pool);
    loop {
        let left = if pool.len() <= 3 { pool.len().saturating_sub(1) } else { c.rng.below(pool.len()) };
        pool.truncate(left);
        m.set_gc_threshold(0);
        m.empty();
        let want = 3 + match pool.first() {
            Some((z, _)) => {
                let mgr = z.get_mgr();
                let mgr = mgr.borrow();
                reach_zdd(pool.iter().map(|x| &x.0), &mgr)
            }
            None => 0,
        };
        ensure!(m.live_node_count() == want, "with {} family handles left, reaching {} nodes with the terminals, {} are live after a collection", left, want, m.live_node_count());
        for (z, f) in &pool {
            ensure!(&fam_of_zdd(z, "live family")? == f, "with {} handles left a live family handle changed, it was {:?}", left, f);
        }
        c.count("exact_family_collections");
        if left == 0 {
            break;
        }
    }
    let sets: Vec<Vec<String>> = (0..5).map(|_| names.iter().filter(|_| c.rng.chance(1, 2)).cloned().collect()).collect();
    let f: Family = sets.iter().map(|s| s.iter().cloned().collect()).collect();
    let z = m.from_sets(&sets);
    ensure!(fam_of_zdd(&z, "family")? == f, "after every handle was dropped and collected, a new family differs from {:?}", f);
    c.add("collections_observed", gcs);
    Ok(())
}

/// Default settings: enough work to pass the built-in threshold several times.
pub fn handle_gc_default(c: &mut Case) -> R {
    let n = 14;
    let b = new_bs(c, n);
    let mut kept: Vec<(BddNode, u64)> = Vec::new();
    let mut peak = 0;
    let mut gcs = 0;
    let mut last = 0;
    let rounds = 36;
    for r in 0..rounds {
        let salt = c.rng.next();
        let t: Tab = (0..1usize << n).map(|x| hash_of(&(x, salt)) & 3 == 0).collect();
        let ones = t.iter().filter(|x| **x).count() as u64;
        let f = build_tab(&b, &t);
        let g = f.xor(&b.vars[c.rng.below(n)]);
        drop(g);
        let live = b.m.bdd().live_node_count();
        if live < last {
            gcs += 1;
        }
        last = live;
        peak = peak.max(live);
        if r % 12 == 5 {
            kept.push((f, ones));
        }
        for (h, k) in &kept {
            ensure!(h.bdd_count(&[true]) == *k, "a kept function over {} variables changed from {} to {} true points", n, k, h.bdd_count(&[true]));
        }
    }
    ensure!(gcs > 0, "{} rounds building and dropping functions never collected: {} nodes live", rounds, last);
    ensure!(peak < 1 << 18, "dropping every result still left {} nodes live", peak);
    c.max("peak_live_default_threshold", peak as u64);
    c.add("collections_observed", gcs);
    c.count("default_threshold_collections");
    Ok(())
}

/// More handles to one function (family) than small counters hold.
pub fn many_handles(c: &mut Case) -> R {
    let b = new_bs(c, 5);
    b.m.bdd().set_gc_threshold(usize::MAX / 4);
    b.m.bdd().gc(&[]);
    let base = b.m.bdd().live_node_count();
    let t = rand_tab(c, 5);
    let f = build_tab(&b, &t);
    b.m.bdd().gc(&[]);
    let held = b.m.bdd().live_node_count();
    let mut hs: Vec<BddNode> = (0..65_600).map(|i| if i % 3 == 0 { f.clone() } else { f.and(&f) }).collect();
    drop(f);
    for left in [65_537usize, 65_536, 65_535, 300, 257, 256, 255, 2, 1] {
        hs.truncate(left);
        b.m.bdd().gc(&[]);
        let u = rand_tab(c, 5);
        build_tab(&b, &u);
        ensure!(tab_of(&hs[0], 5) == t, "with {} handles to it left, a held function changed across a collection", left);
        b.m.bdd().gc(&[]);
        ensure!(b.m.bdd().live_node_count() == held, "with {} handles to one function {} nodes are live, {} are reachable", left, b.m.bdd().live_node_count(), held);
    }
    hs.clear();
    b.m.bdd().gc(&[]);
    ensure!(b.m.bdd().live_node_count() == base, "after dropping the last of 65600 handles {} nodes stay live, {} are reachable", b.m.bdd().live_node_count(), base);
    // families collect on their own when one is produced
    let mut z = ZddMgr::new();
    z.set_gc_threshold(0);
    let e = z.empty();
    let sets: Vec<Vec<String>> = [vec!["a", "b"], vec!["c"], vec![], vec!["b", "c"]].iter().map(|s| s.iter().map(|x| x.to_string()).collect()).collect();
    let fam = z.from_sets(&sets);
    let want = fam_of_zdd(&fam, "a family")?;
    z.set_gc_threshold(0);
    z.empty();
    let held = z.live_node_count();
    let mut hs: Vec<ZddNode> = (0..65_600).map(|_| fam.clone()).collect();
    drop(fam);
    for left in [65_537usize, 65_536, 65_535, 300, 257, 256, 255, 2, 1] {
        hs.truncate(left);
        z.from_sets(&[vec!["a".to_string(), "c".to_string()], vec!["b".to_string(), "a".to_string()]]);
        ensure!(fam_of_zdd(&hs[0], "a held family")? == want, "with {} handles to it left, a held family changed across a collection", left);
        z.set_gc_threshold(0);
        z.empty();
        ensure!(z.live_node_count() == held, "with {} handles to one family {} nodes are live, {} are reachable", left, z.live_node_count(), held);
    }
    hs.clear();
    drop(e);
    z.set_gc_threshold(0);
    z.empty();
    ensure!(z.live_node_count() == 3, "after dropping the last of 65600 handles {} family nodes stay live", z.live_node_count());
    c.max("handles_to_one_function", 65_600);
    Ok(())
}

// ---------------------------------------------------------------- P32 (binary half)
fn nav_wide(c: &mut Case) -> R {
    let n = 256 + c.rng.below(60);
    let mut b = new_bs(c, n);
    ensure!(b.m.get_varorder() == b.names, "get_varorder of {} variables is {:?}, declared {:?}", n, b.m.get_varorder(), b.names);
    for i in 0..n {
        let nm = b.names[i].clone();
        let v = b.m.defvar(&nm);
        ensure!(v.eq(&b.vars[i]) && v.get_level() == Some(i) && v.get_label() == Some(nm.clone()), "variable {} of {} reports level {:?} label {:?}", i, n, v.get_level(), v.get_label());
        let (lo, hi) = v.get_children().ok_or("a variable without children")?;
        ensure!(lo.is_zero() && hi.is_one(), "variable {} of {} has other children", i, n);
    }
    // a conjunction: one node per chosen variable, from the last one down
    let pick: Vec<usize> = (0..n).filter(|i| *i > n - 3 || *i < 3 || c.rng.chance(1, 2)).collect();
    let f = b.m.and(&pick.iter().map(|&i| b.vars[i].clone()).collect::<Vec<_>>());
    let mut h = f.clone();
    for &i in pick.iter().rev() {
        ensure!(h.get_level() == Some(i) && h.get_label().as_ref() == Some(&b.names[i]), "in a conjunction over {} variables, level {} reports {:?} {:?}", n, i, h.get_level(), h.get_label());
        let (lo, hi) = h.get_children().ok_or("children are missing")?;
        ensure!(lo.is_zero(), "the negative branch of a conjunction is not false");
        h = hi;
    }
    ensure!(h.is_one(), "a conjunction does not end in true");
    ensure!(f.size() == (pick.len() as u64, 2, 2 * pick.len() as u64), "size of a conjunction of {} variables is {:?}", pick.len(), f.size());
    c.count("systems_with_over_256_components");
    Ok(())
}
pub fn nav_case(c: &mut Case) -> R {
    if c.idx % 300 == 44 {
        return nav_wide(c);
    }
    let n = 1 + c.rng.below(7);
    let mut b = new_bs(c, n);
    ensure!(b.m.get_varorder() == b.names, "get_varorder is {:?}, declared {:?}", b.m.get_varorder(), b.names);
    for i in 0..n {
        let nm = b.names[i].clone();
        ensure!(b.m.defvar(&nm).eq(&b.vars[i]), "declaring {} again gave another node", nm);
        ensure!(b.vars[i].get_level() == Some(i) && b.vars[i].get_label() == Some(nm.clone()), "variable {} reports level {:?} label {:?}", nm, b.vars[i].get_level(), b.vars[i].get_label());
    }
    ensure!(b.m.get_varorder() == b.names, "declaring again changed the order");
    let (z, o) = (b.m.zero(), b.m.one());
    ensure!(z.is_zero() && !z.is_one() && !z.is_undet() && o.is_one() && !o.is_zero() && !o.is_undet(), "constants misreport themselves");
    ensure!(z.get_children().is_none() && z.get_level().is_none() && z.get_label().is_none() && o.get_children().is_none() && o.get_header().is_none(), "constants have children or a level");
    for _ in 0..2 {
        let (f, t) = any_fn(c, &b);
        nav_rec(&b, &f, &t, n, usize::MAX, &mut HashSet::new(), c)?;
        c.seen(&t);
    }
    // more variables later: existing functions keep their meaning
    let (f, t) = any_fn(c, &b);
    let extra = b.m.defvar("declared later");
    ensure!(extra.get_level() == Some(n), "a later variable got level {:?}", extra.get_level());
    let g = f.and(&extra);
    let tt = tab_of(&g, n + 1);
    for x in 0..1usize << (n + 1) {
        ensure!(tt[x] == (t[x & ((1 << n) - 1)] && x >> n & 1 == 1), "and with a later variable is wrong at {}", x);
    }
    // reports against what navigation finds
    for h in [&f, &g, &extra] {
        let (nn, leaves) = walk(std::iter::once(h));
        let want = (nn as u64, leaves as u64, 2 * nn as u64);
        ensure!(h.size() == want, "walking a diagram finds {:?} nodes, terminals and edges, size() says {:?}", want, h.size());
    }
    b.m.bdd().gc(&[]);
    let (nn, _) = walk(b.vars.iter().chain([&f, &g, &extra]));
    ensure!(b.m.bdd().live_node_count() == nn + 3, "the held handles reach {} nodes, {} are live after a collection", nn, b.m.bdd().live_node_count());
    c.count("reports_compared_with_walk");
    // families of minimal paths and cuts: the order of the variables
    let t = mono_tab(c, n);
    let f = build_tab(&b, &t);
    for cut in [false, true] {
        let z = if cut { b.m.mincut(&f) } else { b.m.minpath(&f) };
        let z = z.ok_or_else(|| format!("a monotone function {} has no family", show_tab(&t)))?;
        let want = minimal_sets(&if cut { dual_tab(&t) } else { t.clone() }, &b.names);
        nav_fam(&b.names, &z, &want, &mut HashMap::new(), c)?;
        fam_size(&z)?;
    }
    // families built by hand: elements in order of first appearance
    let mut m = ZddMgr::new();
    let k = 1 + c.rng.below(7);
    let style = c.rng.below(6);
    let labels: Vec<String> = (0..k).map(|i| var_name(&mut c.rng, i, style)).collect();
    let mut order: Vec<String> = Vec::new();
    let mut fams: Vec<(ZddNode, Family)> = vec![(m.empty(), Family::new()), (m.base(), [Set::new()].into_iter().collect())];
    for _ in 0..2 + c.rng.below(4) {
        let sets: Vec<Vec<String>> = (0..c.rng.below(6)).map(|_| (0..c.rng.below(k + 1)).map(|_| labels[c.rng.below(k)].clone()).collect()).collect();
        for e in sets.iter().flatten() {
            if !order.contains(e) {
                order.push(e.clone());
            }
        }
        let z = m.from_sets(&sets);
        fams.push((z, sets.into_iter().map(|s| s.into_iter().collect()).collect()));
        let (i, j) = (c.rng.below(fams.len()), c.rng.below(fams.len()));
        let (x, y) = (&fams[i], &fams[j]);
        let new = match c.rng.below(3) {
            0 => (x.0.union(&y.0), x.1.union(&y.1).cloned().collect()),
            1 => (x.0.setdiff(&y.0), x.1.difference(&y.1).cloned().collect()),
            _ => (x.0.intersect(&y.0), x.1.intersection(&y.1).cloned().collect()),
        };
        fams.push(new);
        if c.rng.chance(1, 3) {
            m.set_gc_threshold(0);
        }
    }
    for (z, f) in &fams {
        nav_fam(&order, z, f, &mut HashMap::new(), c)?;
        fam_size(z)?;
    }
    Ok(())
}
/// The size report of a family against what navigation finds.
fn fam_size(z: &ZddNode) -> R {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut st = vec![z.clone()];
    let (mut nn, mut leaves) = (0, 0);
    while let Some(h) = st.pop() {
        if seen.insert(h.get_id()) {
            match h.get_children() {
                Some((a, b)) => {
                    nn += 1;
                    st.push(a);
                    st.push(b);
                }
                None => leaves += 1,
            }
        }
    }
    ensure!(z.size() == (nn, leaves, 2 * nn), "walking a family finds {:?} nodes, terminals and edges, size() says {:?}", (nn, leaves, 2 * nn), z.size());
    Ok(())
}
/// Walk a family: its top element is the last one (in `order`) occurring in any set, the
/// children are the sets without it and, with it taken out, the sets containing it.
fn nav_fam(order: &[String], z: &ZddNode, f: &Family, seen: &mut HashMap<usize, Family>, c: &mut Case) -> R {
    if let Some(g) = seen.get(&z.get_id()) {
        ensure!(g == f, "one node stands for two families, {:?} and {:?}", g, f);
        return Ok(());
    }
    seen.insert(z.get_id(), f.clone());
    let unit = f.len() == 1 && f.iter().next().unwrap().is_empty();
    ensure!(z.is_zero() == f.is_empty() && z.is_one() == unit, "the family {:?} reports is_zero {} is_one {}", f, z.is_zero(), z.is_one());
    let top = order.iter().enumerate().rev().find(|(_, e)| f.iter().any(|s| s.contains(*e)));
    match top {
        None => ensure!(z.get_children().is_none() && z.get_level().is_none() && z.get_label().is_none() && z.get_header().is_none(), "the family {:?} has children or an element", f),
        Some((l, e)) => {
            ensure!(z.get_level() == Some(l) && z.get_label() == Some(e.clone()) && z.get_header().is_some(), "the top element of {:?} is {} (number {}), the node reports level {:?} label {:?}", f, e, l, z.get_level(), z.get_label());
            let (lo, hi) = z.get_children().ok_or("a family with elements has no children")?;
            let without: Family = f.iter().filter(|s| !s.contains(e)).cloned().collect();
            let with: Family = f.iter().filter(|s| s.contains(e)).map(|s| s.iter().filter(|x| *x != e).cloned().collect()).collect();
            c.count("family_nodes_navigated");
            nav_fam(order, &lo, &without, seen, c)?;
            nav_fam(order, &hi, &with, seen, c)?;
        }
    }
    Ok(())
}
/// Distinct non-terminals and terminals found by navigation from the given handles.
fn walk<'a>(hs: impl Iterator<Item = &'a BddNode>) -> (usize, usize) {
    let mut seen: HashSet<usize> = HashSet::new();
    let mut st: Vec<BddNode> = hs.cloned().collect();
    let (mut nn, mut leaves) = (0, 0);
    while let Some(h) = st.pop() {
        if seen.insert(h.get_id()) {
            match h.get_children() {
                Some((a, b)) => {
                    nn += 1;
                    st.push(a);
                    st.push(b);
                }
                None => leaves += 1,
            }
        }
    }
    (nn, leaves)
}
fn nav_rec(b: &Bs, f: &BddNode, t: &[bool], n: usize, above: usize, seen: &mut HashSet<usize>, c: &mut Case) -> R {
    let sup = support(t);
    match sup.last() {
        None => {
            ensure!(f.get_children().is_none(), "a constant function has children");
            ensure!(f.is_one() == t[0] && f.is_zero() == !t[0] && !f.is_undet(), "a constant function misreports its value");
            ensure!(f.get_level().is_none() && f.get_label().is_none() && f.get_header().is_none(), "a constant function reports a variable");
        }
        Some(&l) => {
            ensure!(l < above, "variable order violated");
            ensure!(!f.is_one() && !f.is_zero() && !f.is_undet(), "a non-constant function claims to be constant");
            ensure!(f.get_level() == Some(l) && f.get_label() == Some(b.names[l].clone()) && f.get_header() == Some(b.hid[l]), "the top variable of {} is {} but the node reports level {:?} label {:?}", show_tab(t), b.names[l], f.get_level(), f.get_label());
            let (lo, hi) = f.get_children().ok_or("a non-constant function has no children")?;
            c.count("nodes_navigated");
            if seen.insert(f.get_id()) {
                let cof = |v: bool| -> Tab { (0..t.len()).map(|x| t[if v { x | 1 << l } else { x & !(1 << l) }]).collect() };
                nav_rec(b, &lo, &cof(false), n, l, seen, c)?;
                nav_rec(b, &hi, &cof(true), n, l, seen, c)?;
            }
        }
    }
    Ok(())
}

