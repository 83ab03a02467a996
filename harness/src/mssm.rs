//! Monitors of the multi-state layer, through its public handle API. Every handle is shadowed
//! by the table it must denote (mixed radix, first declared variable fastest).
use crate::bssm::{near, var_name};
use crate::engine::{arith, Val, U};
use crate::ensure;
use crate::num::*;
use crate::rt::*;
use mss::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::{Add, Mul, Sub};

pub type Tab = Vec<i64>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct T {
    /// boolean or value
    pub b: bool,
    pub t: Tab,
}
impl T {
    fn det(&self) -> bool {
        !self.t.contains(&U)
    }
}

pub struct Ms<V> {
    pub m: MssMgr<V>,
    pub names: Vec<String>,
    pub rad: Vec<usize>,
    pub vars: Vec<MddNode<V>>,
    pub hid: Vec<usize>,
    pub pts: Vec<Vec<usize>>,
    /// variables made from headers of the forest, in any order of levels, instead of defvar
    pub raw: bool,
    pub pad: usize,
}
impl<V: Val> Ms<V> {
    pub fn n(&self) -> usize {
        self.rad.len()
    }
    pub fn size(&self) -> usize {
        self.pts.len()
    }
}
pub fn points(rad: &[usize]) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for &k in rad.iter().rev() {
        // highest variable outermost
        let mut q = Vec::new();
        for p in &r {
            for s in 0..k {
                let mut x: Vec<usize> = vec![s];
                x.extend(p.iter().cloned());
                q.push(x);
            }
        }
        r = q;
    }
    r.sort_by(|a, b| a.iter().rev().cmp(b.iter().rev()));
    r
}
pub fn new_ms<V: Val>(c: &mut Case, maxn: usize, maxpts: usize) -> Ms<V> {
    new_ms_with(c, maxn, maxpts, false)
}
/// As `new_ms`, but in a part of the cases the headers are created in the forest itself, in an
/// order that is not that of the levels.
pub fn new_ms_any<V: Val>(c: &mut Case, maxn: usize, maxpts: usize) -> Ms<V> {
    let raw = c.rng.chance(1, 6);
    new_ms_with(c, maxn, maxpts, raw)
}
fn raw_var<V: Val>(m: &MssMgr<V>, h: usize, r: usize) -> MddNode<V> {
    let ks: Vec<MddNode<V>> = (0..r).map(|i| m.value(V::from(i as i32))).collect();
    m.create_node(h, &ks)
}
fn new_ms_with<V: Val>(c: &mut Case, maxn: usize, maxpts: usize, raw: bool) -> Ms<V> {
    let mut m = MssMgr::new();
    let style = c.rng.below(6);
    let want = c.rng.below(maxn + 1);
    let mut rad = Vec::new();
    let mut size = 1;
    let binary = c.rng.chance(1, 8);
    while rad.len() < want {
        let r = if binary {
            2
        } else {
            match c.rng.below(24) {
                0 => 1,
                1 => 5 + c.rng.below(3),
                2 | 3 => 4,
                4..=12 => 2,
                _ => 3,
            }
        };
        if size * r > maxpts {
            break;
        }
        size *= r;
        rad.push(r);
    }
    if maxpts >= 60 && c.rng.chance(1, 64) {
        // more states than a byte holds
        rad = vec![257 + c.rng.below(20)];
        if c.rng.chance(1, 2) {
            rad.push(2);
            c.rng.shuffle(&mut rad);
        }
        c.count("variables_with_over_256_states");
    }
    let names: Vec<String> = (0..rad.len()).map(|i| var_name(&mut c.rng, i, style)).collect();
    let vars: Vec<MddNode<V>>;
    let hid;
    let mut pad = 0;
    if raw {
        let mut ord: Vec<usize> = (0..rad.len()).collect();
        c.rng.shuffle(&mut ord);
        let g = m.boolean(true).get_mgr();
        if c.rng.chance(1, 12) {
            // unused variables above all others take the first few hundred header ids
            for i in 0..260 + c.rng.below(20) {
                g.borrow_mut().create_header(rad.len() + i, &format!("unused {}", i), 2 + i % 3);
                pad += 1;
            }
            c.count("managers_with_over_256_headers");
        }
        for &i in &ord {
            g.borrow_mut().create_header(i, &names[i], rad[i]);
        }
        hid = headers(&m, &names);
        vars = (0..rad.len()).map(|i| raw_var(&m, hid[i], rad[i])).collect();
        c.count("managers_with_headers_out_of_order");
    } else {
        vars = (0..rad.len()).map(|i| m.defvar(&names[i], rad[i])).collect();
        hid = headers(&m, &names);
    }
    Ms { m, pts: points(&rad), names, rad, vars, hid, raw, pad }
}
fn headers<V: Val>(m: &MssMgr<V>, names: &[String]) -> Vec<usize> {
    let x = m.boolean(true);
    let g = x.get_mgr();
    let g = g.borrow();
    let k = g.mtmdd().size().0;
    names.iter().map(|s| (0..k).find(|h| g.mtmdd().get_header(h).map(|y| y.label() == s) == Some(true)).expect("declared variable has a header")).collect()
}
pub fn new_ms_n<V: Val>(c: &mut Case, minpts: usize, maxn: usize, maxpts: usize) -> Ms<V> {
    loop {
        let m = new_ms(c, maxn, maxpts);
        if m.size() >= minpts {
            return m;
        }
    }
}

/// Between two rounds of work on one manager: handles are dropped, nodes are reclaimed (so
/// that their ids come back for other functions), variables are declared.
pub fn churn<V: Val>(c: &mut Case, s: &mut Ms<V>, pool: &mut Vec<(MddNode<V>, T)>, maxpts: usize) -> bool {
    if c.rng.chance(1, 3) {
        let keep = c.rng.below(3);
        pool.truncate(keep);
        s.m.gc(&[]);
        c.count("rounds_after_reclaiming");
    } else if c.rng.chance(1, 5) {
        let t = s.m.live_node_count() + c.rng.below(8);
        s.m.set_gc_threshold(t);
    }
    let r = 1 + c.rng.below(4);
    if s.size() * r > maxpts || s.pad > 0 || !c.rng.chance(1, 5) {
        return false;
    }
    let name = format!("late{}{}", ["_", ".", "-"][c.rng.below(3)], s.n());
    let v = if s.raw {
        let h = s.m.boolean(true).get_mgr().borrow_mut().create_header(s.n(), &name, r);
        raw_var(&s.m, h, r)
    } else {
        s.m.defvar(&name, r)
    };
    s.vars.push(v);
    s.names.push(name);
    s.rad.push(r);
    s.pts = points(&s.rad);
    s.hid = headers(&s.m, &s.names);
    for (_, x) in pool.iter_mut() {
        let u = x.t.clone();
        for _ in 1..r {
            x.t.extend(u.iter());
        }
    }
    c.count("variables_declared_late");
    true
}

/// Value of a node at a point, by following labels.
pub fn at<V: Val>(node: &MddNode<V>, env: &dyn Fn(&str) -> usize) -> i64 {
    let g = node.get_mgr();
    let g = g.borrow();
    match node.get_node() {
        Node::Value(mut id) => loop {
            match g.mtmdd().get_node(&id).expect("live node") {
                mtmdd::Node::Terminal(t) => return t.value().to(),
                mtmdd::Node::Undet => return U,
                mtmdd::Node::NonTerminal(f) => {
                    let l = g.mtmdd().label(&id).expect("label");
                    id = f.iter().nth(env(l)).expect("edge per state");
                }
            }
        },
        Node::Bool(mut id) => loop {
            match g.mdd().get_node(&id).expect("live node") {
                mdd::Node::One => return 1,
                mdd::Node::Zero => return 0,
                mdd::Node::Undet => return U,
                mdd::Node::NonTerminal(f) => {
                    let l = g.mdd().label(&id).expect("label");
                    id = f.iter().nth(env(l)).expect("edge per state");
                }
            }
        },
    }
}
pub fn tab_of<V: Val>(s: &Ms<V>, node: &MddNode<V>) -> T {
    let ix: HashMap<&str, usize> = s.names.iter().enumerate().map(|(i, x)| (x.as_str(), i)).collect();
    T { b: node.is_boolean(), t: s.pts.iter().map(|p| at(node, &|l: &str| p[ix[l]])).collect() }
}
pub fn build<V: Val>(s: &Ms<V>, x: &T) -> MddNode<V> {
    fn rec<V: Val>(s: &Ms<V>, t: &[i64], k: usize, b: bool, memo: &mut HashMap<(usize, Vec<i64>), MddNode<V>>) -> MddNode<V> {
        if k == 0 {
            return match (b, t[0]) {
                (true, U) => s.m.undet_boolean(),
                (true, v) => s.m.boolean(v != 0),
                (false, U) => s.m.undet_value(),
                (false, v) => s.m.value(V::of(v)),
            };
        }
        if let Some(x) = memo.get(&(k, t.to_vec())) {
            return x.clone();
        }
        let r = s.rad[k - 1];
        let w = t.len() / r;
        let kids: Vec<MddNode<V>> = (0..r).map(|i| rec(s, &t[i * w..(i + 1) * w], k - 1, b, memo)).collect();
        let x = s.m.create_node(s.hid[k - 1], &kids);
        memo.insert((k, t.to_vec()), x.clone());
        x
    }
    rec(s, &x.t, s.n(), x.b, &mut HashMap::new())
}
fn var_t<V: Val>(s: &Ms<V>, i: usize) -> T {
    T { b: false, t: s.pts.iter().map(|p| p[i] as i64).collect() }
}
fn konst<V: Val>(s: &Ms<V>, b: bool, v: i64) -> T {
    T { b, t: vec![v; s.size()] }
}
/// Support: variables whose state matters.
pub fn support<V: Val>(s: &Ms<V>, t: &[i64]) -> Vec<usize> {
    let mut w = 1;
    let mut r = Vec::new();
    for i in 0..s.n() {
        let k = s.rad[i];
        if (0..t.len()).any(|x| {
            let st = x / w % k;
            t[x] != t[x - st * w]
        }) {
            r.push(i);
        }
        w *= k;
    }
    r
}
fn strides(rad: &[usize]) -> Vec<usize> {
    let mut w = 1;
    rad.iter()
        .map(|k| {
            let x = w;
            w *= k;
            x
        })
        .collect()
}
pub fn is_mono(rad: &[usize], t: &[i64]) -> bool {
    let st = strides(rad);
    (0..t.len()).all(|x| (0..rad.len()).all(|i| x / st[i] % rad[i] + 1 >= rad[i] || t[x] <= t[x + st[i]]))
}

fn lift2(a: &T, b: &T, out: bool, f: impl Fn(i64, i64) -> Option<i64>) -> Option<T> {
    let mut t = Vec::with_capacity(a.t.len());
    for (x, y) in a.t.iter().zip(&b.t) {
        t.push(f(*x, *y)?);
    }
    Some(T { b: out, t })
}
const VOPS: [&str; 6] = ["+", "-", "*", "/", "min", "max"];
const COPS: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];
fn vop(o: usize, a: &T, b: &T, lim: i64) -> Option<T> {
    lift2(a, b, false, |x, y| arith([0, 1, 2, 3, 5, 6][o], x, y, lim))
}
fn cop(o: usize, a: &T, b: &T) -> Option<T> {
    if !a.det() || !b.det() {
        return None;
    }
    lift2(a, b, true, |x, y| {
        Some(match o {
            0 => x == y,
            1 => x != y,
            2 => x < y,
            3 => x <= y,
            4 => x > y,
            _ => x >= y,
        } as i64)
    })
}
fn bop(o: usize, a: &T, b: &T) -> Option<T> {
    if !a.det() || !b.det() {
        return None;
    }
    lift2(a, b, true, |x, y| {
        Some(match o {
            0 => x & y,
            1 => x | y,
            _ => x ^ y,
        })
    })
}
fn ite_t(a: &T, b: &T, e: &T) -> Option<T> {
    if !a.det() || (b.b && (!b.det() || !e.det())) {
        return None;
    }
    Some(T { b: b.b, t: (0..a.t.len()).map(|i| if a.t[i] != 0 { b.t[i] } else { e.t[i] }).collect() })
}
fn call_v<V: Val>(o: usize, a: &MddNode<V>, b: &MddNode<V>) -> MddNode<V> {
    match o {
        0 => a.add(b),
        1 => a.sub(b),
        2 => a.mul(b),
        3 => a.div(b),
        4 => a.min(b),
        _ => a.max(b),
    }
}
fn call_c<V: Val>(o: usize, a: &MddNode<V>, b: &MddNode<V>) -> MddNode<V> {
    match o {
        0 => a.eq(b),
        1 => a.ne(b),
        2 => a.lt(b),
        3 => a.le(b),
        4 => a.gt(b),
        _ => a.ge(b),
    }
}
fn call_b<V: Val>(o: usize, a: &MddNode<V>, b: &MddNode<V>) -> MddNode<V> {
    match o {
        0 => a.and(b),
        1 => a.or(b),
        _ => a.xor(b),
    }
}

/// Random expression of the wanted kind, built with the handle operators.
pub fn expr<V: Val>(c: &mut Case, s: &Ms<V>, depth: usize, b: bool, mono: bool) -> (MddNode<V>, T) {
    for _ in 0..20 {
        if let Some(r) = try_expr(c, s, depth, b, mono) {
            return r;
        }
    }
    if b {
        (s.m.boolean(true), konst(s, true, 1))
    } else {
        (s.m.value(V::of(1)), konst(s, false, 1))
    }
}
fn try_expr<V: Val>(c: &mut Case, s: &Ms<V>, depth: usize, b: bool, mono: bool) -> Option<(MddNode<V>, T)> {
    if b {
        if depth == 0 || c.rng.chance(1, 12) {
            if c.rng.chance(1, 6) {
                let v = c.rng.chance(1, 2);
                return Some((s.m.boolean(v), konst(s, true, v as i64)));
            }
            let (f, x) = try_expr(c, s, 0, false, mono)?;
            let k = c.rng.range(0, 3);
            let o = if mono { [4, 5][c.rng.below(2)] } else { c.rng.below(6) };
            let r = cop(o, &x, &konst(s, false, k))?;
            return Some((call_c(o, &f, &s.m.value(V::of(k))), r));
        }
        match c.rng.below(if mono { 4 } else { 8 }) {
            0 | 1 => {
                let (f, x) = try_expr(c, s, depth - 1, true, mono)?;
                let (g, y) = try_expr(c, s, depth - 1, true, mono)?;
                let o = c.rng.below(if mono { 2 } else { 3 });
                Some((call_b(o, &f, &g), bop(o, &x, &y)?))
            }
            2 => {
                let k = c.rng.below(4);
                let mut fs = vec![];
                let o = c.rng.below(2);
                let mut acc = konst(s, true, 1 - o as i64);
                for _ in 0..k {
                    let (f, x) = try_expr(c, s, depth - 1, true, mono)?;
                    acc = bop(o, &acc, &x)?;
                    fs.push(f);
                }
                Some((if o == 0 { s.m.and(&fs) } else { s.m.or(&fs) }, acc))
            }
            3 => {
                let (f, x) = try_expr(c, s, depth - 1, false, mono)?;
                let k = c.rng.range(0, 4);
                let o = if mono { [4, 5][c.rng.below(2)] } else { c.rng.below(6) };
                let r = cop(o, &x, &konst(s, false, k))?;
                Some((call_c(o, &f, &s.m.value(V::of(k))), r))
            }
            4 => {
                let (f, x) = try_expr(c, s, depth - 1, false, mono)?;
                let (g, y) = try_expr(c, s, depth - 1, false, mono)?;
                let o = c.rng.below(6);
                Some((call_c(o, &f, &g), cop(o, &x, &y)?))
            }
            5 => {
                let (f, x) = try_expr(c, s, depth - 1, true, mono)?;
                Some((f.not(), T { b: true, t: x.t.iter().map(|v| 1 - v).collect() }))
            }
            6 => {
                // equality of two boolean functions
                let (f, x) = try_expr(c, s, depth - 1, true, mono)?;
                let (g, y) = try_expr(c, s, depth - 1, true, mono)?;
                let o = c.rng.below(2);
                Some((call_c(o, &f, &g), cop(o, &x, &y)?))
            }
            _ => {
                let (f, x) = try_expr(c, s, depth - 1, true, mono)?;
                let (g, y) = try_expr(c, s, depth - 1, true, mono)?;
                let (h, z) = try_expr(c, s, depth - 1, true, mono)?;
                Some((f.ite(&g, &h), ite_t(&x, &y, &z)?))
            }
        }
    } else {
        if depth == 0 || c.rng.chance(1, 12) {
            if s.n() == 0 || c.rng.chance(1, 6) {
                let v = c.rng.range(if mono { 0 } else { -2 }, 3);
                return Some((s.m.value(V::of(v)), konst(s, false, v)));
            }
            let i = c.rng.below(s.n());
            return Some((s.vars[i].clone(), var_t(s, i)));
        }
        let (f, x) = try_expr(c, s, depth - 1, false, mono)?;
        match c.rng.below(if mono { 3 } else { 5 }) {
            0 | 1 => {
                let (g, y) = try_expr(c, s, depth - 1, false, mono)?;
                let o = if mono { [0, 2, 4, 5, 4, 5][c.rng.below(6)] } else { c.rng.below(6) };
                if mono && o == 2 && (x.t.iter().any(|v| *v < 0) || y.t.iter().any(|v| *v < 0)) {
                    return None;
                }
                let r = vop(o, &x, &y, V::LIM)?;
                Some((call_v(o, &f, &g), r))
            }
            2 => {
                let mut fs = vec![f];
                let mut acc = x;
                let o = 4 + c.rng.below(2);
                for _ in 0..c.rng.below(4) {
                    let (g, y) = try_expr(c, s, depth - 1, false, mono)?;
                    acc = vop(o, &acc, &y, V::LIM)?;
                    fs.push(g);
                }
                Some((if o == 4 { s.m.min(&fs) } else { s.m.max(&fs) }, acc))
            }
            _ => {
                let (a, z) = try_expr(c, s, depth - 1, true, mono)?;
                let (g, y) = try_expr(c, s, depth - 1, false, mono)?;
                let r = ite_t(&z, &x, &y)?;
                Some((a.ite(&f, &g), r))
            }
        }
    }
}
pub fn rand_t<V: Val>(c: &mut Case, s: &Ms<V>, b: bool, undet: bool) -> T {
    let k = s.size();
    let lab = 1 + c.rng.below(4) as i64;
    let salt = c.rng.next();
    let mask: Vec<bool> = (0..s.n()).map(|_| c.rng.chance(2, 3)).collect();
    let style = c.rng.below(4);
    let und = undet && c.rng.chance(1, 3);
    let t = (0..k)
        .map(|x| {
            let h = match style {
                0 => c.rng.next(),
                1 => {
                    let key: Vec<usize> = s.pts[x].iter().zip(&mask).map(|(v, m)| if *m { *v } else { 0 }).collect();
                    hash_of(&(key, salt))
                }
                2 => s.pts[x].iter().sum::<usize>() as u64,
                _ => (hash_of(&(x, salt)) % 13 == 0) as u64,
            };
            if und && hash_of(&(h, x, salt)) % 5 == 0 {
                U
            } else if b {
                (h % 2) as i64
            } else {
                (h % (lab as u64 + 1)) as i64 - (salt % 2) as i64
            }
        })
        .collect();
    T { b, t }
}
pub fn any_fn<V: Val>(c: &mut Case, s: &Ms<V>, b: bool, undet: bool) -> (MddNode<V>, T) {
    match c.rng.below(5) {
        0 | 1 => {
            let d = 1 + c.rng.below(3);
            loop {
                let (f, x) = expr(c, s, d, b, false);
                if undet || x.det() {
                    return (f, x);
                }
            }
        }
        2 => {
            let x = mono_t(c, s, b);
            (build(s, &x), x)
        }
        _ => {
            let x = rand_t(c, s, b, undet);
            (build(s, &x), x)
        }
    }
}
pub fn mono_t<V: Val>(c: &mut Case, s: &Ms<V>, b: bool) -> T {
    let st = strides(&s.rad);
    let k = s.size();
    let top = if b { 1 } else { 1 + c.rng.below(4) as i64 };
    let off = if b { 0 } else { c.rng.range(-2, 1) };
    let mut t: Vec<i64> = match c.rng.below(3) {
        0 => {
            let p = 2 + c.rng.below(12);
            (0..k).map(|_| if c.rng.chance(1, p) { c.rng.range(0, top) } else { 0 }).collect()
        }
        1 => {
            let w: Vec<i64> = (0..s.n()).map(|_| c.rng.range(0, 3)).collect();
            let d = c.rng.range(1, 4);
            let o = c.rng.range(0, 3);
            (0..k).map(|x| ((s.pts[x].iter().zip(&w).map(|(a, b)| *a as i64 * b).sum::<i64>() - o).max(0) / d).min(top)).collect()
        }
        _ => {
            let mut t = vec![0; k];
            for _ in 0..1 + c.rng.below(5) {
                let i = c.rng.below(k);
                t[i] = c.rng.range(0, top);
            }
            t
        }
    };
    for i in 0..s.n() {
        for x in 0..k {
            if x / st[i] % s.rad[i] > 0 {
                t[x] = t[x].max(t[x - st[i]]);
            }
        }
    }
    for v in &mut t {
        *v += off;
    }
    T { b, t }
}
fn desc<V: Val>(s: &Ms<V>, x: &T) -> String {
    format!("{} function over {:?} with table {:?}", if x.b { "boolean" } else { "value" }, s.names.iter().zip(&s.rad).collect::<Vec<_>>(), x.t.iter().map(|v| if *v == U { "?".to_string() } else { v.to_string() }).collect::<Vec<_>>().join(","))
}

// ---------------------------------------------------------------- P19, P20
fn weight<N: Copy + Mul<Output = N> + From<f64>>(p: &[Vec<N>], pt: &[usize], skip: Option<usize>) -> N {
    let mut w = N::from(1.0);
    for (i, v) in p.iter().enumerate() {
        if Some(i) != skip {
            w = w * v[pt[i]];
        }
    }
    w
}
fn model_prob<V: Val, N: Copy + Add<Output = N> + Mul<Output = N> + From<f64>>(s: &Ms<V>, t: &[i64], p: &[Vec<N>], ss: &HashSet<i64>) -> N {
    let mut r = N::from(0.0);
    for x in 0..t.len() {
        if t[x] != U && ss.contains(&t[x]) {
            r = r + weight(p, &s.pts[x], None);
        }
    }
    r
}
fn model_bm<V: Val, N: Copy + Add<Output = N> + Sub<Output = N> + Mul<Output = N> + From<f64>>(s: &Ms<V>, t: &[i64], p: &[Vec<N>], ss: &HashSet<i64>, i: usize) -> Vec<N> {
    let mut a = vec![N::from(0.0); s.rad[i]];
    for x in 0..t.len() {
        if t[x] != U && ss.contains(&t[x]) {
            let k = s.pts[x][i];
            a[k] = a[k] + weight(p, &s.pts[x], Some(i));
        }
    }
    (1..s.rad[i]).map(|j| a[j] - a[j - 1]).collect()
}
fn dist(c: &mut Case, m: usize, style: usize) -> Vec<f64> {
    match style {
        0 => {
            let mut v = vec![0u32; m];
            for _ in 0..16 {
                v[c.rng.below(m)] += 1;
            }
            v.iter().map(|x| *x as f64 / 16.0).collect()
        }
        1 => {
            let k = c.rng.below(m);
            (0..m).map(|i| (i == k) as u8 as f64).collect()
        }
        _ => {
            let v: Vec<f64> = (0..m).map(|_| c.rng.f64() + 1e-6).collect();
            let t: f64 = v.iter().sum();
            v.iter().map(|x| x / t).collect()
        }
    }
}
fn zdist(c: &mut Case, m: usize) -> Vec<Zp> {
    let mut v: Vec<Zp> = (0..m).map(|_| Zp(c.rng.next() % P61)).collect();
    let mut t = Zp(0);
    for x in &v[1..] {
        t = t + *x;
    }
    v[0] = Zp(1) - t;
    v
}
fn pick_labels(c: &mut Case, x: &T) -> Vec<i64> {
    let mut l: Vec<i64> = x.t.iter().filter(|v| **v != U).cloned().collect::<BTreeSet<_>>().into_iter().collect();
    let mut r: Vec<i64> = l.iter().filter(|_| c.rng.chance(1, 2)).cloned().collect();
    if c.rng.chance(1, 5) {
        r.push(c.rng.range(-3, 9));
    }
    if c.rng.chance(1, 10) {
        r.append(&mut l);
    }
    if r.is_empty() && c.rng.chance(2, 3) && !x.t.is_empty() {
        let v = x.t[c.rng.below(x.t.len())];
        if v != U {
            r.push(v);
        }
    }
    r
}
pub fn prob_case<V: Val>(c: &mut Case, bm: bool) -> R {
    if c.idx % 900 == 23 {
        return giant_case::<V>(c, if bm { Giant::Importance } else { Giant::Prob });
    }
    if c.idx % 40 == 7 {
        return prob_big::<V>(c, bm);
    }
    let mut s: Ms<V> = new_ms_any(c, 6, 200);
    let style = c.rng.below(4);
    let mut pool: Vec<(MddNode<V>, T)> = Vec::new();
    let (mut p, mut z): (Vec<Vec<f64>>, Vec<Vec<Zp>>) = (Vec::new(), Vec::new());
    for round in 0..1 + c.rng.below(4) {
        churn(c, &mut s, &mut pool, 200);
        if round == 0 || c.rng.chance(1, 2) {
            p.clear();
            z.clear();
        }
        for i in p.len()..s.n() {
            p.push(dist(c, s.rad[i], style));
            z.push(zdist(c, s.rad[i]));
        }
        let mut pm: HashMap<String, Vec<f64>> = s.names.iter().cloned().zip(p.iter().cloned()).collect();
        let zm: HashMap<String, Vec<Zp>> = s.names.iter().cloned().zip(z.iter().cloned()).collect();
        if c.rng.chance(1, 4) {
            pm.insert("never declared".into(), vec![0.5, 0.5]);
        }
        if pool.is_empty() || c.rng.chance(3, 4) {
            let b = c.rng.chance(1, 2);
            let f = any_fn(c, &s, b, true);
            pool.push(f);
        }
        if c.rng.chance(1, 5) {
            s.m.gc(&[]);
        }
        let (mut f, x) = pool[c.rng.below(pool.len())].clone();
        let b = x.b;
        for _ in 0..1 + c.rng.below(3) {
            let l = pick_labels(c, &x);
            let ss: HashSet<i64> = l.iter().cloned().collect();
            let mut lv: Vec<V> = l.iter().map(|v| V::of(*v)).collect();
            if !lv.is_empty() && c.rng.chance(1, 5) {
                lv.push(lv[0]);
            }
            c.seen(&(&x, &l, bm));
            if !x.det() {
                c.count("partly_undetermined_functions");
            }
            c.count(if b { "boolean_functions" } else { "value_functions" });
            if !bm {
                let got = f.prob(&pm, &lv);
                let want = model_prob(&s, &x.t, &p, &ss);
                c.log(|| format!("prob of {} p {:?} for outcomes {:?} -> {} (model {})", desc(&s, &x), p, l, got, want));
                ensure!(near(got, want), "prob of outcomes {:?} of a {} with p {:?} is {}, the total probability of those states is {}", l, desc(&s, &x), p, got, want);
                let zg = f.prob(&zm, &lv);
                let zw = model_prob(&s, &x.t, &z, &ss);
                ensure!(zg == zw, "prob of outcomes {:?} of a {} in exact field arithmetic is {:?}, expected {:?}", l, desc(&s, &x), zg, zw);
                c.count("probabilities_compared");
            } else {
                let got = f.bmeas(&pm, &lv);
                let zg = f.bmeas(&zm, &lv);
                let sup = support(&s, &x.t);
                let keys: BTreeSet<&String> = got.keys().collect();
                let want: BTreeSet<&String> = sup.iter().map(|&i| &s.names[i]).collect();
                c.log(|| format!("bmeas of {} for {:?} -> {:?}", desc(&s, &x), l, got));
                ensure!(keys == want, "bmeas of a {} reports {:?}, the function depends on {:?}", desc(&s, &x), keys, want);
                for &i in &sup {
                    let w = model_bm(&s, &x.t, &p, &ss, i);
                    let g = &got[&s.names[i]];
                    ensure!(g.len() == s.rad[i] - 1, "bmeas reports {} differences for {} which has {} states", g.len(), s.names[i], s.rad[i]);
                    ensure!(g.iter().zip(&w).all(|(a, b)| near(*a, *b)), "bmeas of outcomes {:?} of a {} with p {:?}: {} has {:?}, expected {:?}", l, desc(&s, &x), p, s.names[i], g, w);
                    let w = model_bm(&s, &x.t, &z, &ss, i);
                    ensure!(zg.get(&s.names[i]) == Some(&w), "bmeas of outcomes {:?} of a {} in exact field arithmetic: {} has {:?}, expected {:?}", l, desc(&s, &x), s.names[i], zg.get(&s.names[i]), w);
                    c.count("importances_compared");
                    if s.rad[i] > 2 {
                        c.count("multi_state_importances");
                    }
                }
            }
        }
    }
    Ok(())
}
/// Sum / min / max systems with many components, against a distribution computed by convolution.
fn prob_big<V: Val>(c: &mut Case, bm: bool) -> R {
    let wide = c.rng.chance(1, 30);
    let n = if wide { 260 + c.rng.below(20) } else { 8 + c.rng.below(20) };
    if wide {
        c.count("systems_with_over_256_components");
    }
    let mut m: MssMgr<V> = MssMgr::new();
    let rad: Vec<usize> = (0..n).map(|_| 2 + c.rng.below(3)).collect();
    let names: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
    let vars: Vec<MddNode<V>> = (0..n).map(|i| m.defvar(&names[i], rad[i])).collect();
    let z: Vec<Vec<Zp>> = rad.iter().map(|&k| zdist(c, k)).collect();
    let zm: HashMap<String, Vec<Zp>> = names.iter().cloned().zip(z.iter().cloned()).collect();
    let kind = if wide { 1 + c.rng.below(2) } else { c.rng.below(3) };
    let mut f = vars[0].clone();
    for v in &vars[1..] {
        f = match kind {
            0 => f.add(v),
            1 => f.min(v),
            _ => f.max(v),
        };
    }
    let comb = |a: usize, b: usize| match kind {
        0 => a + b,
        1 => a.min(b),
        _ => a.max(b),
    };
    // distribution of the combination of all components, component i fixed to state j if given
    let law = |fix: Option<(usize, usize)>| -> BTreeMap<usize, Zp> {
        let mut d: BTreeMap<usize, Zp> = BTreeMap::new();
        for i in 0..n {
            let pi: Vec<Zp> = match fix {
                Some((k, j)) if k == i => (0..rad[i]).map(|s| Zp((s == j) as u64)).collect(),
                _ => z[i].clone(),
            };
            if i == 0 {
                d = pi.iter().cloned().enumerate().collect();
                continue;
            }
            let mut e = BTreeMap::new();
            for (a, x) in &d {
                for (b, y) in pi.iter().enumerate() {
                    let k = e.entry(comb(*a, b)).or_insert(Zp(0));
                    *k = *k + *x * *y;
                }
            }
            d = e;
        }
        d
    };
    let full = law(None);
    let top = *full.keys().last().unwrap();
    let t = c.rng.below(top + 1);
    let as_bool = c.rng.chance(1, 2);
    let hit = |d: &BTreeMap<usize, Zp>| -> Zp {
        let mut r = Zp(0);
        for (k, v) in d {
            if *k >= t {
                r = r + *v;
            }
        }
        r
    };
    let (mut g, ss): (MddNode<V>, Vec<V>) = if as_bool { (f.ge(&m.value(V::of(t as i64))), vec![V::of(1)]) } else { (f.clone(), (t..=top).map(|k| V::of(k as i64)).collect()) };
    c.count("large_systems");
    if !bm {
        let got = g.prob(&zm, &ss);
        ensure!(got == hit(&full), "P(combination {} of {} components >= {}) is {:?} in exact field arithmetic, expected {:?}", kind, n, t, got, hit(&full));
        c.count("probabilities_compared");
    } else {
        let got = g.bmeas(&zm, &ss);
        for i in 0..n {
            if wide && i % 17 != 4 && i > 2 && i < n - 2 {
                continue;
            }
            let w: Vec<Zp> = (1..rad[i]).map(|j| hit(&law(Some((i, j)))) - hit(&law(Some((i, j - 1))))).collect();
            match got.get(&names[i]) {
                Some(v) => ensure!(*v == w, "importance of component {} of {} (combination {}, level {}) is {:?}, expected {:?}", i, n, kind, t, v, w),
                None => ensure!(w.iter().all(|x| *x == Zp(0)), "component {} has importance {:?} but is not reported", i, w),
            }
            c.count("importances_compared");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P21 (multi-state half)
pub fn interval_case<V: Val>(c: &mut Case) -> R {
    let s: Ms<V> = new_ms_n(c, 2, 4, 60);
    let few = c.rng.chance(2, 3);
    for _ in 0..2 {
        let b = c.rng.chance(1, 2);
        let (mut f, x) = any_fn(c, &s, b, true);
        let l = pick_labels(c, &x);
        let ss: HashSet<i64> = l.iter().cloned().collect();
        let lv: Vec<V> = l.iter().map(|v| V::of(*v)).collect();
        // two distributions span the boxes: every mixture is a point inside
        let style = if few { 0 } else { 2 };
        let p0: Vec<Vec<f64>> = s.rad.iter().map(|&m| dist(c, m, style)).collect();
        let p1: Vec<Vec<f64>> = s.rad.iter().map(|&m| dist(c, m, style)).collect();
        let same = c.rng.chance(1, 3);
        let iv: HashMap<String, Vec<Iv>> = (0..s.n())
            .map(|i| {
                let v: Vec<Iv> = (0..s.rad[i])
                    .map(|j| {
                        if same {
                            return Iv(0.0, 1.0);
                        }
                        let (a, b) = (p0[i][j], p1[i][j]);
                        Iv(a.min(b), a.max(b))
                    })
                    .collect();
                (s.names[i].clone(), v)
            })
            .collect();
        let ip = f.prob(&iv, &lv);
        let ib = f.bmeas(&iv, &lv);
        let sup = support(&s, &x.t);
        for k in 0..10 {
            let p: Vec<Vec<f64>> = (0..s.n())
                .map(|i| {
                    let a = match (k, c.rng.below(3)) {
                        (0, _) | (_, 0) => 0.0,
                        (1, _) | (_, 1) => 1.0,
                        _ => c.rng.f64(),
                    };
                    (0..s.rad[i]).map(|j| p0[i][j] * (1.0 - a) + p1[i][j] * a).collect()
                })
                .collect();
            let w = model_prob(&s, &x.t, &p, &ss);
            let e = 1e-9 + 1e-9 * w.abs();
            ensure!(ip.0 - e <= w && w <= ip.1 + e, "interval prob [{}, {}] of outcomes {:?} of a {} does not contain {} at {:?} (boxes {:?})", ip.0, ip.1, l, desc(&s, &x), w, p, iv);
            for &i in &sup {
                let w = model_bm(&s, &x.t, &p, &ss, i);
                let g = ib.get(&s.names[i]).ok_or_else(|| format!("bmeas has no entry for {}", s.names[i]))?;
                ensure!(g.len() == w.len(), "interval bmeas reports {} differences for a {}-state variable", g.len(), s.rad[i]);
                for (r, w) in g.iter().zip(&w) {
                    ensure!(r.0 - 1e-9 <= *w && *w <= r.1 + 1e-9, "interval bmeas [{}, {}] of {} for outcomes {:?} of a {} does not contain {} at {:?} (boxes {:?})", r.0, r.1, s.names[i], l, desc(&s, &x), w, p, iv);
                }
            }
            c.count("points_checked_in_enclosures");
        }
        let dv: HashMap<String, Vec<Iv>> = (0..s.n()).map(|i| (s.names[i].clone(), p0[i].iter().map(|v| Iv(*v, *v)).collect())).collect();
        let fv: HashMap<String, Vec<f64>> = s.names.iter().cloned().zip(p0.iter().cloned()).collect();
        let (d, q) = (f.prob(&dv, &lv), f.prob(&fv, &lv));
        ensure!(near(d.0, q) && near(d.1, q), "degenerate boxes give [{}, {}], the point probability is {}", d.0, d.1, q);
        let (d, q) = (f.bmeas(&dv, &lv), f.bmeas(&fv, &lv));
        for (k, v) in &q {
            let r = d.get(k).ok_or("importance key sets differ between number types")?;
            ensure!(r.len() == v.len() && r.iter().zip(v).all(|(r, v)| near(r.0, *v) && near(r.1, *v)), "degenerate boxes give importances {:?} for {}, the point values are {:?}", r, k, v);
            c.count("degenerate_boxes_compared");
        }
        c.seen(&(x, l, "iv"));
    }
    Ok(())
}

// ---------------------------------------------------------------- P23
type Vecs = BTreeSet<Vec<usize>>;
fn extract<V: Val>(s: &Ms<V>, z: &ZmddNode<V>, labels: &[i64], what: &str) -> Result<Vecs, String> {
    let ss: HashSet<V> = labels.iter().map(|v| V::of(*v)).collect();
    let mut r = Vecs::new();
    let mut k = 0;
    for m in z.extract(&ss) {
        k += 1;
        let v = dense(s, &m, what)?;
        ensure!(r.insert(v.clone()), "{}: vector {:?} enumerated twice for labels {:?}", what, v, labels);
    }
    let cnt = z.count(&ss);
    ensure!(cnt == k, "{}: count over labels {:?} is {}, {} vectors were enumerated", what, labels, cnt, k);
    Ok(r)
}
fn dense<V: Val>(s: &Ms<V>, m: &HashMap<String, usize>, what: &str) -> Result<Vec<usize>, String> {
    ensure!(m.len() == s.n(), "{}: vector {:?} does not list exactly the variables {:?}", what, m, s.names);
    s.names.iter().map(|n| m.get(n).copied().ok_or_else(|| format!("{}: vector {:?} lacks {}", what, m, n))).collect()
}
fn le(a: &[usize], b: &[usize]) -> bool {
    a.iter().zip(b).all(|(x, y)| x <= y)
}
fn extreme<V: Val>(s: &Ms<V>, sel: &[usize], cut: bool) -> Vecs {
    sel.iter()
        .filter(|&&x| !sel.iter().any(|&y| y != x && if cut { le(&s.pts[x], &s.pts[y]) } else { le(&s.pts[y], &s.pts[x]) }))
        .map(|&x| s.pts[x].clone())
        .collect()
}
pub fn minsol_case<V: Val>(c: &mut Case) -> R {
    if c.idx % 900 == 23 {
        return giant_case::<V>(c, Giant::Minimal);
    }
    if c.idx % 50 == 11 {
        return minsol_big::<V>(c);
    }
    let maxpts = if c.tier == Tier::Thorough { 250 } else { 110 };
    let mut s: Ms<V> = new_ms(c, 5, maxpts);
    while s.size() > 300 {
        s = new_ms(c, 5, maxpts);
    }
    if c.rng.chance(1, 4) {
        s.m.set_gc_threshold(c.rng.below(60));
    }
    let mut fams: Vec<(bool, ZmddNode<V>, BTreeMap<Vec<usize>, i64>)> = Vec::new();
    // families made before a variable was added: their vectors over the variables of then
    let mut early: Vec<(ZmddNode<V>, Vec<V>, BTreeSet<Vec<(String, usize)>>)> = Vec::new();
    for _ in 0..1 + c.rng.below(4) {
        let names = s.names.clone();
        if churn(c, &mut s, &mut Vec::new(), maxpts) {
            for (_, z, m) in fams.drain(..) {
                let labels: BTreeSet<i64> = m.values().cloned().collect();
                let vs = m.keys().map(|k| {
                    let mut r: Vec<(String, usize)> = names.iter().cloned().zip(k.iter().cloned()).collect();
                    r.sort();
                    r
                });
                early.push((z, labels.into_iter().map(V::of).collect(), vs.collect()));
            }
        }
        let b = c.rng.chance(2, 5);
        let (f, x) = match c.rng.below(7) {
            0 => any_fn(c, &s, b, false),
            1 | 2 => {
                let d = 1 + c.rng.below(3);
                expr(c, &s, d, b, true)
            }
            3 => {
                let mut x = mono_t(c, &s, b);
                let i = c.rng.below(x.t.len());
                x.t[i] = if b { 1 - x.t[i] } else { x.t[i] + [-1, 1][c.rng.below(2)] };
                (build(&s, &x), x)
            }
            _ => {
                let x = mono_t(c, &s, b);
                (build(&s, &x), x)
            }
        };
        if !x.det() {
            continue;
        }
        let mono = is_mono(&s.rad, &x.t);
        c.seen(&x);
        for cut in [false, true] {
            let what = if cut { "mincut" } else { "minpath" };
            let r = if cut { s.m.mincut(&f) } else { s.m.minpath(&f) };
            c.log(|| format!("{} of {} (monotone {}) -> {}", what, desc(&s, &x), mono, if r.is_some() { "family" } else { "None" }));
            ensure!(r.is_some() == mono, "{} of a {} is {}, but the function is{} monotone", what, desc(&s, &x), if r.is_some() { "a family" } else { "None" }, if mono { "" } else { " not" });
            ensure!(tab_of(&s, &f) == x, "{} changed the function itself", what);
            let z = match r {
                None => {
                    c.count("non_monotone_refused");
                    continue;
                }
                Some(z) => z,
            };
            c.count(if cut { "cut_families" } else { "path_families" });
            ensure!(z.is_cut() == cut, "is_cut is {} for {}", z.is_cut(), what);
            let vars: Vec<(String, usize)> = s.names.iter().cloned().zip(s.rad.iter().cloned()).collect();
            ensure!(z.vars() == &vars[..], "vars() is {:?}, declared {:?}", z.vars(), vars);
            let labels: Vec<i64> = x.t.iter().cloned().collect::<BTreeSet<_>>().into_iter().collect();
            let got: Vec<i64> = z.labels().into_iter().map(|v| v.to()).collect();
            ensure!(got == labels, "{} of a {}: labels() is {:?}, the function takes {:?}", what, desc(&s, &x), got, labels);
            if labels.len() > 2 {
                c.count("three_or_more_levels");
            }
            let mut model: BTreeMap<Vec<usize>, i64> = BTreeMap::new();
            for &v in &labels {
                let sel: Vec<usize> = (0..x.t.len()).filter(|&i| x.t[i] == v).collect();
                let want = extreme(&s, &sel, cut);
                let got = extract(&s, &z, &[v], what)?;
                ensure!(got == want, "{} of a {} at label {}: {:?}, expected {:?} over {:?}", what, desc(&s, &x), v, got, want, s.names);
                for w in want {
                    model.insert(w, v);
                }
                c.count("strata_compared");
            }
            let (lo, hi) = (labels[0] - 1, labels[labels.len() - 1] + 1);
            let mut levels: BTreeSet<i64> = [lo, hi].into_iter().chain(labels.iter().cloned()).collect();
            if hi - lo <= 12 {
                levels.extend(lo..=hi);
            } else {
                // between two labels
                for _ in 0..3 {
                    let v = *c.rng.pick(&labels);
                    levels.extend([v - 1, v + 1]);
                }
            }
            for v in levels {
                let sel: Vec<usize> = (0..x.t.len()).filter(|&i| if cut { x.t[i] <= v } else { x.t[i] >= v }).collect();
                let want = extreme(&s, &sel, cut);
                let mut got = Vecs::new();
                for m in z.extract_level(V::of(v)) {
                    ensure!(got.insert(dense(&s, &m, what)?), "extract_level({}) lists {:?} twice", v, m);
                }
                ensure!(got == want, "{} of a {}: extract_level({}) is {:?}, expected {:?} over {:?}", what, desc(&s, &x), v, got, want, s.names);
                c.count("levels_compared");
            }
            let all = pick_labels(c, &x);
            let want: Vecs = model.iter().filter(|(_, v)| all.contains(v)).map(|(w, _)| w.clone()).collect();
            ensure!(extract(&s, &z, &all, what)? == want, "{}: several labels {:?} at once", what, all);
            let again = if cut { s.m.mincut(&f) } else { s.m.minpath(&f) };
            ensure!(again.map(|a| a.get_id() == z.get_id()) == Some(true), "{} of the same function twice gives different families", what);
            fams.push((cut, z, model));
        }
        if c.rng.chance(1, 4) {
            s.m.gc(&[]);
        }
    }
    for (z, labels, want) in &early {
        let got: BTreeSet<Vec<(String, usize)>> = z
            .extract(&labels.iter().cloned().collect())
            .map(|r| {
                let mut r: Vec<(String, usize)> = r.into_iter().collect();
                r.sort();
                r
            })
            .collect();
        ensure!(&got == want, "a family made before another variable was declared lists {:?}, it was {:?}", got, want);
        c.count("families_from_before_a_variable");
    }
    for i in 0..fams.len() {
        let (cut, z, m) = &fams[i];
        let labels: Vec<i64> = m.values().cloned().collect::<BTreeSet<_>>().into_iter().collect();
        let keys: Vecs = m.keys().cloned().collect();
        ensure!(extract(&s, z, &labels, "kept family")? == keys, "a family changed while others were computed");
        for (cut2, y, k) in fams.iter().take(i) {
            if cut != cut2 {
                continue;
            }
            ensure!((z.get_id() == y.get_id()) == (m == k), "families {:?} and {:?} share a node: {}", m, k, z.get_id() == y.get_id());
            for op in 0..2 {
                let (r, w): (ZmddNode<V>, BTreeMap<Vec<usize>, i64>) = if op == 0 {
                    (z.intersect(y), m.iter().filter(|(a, b)| k.get(*a) == Some(*b)).map(|(a, b)| (a.clone(), *b)).collect())
                } else {
                    (z.setdiff(y), m.iter().filter(|(a, b)| k.get(*a) != Some(*b)).map(|(a, b)| (a.clone(), *b)).collect())
                };
                let wl: Vec<i64> = w.values().cloned().collect::<BTreeSet<_>>().into_iter().collect();
                let gl: Vec<i64> = r.labels().into_iter().map(|v| v.to()).collect();
                ensure!(gl == wl, "{} of {:?} and {:?} has labels {:?}, expected {:?}", ["intersect", "setdiff"][op], m, k, gl, wl);
                for l in &labels {
                    let want: Vecs = w.iter().filter(|(_, b)| *b == l).map(|(a, _)| a.clone()).collect();
                    ensure!(extract(&s, &r, &[*l], "set operation")? == want, "{} of {:?} and {:?} at label {}: expected {:?}", ["intersect", "setdiff"][op], m, k, l, want);
                }
                c.count("family_algebra");
            }
        }
    }
    Ok(())
}
/// Minimal and maximal vectors over more than 256 components.
fn minsol_wide<V: Val>(c: &mut Case) -> R {
    let n = 257 + c.rng.below(10);
    let m = 2 + c.rng.below(3);
    let mut s: MssMgr<V> = MssMgr::new();
    let names: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
    let vars: Vec<MddNode<V>> = names.iter().map(|x| s.defvar(x, m)).collect();
    let one = |k: usize| -> HashSet<V> { [V::of(k as i64)].into_iter().collect() };
    let (hi, lo) = (s.max(&vars), s.min(&vars));
    let p = s.minpath(&hi).ok_or("a maximum was refused by minpath")?;
    let q = s.mincut(&lo).ok_or("a minimum was refused by mincut")?;
    for k in 0..m {
        // one component at the level, all others at the bottom (at the top)
        for (fam, rest, what) in [(&p, 0, "minimal vectors of a maximum"), (&q, m - 1, "maximal vectors of a minimum")] {
            let want = if k == rest { 1 } else { n };
            ensure!(fam.count(&one(k)) == want as u64, "{} of {} components at level {}: {} instead of {}", what, n, k, fam.count(&one(k)), want);
            let mut seen = HashSet::new();
            for v in fam.extract(&one(k)) {
                ensure!(v.len() == n, "{}: a vector lists {} of {} components", what, v.len(), n);
                let odd: Vec<usize> = (0..n).filter(|&i| v.get(&names[i]) != Some(&rest)).collect();
                ensure!(if k == rest { odd.is_empty() } else { odd.len() == 1 && v[&names[odd[0]]] == k && seen.insert(odd[0]) }, "{} at level {}: a vector differs from {} at {:?}", what, k, rest, odd);
            }
            ensure!(k == rest || seen.len() == n, "{} at level {}: {} of {} components occur", what, k, seen.len(), n);
        }
    }
    c.count("systems_with_over_256_components");
    Ok(())
}
fn minsol_big<V: Val>(c: &mut Case) -> R {
    if c.rng.chance(1, 8) {
        return minsol_wide::<V>(c);
    }
    // sum of n components with m states each: exactly counted strata
    let n = 3 + c.rng.below(5);
    let m = 2 + c.rng.below(3);
    let mut s: MssMgr<V> = MssMgr::new();
    let vars: Vec<MddNode<V>> = (0..n).map(|i| s.defvar(&format!("c{}", i), m)).collect();
    let mut f = vars[0].clone();
    for v in &vars[1..] {
        f = f.add(v);
    }
    // number of vectors with a given sum
    let mut d = vec![1u64];
    for _ in 0..n {
        let mut e = vec![0u64; d.len() + m - 1];
        for (i, x) in d.iter().enumerate() {
            for j in 0..m {
                e[i + j] += x;
            }
        }
        d = e;
    }
    let p = s.minpath(&f).ok_or("a sum was refused by minpath")?;
    let q = s.mincut(&f).ok_or("a sum was refused by mincut")?;
    for (k, &w) in d.iter().enumerate() {
        let ss: HashSet<V> = [V::of(k as i64)].into_iter().collect();
        // every vector with sum k is both minimal and maximal among them
        ensure!(p.count(&ss) == w && q.count(&ss) == w, "sum of {} components with {} states: level {} has {} minimal and {} maximal vectors, expected {}", n, m, k, p.count(&ss), q.count(&ss), w);
    }
    c.count("large_families");
    let t = 1 + c.rng.below(n * (m - 1));
    let g = f.ge(&s.value(V::of(t as i64)));
    let pb = s.minpath(&g).ok_or("a threshold was refused by minpath")?;
    let qb = s.mincut(&g).ok_or("a threshold was refused by mincut")?;
    let one: HashSet<V> = [V::of(1)].into_iter().collect();
    let zero: HashSet<V> = [V::of(0)].into_iter().collect();
    ensure!(pb.count(&one) == d[t] && qb.count(&zero) == d[t - 1], "sum >= {}: {} minimal paths and {} minimal cuts, expected {} and {}", t, pb.count(&one), qb.count(&zero), d[t], d[t - 1]);
    minsol_blocks::<V>(c)
}
/// Series of parallel blocks and parallel of series blocks: so many extreme vectors that only
/// their number is known, as a product.
fn minsol_blocks<V: Val>(c: &mut Case) -> R {
    let blocks = 2 + c.rng.below(24);
    let m = 2 + c.rng.below(3);
    let mut s: MssMgr<V> = MssMgr::new();
    let mut sizes = Vec::new();
    let mut names = Vec::new();
    let (mut hi, mut lo) = (Vec::new(), Vec::new());
    let mut prod = 1u64;
    for k in 0..blocks {
        let w = 1 + c.rng.below(6);
        if prod > (1 << 60) / w as u64 {
            break;
        }
        prod *= w as u64;
        let vs: Vec<MddNode<V>> = (0..w).map(|i| format!("{}.{}", k, i)).map(|n| { names.push(n.clone()); s.defvar(&n, m) }).collect();
        hi.push(s.max(&vs));
        lo.push(s.min(&vs));
        sizes.push(w);
    }
    let n: usize = sizes.iter().sum();
    let p = s.minpath(&s.min(&hi)).ok_or("a series of parallel blocks was refused")?;
    let q = s.mincut(&s.max(&lo)).ok_or("a parallel of series blocks was refused")?;
    for k in 0..m {
        let ss: HashSet<V> = [V::of(k as i64)].into_iter().collect();
        for (fam, rest, what) in [(&p, 0, "minimal vectors of a series of parallel blocks"), (&q, m - 1, "maximal vectors of a parallel of series blocks")] {
            let want = if k == rest { 1 } else { prod };
            let got = fam.count(&ss);
            ensure!(got == want, "{} of sizes {:?} at level {}: {} counted, {} exist", what, sizes, k, got, want);
            if prod > 4000 && (m > 2 || k == rest) {
                // an enumeration passes over the vectors of the other labels one by one
                continue;
            }
            let first: Vec<HashMap<String, usize>> = fam.extract(&ss).take(60).collect();
            ensure!(first.len() as u64 == want.min(60), "{} of sizes {:?} at level {}: {} enumerated, {} exist", what, sizes, k, first.len(), want);
            let mut seen = HashSet::new();
            for r in &first {
                ensure!(r.len() == n, "{}: a vector lists {} of {} components", what, r.len(), n);
                let v: Vec<usize> = names.iter().map(|x| r.get(x).cloned().unwrap_or(usize::MAX)).collect();
                let mut at = 0;
                for w in &sizes {
                    let odd: Vec<&usize> = v[at..at + w].iter().filter(|x| **x != rest).collect();
                    ensure!(if k == rest { odd.is_empty() } else { odd == [&k] }, "{} of sizes {:?} at level {}: {:?} is not extreme", what, sizes, k, v);
                    at += w;
                }
                ensure!(seen.insert(v), "{}: a vector is enumerated twice", what);
            }
        }
    }
    if prod > 1 << 32 {
        c.count("families_with_more_than_2^32_vectors");
    }
    c.count("large_families");
    Ok(())
}

// ---------------------------------------------------------------- P25
pub fn count_case<V: Val>(c: &mut Case) -> R {
    if c.idx % 900 == 23 {
        return giant_case::<V>(c, Giant::Count);
    }
    if c.idx % 50 == 9 {
        return count_big::<V>(c);
    }
    let mut s: Ms<V> = new_ms_any(c, 6, 200);
    let mut pool: Vec<(MddNode<V>, T)> = Vec::new();
    for _ in 0..1 + c.rng.below(4) {
        churn(c, &mut s, &mut pool, 200);
        let st = strides(&s.rad);
        if pool.is_empty() || c.rng.chance(3, 4) {
            let b = c.rng.chance(1, 2);
            let f = any_fn(c, &s, b, true);
            pool.push(f);
        }
        let (f, x) = pool[c.rng.below(pool.len())].clone();
        let sup = support(&s, &x.t);
        let k = sup.last().map(|i| i + 1).unwrap_or(0);
        let lim = if k == 0 { 1 } else { st[k - 1] * s.rad[k - 1] };
        for _ in 0..3 {
            let l = pick_labels(c, &x);
            let ss: HashSet<V> = l.iter().map(|v| V::of(*v)).collect();
            let want: BTreeSet<Vec<usize>> = (0..lim).filter(|&i| x.t[i] != U && l.contains(&x.t[i])).map(|i| s.pts[i][..k].to_vec()).collect();
            let cnt = f.mdd_count(&ss);
            c.log(|| format!("{}: count of {:?} -> {} (model {})", desc(&s, &x), l, cnt, want.len()));
            ensure!(cnt == want.len() as u64, "mdd_count of {:?} of a {} is {}, there are {} such vectors", l, desc(&s, &x), cnt, want.len());
            let mut got = BTreeSet::new();
            let it = f.mdd_extract(&ss);
            let mut rows = 0u64;
            for r in it {
                rows += 1;
                ensure!(r.len() == k, "mdd_extract of a {}: {:?} should list the {} variables up to the top one", desc(&s, &x), r, k);
                let v: Option<Vec<usize>> = (0..k).map(|i| r.get(&s.names[i]).copied()).collect();
                let v = v.ok_or_else(|| format!("mdd_extract row {:?} lacks a variable of {:?}", r, &s.names[..k]))?;
                ensure!(got.insert(v), "mdd_extract of {:?} of a {} lists {:?} twice", l, desc(&s, &x), r);
            }
            ensure!(got == want, "mdd_extract of {:?} of a {} gives {:?}, expected {:?}", l, desc(&s, &x), got, want);
            c.count("enumerations_compared");
            c.add("assignments_enumerated", rows);
        }
        c.seen(&x);
        let want = model_size(&s, &x);
        ensure!(f.size() == want, "size() of a {} is {:?}, the reduced diagram has {:?}", desc(&s, &x), f.size(), want);
        c.count("sizes_compared");
        // an enumeration stays open while its handle goes, and the manager works, collects
        // and learns new variables
        if c.rng.chance(1, 3) {
            let norm = |v: Vec<HashMap<String, usize>>| {
                let mut v: Vec<BTreeMap<String, usize>> = v.into_iter().map(|r| r.into_iter().collect()).collect();
                v.sort();
                v
            };
            let ss: HashSet<V> = pick_labels(c, &x).into_iter().map(V::of).collect();
            let want = norm(f.mdd_extract(&ss).collect());
            let cnt = f.mdd_count(&ss);
            let mut it = f.mdd_extract(&ss);
            let what = desc(&s, &x);
            drop(f);
            pool.clear();
            let mut got = Vec::new();
            for _ in 0..c.rng.below(3) {
                got.extend(it.next());
            }
            for _ in 0..1 + c.rng.below(3) {
                churn(c, &mut s, &mut pool, 200);
                s.m.gc(&[]);
                let b = c.rng.chance(1, 2);
                pool.push(any_fn(c, &s, b, true));
                got.extend(it.next());
            }
            ensure!(it.len() == cnt, "an open enumeration reports len() {} after other work, {} before", it.len(), cnt);
            got.extend(it);
            let got = norm(got);
            ensure!(got == want, "an enumeration of a {} held open during other work gave {:?}, undisturbed it gives {:?}", what, got, want);
            c.count("enumerations_interrupted_by_work");
        }
    }
    Ok(())
}
fn model_size<V: Val>(s: &Ms<V>, x: &T) -> (u64, u64, u64) {
    let mut subs: HashSet<(usize, Vec<i64>)> = HashSet::new();
    let mut leaves: HashSet<i64> = HashSet::new();
    fn rec(rad: &[usize], t: &[i64], subs: &mut HashSet<(usize, Vec<i64>)>, leaves: &mut HashSet<i64>, e: &mut u64) {
        let k = rad.len();
        if k == 0 {
            leaves.insert(t[0]);
            return;
        }
        let w = t.len() / rad[k - 1];
        let parts: Vec<&[i64]> = t.chunks(w).collect();
        if parts.iter().all(|p| *p == parts[0]) {
            return rec(&rad[..k - 1], parts[0], subs, leaves, e);
        }
        if subs.insert((k, t.to_vec())) {
            *e += parts.len() as u64;
            for p in parts {
                rec(&rad[..k - 1], p, subs, leaves, e);
            }
        }
    }
    let mut e = 0;
    rec(&s.rad, &x.t, &mut subs, &mut leaves, &mut e);
    (subs.len() as u64, leaves.len() as u64, e)
}
fn count_big<V: Val>(c: &mut Case) -> R {
    let n = 10 + c.rng.below(15);
    let mut m: MssMgr<V> = MssMgr::new();
    let rad: Vec<usize> = (0..n).map(|_| 2 + c.rng.below(3)).collect();
    let vars: Vec<MddNode<V>> = (0..n).map(|i| m.defvar(&format!("c{}", i), rad[i])).collect();
    let mut f = vars[0].clone();
    for v in &vars[1..] {
        f = f.add(v);
    }
    let mut d = vec![1u64];
    for k in &rad {
        let mut e = vec![0u64; d.len() + k - 1];
        for (i, x) in d.iter().enumerate() {
            for j in 0..*k {
                e[i + j] += x;
            }
        }
        d = e;
    }
    let lab: Vec<usize> = (0..d.len()).filter(|_| c.rng.chance(1, 2)).collect();
    let want: u64 = lab.iter().map(|&k| d[k]).sum();
    let got = f.mdd_count(&lab.iter().map(|&k| V::of(k as i64)).collect());
    ensure!(got == want, "sum of {} components {:?}: {} vectors with sum in {:?}, mdd_count says {}", n, rad, want, lab, got);
    let t = 1 + c.rng.below(d.len() - 1);
    let g = f.ge(&m.value(V::of(t as i64)));
    let want: u64 = d[t..].iter().sum();
    let got = g.mdd_count(&[V::of(1)].into_iter().collect());
    ensure!(got == want, "sum >= {} over {:?}: {} vectors, mdd_count says {}", t, rad, want, got);
    let got = g.mdd_count(&[V::of(0)].into_iter().collect());
    ensure!(got == d[..t].iter().sum::<u64>(), "sum < {} over {:?}: mdd_count says {}", t, rad, got);
    // long skips, both forests
    let (i, j) = (c.rng.below(n), c.rng.below(n));
    if i != j {
        let h = vars[i].eq(&vars[j]);
        let top = i.max(j);
        let all: u64 = rad[..=top].iter().map(|x| *x as u64).product();
        let same = rad[i].min(rad[j]) as u64;
        let want = all / (rad[i] * rad[j]) as u64 * same;
        let got = h.mdd_count(&[V::of(1)].into_iter().collect());
        ensure!(got == want, "c{} == c{} over {:?}: mdd_count {} expected {}", i, j, rad, got, want);
        let got = h.mdd_count(&[V::of(0), V::of(1)].into_iter().collect());
        ensure!(got == all, "all vectors up to c{} over {:?}: mdd_count {} expected {}", top, rad, got, all);
    }
    c.count("large_counts");
    count_skips::<V>(c)
}
/// Functions of a few components among many, so that most of a vector is left open: counts up
/// to 2^63 in both forests.
fn count_skips<V: Val>(c: &mut Case) -> R {
    let mut m: MssMgr<V> = MssMgr::new();
    let mut rad: Vec<usize> = Vec::new();
    let mut space = 1u64;
    let limit = 1u64 << (30 + c.rng.below(33));
    let wide = c.rng.chance(1, 2);
    loop {
        let k = if wide { 2 + c.rng.below(9) } else { 2 + c.rng.below(2) };
        if space > limit / k as u64 {
            break;
        }
        space *= k as u64;
        rad.push(k);
    }
    let n = rad.len();
    let vars: Vec<MddNode<V>> = (0..n).map(|i| m.defvar(&format!("c{}", i), rad[i])).collect();
    for _ in 0..3 {
        let mut at: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut at);
        at.truncate(1 + c.rng.below(4));
        if c.rng.chance(1, 2) {
            at[0] = n - 1;
        }
        at.sort();
        at.dedup();
        let top = *at.last().unwrap();
        let mut f = vars[at[0]].clone();
        let mut d = vec![1u64; rad[at[0]]];
        for &i in &at[1..] {
            f = f.add(&vars[i]);
            let mut e = vec![0u64; d.len() + rad[i] - 1];
            for (k, x) in d.iter().enumerate() {
                for j in 0..rad[i] {
                    e[k + j] += x;
                }
            }
            d = e;
        }
        let open: u64 = (0..top).filter(|i| !at.contains(i)).map(|i| rad[i] as u64).product();
        let lab: Vec<usize> = (0..d.len()).filter(|_| c.rng.chance(1, 2)).collect();
        let want = open * lab.iter().map(|&k| d[k]).sum::<u64>();
        let got = f.mdd_count(&lab.iter().map(|&k| V::of(k as i64)).collect());
        ensure!(got == want, "the sum of components {:?} over {:?} is in {:?} for {} vectors, mdd_count says {}", at, rad, lab, want, got);
        let t = 1 + c.rng.below(d.len() - 1);
        let g = f.ge(&m.value(V::of(t as i64)));
        let want = open * d[t..].iter().sum::<u64>();
        let got = g.mdd_count(&[V::of(1)].into_iter().collect());
        ensure!(got == want, "the sum of components {:?} over {:?} is >= {} for {} vectors, mdd_count says {}", at, rad, t, want, got);
        if open > 1 << 32 {
            c.count("counts_with_more_than_2^32_open");
        }
        c.seen(&(&rad, &at, t, &lab));
    }
    Ok(())
}

// ---------------------------------------------------------------- P27 (multi-state half)
pub fn nary_case<V: Val>(c: &mut Case) -> R {
    let s: Ms<V> = new_ms_any(c, 4, 60);
    for _ in 0..2 {
        let b = c.rng.chance(1, 2);
        let k = if c.rng.chance(1, 2000) { 256 + c.rng.below(20) } else { c.rng.below(6) + if b { 0 } else { 1 } };
        let mut fs: Vec<(MddNode<V>, T)> = Vec::new();
        for _ in 0..k {
            let f = if !fs.is_empty() && c.rng.chance(1, 6) { fs[c.rng.below(fs.len())].clone() } else { any_fn(c, &s, b, false) };
            fs.push(f);
        }
        let hs: Vec<MddNode<V>> = fs.iter().map(|x| x.0.clone()).collect();
        let at = |i: usize| fs.iter().map(|x| x.1.t[i]).collect::<Vec<_>>();
        let (g0, g1) = if b { (s.m.and(&hs), s.m.or(&hs)) } else { (s.m.min(&hs), s.m.max(&hs)) };
        let (t0, t1) = (tab_of(&s, &g0), tab_of(&s, &g1));
        ensure!(t0.b == b && t1.b == b, "n-ary result of the wrong kind");
        for i in 0..s.size() {
            let v = at(i);
            let lo = v.iter().cloned().min().unwrap_or(1);
            let hi = v.iter().cloned().max().unwrap_or(0);
            ensure!(t0.t[i] == lo && t1.t[i] == hi, "n-ary {} over operand values {:?} gives {} and {}", if b { "and/or" } else { "min/max" }, v, t0.t[i], t1.t[i]);
        }
        if k == 0 {
            c.count("empty_lists");
        }
        c.count("multi_state_nary_compared");
        c.seen(&(b, fs.iter().map(|x| x.1.clone()).collect::<Vec<_>>()));
    }
    Ok(())
}

// ---------------------------------------------------------------- P29
enum Out {
    Ok(T),
    Err,
    /// A name that is not in the table: documented to panic, an error would do as well.
    Unknown,
    Unspecified,
}
fn rpn_model<V: Val>(s: &Ms<V>, toks: &[String]) -> Out {
    let mut st: Vec<T> = Vec::new();
    let mut mem: HashMap<String, T> = HashMap::new();
    macro_rules! pop {
        () => {
            match st.pop() {
                Some(x) => x,
                None => return Out::Err,
            }
        };
    }
    macro_rules! get {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return Out::Unspecified,
            }
        };
    }
    for t in toks {
        let t = t.as_str();
        if let Some(o) = VOPS.iter().position(|x| *x == t) {
            let y = pop!();
            let x = pop!();
            if x.b || y.b {
                return Out::Unspecified;
            }
            st.push(get!(vop(o, &x, &y, V::LIM)));
        } else if let Some(o) = COPS.iter().position(|x| *x == t) {
            let y = pop!();
            let x = pop!();
            if x.b != y.b || (x.b && o > 1) {
                return Out::Unspecified;
            }
            st.push(get!(cop(o, &x, &y)));
        } else if t == "&&" || t == "||" {
            let y = pop!();
            let x = pop!();
            if !x.b || !y.b {
                return Out::Unspecified;
            }
            st.push(get!(bop((t == "||") as usize, &x, &y)));
        } else if t == "!" {
            let x = pop!();
            if !x.b || !x.det() {
                return Out::Unspecified;
            }
            st.push(T { b: true, t: x.t.iter().map(|v| 1 - v).collect() });
        } else if t == "?" {
            let z = pop!();
            let y = pop!();
            let x = pop!();
            if !x.b || y.b != z.b {
                return Out::Unspecified;
            }
            st.push(get!(ite_t(&x, &y, &z)));
        } else if t == "True" || t == "False" {
            st.push(konst(s, true, (t == "True") as i64));
        } else if t.starts_with("save(") && t.ends_with(')') {
            match st.last() {
                Some(x) => mem.insert(t[5..t.len() - 1].to_string(), x.clone()),
                None => return Out::Err,
            };
        } else if t.starts_with("load(") && t.ends_with(')') {
            match mem.get(&t[5..t.len() - 1]) {
                Some(x) => st.push(x.clone()),
                None => return Out::Err,
            }
        } else if let Ok(v) = t.parse::<i32>() {
            st.push(konst(s, false, v as i64));
        } else {
            match s.names.iter().position(|x| x == t) {
                Some(i) => st.push(var_t(s, i)),
                None => return Out::Unknown,
            }
        }
    }
    if st.len() == 1 {
        Out::Ok(st.pop().unwrap())
    } else {
        Out::Err
    }
}
fn gen_rpn(c: &mut Case, names: &[String], len: usize) -> Vec<String> {
    // typed generation: a stack of kinds
    let mut out: Vec<String> = Vec::new();
    let mut st: Vec<bool> = Vec::new();
    let mut saved: BTreeMap<String, bool> = BTreeMap::new();
    let ids = ["a", "1", "s", "", "((", "min"];
    for _ in 0..len {
        let k = st.len();
        let two = if k >= 2 { Some((st[k - 2], st[k - 1])) } else { None };
        let choice = c.rng.below(12);
        match (choice, two) {
            (0..=2, Some((false, false))) => {
                out.push(VOPS[[0, 1, 2, 3, 4, 5, 4, 5, 0][c.rng.below(9)]].into());
                st.pop();
            }
            (3 | 4, Some((false, false))) => {
                out.push(COPS[c.rng.below(6)].into());
                st.pop();
                st.pop();
                st.push(true);
            }
            (0..=3, Some((true, true))) => {
                out.push(["&&", "||", "==", "!="][[0, 0, 1, 1, 2, 3][c.rng.below(6)]].into());
                st.pop();
            }
            (5, _) if k >= 1 && st[k - 1] => out.push("!".into()),
            (6 | 7, Some((x, y))) if k >= 3 && st[k - 3] && x == y => {
                out.push("?".into());
                st.truncate(k - 3);
                st.push(x);
            }
            (8, _) if k >= 1 => {
                // now and then under the name of a variable
                let id = if !names.is_empty() && c.rng.chance(1, 5) { c.rng.pick(names).as_str() } else { *c.rng.pick(&ids) };
                saved.insert(id.into(), st[k - 1]);
                out.push(format!("save({})", id));
            }
            (9, _) if !saved.is_empty() => {
                let i = c.rng.below(saved.len());
                let (id, kd) = saved.iter().nth(i).map(|(a, b)| (a.clone(), *b)).unwrap();
                out.push(format!("load({})", id));
                st.push(kd);
            }
            (10, _) => {
                if c.rng.chance(1, 3) {
                    out.push(c.rng.pick(&["True", "False"]).to_string());
                    st.push(true);
                } else {
                    out.push(c.rng.pick(&["0", "1", "2", "3", "-1", "+2", "007", "-0", "0", "1", "2", "-3", "300", "2147483647", "-2147483647", "-2147483648"]).to_string());
                    st.push(false);
                }
            }
            _ if !names.is_empty() => {
                out.push(c.rng.pick(names).clone());
                st.push(false);
            }
            _ => {
                out.push("1".into());
                st.push(false);
            }
        }
    }
    // close
    while st.len() > 1 {
        let k = st.len();
        match (st[k - 2], st[k - 1]) {
            (false, false) => {
                out.push(VOPS[[0, 4, 5][c.rng.below(3)]].into());
                st.pop();
            }
            (true, true) => {
                out.push(["&&", "||"][c.rng.below(2)].into());
                st.pop();
            }
            (a, _) => {
                // bring the top to the kind below
                if a {
                    out.push("1".into());
                    out.push(">=".into());
                } else {
                    out.push("1".into());
                    out.push("2".into());
                    out.push("?".into());
                }
                st[k - 1] = a;
            }
        }
    }
    out
}
/// Expressions with hundreds of names and operands waiting on the stack.
fn rpn_wide<V: Val>(c: &mut Case) -> R {
    let n = 256 + c.rng.below(60);
    let names: Vec<String> = (0..n).map(|i| if i % 50 == 7 { format!("{}{}", "long".repeat(70), i) } else { format!("v{}", i) }).collect();
    let vars: HashMap<String, usize> = names.iter().map(|s| (s.clone(), 2 + c.rng.below(2))).collect();
    let mut m: MssMgr<V> = MssMgr::new();
    if c.rng.chance(1, 2) {
        m.set_gc_threshold(c.rng.below(200));
    }
    let o = *c.rng.pick(&["+", "min", "max"]);
    let mut toks: Vec<String> = names.clone();
    if o == "+" {
        // few operands waiting: the partial sums share their nodes
        for i in 1..n {
            toks.insert(2 * i, o.to_string());
        }
    } else {
        toks.extend((1..n).map(|_| o.to_string()));
    }
    let bad = c.rng.chance(1, 4);
    if bad {
        toks.push(o.into());
    }
    let got = m.rpn(&toks.join(" "), &vars);
    ensure!(got.is_err() == bad, "an expression of {} tokens was {}", toks.len(), if bad { "accepted although an operand is missing" } else { "refused" });
    let order: Vec<String> = m.get_varorder().into_iter().map(|x| x.0).collect();
    ensure!(order == names, "the names are not declared in the order of their first use");
    if let Ok(f) = got {
        for k in 0..60 {
            let pt: HashMap<&str, usize> = names.iter().map(|s| (s.as_str(), if k % 3 == 0 { (c.rng.below(n) == 0) as usize } else if k % 3 == 1 { vars[s] - 1 - (c.rng.below(n) == 0) as usize } else { c.rng.below(vars[s]) })).collect();
            let mut h = f.clone();
            while let Some(ks) = h.get_children() {
                let l = h.get_label().ok_or("a node without a label")?;
                h = ks[pt[l.as_str()]].clone();
            }
            let w = match o {
                "+" => pt.values().sum::<usize>(),
                "min" => *pt.values().min().unwrap(),
                _ => *pt.values().max().unwrap(),
            };
            ensure!(h.value() == Some(V::of(w as i64)), "the {} of {} variables is wrong at a sampled point (determined: {}), expected {}", o, n, h.value().is_some(), w);
        }
        c.count("expressions_over_256_names");
    }
    Ok(())
}
pub fn rpn_case<V: Val>(c: &mut Case, gc: bool) -> R {
    if c.idx % 400 == 31 {
        return rpn_wide::<V>(c);
    }
    // a shadow system gives names, radices and points; the expressions run in a fresh manager
    let s: Ms<V> = new_ms(c, 5, 100);
    if s.names.iter().any(|n| n == "min" || n == "max") {
        return Ok(());
    }
    let vars: HashMap<String, usize> = s.names.iter().cloned().zip(s.rad.iter().cloned()).collect();
    let mut m: MssMgr<V> = MssMgr::new();
    if gc || c.rng.chance(1, 4) {
        m.set_gc_threshold(c.rng.below(40));
    }
    let mut kept: Vec<(MddNode<V>, T)> = Vec::new();
    for _ in 0..2 + c.rng.below(4) {
        if gc {
            // a collection falls due somewhere inside the next expression
            let more = c.rng.below(30);
            m.set_gc_threshold(m.live_node_count() + more);
        }
        let len = c.rng.below(18);
        let mut toks = gen_rpn(c, &s.names, len);
        for _ in 0..[0, 0, 1, 1, 2][c.rng.below(5)] {
            let i = c.rng.below(toks.len() + 1);
            match c.rng.below(4) {
                0 if i < toks.len() => {
                    toks.remove(i);
                }
                1 => toks.insert(i, c.rng.pick(&["+", "min", "==", "&&", "!", "?", "save(q)", "load(q)", "load(a)", "1", "True", "nope", "2147483648", "-2147483649", "1.5", "--1", "-1", "-2147483648", "+-1", "1_0", "0x1", "&", "save(", "load)"]).to_string()),
                2 if i < toks.len() && c.rng.chance(1, 4) => {
                    // recall something under a name that means something elsewhere
                    toks[i] = if !s.names.is_empty() && c.rng.chance(1, 2) { format!("load({})", c.rng.pick(&s.names)) } else { format!("load({})", c.rng.pick(&["1", "0", "a", "True", ""])) }
                }
                2 if i < toks.len() => toks[i] = c.rng.pick(&["+", "<=", "?", "!", "load(zz)", "max"]).to_string(),
                _ => toks.truncate(i),
            }
        }
        let text = if c.rng.chance(1, 3) { format!(" {}\n", toks.join(" \t ")) } else { toks.join(" ") };
        let model = rpn_model(&s, &toks);
        if let Out::Unspecified = model {
            c.count("unspecified_expressions_skipped");
            continue;
        }
        c.seen(&toks);
        c.log(|| format!("rpn {:?} vars {:?}", text, vars));
        let got = if let Out::Unknown = model {
            match crate::rt::guarded(|| m.rpn(&text, &vars)) {
                Ok(r) => r,
                Err(_) => Err("panicked".to_string()),
            }
        } else {
            m.rpn(&text, &vars)
        };
        match (got, model) {
            (Err(_), Out::Unknown) => c.count("unknown_names_refused"),
            (Ok(_), Out::Unknown) => return Err(format!("rpn {:?} uses a name it does not know but was accepted", text)),
            (Err(_), Out::Err) => c.count("malformed_expressions_refused"),
            (Ok(_), Out::Err) => return Err(format!("rpn {:?} is malformed but was accepted", text)),
            (Err(e), _) => return Err(format!("rpn {:?} is well formed but was refused: {}", text, e)),
            (Ok(f), Out::Ok(t)) => {
                let g = tab_of(&s, &f);
                ensure!(g == t, "rpn {:?} denotes a {}, expected a {}", text, desc(&s, &g), desc(&s, &t));
                c.count("expressions_compared");
                if !t.det() {
                    c.count("partly_undetermined_results");
                }
                kept.push((f, t));
            }
            _ => {}
        }
        let order = m.get_varorder();
        ensure!(order.iter().all(|(n, k)| vars.get(n) == Some(k)), "get_varorder {:?} disagrees with the declared {:?}", order, vars);
    }
    for (f, t) in &kept {
        ensure!(&tab_of(&s, f) == t, "a kept result changed: expected a {}", desc(&s, t));
    }
    Ok(())
}

// ---------------------------------------------------------------- P16
pub fn reach<V: Val>(hs: &[&MddNode<V>]) -> usize {
    let mut k = 0;
    let mut seen: HashSet<Node> = HashSet::new();
    let mut st: Vec<Node> = hs.iter().map(|h| h.get_node()).collect();
    if st.is_empty() {
        return 0;
    }
    let g = hs[0].get_mgr();
    let g = g.borrow();
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        k += 1;
        match x {
            Node::Value(id) => {
                if let Some(mtmdd::Node::NonTerminal(f)) = g.mtmdd().get_node(&id) {
                    st.extend(f.iter().map(Node::Value));
                }
            }
            Node::Bool(id) => {
                if let Some(mdd::Node::NonTerminal(f)) = g.mdd().get_node(&id) {
                    st.extend(f.iter().map(Node::Bool));
                }
            }
        }
    }
    k
}
pub fn handle_gc_case<V: Val>(c: &mut Case) -> R {
    let s: Ms<V> = new_ms_n(c, 6, 5, 90);
    let mut floor = c.rng.below(140);
    let mut floor_max = floor;
    s.m.set_gc_threshold(floor);
    let mut pool: Vec<(MddNode<V>, T)> = s.vars.iter().enumerate().map(|(i, v)| (v.clone(), var_t(&s, i))).collect();
    pool.push((s.m.boolean(true), konst(&s, true, 1)));
    let mut iters: Vec<(MddPath<V>, T, Vec<i64>, u64)> = Vec::new();
    let mut zfam: Vec<(ZmddNode<V>, Vec<i64>, Vecs)> = Vec::new();
    let mut gcs = 0;
    let mut maxreach = 0;
    let steps = 30 + c.rng.below(if c.tier == Tier::Thorough { 250 } else { 90 });
    for step in 0..steps {
        let before = s.m.live_node_count();
        let mut wrapped = true;
        let pick = |c: &mut Case, b: bool| -> Option<(MddNode<V>, T)> {
            let v: Vec<usize> = (0..pool.len()).filter(|&i| pool[i].1.b == b).collect();
            if v.is_empty() {
                None
            } else {
                Some(pool[v[c.rng.below(v.len())]].clone())
            }
        };
        match c.rng.below(16) {
            0..=3 => {
                let o = c.rng.below(6);
                if let (Some((f, x)), Some((g, y))) = (pick(c, false), pick(c, false)) {
                    if let Some(r) = vop(o, &x, &y, V::LIM.min(1 << 40)) {
                        pool.push((call_v(o, &f, &g), r));
                    }
                }
            }
            4 | 5 => {
                let o = c.rng.below(6);
                if let (Some((f, x)), Some((g, y))) = (pick(c, false), pick(c, false)) {
                    if let Some(r) = cop(o, &x, &y) {
                        pool.push((call_c(o, &f, &g), r));
                    }
                }
            }
            6 => {
                let o = c.rng.below(3);
                if let (Some((f, x)), Some((g, y))) = (pick(c, true), pick(c, true)) {
                    if let Some(r) = bop(o, &x, &y) {
                        pool.push((call_b(o, &f, &g), r));
                    }
                }
            }
            7 => {
                let b = c.rng.chance(1, 2);
                if let (Some((f, x)), Some((g, y)), Some((h, z))) = (pick(c, true), pick(c, b), pick(c, b)) {
                    if let Some(r) = ite_t(&x, &y, &z) {
                        pool.push((f.ite(&g, &h), r));
                    }
                }
            }
            8 => {
                let d = 2 + c.rng.below(2);
                let b = c.rng.chance(1, 2);
                let r = expr(c, &s, d, b, false);
                pool.push(r);
            }
            9 => {
                let b = c.rng.chance(1, 2);
                let x = rand_t(c, &s, b, true);
                let f = build(&s, &x);
                pool.push((f, x));
            }
            10 => {
                let i = c.rng.below(pool.len());
                let (f, x) = pool.swap_remove(i);
                match (f.get_children(), f.get_level()) {
                    (Some(ks), Some(l)) => {
                        drop(f);
                        let w = strides(&s.rad)[l];
                        for (j, k) in ks.into_iter().enumerate() {
                            let t: Tab = (0..x.t.len()).map(|p| x.t[p - (p / w % s.rad[l]) * w + j * w]).collect();
                            pool.push((k, T { b: x.b, t }));
                        }
                        c.count("children_outliving_parent");
                    }
                    _ => pool.push((f, x)),
                }
                wrapped = false;
            }
            11 => {
                while pool.len() > 3 && c.rng.chance(2, 3) {
                    let i = c.rng.below(pool.len());
                    pool.swap_remove(i);
                }
                wrapped = false;
            }
            12 => {
                let keep: Vec<&MddNode<V>> = pool.iter().filter(|_| c.rng.chance(1, 3)).map(|x| &x.0).collect();
                s.m.gc(&keep);
                c.count("explicit_collections");
                if iters.is_empty() {
                    let hs: Vec<&MddNode<V>> = pool.iter().map(|x| &x.0).chain(s.vars.iter()).collect();
                    let (r, live) = (reach(&hs), s.m.live_node_count());
                    ensure!(live >= r && live <= r + 4, "after an explicit collection {} nodes are live; the handles reach {}", live, r);
                    c.count("exact_collections");
                }
                wrapped = false;
            }
            13 => {
                let i = c.rng.below(pool.len());
                let (f, x) = pool[i].clone();
                let l = pick_labels(c, &x);
                let ss: HashSet<V> = l.iter().map(|v| V::of(*v)).collect();
                let mut it = f.mdd_extract(&ss);
                drop(f);
                let mut k = 0;
                for _ in 0..c.rng.below(4) {
                    k += it.next().is_some() as u64;
                }
                iters.push((it, x, l, k));
                wrapped = false;
            }
            14 => {
                let i = c.rng.below(pool.len());
                let (f, x) = pool[i].clone();
                if x.det() {
                    let r = s.m.minpath(&f);
                    ensure!(r.is_some() == is_mono(&s.rad, &x.t), "minpath under automatic collection misjudged monotonicity");
                    if let Some(z) = r {
                        let v = x.t[c.rng.below(x.t.len())];
                        let sel: Vec<usize> = (0..x.t.len()).filter(|&i| x.t[i] == v).collect();
                        zfam.push((z, vec![v], extreme(&s, &sel, false)));
                        if zfam.len() > 6 {
                            zfam.remove(0);
                        }
                    }
                }
                wrapped = false;
            }
            _ => {
                floor = c.rng.below(180);
                floor_max = floor_max.max(floor);
                s.m.set_gc_threshold(floor);
                wrapped = false;
            }
        }
        let live = s.m.live_node_count();
        if live < before {
            gcs += 1;
        }
        let hs: Vec<&MddNode<V>> = pool.iter().map(|x| &x.0).chain(s.vars.iter()).collect();
        maxreach = maxreach.max(reach(&hs));
        if wrapped && iters.is_empty() {
            let bound = floor_max.max(4 * (maxreach + 16)) + 8 * s.size();
            ensure!(live <= bound, "step {}: {} nodes are live although the handles never reached more than {} and collection is set to {}", step, live, maxreach, floor);
        }
        for _ in 0..2 {
            let (f, x) = &pool[c.rng.below(pool.len())];
            let g = tab_of(&s, f);
            ensure!(&g == x, "step {}: a live handle now denotes a {}, it was built as a {}", step, desc(&s, &g), desc(&s, x));
            let (h, y) = &pool[c.rng.below(pool.len())];
            ensure!((f.get_node() == h.get_node()) == (x == y), "step {}: node identity {} for a {} and a {}", step, f.get_node() == h.get_node(), desc(&s, x), desc(&s, y));
        }
        c.add("handle_checks", 2);
        if !iters.is_empty() && c.rng.chance(1, 3) {
            let i = c.rng.below(iters.len());
            let (it, x, l, k) = iters.swap_remove(i);
            let total = k + it.count() as u64;
            let top = support(&s, &x.t).last().map(|i| i + 1).unwrap_or(0);
            let lim: usize = s.rad[..top].iter().product();
            let want = (0..lim).filter(|&i| x.t[i] != U && l.contains(&x.t[i])).count() as u64;
            ensure!(total == want, "an enumeration held across collections produced {} of {} vectors", total, want);
            c.count("enumerations_across_collections");
        }
        if !zfam.is_empty() && c.rng.chance(1, 4) {
            let (z, l, w) = &zfam[c.rng.below(zfam.len())];
            ensure!(&extract(&s, z, l, "kept family")? == w, "a minimal-path family changed while its function's forest was collected");
            c.count("families_across_collections");
        }
        if pool.len() > 20 {
            pool.truncate(10);
        }
    }
    for (f, x) in &pool {
        ensure!(&tab_of(&s, f) == x, "at the end a live handle denotes something else than the {} it was built as", desc(&s, x));
        c.seen(x);
    }
    for (i, v) in s.vars.iter().enumerate() {
        ensure!(tab_of(&s, v) == var_t(&s, i), "variable {} no longer denotes itself", s.names[i]);
    }
    c.add("collections_observed", gcs);
    Ok(())
}
fn digest<V: Val>(z: &ZmddNode<V>) -> (u64, u64) {
    let mut h = 0u64;
    let mut k = 0;
    for l in z.labels() {
        for v in z.extract(&[l].into_iter().collect()) {
            let mut row: Vec<(&String, &usize)> = v.iter().collect();
            row.sort();
            h = h.wrapping_add(hash_of(&(l.to(), row)));
            k += 1;
        }
    }
    (k, h)
}
/// The nodes of a family, terminals included.
fn reach_fam<V: Val>(z: &ZmddNode<V>, seen: &mut HashSet<usize>) {
    let g = z.get_mgr();
    let g = g.borrow();
    let mut st = vec![z.get_id()];
    while let Some(id) = st.pop() {
        if seen.insert(id) {
            if let Some(mtmdd::Node::NonTerminal(x)) = g.get_node(&id) {
                st.extend(x.iter());
            }
        }
    }
}
/// Families kept by handles while the family forest is pushed past its fixed collection
/// threshold again and again (unreferenced nodes are created directly in it), so that
/// the next family produced runs a collection.
pub fn family_gc_case<V: Val>(c: &mut Case) -> R {
    let s: Ms<V> = new_ms_n(c, 8, 5, 110);
    let mut kept: Vec<(ZmddNode<V>, (u64, u64))> = Vec::new();
    let mut stamp = 1000i64;
    let rounds = 3 + c.rng.below(4);
    for _ in 0..rounds {
        let steps = 2 + c.rng.below(4);
        for _ in 0..steps {
            let b = c.rng.chance(1, 3);
            let x = mono_t(c, &s, b);
            let f = build(&s, &x);
            let z = if c.rng.chance(1, 2) { s.m.minpath(&f) } else { s.m.mincut(&f) }.ok_or("a monotone function was refused")?;
            let d = digest(&z);
            kept.push((z, d));
        }
        let mgr = kept[0].0.get_mgr();
        // families that nobody will hold when the collection runs
        let mut gone: HashSet<usize> = HashSet::new();
        let mut tries = 0;
        while gone.len() < 400 && tries < 40 {
            tries += 1;
            let x = mono_t(c, &s, false);
            let f = build(&s, &x);
            let z = s.m.minpath(&f).ok_or("a monotone function was refused")?;
            let y = if c.rng.chance(1, 2) { z.clone() } else { s.m.mincut(&f).ok_or("a monotone function was refused")? };
            reach_fam(&z, &mut gone);
            reach_fam(&y, &mut gone);
        }
        // pressure: unreferenced nodes above the existing family headers
        let fill = |stamp: &mut i64, upto: usize| {
            let mut g = mgr.borrow_mut();
            let nh = g.size().0;
            if !(0..nh).any(|h| g.get_header(&h).map(|x| x.edge_num() >= 2) == Some(true)) {
                return 0; // only constants so far
            }
            let und = g.undet();
            let zero = g.value(V::of(0));
            while g.live_node_count() < upto {
                *stamp += 1;
                let t = g.value(V::of(*stamp));
                for h in 0..nh {
                    let e = g.get_header(&h).expect("header").edge_num();
                    if e < 2 {
                        continue;
                    }
                    let mut ks = vec![und; e];
                    ks[0] = zero;
                    ks[e - 1] = t;
                    g.create_node(h, &ks);
                    ks[0] = t;
                    g.create_node(h, &ks);
                }
            }
            g.live_node_count()
        };
        let before = fill(&mut stamp, (1 << 17) + 4096);
        if before == 0 {
            continue;
        }
        // a traversal in progress during the collection
        let probe = c.rng.below(kept.len());
        let ls: HashSet<V> = kept[probe].0.labels().into_iter().collect();
        let whole: Vec<_> = kept[probe].0.extract(&ls).collect();
        let mut it = kept[probe].0.extract(&ls);
        let mut probe_nodes: HashSet<usize> = HashSet::new();
        reach_fam(&kept[probe].0, &mut probe_nodes);
        let mut part = Vec::new();
        let take = c.rng.below(whole.len() + 1);
        for _ in 0..take {
            part.extend(it.next());
        }
        if kept.len() > 1 && c.rng.chance(1, 2) {
            // from here on only the traversal holds the family
            let id = kept[probe].0.get_id();
            if kept.iter().any(|k| k.0.get_id() != id) {
                kept.retain(|k| k.0.get_id() != id);
                c.count("enumerations_without_a_handle");
            }
        }
        // drop some handles, then produce a family: this is where the collection runs
        let mut new: Vec<(ZmddNode<V>, (u64, u64))> = Vec::new();
        let i = c.rng.below(kept.len());
        let j = c.rng.below(kept.len());
        let same = kept[i].0.is_cut() == kept[j].0.is_cut();
        let how = c.rng.below(3);
        let z = match how {
            0 if same => kept[i].0.intersect(&kept[j].0),
            1 if same => kept[i].0.setdiff(&kept[j].0),
            _ => {
                let b = c.rng.chance(1, 3);
                let x = mono_t(c, &s, b);
                let f = build(&s, &x);
                s.m.minpath(&f).ok_or("a monotone function was refused")?
            }
        };
        let after = mgr.borrow().live_node_count();
        c.max("peak_family_nodes", before as u64);
        ensure!(after < before / 2, "{} unreferenced family nodes were not reclaimed: {} live nodes after the next family", before, after);
        let mut held: HashSet<usize> = HashSet::new();
        for (k, _) in &kept {
            reach_fam(k, &mut held);
        }
        reach_fam(&z, &mut held);
        for id in probe_nodes {
            held.insert(id);
        }
        ensure!(after >= held.len(), "held families reach {} nodes, {} are live after a collection", held.len(), after);
        // (with room for what the operation itself may have left behind)
        ensure!(after <= held.len() + 60, "held families reach {} nodes, {} are live after a collection, {} belong to families already dropped", held.len(), after, gone.len());
        c.max("family_nodes_beyond_held", (after - held.len()) as u64);
        if gone.difference(&held).count() > 70 {
            c.count("family_collections_with_dropped_families");
        }
        c.count("family_collections_observed");
        let d = digest(&z);
        // the same result again, from nodes that survived
        let again = match how {
            0 if same => kept[i].0.intersect(&kept[j].0),
            1 if same => kept[i].0.setdiff(&kept[j].0),
            _ => z.clone(),
        };
        ensure!(again.get_id() == z.get_id() && digest(&again) == d, "repeating a set operation after a collection gives another family");
        new.push((z, d));
        if c.rng.chance(1, 2) {
            // every reclaimed slot is taken again
            fill(&mut stamp, before);
        }
        part.extend(it);
        ensure!(part == whole, "an enumeration begun before a collection of the family forest and finished after it gave {:?} instead of {:?}", part, whole);
        c.count("enumerations_across_collections");
        kept.extend(new);
        for (z, d) in &kept {
            let now = digest(z);
            ensure!(now == *d, "a kept family of {} vectors changed across a collection of the family forest ({} vectors now)", d.0, now.0);
            c.count("families_rechecked");
        }
        c.seen(&kept.iter().map(|k| k.1).collect::<Vec<_>>());
        c.rng.shuffle(&mut kept);
        let keep = 2 + c.rng.below(4);
        if c.rng.chance(1, 2) {
            // handles outliving the handle they came from
            kept = kept.into_iter().take(keep).map(|(z, d)| (z.clone(), d)).collect();
        } else {
            kept.truncate(keep);
        }
    }
    Ok(())
}

/// More handles to one function (family) than small counters hold.
pub fn many_handles<V: Val>(c: &mut Case) -> R {
    let s: Ms<V> = new_ms_n(c, 8, 4, 60);
    s.m.set_gc_threshold(usize::MAX / 4);
    s.m.gc(&[]);
    let base = s.m.live_node_count();
    let x = mono_t(c, &s, false);
    let f = build(&s, &x);
    let fam = s.m.minpath(&f).ok_or("a monotone function was refused")?;
    let d = digest(&fam);
    let fams: Vec<ZmddNode<V>> = (0..65_600).map(|_| fam.clone()).collect();
    s.m.gc(&[]);
    let held = s.m.live_node_count();
    let mut hs: Vec<MddNode<V>> = (0..65_600).map(|i| if i % 3 == 0 { f.clone() } else { f.max(&f) }).collect();
    drop(f);
    for left in [65_537usize, 65_536, 65_535, 300, 257, 256, 255, 2, 1] {
        hs.truncate(left);
        s.m.gc(&[]);
        let y = rand_t(c, &s, false, false);
        build(&s, &y);
        ensure!(tab_of(&s, &hs[0]) == x, "with {} handles to it left, a held function changed across a collection", left);
        s.m.gc(&[]);
        ensure!(s.m.live_node_count() == held, "with {} handles to one function {} nodes are live, {} are reachable", left, s.m.live_node_count(), held);
    }
    hs.clear();
    s.m.gc(&[]);
    ensure!(s.m.live_node_count() == base, "after dropping the last of 65600 handles {} nodes stay live, {} are reachable", s.m.live_node_count(), base);
    let it = fam.clone();
    drop(fams);
    ensure!(digest(&it) == d, "a family held by many handles changed");
    drop(fam);
    drop(it);
    c.max("handles_to_one_function", 65_600);
    Ok(())
}

// ---------------------------------------------------------------- P32 (multi-state half)
fn nav_wide<V: Val>(c: &mut Case) -> R {
    let n = 256 + c.rng.below(60);
    let mut m: MssMgr<V> = MssMgr::new();
    let decl: Vec<(String, usize)> = (0..n).map(|i| (format!("c{}", i), 2 + c.rng.below(3))).collect();
    let vars: Vec<MddNode<V>> = decl.iter().map(|(s, r)| m.defvar(s, *r)).collect();
    ensure!(m.get_varorder() == decl, "get_varorder of {} variables is {:?}, declared {:?}", n, m.get_varorder(), decl);
    for (i, (s, r)) in decl.iter().enumerate() {
        let v = m.defvar(s, *r);
        ensure!(v.get_node() == vars[i].get_node() && v.get_level() == Some(i) && v.get_label().as_ref() == Some(s), "variable {} of {} reports level {:?} label {:?}", i, n, v.get_level(), v.get_label());
        let ks = v.get_children().ok_or("a variable without children")?;
        ensure!(ks.len() == *r && ks.iter().enumerate().all(|(j, k)| k.value() == Some(V::of(j as i64))), "variable {} of {} has other children", i, n);
    }
    let pick: Vec<usize> = (0..n).filter(|i| *i > n - 3 || *i < 3 || c.rng.chance(1, 2)).collect();
    let hs: Vec<MddNode<V>> = pick.iter().map(|&i| vars[i].ge(&m.value(V::of(1)))).collect();
    let f = m.and(&hs);
    let mut h = f.clone();
    let mut edges = 0;
    for &i in pick.iter().rev() {
        ensure!(h.get_level() == Some(i) && h.get_label().as_ref() == Some(&decl[i].0), "in a conjunction over {} variables, level {} reports {:?} {:?}", n, i, h.get_level(), h.get_label());
        let ks = h.get_children().ok_or("children are missing")?;
        edges += ks.len() as u64;
        ensure!(ks.len() == decl[i].1 && ks[0].is_zero() && ks[1..].iter().all(|k| k.get_node() == ks[1].get_node()), "a level of a conjunction has other branches");
        h = ks[1].clone();
    }
    ensure!(h.is_one(), "a conjunction does not end in true");
    ensure!(f.size() == (pick.len() as u64, 2, edges), "size of a conjunction of {} conditions is {:?}", pick.len(), f.size());
    c.count("systems_with_over_256_components");
    Ok(())
}
pub fn nav_case<V: Val>(c: &mut Case) -> R {
    if c.idx % 900 == 23 {
        return giant_case::<V>(c, Giant::Navigate);
    }
    if c.idx % 300 == 45 {
        return nav_wide::<V>(c);
    }
    let mut s: Ms<V> = new_ms(c, 5, 100);
    let vars: Vec<(String, usize)> = s.names.iter().cloned().zip(s.rad.iter().cloned()).collect();
    ensure!(s.m.get_varorder() == vars, "get_varorder is {:?}, declared {:?}", s.m.get_varorder(), vars);
    for i in 0..s.n() {
        let nm = s.names[i].clone();
        let again = s.m.defvar(&nm, s.rad[i]);
        ensure!(again.get_node() == s.vars[i].get_node(), "declaring {} again gave another node", nm);
        ensure!(tab_of(&s, &s.vars[i]) == var_t(&s, i), "variable {} does not denote its own state", nm);
        if s.rad[i] > 1 {
            ensure!(again.get_level() == Some(i) && again.get_label() == Some(nm.clone()), "variable {} reports level {:?} label {:?}", nm, again.get_level(), again.get_label());
        }
    }
    let (t, f, ub, uv) = (s.m.boolean(true), s.m.boolean(false), s.m.undet_boolean(), s.m.undet_value());
    ensure!(t.is_boolean() && !t.is_value() && t.is_one() && !t.is_zero() && !t.is_undet() && t.value().is_none(), "true misreports itself");
    ensure!(f.is_boolean() && f.is_zero() && !f.is_one() && !f.is_undet(), "false misreports itself");
    ensure!(ub.is_boolean() && ub.is_undet() && !ub.is_one() && !ub.is_zero(), "the undetermined boolean misreports itself");
    ensure!(uv.is_value() && !uv.is_boolean() && uv.value().is_none() && !uv.is_one() && !uv.is_zero(), "the undetermined value misreports itself");
    for v in [-3i64, 0, 1, 2, 77, V::LIM] {
        let x = s.m.value(V::of(v));
        ensure!(x.is_value() && !x.is_boolean() && x.value() == Some(V::of(v)) && x.get_children().is_none() && x.get_level().is_none(), "the value {} misreports itself", v);
    }
    for _ in 0..2 {
        let b = c.rng.chance(1, 2);
        let (f, x) = any_fn(c, &s, b, true);
        nav_rec(&s, &f, &x, usize::MAX, &mut HashSet::new(), c)?;
        c.seen(&x);
        let got = f.size();
        let want = walk(&[&f]);
        ensure!(got == want, "walking a diagram finds {:?} nodes, terminals and edges, size() says {:?}", want, got);
        s.m.gc(&[]);
        let hs: Vec<&MddNode<V>> = s.vars.iter().chain([&f, &t, &ub, &uv]).collect();
        let (nn, leaves, _) = walk(&hs);
        let live = s.m.live_node_count() as u64;
        ensure!(live >= nn && live <= nn + leaves + 4, "the held handles reach {} nodes and {} terminals, {} nodes are live after a collection", nn, leaves, live);
        c.count("multi_state_reports_compared_with_walk");
    }
    Ok(())
}
/// Distinct non-terminals, terminals and edges found by navigation from the given handles.
fn walk<V: Val>(hs: &[&MddNode<V>]) -> (u64, u64, u64) {
    let mut seen: HashSet<Node> = HashSet::new();
    let mut st: Vec<MddNode<V>> = hs.iter().map(|h| (*h).clone()).collect();
    let mut r = (0, 0, 0);
    while let Some(h) = st.pop() {
        if seen.insert(h.get_node()) {
            match h.get_children() {
                Some(k) => {
                    r.0 += 1;
                    r.2 += k.len() as u64;
                    st.extend(k);
                }
                None => r.1 += 1,
            }
        }
    }
    r
}
fn nav_rec<V: Val>(s: &Ms<V>, f: &MddNode<V>, x: &T, above: usize, seen: &mut HashSet<Node>, c: &mut Case) -> R {
    ensure!(f.is_boolean() == x.b && f.is_value() != x.b, "a node is of the wrong kind");
    match support(s, &x.t).last() {
        None => {
            ensure!(f.get_children().is_none() && f.get_level().is_none() && f.get_label().is_none() && f.get_header().is_none(), "a constant has children or a variable");
            let v = x.t[0];
            if x.b {
                ensure!(f.is_one() == (v == 1) && f.is_zero() == (v == 0) && f.is_undet() == (v == U) && f.value().is_none(), "a boolean constant misreports itself");
            } else {
                ensure!(f.value().map(|y| y.to()) == if v == U { None } else { Some(v) }, "a value constant {} reports {:?}", v, f.value().map(|y| y.to()));
            }
        }
        Some(&l) => {
            ensure!(l < above, "variable order violated");
            ensure!(!f.is_one() && !f.is_zero() && !f.is_undet() && f.value().is_none(), "a non-constant function claims to be constant");
            ensure!(f.get_level() == Some(l) && f.get_label() == Some(s.names[l].clone()), "top variable {} reported as level {:?} label {:?}", s.names[l], f.get_level(), f.get_label());
            let ks = f.get_children().ok_or("a non-constant function has no children")?;
            ensure!(ks.len() == s.rad[l], "{} children for a {}-state variable", ks.len(), s.rad[l]);
            c.count("multi_state_nodes_navigated");
            if seen.insert(f.get_node()) {
                let w = strides(&s.rad)[l];
                for (j, k) in ks.iter().enumerate() {
                    let t: Tab = (0..x.t.len()).map(|p| x.t[p - (p / w % s.rad[l]) * w + j * w]).collect();
                    nav_rec(s, k, &T { b: x.b, t }, l, seen, c)?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- variables of very many states
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Giant {
    Prob,
    Importance,
    Minimal,
    Count,
    Navigate,
}
/// A variable with more than 65536 states between two small ones: every function here has a
/// closed form, so sums, counts and extreme vectors over all points stay cheap.
pub fn giant_case<V: Val>(c: &mut Case, what: Giant) -> R {
    let g = 65_537 + c.rng.below(80);
    let rad0 = [2 + c.rng.below(2), g, 2 + c.rng.below(3)];
    let mut ord = [0usize, 1, 2];
    c.rng.shuffle(&mut ord);
    let mut m: MssMgr<V> = MssMgr::new();
    let names: Vec<String> = ["a", "w", "b"].iter().map(|s| s.to_string()).collect();
    let mut made: Vec<Option<MddNode<V>>> = vec![None; 3];
    for &i in &ord {
        made[i] = Some(m.defvar(&names[i], rad0[i]));
    }
    let v: Vec<MddNode<V>> = made.into_iter().map(|x| x.expect("all three are declared")).collect();
    let lev: Vec<usize> = (0..3).map(|i| ord.iter().position(|k| *k == i).unwrap_or(0)).collect();
    let cst = |k: usize| m.value(V::of(k as i64));
    let t = *c.rng.pick(&[1usize, 2, 255, 256, 257, 32768, 65535, 65536, g - 1]);
    let (a, w, b) = (v[0].clone(), v[1].clone(), v[2].clone());
    type F = Box<dyn Fn(usize, usize, usize) -> i64>;
    let shape = if what == Giant::Minimal { c.rng.below(2) } else { c.rng.below(7) };
    let (mut f, model, deps): (MddNode<V>, F, Vec<usize>) = match shape {
        0 => (w.ge(&cst(t)), Box::new(move |_, y, _| (y >= t) as i64), vec![1]),
        1 => (w.ge(&cst(t)).and(&a.ge(&cst(1))).and(&b.ge(&cst(1))), Box::new(move |x, y, z| (y >= t && x >= 1 && z >= 1) as i64), vec![0, 1, 2]),
        2 => (a.eq(&cst(1)).xor(&b.ge(&cst(1))), Box::new(|x, _, z| ((x == 1) != (z >= 1)) as i64), vec![0, 2]),
        3 => (a.max(&b), Box::new(|x, _, z| x.max(z) as i64), vec![0, 2]),
        4 => (w.add(&a), Box::new(|x, y, _| (x + y) as i64), vec![0, 1]),
        5 => (w.eq(&cst(t)).or(&b.eq(&cst(0))), Box::new(move |_, y, z| (y == t || z == 0) as i64), vec![1, 2]),
        _ => (w.min(&cst(t)).max(&b), Box::new(move |_, y, z| y.min(t).max(z) as i64), vec![1, 2]),
    };
    let mut vals: BTreeMap<i64, u64> = BTreeMap::new();
    for x in 0..rad0[0] {
        for y in 0..g {
            for z in 0..rad0[2] {
                *vals.entry(model(x, y, z)).or_insert(0) += 1;
            }
        }
    }
    let space = (rad0[0] * g * rad0[2]) as u64;
    let mut lab: HashSet<i64> = HashSet::new();
    for k in vals.keys() {
        if c.rng.chance(1, 2) {
            lab.insert(*k);
        }
    }
    lab.insert(model(1, g - 1, 1));
    let ss: HashSet<V> = lab.iter().map(|k| V::of(*k)).collect();
    let name = format!("function {} (threshold {}) of components with {:?} states", shape, t, rad0);
    // values
    for _ in 0..40 {
        let y = if c.rng.chance(1, 2) { *c.rng.pick(&[0usize, 1, 255, 256, 65535, 65536, g - 1, t, t - 1]) } else { c.rng.below(g) };
        let (x, z) = (c.rng.below(rad0[0]), c.rng.below(rad0[2]));
        let got = at(&f, &|l| match l {
            "a" => x,
            "w" => y,
            _ => z,
        });
        ensure!(got == model(x, y, z), "{}: the value at ({}, {}, {}) is {}, expected {}", name, x, y, z, got, model(x, y, z));
    }
    match what {
        Giant::Prob | Giant::Importance => {
            let p: Vec<Vec<Zp>> = rad0.iter().map(|&k| zdist(c, k)).collect();
            let pv: HashMap<String, Vec<Zp>> = names.iter().cloned().zip(p.iter().cloned()).collect();
            let sv: Vec<V> = ss.iter().cloned().collect();
            // sets of labels are scanned per terminal: keep them short
            let sv: Vec<V> = if sv.len() > 40 { sv[..40].to_vec() } else { sv };
            let sel: HashSet<i64> = sv.iter().map(|k| k.to()).collect();
            let hits = |x: usize, y: usize, z: usize| sel.contains(&model(x, y, z));
            if what == Giant::Prob {
                let mut want = Zp(0);
                for x in 0..rad0[0] {
                    for y in 0..g {
                        for z in 0..rad0[2] {
                            if hits(x, y, z) {
                                want = want + p[0][x] * p[1][y] * p[2][z];
                            }
                        }
                    }
                }
                let got = f.prob(&pv, &sv);
                ensure!(got == want, "{}: the probability in exact field arithmetic is {:?}, expected {:?}", name, got, want);
                c.count("probabilities_compared");
            } else {
                let got = f.bmeas(&pv, &sv);
                let keys: BTreeSet<&String> = got.keys().collect();
                ensure!(keys == deps.iter().map(|&i| &names[i]).collect(), "{}: importances are reported for {:?}", name, keys);
                for &i in &deps {
                    let mut s = vec![Zp(0); rad0[i]];
                    for x in 0..rad0[0] {
                        for y in 0..g {
                            for z in 0..rad0[2] {
                                if hits(x, y, z) {
                                    let q = match i {
                                        0 => p[1][y] * p[2][z],
                                        1 => p[0][x] * p[2][z],
                                        _ => p[0][x] * p[1][y],
                                    };
                                    let k = [x, y, z][i];
                                    s[k] = s[k] + q;
                                }
                            }
                        }
                    }
                    let want: Vec<Zp> = (1..rad0[i]).map(|j| s[j] - s[j - 1]).collect();
                    let have = &got[&names[i]];
                    ensure!(have.len() == want.len(), "{}: {} differences for {}", name, have.len(), names[i]);
                    if let Some(j) = (0..want.len()).find(|&j| want[j] != have[j]) {
                        return Err(format!("{}: the importance of {} between states {} and {} is {:?}, expected {:?}", name, names[i], j, j + 1, have[j], want[j]));
                    }
                    c.count("importances_compared");
                }
            }
        }
        Giant::Minimal => {
            let one: HashSet<V> = [V::of(1)].into_iter().collect();
            let zero: HashSet<V> = [V::of(0)].into_iter().collect();
            let top = [rad0[0] - 1, g - 1, rad0[2] - 1];
            let (pw, qw): (Vecs, Vecs) = if shape == 0 {
                ([vec![0, t, 0]].into_iter().collect(), [vec![top[0], t - 1, top[2]]].into_iter().collect())
            } else {
                (
                    [vec![1, t, 1]].into_iter().collect(),
                    [vec![top[0], t - 1, top[2]], vec![0, top[1], top[2]], vec![top[0], top[1], 0]].into_iter().collect(),
                )
            };
            let p = m.minpath(&f).ok_or("a threshold was refused by minpath")?;
            let q = m.mincut(&f).ok_or("a threshold was refused by mincut")?;
            for (fam, set, want, w) in [(&p, &one, &pw, "minimal vectors"), (&q, &zero, &qw, "maximal vectors")] {
                let got: Vecs = fam.extract(set).map(|r| names.iter().map(|s| r.get(s).cloned().unwrap_or(usize::MAX)).collect()).collect();
                ensure!(got == *want && fam.count(set) == want.len() as u64, "{}: {} are {:?}, expected {:?}, counted {}", name, w, got, want, fam.count(set));
            }
            // flipping one state spoils it
            let h = f.xor(&w.eq(&cst(if t > 1000 { 77 } else { g - 77 })));
            ensure!(m.minpath(&h).is_none() && m.mincut(&h).is_none(), "{}: a non-monotone variant was given extreme vectors", name);
            c.count("strata_compared");
        }
        Giant::Count => {
            let top = deps.iter().map(|&i| lev[i]).max().unwrap_or(0);
            let open: u64 = ord[top + 1..].iter().map(|&i| rad0[i] as u64).product();
            let want: u64 = vals.iter().filter(|(k, _)| lab.contains(k)).map(|(_, n)| *n).sum::<u64>() / open;
            let got = f.mdd_count(&ss);
            ensure!(got == want, "{}: {} of the {} vectors have the selected values, mdd_count says {}", name, want, space, got);
            let few: HashSet<V> = ss.iter().take(1).cloned().collect();
            let one = few.iter().next().map(|k| k.to()).unwrap_or(0);
            let want = vals.get(&one).cloned().unwrap_or(0) / open;
            let it = f.mdd_extract(&few);
            let mut seen = HashSet::new();
            for r in it {
                let full: Vec<usize> = names.iter().map(|s| r.get(s).cloned().unwrap_or(0)).collect();
                ensure!(r.len() == top + 1, "{}: an enumerated vector lists {} components of {}", name, r.len(), top + 1);
                ensure!(model(full[0], full[1], full[2]) == one, "{}: the enumerated vector {:?} does not have value {}", name, r, one);
                ensure!(seen.insert(full), "{}: a vector is enumerated twice", name);
            }
            ensure!(seen.len() as u64 == want, "{}: {} vectors with value {} were enumerated, there are {}", name, seen.len(), one, want);
            c.count("enumerations_compared");
        }
        Giant::Navigate => {
            let ks = w.get_children().ok_or("a variable without children")?;
            ensure!(ks.len() == g, "{} children for a {}-state variable", ks.len(), g);
            for i in [0usize, 1, 255, 256, 65535, 65536, g - 1] {
                ensure!(ks[i].value() == Some(V::of(i as i64)), "child {} of a variable is {:?}", i, ks[i].value().map(|v| v.to()));
            }
            ensure!(m.get_varorder() == ord.iter().map(|&i| (names[i].clone(), rad0[i])).collect::<Vec<_>>(), "get_varorder is {:?}", m.get_varorder());
            let again = m.defvar("w", g);
            ensure!(again.get_node() == w.get_node(), "declaring a variable again gave another node");
            ensure!(w.size() == (1, g as u64, g as u64), "size of a {}-state variable is {:?}", g, w.size());
            c.count("multi_state_nodes_navigated");
        }
    }
    c.seen(&(shape, t, &rad0, &ord));
    c.count("variables_with_over_65536_states");
    Ok(())
}
