//! Uniform view of the six forests (through their public API only) and the generic
//! observers built on it: evaluation by navigation, reachability, structural snapshots.
use crate::ensure;
use crate::rt::Rng;
use bddcore::prelude as b;
use bddcore::prelude::{BddManager, ZddManager};
use common::prelude::*;
use mddcore::prelude as m;
use mddcore::prelude::{MddManager, MddValue, MtMdd2Manager, MtMddManager, ZmddManager};
use std::collections::{HashMap, HashSet};

/// "undetermined" / "not a member"
pub const U: i64 = i64::MIN;
/// Nothing is claimed about the value.
pub const ANY: i64 = i64::MIN + 1;
/// Undetermined or 0, undetermined or 1.
pub const OR0: i64 = i64::MIN + 2;
pub const OR1: i64 = i64::MIN + 3;
/// Is `got` what `want` allows?
pub fn fits(got: i64, want: i64) -> bool {
    got == want || want == ANY || got == U && (want == OR0 || want == OR1) || got == 0 && want == OR0 || got == 1 && want == OR1
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Nd {
    /// 0 = boolean (or the only) kind, 1 = value kind
    pub t: u8,
    pub id: usize,
}
pub fn b0(id: usize) -> Nd {
    Nd { t: 0, id }
}
pub fn v1(id: usize) -> Nd {
    Nd { t: 1, id }
}

pub enum Look {
    Leaf(i64),
    /// header id of a non-terminal
    Node(usize),
}

pub struct Op {
    pub name: &'static str,
    pub args: &'static [u8],
    pub out: u8,
    /// the pointwise model is also claimed where operands are undetermined
    pub undet: bool,
}
const fn op(name: &'static str, args: &'static [u8], out: u8, undet: bool) -> Op {
    Op { name, args, out, undet }
}

/// Variables (radix, level) and the points at which functions are observed.
#[derive(Clone)]
pub struct Dom {
    pub rad: Vec<usize>,
    pub lev: Vec<usize>,
    pub pts: Vec<Vec<u16>>,
    pub full: bool,
}
impl Dom {
    pub fn n(&self) -> usize {
        self.rad.len()
    }
    pub fn size(rad: &[usize]) -> usize {
        rad.iter().fold(1usize, |a, &r| a.saturating_mul(r))
    }
    pub fn new(rng: &mut Rng, rad: Vec<usize>, maxpts: usize, gaps: bool) -> Dom {
        let n = rad.len();
        // distinct levels in random order, possibly with gaps
        let mut lev: Vec<usize> = Vec::new();
        let mut l = 0;
        let huge = gaps && rng.chance(1, 12);
        for _ in 0..n {
            if huge && rng.chance(1, 3) {
                // levels that agree in their low bits
                l += *rng.pick(&[255usize, 256, 65_535, 65_536, (1 << 31) - 1, (1 << 32) - 1, 1 << 32]);
            } else if gaps && rng.chance(1, 3) {
                l += 1 + rng.below(5);
            }
            lev.push(l);
            l += 1;
        }
        rng.shuffle(&mut lev);
        let total = Dom::size(&rad);
        let full = total <= maxpts;
        let mut pts = Vec::new();
        if full {
            for mut k in 0..total {
                let mut p = Vec::with_capacity(n);
                for &r in &rad {
                    p.push((k % r) as u16);
                    k /= r;
                }
                pts.push(p);
            }
        } else {
            for i in 0..maxpts {
                let p = rad
                    .iter()
                    .map(|&r| match i {
                        0 => 0,
                        1 => r - 1,
                        _ => rng.below(r),
                    } as u16)
                    .collect();
                pts.push(p);
            }
        }
        Dom { rad, lev, pts, full }
    }
    /// Random domain; `bin` = all radices two.
    pub fn random(rng: &mut Rng, bin: bool, big: bool) -> Dom {
        let gaps = rng.chance(1, 2);
        if big {
            let n = 8 + rng.below(if bin { 17 } else { 8 });
            let rad = (0..n).map(|_| if bin { 2 } else { 2 + rng.below(4) }).collect();
            return Dom::new(rng, rad, 160, gaps);
        }
        if !bin && rng.chance(1, 80) {
            // more states than a byte holds
            let mut rad = vec![257 + rng.below(20)];
            if rng.chance(1, 2) {
                rad.push(2);
                rng.shuffle(&mut rad);
            }
            return Dom::new(rng, rad, 600, gaps);
        }
        let mut rad = Vec::new();
        let want = 1 + rng.below(if bin { 7 } else { 5 });
        while rad.len() < want {
            let r = if bin {
                2
            } else if rng.chance(1, 24) {
                *rng.pick(&[1usize, 9, 17, 40])
            } else {
                2 + rng.below(4)
            };
            if Dom::size(&rad) * r > 240 {
                break;
            }
            rad.push(r);
        }
        if rad.is_empty() {
            rad.push(2);
        }
        Dom::new(rng, rad, 256, gaps)
    }
}

pub trait Forest: Sized {
    const NAME: &'static str;
    const ZS: bool;
    const BIN: bool;
    const OPS: &'static [Op];
    const KINDS: &'static [u8];
    /// terminals that exist from the start and are never reclaimed, per sub-forest
    const FIXED: &'static [usize];
    fn build(dom: &Dom, order: &[usize]) -> Self;
    fn leaf(&mut self, kind: u8, code: i64) -> Nd;
    fn look(&self, n: Nd) -> Look;
    fn kid(&self, n: Nd, i: usize) -> Nd;
    fn nkids(&self, n: Nd) -> usize;
    fn var_of(&self, hid: usize) -> usize;
    fn level_of(&self, n: Nd) -> Option<usize>;
    fn mk(&mut self, var: usize, kids: &[Nd]) -> Nd;
    fn apply(&mut self, op: usize, a: &[Nd]) -> Nd;
    /// What the operation gives at a point where an operand it looks at is undetermined and
    /// `model` says nothing; `ANY` where nothing is claimed.
    fn undet(_op: usize, _a: &[i64]) -> i64 {
        ANY
    }
    /// pointwise meaning (not used for the zero-suppressed forests)
    fn model(op: usize, a: &[i64]) -> Option<i64>;
    fn gc(&mut self, roots: &[Nd]) -> usize;
    /// per sub-forest (slots allocated, live slots)
    fn caps(&self) -> Vec<(usize, usize)>;
    fn live(&self) -> usize;
    fn clear(&mut self);
    fn memo_len(&self) -> usize;
    fn dot(&self, n: Nd) -> String;
    /// leaf codes a random function of this kind may use
    fn rand_leaf(rng: &mut Rng, kind: u8) -> i64;
    fn absent() -> i64 {
        0
    }
    /// codes are limited so that the value type cannot overflow
    fn limit() -> i64 {
        i64::MAX
    }
}

fn lvl<M: DDForest>(mm: &M, id: usize) -> Option<usize> {
    mm.level(&id)
}

// ------------------------------------------------------------------ BDD
pub struct FBdd {
    pub m: BddManager,
    pub hid: Vec<usize>,
    pub var: Vec<usize>,
}
fn bmodel(name: usize, a: &[i64]) -> Option<i64> {
    let x = a[0] != 0;
    let y = a.len() > 1 && a[1] != 0;
    let z = a.len() > 2 && a[2] != 0;
    Some(match name {
        0 => !x,
        1 => x && y,
        2 => x || y,
        3 => x != y,
        4 => !x || y,
        5 => !(x && y),
        6 => !(x || y),
        7 => x == y,
        _ => {
            if x {
                y
            } else {
                z
            }
        }
    } as i64)
}
/// A connective with an undetermined operand is undetermined or has the value that the
/// determined operands settle; exclusive-or (and its negation) of two undetermined operands
/// may cancel either way, and
/// selection looks at the condition and the chosen branch.
fn unsettled(name: usize, a: &[i64]) -> i64 {
    let any = |v: i64| a[0] == v || a[1] == v;
    let both = a.len() > 1 && a[0] == a[1];
    match name {
        1 if any(0) => OR0,
        5 if any(0) => OR1,
        2 if any(1) => OR1,
        6 if any(1) => OR0,
        4 if a[0] == 0 || a[1] == 1 => OR1,
        3 | 7 if both => ANY,
        8 if a[0] != U => a[if a[0] != 0 { 1 } else { 2 }],
        8 if a[1] == a[2] => [OR0, OR1, ANY][if a[1] == 0 { 0 } else if a[1] == 1 { 1 } else { 2 }],
        _ => U,
    }
}
impl Forest for FBdd {
    fn undet(o: usize, a: &[i64]) -> i64 {
        unsettled(o, a)
    }
    const NAME: &'static str = "bdd";
    const ZS: bool = false;
    const BIN: bool = true;
    const KINDS: &'static [u8] = &[0];
    const FIXED: &'static [usize] = &[3];
    const OPS: &'static [Op] = &[
        op("not", &[0], 0, false),
        op("and", &[0, 0], 0, false),
        op("or", &[0, 0], 0, false),
        op("xor", &[0, 0], 0, false),
        op("imp", &[0, 0], 0, false),
        op("nand", &[0, 0], 0, false),
        op("nor", &[0, 0], 0, false),
        op("xnor", &[0, 0], 0, false),
        op("ite", &[0, 0, 0], 0, false),
    ];
    fn build(dom: &Dom, order: &[usize]) -> Self {
        let mut m = BddManager::new();
        let mut hid = vec![0; dom.n()];
        let mut var = vec![0; dom.n()];
        for &v in order {
            let h = m.create_header(dom.lev[v], &format!("v{}", v));
            hid[v] = h;
            var[h] = v;
        }
        FBdd { m, hid, var }
    }
    fn leaf(&mut self, _k: u8, c: i64) -> Nd {
        b0(match c {
            0 => self.m.zero(),
            U => self.m.undet(),
            _ => self.m.one(),
        })
    }
    fn look(&self, n: Nd) -> Look {
        match self.m.get_node(&n.id).unwrap() {
            b::Node::Zero => Look::Leaf(0),
            b::Node::One => Look::Leaf(1),
            b::Node::Undet => Look::Leaf(U),
            b::Node::NonTerminal(f) => Look::Node(f.headerid()),
        }
    }
    fn kid(&self, n: Nd, i: usize) -> Nd {
        match self.m.get_node(&n.id).unwrap() {
            b::Node::NonTerminal(f) => b0(f.edge(i)),
            _ => unreachable!(),
        }
    }
    fn nkids(&self, _n: Nd) -> usize {
        2
    }
    fn var_of(&self, hid: usize) -> usize {
        self.var[hid]
    }
    fn level_of(&self, n: Nd) -> Option<usize> {
        lvl(&self.m, n.id)
    }
    fn mk(&mut self, var: usize, k: &[Nd]) -> Nd {
        b0(self.m.create_node(self.hid[var], k[0].id, k[1].id))
    }
    fn apply(&mut self, o: usize, a: &[Nd]) -> Nd {
        let m = &mut self.m;
        b0(match o {
            0 => m.not(a[0].id),
            1 => m.and(a[0].id, a[1].id),
            2 => m.or(a[0].id, a[1].id),
            3 => m.xor(a[0].id, a[1].id),
            4 => m.imp(a[0].id, a[1].id),
            5 => m.nand(a[0].id, a[1].id),
            6 => m.nor(a[0].id, a[1].id),
            7 => m.xnor(a[0].id, a[1].id),
            _ => m.ite(a[0].id, a[1].id, a[2].id),
        })
    }
    fn model(o: usize, a: &[i64]) -> Option<i64> {
        bmodel(o, a)
    }
    fn gc(&mut self, r: &[Nd]) -> usize {
        let v: Vec<usize> = r.iter().map(|x| x.id).collect();
        self.m.gc(&v)
    }
    fn caps(&self) -> Vec<(usize, usize)> {
        vec![(self.m.size().1, self.m.live_node_count())]
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn memo_len(&self) -> usize {
        self.m.size().2
    }
    fn dot(&self, n: Nd) -> String {
        self.m.dot_string(&n.id)
    }
    fn rand_leaf(rng: &mut Rng, _k: u8) -> i64 {
        if rng.chance(1, 30) {
            return U;
        }
        rng.below(2) as i64
    }
}

// ------------------------------------------------------------------ ZDD
pub struct FZdd {
    pub m: ZddManager,
    pub hid: Vec<usize>,
    pub var: Vec<usize>,
}
impl Forest for FZdd {
    const NAME: &'static str = "zdd";
    const ZS: bool = true;
    const BIN: bool = true;
    const KINDS: &'static [u8] = &[0];
    const FIXED: &'static [usize] = &[3];
    const OPS: &'static [Op] = &[
        op("union", &[0, 0], 0, false),
        op("intersect", &[0, 0], 0, false),
        op("setdiff", &[0, 0], 0, false),
        op("product", &[0, 0], 0, false),
        op("divide", &[0, 0], 0, false),
    ];
    fn build(dom: &Dom, order: &[usize]) -> Self {
        let mut m = ZddManager::new();
        let mut hid = vec![0; dom.n()];
        let mut var = vec![0; dom.n()];
        for &v in order {
            let h = m.create_header(dom.lev[v], &format!("v{}", v));
            hid[v] = h;
            var[h] = v;
        }
        FZdd { m, hid, var }
    }
    fn leaf(&mut self, _k: u8, c: i64) -> Nd {
        b0(if c == 0 { self.m.zero() } else { self.m.one() })
    }
    fn look(&self, n: Nd) -> Look {
        match self.m.get_node(&n.id).unwrap() {
            b::Node::Zero => Look::Leaf(0),
            b::Node::One => Look::Leaf(1),
            b::Node::Undet => Look::Leaf(U),
            b::Node::NonTerminal(f) => Look::Node(f.headerid()),
        }
    }
    fn kid(&self, n: Nd, i: usize) -> Nd {
        match self.m.get_node(&n.id).unwrap() {
            b::Node::NonTerminal(f) => b0(f.edge(i)),
            _ => unreachable!(),
        }
    }
    fn nkids(&self, _n: Nd) -> usize {
        2
    }
    fn var_of(&self, hid: usize) -> usize {
        self.var[hid]
    }
    fn level_of(&self, n: Nd) -> Option<usize> {
        lvl(&self.m, n.id)
    }
    fn mk(&mut self, var: usize, k: &[Nd]) -> Nd {
        b0(self.m.create_node(self.hid[var], k[0].id, k[1].id))
    }
    fn apply(&mut self, o: usize, a: &[Nd]) -> Nd {
        let m = &mut self.m;
        let (x, y) = (a[0].id, a[1].id);
        b0(match o {
            0 => m.union(x, y),
            1 => m.intersect(x, y),
            2 => m.setdiff(x, y),
            3 => m.product(x, y),
            _ => m.divide(x, y),
        })
    }
    fn model(_o: usize, _a: &[i64]) -> Option<i64> {
        None
    }
    fn gc(&mut self, r: &[Nd]) -> usize {
        let v: Vec<usize> = r.iter().map(|x| x.id).collect();
        self.m.gc(&v)
    }
    fn caps(&self) -> Vec<(usize, usize)> {
        vec![(self.m.size().1, self.m.live_node_count())]
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn memo_len(&self) -> usize {
        self.m.size().2
    }
    fn dot(&self, n: Nd) -> String {
        self.m.dot_string(&n.id)
    }
    fn rand_leaf(rng: &mut Rng, _k: u8) -> i64 {
        rng.below(2) as i64
    }
}

// ------------------------------------------------------------------ MDD
pub struct FMdd {
    pub m: MddManager,
    pub hid: Vec<usize>,
    pub var: Vec<usize>,
}
fn look_mdd(mm: &MddManager, id: usize) -> Look {
    match mm.get_node(&id).unwrap() {
        m::mdd::Node::Zero => Look::Leaf(0),
        m::mdd::Node::One => Look::Leaf(1),
        m::mdd::Node::Undet => Look::Leaf(U),
        m::mdd::Node::NonTerminal(f) => Look::Node(f.headerid()),
    }
}
fn kid_mdd(mm: &MddManager, id: usize, i: usize) -> usize {
    match mm.get_node(&id).unwrap() {
        m::mdd::Node::NonTerminal(f) => f.edge(i),
        _ => unreachable!(),
    }
}
fn nk_mdd(mm: &MddManager, id: usize) -> usize {
    match mm.get_node(&id).unwrap() {
        m::mdd::Node::NonTerminal(f) => f.iter().count(),
        _ => 0,
    }
}
impl Forest for FMdd {
    fn undet(o: usize, a: &[i64]) -> i64 {
        unsettled(o, a)
    }
    const NAME: &'static str = "mdd";
    const ZS: bool = false;
    const BIN: bool = false;
    const KINDS: &'static [u8] = &[0];
    const FIXED: &'static [usize] = &[3];
    const OPS: &'static [Op] = &[
        op("not", &[0], 0, false),
        op("and", &[0, 0], 0, false),
        op("or", &[0, 0], 0, false),
        op("xor", &[0, 0], 0, false),
        op("imp", &[0, 0], 0, false),
        op("nand", &[0, 0], 0, false),
        op("nor", &[0, 0], 0, false),
        op("xnor", &[0, 0], 0, false),
        op("ite", &[0, 0, 0], 0, false),
        op("replace", &[0, 0], 0, true),
    ];
    fn build(dom: &Dom, order: &[usize]) -> Self {
        let mut m = MddManager::new();
        let mut hid = vec![0; dom.n()];
        let mut var = vec![0; dom.n()];
        for &v in order {
            let h = m.create_header(dom.lev[v], &format!("v{}", v), dom.rad[v]);
            hid[v] = h;
            var[h] = v;
        }
        FMdd { m, hid, var }
    }
    fn leaf(&mut self, _k: u8, c: i64) -> Nd {
        b0(match c {
            0 => self.m.zero(),
            U => self.m.undet(),
            _ => self.m.one(),
        })
    }
    fn look(&self, n: Nd) -> Look {
        look_mdd(&self.m, n.id)
    }
    fn kid(&self, n: Nd, i: usize) -> Nd {
        b0(kid_mdd(&self.m, n.id, i))
    }
    fn nkids(&self, n: Nd) -> usize {
        nk_mdd(&self.m, n.id)
    }
    fn var_of(&self, hid: usize) -> usize {
        self.var[hid]
    }
    fn level_of(&self, n: Nd) -> Option<usize> {
        lvl(&self.m, n.id)
    }
    fn mk(&mut self, var: usize, k: &[Nd]) -> Nd {
        let v: Vec<usize> = k.iter().map(|x| x.id).collect();
        b0(self.m.create_node(self.hid[var], &v))
    }
    fn apply(&mut self, o: usize, a: &[Nd]) -> Nd {
        let m = &mut self.m;
        b0(match o {
            0 => m.not(a[0].id),
            1 => m.and(a[0].id, a[1].id),
            2 => m.or(a[0].id, a[1].id),
            3 => m.xor(a[0].id, a[1].id),
            4 => m.imp(a[0].id, a[1].id),
            5 => m.nand(a[0].id, a[1].id),
            6 => m.nor(a[0].id, a[1].id),
            7 => m.xnor(a[0].id, a[1].id),
            8 => m.ite(a[0].id, a[1].id, a[2].id),
            _ => m.replace(a[0].id, a[1].id),
        })
    }
    fn model(o: usize, a: &[i64]) -> Option<i64> {
        if o == 9 {
            return Some(if a[0] == U { a[1] } else { a[0] });
        }
        bmodel(o, a)
    }
    fn gc(&mut self, r: &[Nd]) -> usize {
        let v: Vec<usize> = r.iter().map(|x| x.id).collect();
        self.m.gc(&v)
    }
    fn caps(&self) -> Vec<(usize, usize)> {
        vec![(self.m.size().1, self.m.live_node_count())]
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn memo_len(&self) -> usize {
        self.m.size().2
    }
    fn dot(&self, n: Nd) -> String {
        self.m.dot_string(&n.id)
    }
    fn rand_leaf(rng: &mut Rng, _k: u8) -> i64 {
        if rng.chance(1, 12) {
            return U;
        }
        rng.below(2) as i64
    }
}

// ------------------------------------------------------------------ MTMDD
pub trait Val: MddValue {
    const LIM: i64;
    fn of(x: i64) -> Self;
    fn to(self) -> i64;
}
impl Val for i32 {
    const LIM: i64 = i32::MAX as i64;
    fn of(x: i64) -> Self {
        x as i32
    }
    fn to(self) -> i64 {
        self as i64
    }
}
impl Val for i64 {
    const LIM: i64 = 1 << 61;
    fn of(x: i64) -> Self {
        x
    }
    fn to(self) -> i64 {
        self
    }
}
pub fn arith(o: usize, x: i64, y: i64, lim: i64) -> Option<i64> {
    if o == 7 {
        return Some(if x == U { y } else { x });
    }
    if x == U || y == U {
        return Some(U);
    }
    let r = match o {
        0 => x.checked_add(y)?,
        1 => x.checked_sub(y)?,
        2 => x.checked_mul(y)?,
        3 => {
            if y == 0 {
                return Some(U);
            }
            x.checked_div(y)?
        }
        4 => {
            if y == 0 {
                return Some(U);
            }
            x.checked_rem(y)?
        }
        5 => x.min(y),
        _ => x.max(y),
    };
    if r > lim || r < -lim {
        None
    } else {
        Some(r)
    }
}
pub fn rand_value(rng: &mut Rng, lim: i64) -> i64 {
    match rng.below(40) {
        0 => U,
        1 => lim,
        2 => -lim,
        3 => rng.range(-1000, 1000),
        4 => rng.range(-lim / 4, lim / 4),
        _ => rng.range(-3, 5),
    }
}
fn look_mt<V: Val>(mm: &MtMddManager<V>, id: usize) -> Look {
    match mm.get_node(&id).unwrap() {
        m::mtmdd::Node::Terminal(t) => Look::Leaf(t.value().to()),
        m::mtmdd::Node::Undet => Look::Leaf(U),
        m::mtmdd::Node::NonTerminal(f) => Look::Node(f.headerid()),
    }
}
fn kid_mt<V: Val>(mm: &MtMddManager<V>, id: usize, i: usize) -> usize {
    match mm.get_node(&id).unwrap() {
        m::mtmdd::Node::NonTerminal(f) => f.edge(i),
        _ => unreachable!(),
    }
}
fn nk_mt<V: Val>(mm: &MtMddManager<V>, id: usize) -> usize {
    match mm.get_node(&id).unwrap() {
        m::mtmdd::Node::NonTerminal(f) => f.iter().count(),
        _ => 0,
    }
}
pub struct FMt<V> {
    pub m: MtMddManager<V>,
    pub hid: Vec<usize>,
    pub var: Vec<usize>,
}
impl<V: Val> Forest for FMt<V> {
    const NAME: &'static str = "mtmdd";
    const ZS: bool = false;
    const BIN: bool = false;
    const KINDS: &'static [u8] = &[1];
    const FIXED: &'static [usize] = &[1];
    const OPS: &'static [Op] = &[
        op("add", &[1, 1], 1, true),
        op("sub", &[1, 1], 1, true),
        op("mul", &[1, 1], 1, true),
        op("div", &[1, 1], 1, true),
        op("rem", &[1, 1], 1, true),
        op("min", &[1, 1], 1, true),
        op("max", &[1, 1], 1, true),
        op("replace", &[1, 1], 1, true),
    ];
    fn build(dom: &Dom, order: &[usize]) -> Self {
        let mut m = MtMddManager::<V>::new();
        let mut hid = vec![0; dom.n()];
        let mut var = vec![0; dom.n()];
        for &v in order {
            let h = m.create_header(dom.lev[v], &format!("v{}", v), dom.rad[v]);
            hid[v] = h;
            var[h] = v;
        }
        FMt { m, hid, var }
    }
    fn leaf(&mut self, _k: u8, c: i64) -> Nd {
        v1(if c == U { self.m.undet() } else { self.m.value(V::of(c)) })
    }
    fn look(&self, n: Nd) -> Look {
        look_mt(&self.m, n.id)
    }
    fn kid(&self, n: Nd, i: usize) -> Nd {
        v1(kid_mt(&self.m, n.id, i))
    }
    fn nkids(&self, n: Nd) -> usize {
        nk_mt(&self.m, n.id)
    }
    fn var_of(&self, hid: usize) -> usize {
        self.var[hid]
    }
    fn level_of(&self, n: Nd) -> Option<usize> {
        lvl(&self.m, n.id)
    }
    fn mk(&mut self, var: usize, k: &[Nd]) -> Nd {
        let v: Vec<usize> = k.iter().map(|x| x.id).collect();
        v1(self.m.create_node(self.hid[var], &v))
    }
    fn apply(&mut self, o: usize, a: &[Nd]) -> Nd {
        let m = &mut self.m;
        let (x, y) = (a[0].id, a[1].id);
        v1(match o {
            0 => m.add(x, y),
            1 => m.sub(x, y),
            2 => m.mul(x, y),
            3 => m.div(x, y),
            4 => m.rem(x, y),
            5 => m.min(x, y),
            6 => m.max(x, y),
            _ => m.replace(x, y),
        })
    }
    fn model(o: usize, a: &[i64]) -> Option<i64> {
        arith(o, a[0], a[1], V::LIM)
    }
    fn gc(&mut self, r: &[Nd]) -> usize {
        let v: Vec<usize> = r.iter().map(|x| x.id).collect();
        self.m.gc(&v)
    }
    fn caps(&self) -> Vec<(usize, usize)> {
        vec![(self.m.size().1, self.m.live_node_count())]
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn memo_len(&self) -> usize {
        self.m.size().3
    }
    fn dot(&self, n: Nd) -> String {
        self.m.dot_string(&n.id)
    }
    fn rand_leaf(rng: &mut Rng, _k: u8) -> i64 {
        rand_value(rng, V::LIM)
    }
    fn absent() -> i64 {
        U
    }
    fn limit() -> i64 {
        V::LIM
    }
}

// ------------------------------------------------------------------ MTMDD2
pub struct FMt2<V> {
    pub m: MtMdd2Manager<V>,
    pub hid: Vec<usize>,
    pub var: Vec<usize>,
}
fn tn(n: Nd) -> m::Node {
    if n.t == 1 {
        m::Node::Value(n.id)
    } else {
        m::Node::Bool(n.id)
    }
}
fn fnn(n: m::Node) -> Nd {
    match n {
        m::Node::Value(x) => v1(x),
        m::Node::Bool(x) => b0(x),
    }
}
impl<V: Val> Forest for FMt2<V> {
    fn undet(o: usize, a: &[i64]) -> i64 {
        match o {
            0 => unsettled(1, a),
            1 => unsettled(2, a),
            2 | 17 => unsettled(3, a),
            3 => unsettled(0, a),
            16 => unsettled(7, a),
            // neither equal nor less
            13 => 0,
            18 | 19 => unsettled(8, a),
            20 => U,
            _ => ANY,
        }
    }
    const NAME: &'static str = "mtmdd2";
    const ZS: bool = false;
    const BIN: bool = false;
    const KINDS: &'static [u8] = &[0, 1];
    const FIXED: &'static [usize] = &[1, 3];
    const OPS: &'static [Op] = &[
        op("and", &[0, 0], 0, false),
        op("or", &[0, 0], 0, false),
        op("xor", &[0, 0], 0, false),
        op("not", &[0], 0, false),
        op("add", &[1, 1], 1, true),
        op("sub", &[1, 1], 1, true),
        op("mul", &[1, 1], 1, true),
        op("div", &[1, 1], 1, true),
        op("min", &[1, 1], 1, true),
        op("max", &[1, 1], 1, true),
        op("eq", &[1, 1], 0, true),
        op("neq", &[1, 1], 0, false),
        op("lt", &[1, 1], 0, true),
        op("lte", &[1, 1], 0, false),
        op("gt", &[1, 1], 0, true),
        op("gte", &[1, 1], 0, false),
        op("beq", &[0, 0], 0, false),
        op("bneq", &[0, 0], 0, false),
        op("ite(b,v,v)", &[0, 1, 1], 1, true),
        op("ite(b,b,b)", &[0, 0, 0], 0, false),
        op("vif", &[0, 1], 1, true),
    ];
    fn build(dom: &Dom, order: &[usize]) -> Self {
        let mut m = MtMdd2Manager::<V>::new();
        let mut hid = vec![0; dom.n()];
        let mut var = vec![0; dom.n()];
        for &v in order {
            let h = m.create_header(dom.lev[v], &format!("v{}", v), dom.rad[v]);
            hid[v] = h;
            var[h] = v;
        }
        FMt2 { m, hid, var }
    }
    fn leaf(&mut self, k: u8, c: i64) -> Nd {
        if k == 1 {
            fnn(if c == U { self.m.undet_value() } else { self.m.value(V::of(c)) })
        } else {
            fnn(match c {
                0 => self.m.zero(),
                U => self.m.undet_boolean(),
                _ => self.m.one(),
            })
        }
    }
    fn look(&self, n: Nd) -> Look {
        if n.t == 1 {
            look_mt(self.m.mtmdd(), n.id)
        } else {
            look_mdd(self.m.mdd(), n.id)
        }
    }
    fn kid(&self, n: Nd, i: usize) -> Nd {
        if n.t == 1 {
            v1(kid_mt(self.m.mtmdd(), n.id, i))
        } else {
            b0(kid_mdd(self.m.mdd(), n.id, i))
        }
    }
    fn nkids(&self, n: Nd) -> usize {
        if n.t == 1 {
            nk_mt(self.m.mtmdd(), n.id)
        } else {
            nk_mdd(self.m.mdd(), n.id)
        }
    }
    fn var_of(&self, hid: usize) -> usize {
        self.var[hid]
    }
    fn level_of(&self, n: Nd) -> Option<usize> {
        if n.t == 1 {
            lvl(self.m.mtmdd(), n.id)
        } else {
            lvl(self.m.mdd(), n.id)
        }
    }
    fn mk(&mut self, var: usize, k: &[Nd]) -> Nd {
        let v: Vec<m::Node> = k.iter().map(|&x| tn(x)).collect();
        fnn(self.m.create_node(self.hid[var], &v))
    }
    fn apply(&mut self, o: usize, a: &[Nd]) -> Nd {
        let m = &mut self.m;
        let x = tn(a[0]);
        if o == 3 {
            return fnn(m.not(x));
        }
        let y = tn(a[1]);
        if o == 20 {
            return v1(m.vif(a[0].id, a[1].id));
        }
        fnn(match o {
            0 => m.and(x, y),
            1 => m.or(x, y),
            2 => m.xor(x, y),
            4 => m.add(x, y),
            5 => m.sub(x, y),
            6 => m.mul(x, y),
            7 => m.div(x, y),
            8 => m.min(x, y),
            9 => m.max(x, y),
            10 | 16 => m.eq(x, y),
            11 | 17 => m.neq(x, y),
            12 => m.lt(x, y),
            13 => m.lte(x, y),
            14 => m.gt(x, y),
            15 => m.gte(x, y),
            _ => m.ite(x, y, tn(a[2])),
        })
    }
    fn model(o: usize, a: &[i64]) -> Option<i64> {
        let bb = |x: bool| Some(x as i64);
        match o {
            0 => bmodel(1, a),
            1 => bmodel(2, a),
            2 => bmodel(3, a),
            3 => bmodel(0, a),
            4 => arith(0, a[0], a[1], V::LIM),
            5 => arith(1, a[0], a[1], V::LIM),
            6 => arith(2, a[0], a[1], V::LIM),
            7 => arith(3, a[0], a[1], V::LIM),
            8 => arith(5, a[0], a[1], V::LIM),
            9 => arith(6, a[0], a[1], V::LIM),
            // an undetermined value compares false
            10 | 12 | 14 if a[0] == U || a[1] == U => bb(false),
            10 | 16 => bb(a[0] == a[1]),
            11 | 17 => bb(a[0] != a[1]),
            12 => bb(a[0] < a[1]),
            13 => bb(a[0] <= a[1]),
            14 => bb(a[0] > a[1]),
            15 => bb(a[0] >= a[1]),
            18 | 19 => Some(if a[0] != 0 { a[1] } else { a[2] }),
            _ => Some(if a[0] != 0 { a[1] } else { U }),
        }
    }
    fn gc(&mut self, r: &[Nd]) -> usize {
        let v: Vec<m::Node> = r.iter().map(|&x| tn(x)).collect();
        let (a, b) = self.m.gc(&v);
        a + b
    }
    fn caps(&self) -> Vec<(usize, usize)> {
        vec![
            (self.m.mtmdd().size().1, self.m.mtmdd().live_node_count()),
            (self.m.mdd().size().1, self.m.mdd().live_node_count()),
        ]
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn memo_len(&self) -> usize {
        self.m.size().3
    }
    fn dot(&self, n: Nd) -> String {
        self.m.dot_string(&tn(n))
    }
    fn rand_leaf(rng: &mut Rng, k: u8) -> i64 {
        if k == 1 {
            rand_value(rng, V::LIM)
        } else if rng.chance(1, 15) {
            U
        } else {
            rng.below(2) as i64
        }
    }
    fn absent() -> i64 {
        U
    }
    fn limit() -> i64 {
        V::LIM
    }
}

// ------------------------------------------------------------------ ZMDD
pub struct FZm<V> {
    pub m: ZmddManager<V>,
    pub hid: Vec<usize>,
    pub var: Vec<usize>,
}
impl<V: Val> Forest for FZm<V> {
    const NAME: &'static str = "zmdd";
    const ZS: bool = true;
    const BIN: bool = false;
    const KINDS: &'static [u8] = &[1];
    const FIXED: &'static [usize] = &[1];
    const OPS: &'static [Op] = &[op("intersect", &[1, 1], 1, true), op("setdiff", &[1, 1], 1, true)];
    fn build(dom: &Dom, order: &[usize]) -> Self {
        let mut m = ZmddManager::<V>::new();
        let mut hid = vec![0; dom.n()];
        let mut var = vec![0; dom.n()];
        for &v in order {
            let h = m.create_header(dom.lev[v], &format!("v{}", v), dom.rad[v]);
            hid[v] = h;
            var[h] = v;
        }
        FZm { m, hid, var }
    }
    fn leaf(&mut self, _k: u8, c: i64) -> Nd {
        v1(if c == U { self.m.undet() } else { self.m.value(V::of(c)) })
    }
    fn look(&self, n: Nd) -> Look {
        match self.m.get_node(&n.id).unwrap() {
            m::mtmdd::Node::Terminal(t) => Look::Leaf(t.value().to()),
            m::mtmdd::Node::Undet => Look::Leaf(U),
            m::mtmdd::Node::NonTerminal(f) => Look::Node(f.headerid()),
        }
    }
    fn kid(&self, n: Nd, i: usize) -> Nd {
        match self.m.get_node(&n.id).unwrap() {
            m::mtmdd::Node::NonTerminal(f) => v1(f.edge(i)),
            _ => unreachable!(),
        }
    }
    fn nkids(&self, n: Nd) -> usize {
        match self.m.get_node(&n.id).unwrap() {
            m::mtmdd::Node::NonTerminal(f) => f.iter().count(),
            _ => 0,
        }
    }
    fn var_of(&self, hid: usize) -> usize {
        self.var[hid]
    }
    fn level_of(&self, n: Nd) -> Option<usize> {
        lvl(&self.m, n.id)
    }
    fn mk(&mut self, var: usize, k: &[Nd]) -> Nd {
        let v: Vec<usize> = k.iter().map(|x| x.id).collect();
        v1(self.m.create_node(self.hid[var], &v))
    }
    fn apply(&mut self, o: usize, a: &[Nd]) -> Nd {
        v1(match o {
            0 => self.m.intersect(a[0].id, a[1].id),
            _ => self.m.setdiff(a[0].id, a[1].id),
        })
    }
    /// Label-wise set operations are pointwise on (vector -> label or absent).
    fn model(o: usize, a: &[i64]) -> Option<i64> {
        Some(match o {
            0 => {
                if a[0] == a[1] {
                    a[0]
                } else {
                    U
                }
            }
            _ => {
                if a[0] == a[1] {
                    U
                } else {
                    a[0]
                }
            }
        })
    }
    fn gc(&mut self, r: &[Nd]) -> usize {
        let v: Vec<usize> = r.iter().map(|x| x.id).collect();
        self.m.gc(&v)
    }
    fn caps(&self) -> Vec<(usize, usize)> {
        vec![(self.m.size().1, self.m.live_node_count())]
    }
    fn live(&self) -> usize {
        self.m.live_node_count()
    }
    fn clear(&mut self) {
        self.m.clear_cache()
    }
    fn memo_len(&self) -> usize {
        self.m.size().3
    }
    fn dot(&self, n: Nd) -> String {
        self.m.dot_string(&n.id)
    }
    fn rand_leaf(rng: &mut Rng, _k: u8) -> i64 {
        match rng.below(6) {
            0..=2 => U,
            3 => *rng.pick(&[-1, 7, V::LIM, -V::LIM]),
            _ => rng.range(0, 2),
        }
    }
    fn absent() -> i64 {
        U
    }
}

// ------------------------------------------------------------------ observers

/// Evaluate by navigation: walk from `n` along the edges selected by the point.
pub fn eval<F: Forest>(f: &F, dom: &Dom, n: Nd, pt: &[u16]) -> Result<i64, String> {
    let mut cur = n;
    let mut seen: u64 = 0;
    for _ in 0..=dom.n() {
        match f.look(cur) {
            Look::Leaf(c) => {
                if F::ZS {
                    for (v, &x) in pt.iter().enumerate() {
                        if x != 0 && seen >> v & 1 == 0 {
                            return Ok(F::absent());
                        }
                    }
                }
                return Ok(c);
            }
            Look::Node(h) => {
                let v = f.var_of(h);
                if F::ZS {
                    seen |= 1 << v;
                }
                cur = f.kid(cur, pt[v] as usize);
            }
        }
    }
    Err(format!("walking down from node {:?} meets more than {} variables: the diagram is not ordered", n, dom.n()))
}

pub fn table<F: Forest>(f: &F, dom: &Dom, n: Nd) -> Result<Vec<i64>, String> {
    dom.pts.iter().map(|p| eval(f, dom, n, p)).collect()
}

/// Every node reachable from `roots` with its header and children.
pub fn reach<F: Forest>(f: &F, roots: &[Nd]) -> HashMap<Nd, Option<(usize, Vec<Nd>)>> {
    let mut out = HashMap::new();
    let mut st: Vec<Nd> = roots.to_vec();
    while let Some(n) = st.pop() {
        if out.contains_key(&n) {
            continue;
        }
        match f.look(n) {
            Look::Leaf(_) => {
                out.insert(n, None);
            }
            Look::Node(h) => {
                let k: Vec<Nd> = (0..f.nkids(n)).map(|i| f.kid(n, i)).collect();
                st.extend(k.iter().copied());
                out.insert(n, Some((h, k)));
            }
        }
    }
    out
}

/// Rebuild a function from its full table with node creation alone (bottom-up, cofactor by
/// cofactor), in the same forest.
pub fn rebuild<F: Forest>(f: &mut F, dom: &Dom, kind: u8, tab: &[i64]) -> Nd {
    // variables from the highest level (root) down
    let mut vs: Vec<usize> = (0..dom.n()).collect();
    vs.sort_by_key(|&v| std::cmp::Reverse(dom.lev[v]));
    let mut stride = vec![1usize; dom.n()];
    for v in 1..dom.n() {
        stride[v] = stride[v - 1] * dom.rad[v - 1];
    }
    fn rec<F: Forest>(f: &mut F, dom: &Dom, kind: u8, tab: &[i64], vs: &[usize], stride: &[usize], base: usize) -> Nd {
        match vs.split_first() {
            None => f.leaf(kind, tab[base]),
            Some((&v, rest)) => {
                let ks: Vec<Nd> = (0..dom.rad[v]).map(|i| rec(f, dom, kind, tab, rest, stride, base + i * stride[v])).collect();
                f.mk(v, &ks)
            }
        }
    }
    rec(f, dom, kind, tab, &vs, &stride, 0)
}

/// Copy a diagram into another forest over the same domain (structural, via node creation).
pub fn copy_into<F: Forest>(src: &F, dst: &mut F, n: Nd, memo: &mut HashMap<Nd, Nd>) -> Nd {
    if let Some(&x) = memo.get(&n) {
        return x;
    }
    let r = match src.look(n) {
        Look::Leaf(c) => dst.leaf(n.t, c),
        Look::Node(h) => {
            let v = src.var_of(h);
            let ks: Vec<Nd> = (0..src.nkids(n)).map(|i| copy_into(src, dst, src.kid(n, i), memo)).collect();
            dst.mk(v, &ks)
        }
    };
    memo.insert(n, r);
    r
}

/// Structural rules of a reduced ordered diagram, over everything reachable from `roots`.
pub fn check_shape<F: Forest>(f: &F, dom: &Dom, roots: &[Nd]) -> Result<usize, String> {
    let r = reach(f, roots);
    let mut uniq: HashMap<(u8, usize, Vec<Nd>), Nd> = HashMap::new();
    let mut leaves: HashMap<(u8, i64), Nd> = HashMap::new();
    let mut ns: Vec<_> = r.iter().collect();
    ns.sort();
    for (n, e) in ns {
        match e {
            None => {
                if let Look::Leaf(c) = f.look(*n) {
                    if let Some(o) = leaves.insert((n.t, c), *n) {
                        return Err(format!("two terminals for the value {}: {:?} and {:?}", c, o, n));
                    }
                }
            }
            Some((h, k)) => {
                let v = f.var_of(*h);
                ensure!(k.len() == dom.rad[v], "node {:?} of a {}-state variable has {} edges", n, dom.rad[v], k.len());
                let l = f.level_of(*n);
                ensure!(l == Some(dom.lev[v]), "node {:?} reports level {:?}, its variable was declared at {}", n, l, dom.lev[v]);
                for c in k {
                    if let Some(cl) = f.level_of(*c) {
                        ensure!(cl < dom.lev[v], "order broken: node {:?} at level {} has a child {:?} at level {}", n, dom.lev[v], c, cl);
                    }
                    ensure!(c.t == n.t, "child of another kind");
                }
                if F::ZS {
                    let mut emp = true;
                    for c in &k[1..] {
                        emp &= matches!(f.look(*c), Look::Leaf(x) if x == F::absent());
                    }
                    ensure!(!emp, "node {:?} has only empty non-zero edges: not zero-suppressed", n);
                } else {
                    ensure!(k.iter().any(|c| *c != k[0]), "node {:?} is redundant: all edges lead to {:?}", n, k[0]);
                }
                if let Some(o) = uniq.insert((n.t, *h, k.clone()), *n) {
                    return Err(format!("duplicate nodes {:?} and {:?}: same variable, same children {:?}", o, n, k));
                }
            }
        }
    }
    Ok(r.len())
}

pub fn set_of(v: &[Nd]) -> HashSet<Nd> {
    v.iter().copied().collect()
}
