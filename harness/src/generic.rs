//! Monitors that work on any forest: pointwise meaning of operations, canonicity, garbage
//! collection against a collection-free twin, memo transparency against fresh managers.
use crate::engine::*;
use crate::ensure;
use crate::rt::*;
use std::collections::{BTreeSet, HashMap, HashSet};

/// Random full table with structure.
pub fn rand_table<F: Forest>(rng: &mut Rng, dom: &Dom, kind: u8) -> Vec<i64> {
    let n = dom.n();
    match rng.below(6) {
        5 => {
            // along each variable the states fall into classes: pairs, blocks, one odd state
            let of: Vec<Vec<u16>> = dom
                .rad
                .iter()
                .map(|&r| {
                    let (period, odd, style) = (1 + rng.below(3), rng.below(r), rng.below(3));
                    (0..r).map(|i| if style == 0 { (i / period) as u16 % 2 } else if style == 1 { (i == odd) as u16 } else { (i / period) as u16 }).collect()
                })
                .collect();
            let mut h: HashMap<Vec<u16>, i64> = HashMap::new();
            let alpha: Vec<i64> = (0..3).map(|_| F::rand_leaf(rng, kind)).collect();
            dom.pts
                .iter()
                .map(|p| {
                    let k: Vec<u16> = p.iter().enumerate().map(|(v, x)| of[v][*x as usize]).collect();
                    *h.entry(k).or_insert_with(|| *rng.pick(&alpha))
                })
                .collect()
        }
        0 => dom.pts.iter().map(|_| F::rand_leaf(rng, kind)).collect(),
        1 => {
            // mostly one value
            let base = F::rand_leaf(rng, kind);
            dom.pts.iter().map(|_| if rng.chance(1, 7) { F::rand_leaf(rng, kind) } else { base }).collect()
        }
        2 => {
            let alpha: Vec<i64> = (0..3).map(|_| F::rand_leaf(rng, kind)).collect();
            dom.pts.iter().map(|_| *rng.pick(&alpha)).collect()
        }
        3 => {
            // depends on some of the variables only
            let keep: Vec<bool> = (0..n).map(|_| rng.chance(1, 2)).collect();
            let mut h: HashMap<Vec<u16>, i64> = HashMap::new();
            dom.pts
                .iter()
                .map(|p| {
                    let k: Vec<u16> = p.iter().zip(&keep).filter(|(_, k)| **k).map(|(x, _)| *x).collect();
                    *h.entry(k).or_insert_with(|| F::rand_leaf(rng, kind))
                })
                .collect()
        }
        _ => {
            // threshold of the state sum: symmetric functions share a lot
            let a = F::rand_leaf(rng, kind);
            let b = F::rand_leaf(rng, kind);
            let mx: u16 = dom.rad.iter().map(|&r| r as u16 - 1).sum();
            let t = rng.below(mx as usize + 2) as u16;
            dom.pts.iter().map(|p| if p.iter().sum::<u16>() >= t { a } else { b }).collect()
        }
    }
}

/// Random diagram made with node creation only; works for any domain size.
pub fn rand_dag<F: Forest>(f: &mut F, rng: &mut Rng, dom: &Dom, kind: u8, nodes: usize, small: bool) -> Nd {
    let mut vs: Vec<usize> = (0..dom.n()).collect();
    vs.sort_by_key(|&v| dom.lev[v]);
    // (node, position of its variable in the order + 1)
    let mut have: Vec<(Nd, usize)> = Vec::new();
    for _ in 0..2 + rng.below(2) {
        let c = if small { small_leaf::<F>(rng, kind) } else { F::rand_leaf(rng, kind) };
        have.push((f.leaf(kind, c), 0));
    }
    if F::ZS {
        have.push((f.leaf(kind, F::absent()), 0));
    }
    let mut last = have[0].0;
    for i in 0..nodes {
        let pos = if i + 1 == nodes { dom.n() - 1 } else { (i * dom.n() / nodes.max(1) + rng.below(2)).min(dom.n() - 1) };
        let v = vs[pos];
        let cand: Vec<Nd> = have.iter().filter(|(_, p)| *p <= pos).map(|(n, _)| *n).collect();
        let ks: Vec<Nd> = (0..dom.rad[v])
            .map(|_| if rng.chance(2, 3) { cand[cand.len() - 1 - rng.below(cand.len().min(4))] } else { *rng.pick(&cand) })
            .collect();
        last = f.mk(v, &ks);
        have.push((last, pos + 1));
    }
    last
}

fn small_leaf<F: Forest>(rng: &mut Rng, kind: u8) -> i64 {
    if kind == 0 {
        return rng.below(2) as i64;
    }
    if F::ZS && rng.chance(1, 3) {
        return U;
    }
    if rng.chance(1, 20) {
        return U;
    }
    rng.range(-2, 3)
}

pub fn rand_fn<F: Forest>(f: &mut F, rng: &mut Rng, dom: &Dom, kind: u8) -> Nd {
    if dom.full && !rng.chance(1, 4) {
        let t = rand_table::<F>(rng, dom, kind);
        rebuild(f, dom, kind, &t)
    } else {
        let n = 1 + rng.below(if dom.full { 10 } else { 28 });
        rand_dag(f, rng, dom, kind, n, !dom.full)
    }
}

/// A literal-like function of one variable.
fn literal<F: Forest>(f: &mut F, rng: &mut Rng, dom: &Dom, kind: u8) -> Nd {
    let v = rng.below(dom.n());
    let ks: Vec<Nd> = (0..dom.rad[v])
        .map(|i| {
            let code = if kind == 0 { (i > 0) as i64 } else { i as i64 };
            f.leaf(kind, code)
        })
        .collect();
    f.mk(v, &ks)
}

/// Largest absolute value and presence of undetermined leaves below `n`.
fn leaves<F: Forest>(f: &F, n: Nd) -> (i64, bool) {
    let mut m = 0i64;
    let mut u = false;
    for (x, e) in reach(f, &[n]) {
        if e.is_none() {
            if let Look::Leaf(c) = f.look(x) {
                if c == U {
                    u = true
                } else {
                    m = m.max(c.abs())
                }
            }
        }
    }
    (m, u)
}

/// May the operation be applied (defined for these operands, no overflow possible)?
pub fn legal<F: Forest>(f: &F, o: usize, args: &[Nd]) -> bool {
    let op = &F::OPS[o];
    if F::NAME == "zdd" {
        return !(op.name == "divide" && matches!(f.look(args[1]), Look::Leaf(0)));
    }
    let l: Vec<(i64, bool)> = args.iter().map(|&a| leaves(f, a)).collect();
    let lim = F::limit();
    match op.name {
        "add" | "sub" => l[0].0.saturating_add(l[1].0) <= lim,
        "mul" => l[0].0.saturating_mul(l[1].0) <= lim,
        _ => true,
    }
}

fn pick_args<F: Forest>(rng: &mut Rng, pool: &[Nd], o: usize) -> Option<Vec<Nd>> {
    let mut out = Vec::new();
    for &k in F::OPS[o].args {
        let c: Vec<Nd> = pool.iter().copied().filter(|n| n.t == k).collect();
        if c.is_empty() {
            return None;
        }
        // favour recent results, sometimes the operand just used
        let n = if !out.is_empty() && rng.chance(1, 10) && out.last().map(|x: &Nd| x.t == k).unwrap_or(false) {
            *out.last().unwrap()
        } else if rng.chance(1, 2) {
            c[c.len() - 1 - rng.below(c.len().min(5))]
        } else {
            *rng.pick(&c)
        };
        out.push(n);
    }
    Some(out)
}

pub fn order(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut o);
    o
}

fn seed_pool<F: Forest>(f: &mut F, rng: &mut Rng, dom: &Dom, k: usize) -> Vec<Nd> {
    let mut pool = Vec::new();
    for &kind in F::KINDS {
        for _ in 0..2 {
            let c = if dom.full { F::rand_leaf(rng, kind) } else { small_leaf::<F>(rng, kind) };
            pool.push(f.leaf(kind, c));
        }
        for _ in 0..2 {
            pool.push(literal(f, rng, dom, kind));
        }
        for _ in 0..k {
            pool.push(rand_fn(f, rng, dom, kind));
        }
    }
    pool
}

// ------------------------------------------------------------- set families (ZDD)
pub type Fam = BTreeSet<u64>;
pub fn fam_of(tab: &[i64]) -> Fam {
    tab.iter().enumerate().filter(|(_, &c)| c == 1).map(|(i, _)| i as u64).collect()
}
/// The five family operations, by definition.
pub fn fam_op(o: usize, f: &Fam, g: &Fam) -> Fam {
    match o {
        0 => f.union(g).copied().collect(),
        1 => f.intersection(g).copied().collect(),
        2 => f.difference(g).copied().collect(),
        3 => f.iter().flat_map(|a| g.iter().map(move |b| a | b)).collect(),
        _ => {
            // q with: for every d in g, q and d are disjoint and q | d is in f
            let d0 = match g.iter().next() {
                Some(d) => *d,
                None => return Fam::new(),
            };
            f.iter()
                .filter(|x| *x & d0 == d0)
                .map(|x| x & !d0)
                .filter(|q| g.iter().all(|d| q & d == 0 && f.contains(&(q | d))))
                .collect()
        }
    }
}
/// Enumerate a ZDD by navigation as sets of variables.
pub fn enumerate<F: Forest>(f: &F, n: Nd, cap: usize) -> Option<Fam> {
    fn rec<F: Forest>(f: &F, n: Nd, cur: u64, out: &mut Fam, cap: usize) -> bool {
        if out.len() > cap {
            return false;
        }
        match f.look(n) {
            Look::Leaf(1) => {
                out.insert(cur);
                true
            }
            Look::Leaf(_) => true,
            Look::Node(h) => {
                let v = f.var_of(h);
                rec(f, f.kid(n, 0), cur, out, cap) && rec(f, f.kid(n, 1), cur | 1 << v, out, cap)
            }
        }
    }
    let mut out = Fam::new();
    if rec(f, n, 0, &mut out, cap) && out.len() <= cap {
        Some(out)
    } else {
        None
    }
}
/// Build a family with node creation only.
pub fn build_fam<F: Forest>(f: &mut F, dom: &Dom, fam: &Fam) -> Nd {
    let mut vs: Vec<usize> = (0..dom.n()).collect();
    vs.sort_by_key(|&v| std::cmp::Reverse(dom.lev[v]));
    fn rec<F: Forest>(f: &mut F, vs: &[usize], sets: &[u64]) -> Nd {
        if sets.is_empty() {
            return f.leaf(0, 0);
        }
        match vs.split_first() {
            None => f.leaf(0, 1),
            Some((&v, rest)) => {
                let (b, a): (Vec<u64>, Vec<u64>) = sets.iter().partition(|s| *s >> v & 1 == 1);
                let lo = rec(f, rest, &a);
                let hi = rec(f, rest, &b);
                f.mk(v, &[lo, hi])
            }
        }
    }
    let s: Vec<u64> = fam.iter().copied().collect();
    rec(f, &vs, &s)
}

fn rand_fam(rng: &mut Rng, n: usize, k: usize, dens: usize) -> Fam {
    (0..k).map(|_| (0..n).filter(|_| rng.chance(dens, 10)).fold(0u64, |a, v| a | 1 << v)).collect()
}

/// Sparse families over many variables: results enumerated by navigation.
pub fn zdd_sparse(c: &mut Case) -> R {
    let n = 8 + c.rng.below(32);
    let gaps = c.rng.chance(1, 2);
    let dom = Dom::new(&mut c.rng, vec![2; n], 4, gaps);
    let ord = order(&mut c.rng, n);
    let mut f = FZdd::build(&dom, &ord);
    let mut pool: Vec<(Nd, Fam)> = Vec::new();
    for _ in 0..5 {
        let (k, d) = (c.rng.below(9), 1 + c.rng.below(6));
        let fam = rand_fam(&mut c.rng, n, k, d);
        let nd = build_fam(&mut f, &dom, &fam);
        pool.push((nd, fam));
    }
    let base = build_fam(&mut f, &dom, &Fam::from([0]));
    pool.push((base, Fam::from([0])));
    let steps = 30;
    for _ in 0..steps {
        let o = c.rng.below(5);
        let (i, mut j) = (c.rng.below(pool.len()), c.rng.below(pool.len()));
        if o == 4 && c.rng.chance(1, 2) {
            // make a dividend that the divisor divides
            let p = fam_op(3, &pool[i].1, &pool[j].1);
            if p.len() > 3000 {
                continue;
            }
            let mut p: Fam = p;
            if c.rng.chance(1, 2) {
                let extra = rand_fam(&mut c.rng, n, 2, 3);
                p.extend(extra);
            }
            let nd = build_fam(&mut f, &dom, &p);
            pool.push((nd, p));
            let i2 = pool.len() - 1;
            if pool[j].1.is_empty() {
                j = i2;
            }
            if pool[j].1.is_empty() {
                continue;
            }
            zstep(c, &mut f, &mut pool, o, i2, j)?;
            continue;
        }
        if o == 3 && pool[i].1.len() * pool[j].1.len() > 3000 {
            continue;
        }
        if o == 4 && pool[j].1.is_empty() {
            continue;
        }
        zstep(c, &mut f, &mut pool, o, i, j)?;
        if c.rng.chance(1, 15) {
            while pool.len() > 6 {
                let k = c.rng.below(pool.len());
                pool.swap_remove(k);
            }
            let roots: Vec<Nd> = pool.iter().map(|x| x.0).collect();
            f.gc(&roots);
            c.count("gc");
        }
    }
    Ok(())
}
fn zstep(c: &mut Case, f: &mut FZdd, pool: &mut Vec<(Nd, Fam)>, o: usize, i: usize, j: usize) -> R {
    let (a, b) = (pool[i].clone(), pool[j].clone());
    let want = fam_op(o, &a.1, &b.1);
    let r = f.apply(o, &[a.0, b.0]);
    c.log(|| format!("{} {:x?} {:x?} -> {:x?}", FZdd::OPS[o].name, a.1, b.1, want));
    let got = enumerate(f, r, want.len() + 1000);
    ensure!(got.as_ref() == Some(&want), "zdd {} of {:x?} and {:x?} is {:x?}, by definition {:x?} (element sets as bit masks)", FZdd::OPS[o].name, a.1, b.1, got, want);
    c.count("ops_checked");
    c.count(["op_union", "op_intersect", "op_setdiff", "op_product", "op_divide"][o]);
    if o == 4 && !want.is_empty() {
        c.count("divide_nonempty_quotient");
    }
    c.seen(&(o, &a.1, &b.1));
    if want.len() < 200 && pool.len() < 40 {
        pool.push((r, want));
    }
    Ok(())
}

// ------------------------------------------------------------- meaning of operations

/// Value of an operation at one point, `ANY` where nothing is claimed; None = not judged.
fn point<F: Forest>(o: usize, a: &[i64]) -> Option<i64> {
    let op = &F::OPS[o];
    if a.iter().zip(op.args).any(|(&x, &k)| x == U && (!op.undet || k == 0 && F::NAME == "mtmdd2")) {
        return Some(F::undet(o, a));
    }
    F::model(o, a)
}
fn agree(got: &[i64], want: &[i64]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(&g, &w)| fits(g, w))
}
/// Expected table of an operation from the operands' tables; None = not judged.
fn expect<F: Forest>(o: usize, tabs: &[&Vec<i64>]) -> Option<Vec<i64>> {
    if F::NAME == "zdd" {
        let (f, g) = (fam_of(tabs[0]), fam_of(tabs[1]));
        if o == 4 && g.is_empty() {
            return None;
        }
        let r = fam_op(o, &f, &g);
        let mut t = vec![0; tabs[0].len()];
        for x in r {
            t[x as usize] = 1;
        }
        return Some(t);
    }
    let mut out = Vec::with_capacity(tabs[0].len());
    let mut a = vec![0i64; tabs.len()];
    for i in 0..tabs[0].len() {
        for (k, t) in tabs.iter().enumerate() {
            a[k] = t[i];
        }
        out.push(point::<F>(o, &a)?);
    }
    Some(out)
}

/// A random history of operations, each judged pointwise.
pub fn sem_case<F: Forest>(c: &mut Case) -> R {
    let big = c.rng.chance(1, 6);
    let dom = Dom::random(&mut c.rng, F::BIN, big);
    let ord = order(&mut c.rng, dom.n());
    let mut f = F::build(&dom, &ord);
    c.log(|| format!("{} radices {:?} levels {:?} declared {:?}", F::NAME, dom.rad, dom.lev, ord));
    if !dom.full {
        return sem_big(c, f, dom);
    }
    let mut tabs: HashMap<Nd, Vec<i64>> = HashMap::new();
    let mut pool = seed_pool(&mut f, &mut c.rng, &dom, 4);
    for &n in &pool {
        tabs.insert(n, table(&f, &dom, n)?);
    }
    let steps = 40 + c.rng.below(60);
    let mut since = 0;
    for _ in 0..steps {
        if c.rng.chance(1, 25) {
            // collect garbage, keeping a random part of the pool
            c.rng.shuffle(&mut pool);
            let k = 3 + c.rng.below(8);
            pool.truncate(k);
            for &kind in F::KINDS {
                pool.push(rand_fn(&mut f, &mut c.rng, &dom, kind));
            }
            f.gc(&pool);
            c.count("gc");
            tabs.clear();
            for &n in &pool {
                tabs.insert(n, table(&f, &dom, n)?);
            }
        } else if c.rng.chance(1, 40) {
            f.clear();
        } else if c.rng.chance(1, 8) {
            let kind = *c.rng.pick(F::KINDS);
            let n = rand_fn(&mut f, &mut c.rng, &dom, kind);
            tabs.insert(n, table(&f, &dom, n)?);
            pool.push(n);
        }
        let o = c.rng.below(F::OPS.len());
        let args = match pick_args::<F>(&mut c.rng, &pool, o) {
            Some(a) => a,
            None => continue,
        };
        let ts: Vec<&Vec<i64>> = args.iter().map(|a| &tabs[a]).collect();
        let want = match expect::<F>(o, &ts) {
            Some(w) => w,
            None => {
                c.count("skipped_undefined");
                continue;
            }
        };
        let key = (F::NAME, o, hash_of(&ts));
        let (r, got) = {
            let r = f.apply(o, &args);
            (r, table(&f, &dom, r)?)
        };
        c.log(|| format!("{} {:?} -> {:?}", F::OPS[o].name, args, r));
        if !agree(&got, &want) {
            let i = (0..got.len()).find(|&i| !fits(got[i], want[i])).unwrap();
            return Err(format!(
                "{} {}: at the point {:?} (radices {:?}, levels {:?}) the operands are {:?}, the result is {}, by definition {}",
                F::NAME,
                F::OPS[o].name,
                dom.pts[i],
                dom.rad,
                dom.lev,
                args.iter().map(|a| show(tabs[a][i])).collect::<Vec<_>>(),
                show(got[i]),
                show(want[i])
            ));
        }
        c.count("ops_checked");
        c.add("points_compared", got.len() as u64);
        if want.iter().any(|x| *x != want[0]) {
            c.seen(&key);
        }
        if want.contains(&U) && want.iter().any(|x| *x != U) {
            c.count("results_partly_undetermined");
        }
        since += 1;
        tabs.insert(r, got);
        pool.push(r);
        if pool.len() > 60 {
            pool.drain(..20);
        }
    }
    c.max("ops_in_one_history", since);
    Ok(())
}

fn show(x: i64) -> String {
    if x == U {
        "undetermined".into()
    } else if x == OR0 || x == OR1 {
        format!("undetermined or {}", x - OR0)
    } else {
        x.to_string()
    }
}

/// A point found by walking down a diagram at random.
fn walk<F: Forest>(f: &F, rng: &mut Rng, dom: &Dom, n: Nd) -> Vec<u16> {
    let mut p: Vec<u16> = if F::ZS { vec![0; dom.n()] } else { dom.rad.iter().map(|&r| rng.below(r) as u16).collect() };
    let mut cur = n;
    for _ in 0..=dom.n() {
        match f.look(cur) {
            Look::Leaf(_) => break,
            Look::Node(h) => {
                let v = f.var_of(h);
                // avoid the absent leaf if some other edge exists
                let ks: Vec<usize> = (0..f.nkids(cur)).filter(|&i| !matches!(f.look(f.kid(cur, i)), Look::Leaf(x) if x == F::absent())).collect();
                let i = if ks.is_empty() || rng.chance(1, 10) { rng.below(f.nkids(cur)) } else { *rng.pick(&ks) };
                p[v] = i as u16;
                cur = f.kid(cur, i);
            }
        }
    }
    p
}

/// Fill the forest with `count` unreferenced nodes, so that what follows has large ids.
pub fn junk<F: Forest>(f: &mut F, rng: &mut Rng, dom: &Dom, count: usize) {
    let mut vs: Vec<usize> = (0..dom.n()).collect();
    vs.sort_by_key(|&v| dom.lev[v]);
    for &kind in F::KINDS {
        let mut have: Vec<Nd> = (0..if kind == 0 { 2 } else { 30 }).map(|i| f.leaf(kind, i)).collect();
        let per = count / vs.len() + 1;
        for (k, &v) in vs.iter().enumerate() {
            let top = have.len();
            let mut left = if k + 1 == vs.len() { 2 * count } else { per };
            while left > 0 && f.live() < count {
                left -= 1;
                let a = have[rng.below(top)];
                let b = have[rng.below(top)];
                let ks: Vec<Nd> = (0..dom.rad[v]).map(|i| if i == 0 || rng.chance(1, 3) { a } else { b }).collect();
                let n = f.mk(v, &ks);
                have.push(n);
            }
        }
    }
}

/// How far apart two generations of nodes are put in `aligned_case`, for case `idx`, if it is one.
pub fn aligned_bits(c: &mut Case) -> Option<u32> {
    match (c.idx, c.tier) {
        (1, _) => Some(21),
        (2, _) => Some(20),
        (41, Tier::Thorough) => Some(24),
        (42, Tier::Thorough) => Some(23),
        (43, Tier::Thorough) => Some(22),
        (i, _) if i % 1500 == 44 => Some(16 + c.rng.below(4) as u32),
        _ => None,
    }
}
/// Two generations of functions whose node ids differ by exactly 2^bits, with the same
/// operations applied to the same positions of both and to mixtures: anything that keys on part
/// of an id takes one generation for the other.
pub fn aligned_case<F: Forest>(c: &mut Case, bits: u32) -> R {
    let n = if F::BIN { 14 } else { 9 };
    let rad: Vec<usize> = (0..n).map(|_| if F::BIN { 2 } else { 2 + c.rng.below(3) }).collect();
    let dom = Dom::new(&mut c.rng, rad, 60, true);
    let ord = order(&mut c.rng, n);
    let mut f = F::build(&dom, &ord);
    let mut vs: Vec<usize> = (0..n).collect();
    vs.sort_by_key(|&v| dom.lev[v]);
    let (top, mid) = (vs[n - 1], vs[n - 2]);
    c.log(|| format!("{} radices {:?} levels {:?} distance 2^{}", F::NAME, dom.rad, dom.lev, bits));
    let mut low: Vec<Vec<Nd>> = Vec::new();
    let mut gen: [Vec<Vec<Nd>>; 2] = [Vec::new(), Vec::new()];
    fn kids<F: Forest>(c: &mut Case, dom: &Dom, v: usize, from: &[Nd]) -> Vec<Nd> {
        let (a, b, d) = (*c.rng.pick(from), *c.rng.pick(from), *c.rng.pick(from));
        (0..dom.rad[v]).map(|i| [a, b, d][if i < 2 { i } else { c.rng.below(3) }]).collect()
    }
    /// A node for `v` that did not exist, if one is found.
    fn fresh<F: Forest>(f: &mut F, c: &mut Case, dom: &Dom, v: usize, from: &[Nd]) -> Option<Nd> {
        for _ in 0..200 {
            let ks = kids::<F>(c, dom, v, from);
            let before = f.live();
            let r = f.mk(v, &ks);
            if f.live() > before {
                return Some(r);
            }
        }
        None
    }
    for &kind in F::KINDS {
        let mut have: Vec<Nd> = (0..if kind == 0 { 2 } else { 7 }).map(|i| f.leaf(kind, i)).collect();
        for (k, &v) in vs[..n - 2].iter().enumerate() {
            let below = have.clone();
            for _ in 0..(8 << 2 * k).min(if F::BIN { 500 } else { 1500 }) {
                if let Some(x) = fresh(&mut f, c, &dom, v, &below) {
                    have.push(x);
                }
            }
        }
        let mut g = Vec::new();
        while g.len() < 40 {
            match fresh(&mut f, c, &dom, mid, &have) {
                Some(x) => g.push(x),
                None => return Ok(()),
            }
        }
        low.push(have);
        gen[0].push(g);
    }
    let at = |k: u8| F::KINDS.iter().position(|x| *x == k).unwrap();
    let judge = |f: &mut F, c: &mut Case, o: usize, args: &[Nd]| -> R {
        if !legal(f, o, args) {
            return Ok(());
        }
        let r = f.apply(o, args);
        if F::NAME == "zdd" && o > 2 {
            zdd_sampled(f, c, &dom, o, args[0], args[1], r)?;
            c.count("ops_on_far_apart_nodes");
            c.seen(&(F::NAME, "far", c.idx, o, args));
            return Ok(());
        }
        let mut pts: Vec<Vec<u16>> = dom.pts.clone();
        for _ in 0..6 {
            for &n in args.iter().chain([&r]) {
                let w = walk(f, &mut c.rng, &dom, n);
                pts.push(w);
            }
        }
        for p in &pts {
            let a: Vec<i64> = args.iter().map(|&n| eval(f, &dom, n, p)).collect::<Result<_, _>>()?;
            let got = eval(f, &dom, r, p)?;
            let want = if F::NAME == "zdd" {
                let (x, y) = (a[0] != 0, a[1] != 0);
                [x || y, x && y, x && !y][o] as i64
            } else {
                match point::<F>(o, &a) {
                    Some(w) if w != ANY => w,
                    _ => continue,
                }
            };
            ensure!(fits(got, want), "{} {} of nodes {:?}: at {:?} the operands are {:?}, the result is {}, by definition {}", F::NAME, F::OPS[o].name, args, p, a.iter().map(|&x| show(x)).collect::<Vec<_>>(), show(got), show(want));
        }
        c.count("ops_on_far_apart_nodes");
        c.seen(&(F::NAME, "far", c.idx, o, args));
        Ok(())
    };
    let jobs: Vec<(usize, Vec<usize>)> = (0..150).map(|_| (c.rng.below(F::OPS.len()), (0..3).map(|_| c.rng.below(40)).collect())).collect();
    let mut made: HashMap<Nd, Vec<Nd>> = HashMap::new();
    for round in 0..2 {
        for (o, ix) in &jobs {
            for mix in 0..if round == 0 { 1 } else { 4 } {
                let args: Vec<Nd> = F::OPS[*o].args.iter().zip(ix).enumerate().map(|(j, (&k, &i))| gen[if round == 0 || mix == 3 || mix > 0 && mix >> j & 1 == 0 { 0 } else { 1 }][at(k)][i]).collect();
                judge(&mut f, c, *o, &args)?;
            }
            // node creation over both generations
            let k = c.rng.below(F::KINDS.len());
            let ks: Vec<Nd> = (0..dom.rad[top]).map(|j| gen[if round == 1 && c.rng.chance(2, 3) { 1 } else { 0 }][k][ix[j % 3]]).collect();
            let r = f.mk(top, &ks);
            if ks.iter().any(|x| *x != ks[0]) {
                if let Some(old) = made.insert(r, ks.clone()) {
                    ensure!(old == ks, "{}: one node {:?} for the children {:?} and {:?} of variable {}", F::NAME, r, old, ks, top);
                }
                for (i, x) in ks.iter().enumerate() {
                    ensure!(f.nkids(r) == ks.len() && f.kid(r, i) == *x, "{}: a node created with children {:?} has child {} {:?}", F::NAME, ks, i, f.kid(r, i));
                }
            }
            ensure!(f.mk(top, &ks) == r, "{}: the children {:?} gave another node the second time", F::NAME, ks);
        }
        if round == 0 {
            for (k, have) in low.iter().enumerate() {
                let target = gen[0][k][0].id + (1 << bits);
                loop {
                    let v = if c.rng.chance(1, 4) { mid } else { top };
                    match fresh(&mut f, c, &dom, v, have) {
                        Some(x) if x.id + 1 < target => (),
                        _ => break,
                    }
                }
                let mut g = Vec::new();
                while g.len() < 40 {
                    match fresh(&mut f, c, &dom, mid, have) {
                        Some(x) => g.push(x),
                        None => return Ok(()),
                    }
                }
                if (0..40).all(|i| g[i].id == gen[0][k][i].id + (1 << bits)) {
                    c.count("aligned_generations");
                }
                gen[1].push(g);
            }
            c.max("nodes_in_one_forest", f.live() as u64);
        }
    }
    // and once more after a collection that keeps part of both
    let mut keep: Vec<Nd> = Vec::new();
    for k in 0..F::KINDS.len() {
        for i in 0..40 {
            if c.rng.chance(2, 3) {
                keep.push(gen[0][k][i]);
            }
            if c.rng.chance(2, 3) {
                keep.push(gen[1][k][i]);
            }
        }
    }
    f.gc(&keep);
    c.count("gc");
    for _ in 0..60 {
        let o = c.rng.below(F::OPS.len());
        if let Some(a) = pick_args::<F>(&mut c.rng, &keep, o) {
            judge(&mut f, c, o, &a)?;
        }
    }
    Ok(())
}

/// Product and quotient judged at sampled sets.
fn zdd_sampled<F: Forest>(f: &F, c: &mut Case, dom: &Dom, o: usize, x: Nd, y: Nd, r: Nd) -> R {
    let n = dom.n();
    let has = |node: Nd, s: u64| -> Result<bool, String> {
        let p: Vec<u16> = (0..n).map(|v| (s >> v & 1) as u16).collect();
        Ok(eval(f, dom, node, &p)? != 0)
    };
    let some = |c: &mut Case, node: Nd| -> Result<Option<u64>, String> {
        let p = walk(f, &mut c.rng, dom, node);
        let s = p.iter().enumerate().fold(0u64, |a, (v, &b)| a | (b as u64) << v);
        Ok(if has(node, s)? { Some(s) } else { None })
    };
    // every set of the divisor, if there are not too many
    fn sets<F: Forest>(f: &F, node: Nd, s: u64, out: &mut Vec<u64>) -> bool {
        match f.look(node) {
            Look::Leaf(0) => true,
            Look::Leaf(_) => {
                out.push(s);
                out.len() < 400
            }
            Look::Node(h) => sets(f, f.kid(node, 0), s, out) && sets(f, f.kid(node, 1), s | 1 << f.var_of(h), out),
        }
    }
    let mut ys = Vec::new();
    let all = sets(f, y, 0, &mut ys);
    let mut cand: Vec<u64> = vec![0];
    for _ in 0..12 {
        let (a, b, d) = (some(c, x)?, some(c, y)?, some(c, r)?);
        if let (Some(a), Some(b)) = (a, b) {
            if o == 3 {
                ensure!(has(r, a | b)?, "zdd product of nodes {:?} and {:?} lacks the union {:b} of the sets {:b} and {:b}", x, y, a | b, a, b);
            }
            cand.push(a & !b);
            cand.push(a | b);
        }
        if let Some(d) = d {
            cand.push(d);
            cand.push(d ^ 1 << c.rng.below(n));
        }
    }
    for s in cand {
        let want = if o == 3 {
            if s.count_ones() > 9 {
                continue;
            }
            let mut found = false;
            let mut a = s;
            'sub: loop {
                if has(x, a)? {
                    // b must hold what a lacks; any part of a may join it
                    let need = s & !a;
                    let mut e = a;
                    loop {
                        if has(y, need | e)? {
                            found = true;
                            break 'sub;
                        }
                        if e == 0 {
                            break;
                        }
                        e = (e - 1) & a;
                    }
                }
                if a == 0 {
                    break;
                }
                a = (a - 1) & s;
            }
            found
        } else {
            let mut ok = true;
            for &b in &ys {
                if s & b != 0 || !has(x, s | b)? {
                    ok = false;
                    break;
                }
            }
            if ok && !all {
                continue;
            }
            ok
        };
        let got = has(r, s)?;
        ensure!(got == want, "zdd {} of nodes {:?} and {:?}: the set {:b} is{} in the result", F::OPS[o].name, x, y, s, if got { "" } else { " not" });
    }
    Ok(())
}
/// More than 65536 variables: nodes for variables 65536 (or 256) declarations apart.
pub fn many_vars<F: Forest>(c: &mut Case) -> R {
    let n = 65_536 + 40;
    let rad: Vec<usize> = vec![2; n];
    let dom = Dom::new(&mut c.rng, rad, 1, false);
    let ord = order(&mut c.rng, n);
    let mut f = F::build(&dom, &ord);
    for &kind in F::KINDS {
        let (z, o) = (f.leaf(kind, 0), f.leaf(kind, 1));
        let mut made: HashMap<Nd, usize> = HashMap::new();
        for round in 0..2 {
            for h in (0..40).chain(256..296).chain(32_768..32_808).chain(65_536..65_576) {
                let v = f.var_of(h);
                let r = f.mk(v, &[z, o]);
                ensure!(matches!(f.look(r), Look::Node(x) if x == h) && f.kid(r, 0) == z && f.kid(r, 1) == o, "{}: the node created for header {} is not one", F::NAME, h);
                let old = made.insert(r, h);
                ensure!(if round == 0 { old.is_none() } else { old == Some(h) }, "{}: the nodes of headers {:?} and {} are one", F::NAME, old, h);
            }
        }
    }
    c.count("forests_with_many_variables");
    Ok(())
}

fn sem_big<F: Forest>(c: &mut Case, mut f: F, dom: Dom) -> R {
    if c.rng.chance(1, 12) {
        junk(&mut f, &mut c.rng, &dom, 80_000);
        if f.live() > 1 << 16 {
            c.count("histories_beyond_65536_nodes");
        }
    }
    let mut pool = seed_pool(&mut f, &mut c.rng, &dom, 5);
    for _ in 0..40 {
        if c.rng.chance(1, 20) {
            c.rng.shuffle(&mut pool);
            let k = (pool.len() / 2).max(3);
            pool.truncate(k);
            for &kind in F::KINDS {
                pool.push(rand_fn(&mut f, &mut c.rng, &dom, kind));
            }
            f.gc(&pool);
            c.count("gc");
        }
        let o = c.rng.below(F::OPS.len());
        if F::NAME == "zdd" && o > 2 {
            continue;
        }
        let args = match pick_args::<F>(&mut c.rng, &pool, o) {
            Some(a) => a,
            None => continue,
        };
        if !legal(&f, o, &args) {
            continue;
        }
        let r = f.apply(o, &args);
        let mut pts: Vec<Vec<u16>> = dom.pts.clone();
        for _ in 0..24 {
            for &n in args.iter().chain([&r]) {
                let w = walk(&f, &mut c.rng, &dom, n);
                pts.push(w);
            }
        }
        for p in &pts {
            let a: Vec<i64> = args.iter().map(|&n| eval(&f, &dom, n, p)).collect::<Result<_, _>>()?;
            let got = eval(&f, &dom, r, p)?;
            let want = if F::NAME == "zdd" {
                let (x, y) = (a[0] != 0, a[1] != 0);
                [x || y, x && y, x && !y][o] as i64
            } else {
                match point::<F>(o, &a) {
                    Some(w) if w != ANY => w,
                    _ => continue,
                }
            };
            ensure!(
                fits(got, want),
                "{} {} over {} variables (radices {:?}, levels {:?}): at {:?} the operands are {:?}, the result is {}, by definition {}",
                F::NAME,
                F::OPS[o].name,
                dom.n(),
                dom.rad,
                dom.lev,
                p,
                a.iter().map(|&x| show(x)).collect::<Vec<_>>(),
                show(got),
                show(want)
            );
        }
        c.count("ops_checked");
        c.count("ops_checked_big");
        c.add("points_compared", pts.len() as u64);
        c.seen(&(F::NAME, "big", o, c.idx, r, args.clone()));
        let sz = reach(&f, &[r]).len();
        c.max("largest_result", sz as u64);
        if sz < 400 {
            pool.push(r);
        }
        if pool.len() > 40 {
            pool.drain(..12);
        }
    }
    Ok(())
}

/// Every pair (or a slice of the triples) of ALL functions over a tiny domain.
pub fn exh_case<F: Forest>(c: &mut Case, slice: u64) -> R {
    // (radices, leaf alphabet) per kind of forest
    let (rad, alpha): (Vec<usize>, Vec<i64>) = if F::BIN {
        (vec![2; if slice % 4 == 3 { 2 } else { 3 }], vec![0, 1])
    } else {
        match slice % 3 {
            0 => (vec![2, 3], vec![0, 1]),
            1 => (vec![2, 2], if F::NAME == "mdd" { vec![0, 1] } else { vec![U, 0, 1, 2] }),
            _ => (vec![3, 2], if F::NAME == "mdd" { vec![0, 1] } else { vec![0, 2] }),
        }
    };
    let gaps = c.rng.chance(1, 2);
    let dom = Dom::new(&mut c.rng, rad, 64, gaps);
    let ord = order(&mut c.rng, dom.n());
    let mut f = F::build(&dom, &ord);
    let np = dom.pts.len();
    let mut all: Vec<(Nd, Vec<i64>)> = Vec::new();
    for &kind in F::KINDS {
        let al: &[i64] = if kind == 0 { &[0, 1] } else { &alpha };
        let total = al.len().pow(np as u32);
        for mut k in 0..total {
            let mut t = Vec::with_capacity(np);
            for _ in 0..np {
                t.push(al[k % al.len()]);
                k /= al.len();
            }
            let n = rebuild(&mut f, &dom, kind, &t);
            all.push((n, t));
        }
    }
    c.max("functions_enumerated", all.len() as u64);
    let mut known: HashMap<Nd, Vec<i64>> = HashMap::new();
    for (n, t) in &all {
        let got = table(&f, &dom, *n)?;
        ensure!(&got == t, "{}: a function built cofactor by cofactor from the table {:?} reads back as {:?}", F::NAME, t, got);
        known.insert(*n, got);
    }
    let o = c.rng.below(F::OPS.len());
    let op = &F::OPS[o];
    let sel = |k: u8| all.iter().filter(|x| x.0.t == k).collect::<Vec<_>>();
    let lists: Vec<Vec<&(Nd, Vec<i64>)>> = op.args.iter().map(|&k| sel(k)).collect();
    let mut combos: Vec<Vec<usize>> = Vec::new();
    match lists.len() {
        1 => (0..lists[0].len()).for_each(|i| combos.push(vec![i])),
        2 => {
            for i in 0..lists[0].len() {
                for j in 0..lists[1].len() {
                    combos.push(vec![i, j]);
                }
            }
        }
        _ => {
            for _ in 0..30000 {
                combos.push(lists.iter().map(|l| c.rng.below(l.len())).collect());
            }
        }
    }
    if c.rng.chance(1, 2) {
        c.rng.shuffle(&mut combos);
    }
    combos.truncate(if c.tier == Tier::Quick { 66000 } else { 200000 });
    for cb in combos {
        let args: Vec<Nd> = cb.iter().zip(&lists).map(|(&i, l)| l[i].0).collect();
        let ts: Vec<&Vec<i64>> = cb.iter().zip(&lists).map(|(&i, l)| &l[i].1).collect();
        let want = match expect::<F>(o, &ts) {
            Some(w) => w,
            None => continue,
        };
        let r = f.apply(o, &args);
        if !known.contains_key(&r) {
            let t = table(&f, &dom, r)?;
            known.insert(r, t);
        }
        let got = &known[&r];
        if !agree(got, &want) {
            return Err(format!("{} {} over radices {:?} levels {:?}: operand tables {:?}, result table {:?}, by definition {:?}", F::NAME, op.name, dom.rad, dom.lev, ts, got, want));
        }
        c.count("ops_checked");
        c.count("exhaustive_tuples");
        c.seen(&(F::NAME, o, &dom.rad, &dom.lev, cb));
    }
    Ok(())
}

// ------------------------------------------------------------- canonicity

pub fn canon_case<F: Forest>(c: &mut Case) -> R {
    let dom = Dom::random(&mut c.rng, F::BIN, false);
    let ord = order(&mut c.rng, dom.n());
    let mut f = F::build(&dom, &ord);
    c.log(|| format!("{} radices {:?} levels {:?} declared {:?}", F::NAME, dom.rad, dom.lev, ord));
    let mut pool = seed_pool(&mut f, &mut c.rng, &dom, 3);
    // tables that were seen, with their kind: rebuilt again later
    let mut remembered: Vec<(u8, Vec<i64>)> = Vec::new();
    let rounds = 3;
    for _ in 0..rounds {
        for _ in 0..15 {
            match c.rng.below(6) {
                0 if c.rng.chance(1, 2) => {
                    let kind = *c.rng.pick(F::KINDS);
                    let t = rand_table::<F>(&mut c.rng, &dom, kind);
                    let n = rebuild(&mut f, &dom, kind, &t);
                    let got = table(&f, &dom, n)?;
                    ensure!(got == t, "{}: the diagram built node by node from the table {:?} reads as {:?} (radices {:?}, levels {:?})", F::NAME, t, got, dom.rad, dom.lev);
                    c.count("tables_read_back");
                    pool.push(n);
                }
                0 => {
                    let kind = *c.rng.pick(F::KINDS);
                    let n = rand_fn(&mut f, &mut c.rng, &dom, kind);
                    pool.push(n);
                }
                1 if !remembered.is_empty() => {
                    let (k, t) = c.rng.pick(&remembered).clone();
                    let n = rebuild(&mut f, &dom, k, &t);
                    let got = table(&f, &dom, n)?;
                    ensure!(got == t, "{}: the diagram built node by node from the table {:?} reads as {:?} (radices {:?}, levels {:?})", F::NAME, t, got, dom.rad, dom.lev);
                    c.count("tables_read_back");
                    pool.push(n);
                }
                2 if c.rng.chance(1, 3) => f.clear(),
                _ => {
                    let o = c.rng.below(F::OPS.len());
                    if let Some(a) = pick_args::<F>(&mut c.rng, &pool, o) {
                        if legal(&f, o, &a) {
                            let r = f.apply(o, &a);
                            c.log(|| format!("{} {:?} -> {:?}", F::OPS[o].name, a, r));
                            pool.push(r);
                        }
                    }
                }
            }
        }
        judge_canon(c, &mut f, &dom, &pool, &mut remembered)?;
        c.rng.shuffle(&mut pool);
        let k = 4 + c.rng.below(8);
        pool.truncate(k);
        for &kind in F::KINDS {
            pool.push(rand_fn(&mut f, &mut c.rng, &dom, kind));
        }
        if c.rng.chance(2, 3) {
            f.gc(&pool);
            c.count("gc");
            c.log(|| format!("gc {:?}", pool));
            judge_canon(c, &mut f, &dom, &pool, &mut remembered)?;
        }
    }
    Ok(())
}

fn judge_canon<F: Forest>(c: &mut Case, f: &mut F, dom: &Dom, pool: &[Nd], rem: &mut Vec<(u8, Vec<i64>)>) -> R {
    let k = check_shape(f, dom, pool)?;
    c.add("nodes_shape_checked", k as u64);
    let nodes = reach(f, pool);
    let mut by: HashMap<(u8, Vec<i64>), Nd> = HashMap::new();
    let mut ns: Vec<Nd> = nodes.keys().copied().collect();
    ns.sort();
    for n in ns {
        let t = table(f, dom, n)?;
        if let Some(o) = by.get(&(n.t, t.clone())) {
            return Err(format!("{}: nodes {:?} and {:?} are different but denote the same function {:?} (radices {:?}, levels {:?})", F::NAME, o, n, t, dom.rad, dom.lev));
        }
        c.seen(&(F::NAME, &dom.rad, &dom.lev, &t));
        by.insert((n.t, t), n);
    }
    let live0 = f.live();
    let list: Vec<((u8, Vec<i64>), Nd)> = by.into_iter().collect();
    for ((kind, t), n) in &list {
        if pool.contains(n) || c.rng.chance(1, 8) {
            let r = rebuild(f, dom, *kind, t);
            ensure!(
                r == *n,
                "{}: building the function of node {:?} again from its table gives another node {:?} (radices {:?}, levels {:?}, table {:?})",
                F::NAME,
                n,
                r,
                dom.rad,
                dom.lev,
                t
            );
            c.count("rebuilt_same_node");
        }
        if rem.len() < 40 && c.rng.chance(1, 4) {
            rem.push((*kind, t.clone()));
        }
    }
    // each terminal is one node
    for &kind in F::KINDS {
        for code in [0i64, 1] {
            let a = f.leaf(kind, code);
            let b = f.leaf(kind, code);
            ensure!(a == b, "{}: asking twice for the terminal {} gives {:?} and {:?}", F::NAME, code, a, b);
        }
    }
    let _ = live0;
    Ok(())
}

/// Children from two nodes: at random, alternating, in blocks, a single odd one out, mirrored.
fn pattern(rng: &mut Rng, k: usize, a: Nd, b: Nd) -> Vec<Nd> {
    let style = rng.below(6);
    let period = 1 + rng.below(4);
    let odd = rng.below(k);
    let bits = rng.next();
    (0..k)
        .map(|i| {
            let first = match style {
                0 | 1 => rng.chance(1, 2),
                2 => (i / period) % 2 == 0,
                3 => bits >> (i / period % 64) & 1 == 0,
                4 => i != odd,
                _ => bits >> (i.min(k - 1 - i) % 64) & 1 == 0,
            };
            if first {
                a
            } else {
                b
            }
        })
        .collect()
}

/// Tens of thousands of nodes, hundreds of variables: node creation is a function of its
/// arguments, injective on what it creates, across collections.
pub fn canon_large<F: Forest>(c: &mut Case) -> R {
    let nv = 40 + c.rng.below(300);
    let rad: Vec<usize> = (0..nv).map(|i| if F::BIN { 2 } else if i == 7 { 300 } else if i % 6 == 5 { 5 + c.rng.below(8) } else { 2 + c.rng.below(3) }).collect();
    let dom = Dom::new(&mut c.rng, rad, 1, true);
    let ord = order(&mut c.rng, nv);
    let mut f = F::build(&dom, &ord);
    let kind = *c.rng.pick(F::KINDS);
    let mut vs: Vec<usize> = (0..nv).collect();
    vs.sort_by_key(|&v| dom.lev[v]);
    let mut have: Vec<(Nd, usize)> = Vec::new();
    let nl = match kind {
        0 => 2,
        _ if c.rng.chance(1, 2) => 40,
        _ => 300 + c.rng.below(500) as i64,
    };
    let mut leaves: HashMap<Nd, i64> = HashMap::new();
    for i in 0..nl {
        let n = f.leaf(kind, i);
        have.push((n, 0));
        leaves.insert(n, i);
    }
    ensure!(leaves.len() == nl as usize, "{}: {} terminals share nodes: there are {}", F::NAME, nl, leaves.len());
    let absent = f.leaf(kind, F::absent());
    if F::ZS {
        have.push((absent, 0));
    }
    let mut key: HashMap<(usize, Vec<Nd>), Nd> = HashMap::new();
    let mut rev: HashMap<Nd, (usize, Vec<Nd>)> = HashMap::new();
    let target = if c.tier == Tier::Quick { 170_000 } else { 400_000 };
    let per = target / nv + 1;
    for (pos, &v) in vs.iter().enumerate() {
        let lo = have.len().saturating_sub(4000);
        let cands: Vec<Nd> = have[lo..].iter().map(|x| x.0).collect();
        for _ in 0..per {
            // wide variables: few distinct kids
            let a = *c.rng.pick(&cands);
            let b = *c.rng.pick(&cands);
            let ks: Vec<Nd> = pattern(&mut c.rng, dom.rad[v], a, b);
            let n = f.mk(v, &ks);
            let reduced = if F::ZS { ks[1..].iter().all(|k| *k == absent) } else { ks.iter().all(|k| *k == ks[0]) };
            if reduced {
                ensure!(n == ks[0], "{}: a node for variable {} with children {:?} should be its first child, not {:?}", F::NAME, v, ks, n);
                continue;
            }
            if let Some(o) = rev.get(&n) {
                ensure!(*o == (v, ks.clone()), "{}: node {:?} was created as {:?} and again as {:?}", F::NAME, n, o, (v, &ks));
            }
            if let Some(o) = key.get(&(v, ks.clone())) {
                ensure!(*o == n, "{}: node creation for variable {} with children {:?} gave {:?} and later {:?}", F::NAME, v, ks, o, n);
                continue;
            }
            rev.insert(n, (v, ks.clone()));
            key.insert((v, ks), n);
            have.push((n, pos + 1));
        }
    }
    c.max("nodes_in_one_forest", f.live() as u64);
    let recheck = |f: &mut F, c: &mut Case, key: &HashMap<(usize, Vec<Nd>), Nd>, keep: Option<&HashSet<Nd>>| -> R {
        let live0 = f.live();
        for ((v, ks), n) in key {
            if let Some(k) = keep {
                if !k.contains(n) {
                    continue;
                }
            }
            let r = f.mk(*v, ks);
            ensure!(r == *n, "{}: creating the node for variable {} with children {:?} again gave {:?} instead of {:?}", F::NAME, v, ks, r, n);
            c.count("recreated_same_node");
            match f.look(*n) {
                Look::Node(h) => {
                    ensure!(f.var_of(h) == *v && (0..ks.len()).all(|i| f.kid(*n, i) == ks[i]), "{}: node {:?} no longer reads back what it was created from", F::NAME, n)
                }
                _ => return Err(format!("{}: node {:?} became a terminal", F::NAME, n)),
            }
        }
        ensure!(f.live() == live0, "{}: re-creating existing nodes changed the number of live nodes from {} to {}", F::NAME, live0, f.live());
        Ok(())
    };
    recheck(&mut f, c, &key, None)?;
    // keep some roots, collect, re-check the survivors; then fill the reclaimed slots again,
    // with terminals and nodes that must stay apart from the kept ones and from each other
    let rounds = if c.tier == Tier::Quick { 2 } else { 4 };
    for round in 0..rounds {
        let mut roots: Vec<Nd> = (0..50).map(|_| c.rng.pick(&have).0).collect();
        roots.extend(leaves.keys().filter(|_| c.rng.chance(4, 5)));
        let keep: HashSet<Nd> = reach(&f, &roots).keys().copied().collect();
        f.gc(&roots);
        c.count("gc");
        recheck(&mut f, c, &key, Some(&keep))?;
        let live = f.live();
        key.retain(|_, n| keep.contains(n));
        rev.retain(|n, _| keep.contains(n));
        leaves.retain(|n, _| keep.contains(n));
        have.retain(|x| keep.contains(&x.0));
        let room: usize = f.caps().iter().map(|(a, l)| a - l).max().unwrap_or(0);
        let enough = if c.rng.chance(1, 2) { room + 500 } else { room.min(20_000) };
        let mut last = 0;
        let mut i = 0;
        while last < enough && i < 4 * enough + 4000 {
            i += 1;
            if kind == 1 && i % 97 == 5 {
                let v = 1_000_000 * (round as i64 + 1) + i as i64;
                let n = f.leaf(kind, v);
                ensure!(!rev.contains_key(&n) && !leaves.contains_key(&n), "{}: a terminal created for {} after a collection is node {:?}, in use for {:?} {:?}", F::NAME, v, n, leaves.get(&n), rev.get(&n));
                leaves.insert(n, v);
                have.push((n, 0));
                c.count("terminals_in_reclaimed_slots");
                continue;
            }
            let (x, lx) = *c.rng.pick(&have);
            let (y, ly) = *c.rng.pick(&have);
            let at = lx.max(ly);
            if x == y || at >= vs.len() {
                continue;
            }
            let pos = at + c.rng.below((vs.len() - at).min(5));
            let v = vs[pos];
            if dom.rad[v] > 200 {
                continue;
            }
            let ks: Vec<Nd> = (0..dom.rad[v]).map(|j| if j == 0 { x } else { y }).collect();
            if F::ZS && y == absent {
                continue;
            }
            let n = f.mk(v, &ks);
            ensure!(!leaves.contains_key(&n), "{}: a node created for variable {} with children {:?} after a collection is {:?}, the terminal {:?}", F::NAME, v, ks, n, leaves.get(&n));
            if let Some(o) = rev.get(&n) {
                ensure!(*o == (v, ks.clone()), "{}: after a collection node {:?} was created as {:?} and again as {:?}", F::NAME, n, o, (v, &ks));
            }
            if let Some(o) = key.get(&(v, ks.clone())) {
                ensure!(*o == n, "{}: node creation for variable {} with children {:?} gave {:?} and later {:?}", F::NAME, v, ks, o, n);
                continue;
            }
            rev.insert(n, (v, ks.clone()));
            key.insert((v, ks), n);
            have.push((n, pos + 1));
            last += 1;
        }
        c.add("nodes_in_reclaimed_slots", last.min(room) as u64);
        ensure!(f.live() >= live + last, "{}: {} nodes were created after a collection that left {}, {} are live", F::NAME, last, live, f.live());
        for (n, v) in &leaves {
            ensure!(matches!(f.look(*n), Look::Leaf(x) if x == *v), "{}: the terminal {} became something else", F::NAME, v);
            ensure!(f.leaf(kind, *v) == *n, "{}: the terminal {} is a second node now", F::NAME, v);
        }
        recheck(&mut f, c, &key, None)?;
    }
    c.seen(&(F::NAME, "large", c.idx));
    c.count("large_forests");
    Ok(())
}
// ------------------------------------------------------------- garbage collection

/// Are the diagrams of `a` in `fa` and `b` in `fb` the same diagram?
pub fn same<F: Forest>(fa: &F, a: Nd, fb: &F, b: Nd, memo: &mut HashSet<(Nd, Nd)>) -> Result<(), String> {
    let mut st = vec![(a, b)];
    while let Some((x, y)) = st.pop() {
        if !memo.insert((x, y)) {
            continue;
        }
        match (fa.look(x), fb.look(y)) {
            (Look::Leaf(p), Look::Leaf(q)) if p == q => {}
            (Look::Node(h), Look::Node(g)) if fa.var_of(h) == fb.var_of(g) => {
                ensure!(fa.nkids(x) == fb.nkids(y), "different numbers of edges at {:?}/{:?}", x, y);
                for i in 0..fa.nkids(x) {
                    st.push((fa.kid(x, i), fb.kid(y, i)));
                }
            }
            (p, q) => {
                let d = |l: &Look, n: Nd, f: &F| match l {
                    Look::Leaf(c) => format!("terminal {}", show(*c)),
                    Look::Node(h) => format!("node {:?} of variable {}", n, f.var_of(*h)),
                };
                return Err(format!("{} against {}", d(&p, x, fa), d(&q, y, fb)));
            }
        }
    }
    Ok(())
}

type Snap = HashMap<Nd, (i64, Option<(usize, Vec<Nd>)>)>;
fn snapshot<F: Forest>(f: &F, roots: &[Nd]) -> Snap {
    reach(f, roots)
        .into_iter()
        .map(|(n, e)| {
            let c = match f.look(n) {
                Look::Leaf(c) => c,
                Look::Node(_) => 0,
            };
            (n, (c, e))
        })
        .collect()
}

struct Twin<F> {
    a: F,
    b: F,
    pool: Vec<(Nd, Nd)>,
}
impl<F: Forest> Twin<F> {
    fn push_fn(&mut self, rng: &mut Rng, dom: &Dom) {
        let kind = *rng.pick(F::KINDS);
        // same random stream on both sides
        let mut r1 = rng.clone();
        let x = rand_fn(&mut self.a, &mut r1, dom, kind);
        let y = rand_fn(&mut self.b, rng, dom, kind);
        self.pool.push((x, y));
    }
    fn judge(&self, x: Nd, y: Nd, what: &str) -> R {
        same(&self.a, x, &self.b, y, &mut HashSet::new()).map_err(|e| format!("{}: after garbage collections, {} differs from the collection-free run: {}", F::NAME, what, e))
    }
    fn op(&mut self, c: &mut Case, o: usize, idx: &[usize]) -> R {
        let xa: Vec<Nd> = idx.iter().map(|&i| self.pool[i].0).collect();
        let xb: Vec<Nd> = idx.iter().map(|&i| self.pool[i].1).collect();
        if !legal(&self.b, o, &xb) {
            return Ok(());
        }
        if self.b.live() > 250_000 {
            // the twin never collects; a function over many variables has exploded
            c.count("ops_left_out_in_full_forests");
            return Ok(());
        }
        let r = self.a.apply(o, &xa);
        let s = self.b.apply(o, &xb);
        c.log(|| format!("{} {:?} -> {:?}", F::OPS[o].name, xa, r));
        self.judge(r, s, F::OPS[o].name)?;
        c.count("ops_compared_with_twin");
        self.pool.push((r, s));
        Ok(())
    }
    fn rand_op(&mut self, c: &mut Case) -> R {
        let o = c.rng.below(F::OPS.len());
        let mut idx = Vec::new();
        for &k in F::OPS[o].args {
            let cs: Vec<usize> = (0..self.pool.len()).filter(|&i| self.pool[i].0.t == k).collect();
            if cs.is_empty() {
                return Ok(());
            }
            idx.push(*c.rng.pick(&cs));
        }
        self.op(c, o, &idx)
    }
    /// Every operation on all pairs of the first `n` functions.
    fn all_pairs(&mut self, c: &mut Case, n: usize) -> R {
        let n = self.pool.len().min(n);
        for o in 0..F::OPS.len() {
            for i in 0..n {
                for j in 0..n {
                    let idx: Vec<usize> = match F::OPS[o].args.len() {
                        1 if j == 0 => vec![i],
                        1 => continue,
                        2 => vec![i, j],
                        _ => vec![i, j, (i + 2 * j + 1) % n],
                    };
                    if idx.iter().zip(F::OPS[o].args).any(|(&i, &k)| self.pool[i].0.t != k) {
                        continue;
                    }
                    self.op(c, o, &idx)?;
                    if self.pool.len() > n + 40 {
                        self.pool.truncate(n + 10);
                    }
                }
            }
        }
        Ok(())
    }
    fn collect(&mut self, c: &mut Case) -> R {
        self.collect_with(c, &[])
    }
    fn collect_with(&mut self, c: &mut Case, extra: &[Nd]) -> R {
        let mut roots: Vec<Nd> = self.pool.iter().map(|x| x.0).collect();
        roots.extend(extra);
        if c.rng.chance(1, 4) {
            // duplicates and order are irrelevant
            if let Some(&x) = roots.first() {
                roots.push(x);
            }
            c.rng.shuffle(&mut roots);
        }
        let snap = snapshot(&self.a, &roots);
        let before = self.a.caps();
        let fresh = before.iter().all(|(cap, live)| cap == live);
        let ret = self.a.gc(&roots);
        c.log(|| format!("gc {:?}", roots));
        let after = self.a.caps();
        c.count("gc");
        for (n, (code, e)) in &snap {
            let ok = match (self.a.look(*n), e) {
                (Look::Leaf(x), None) => x == *code,
                (Look::Node(h), Some((h0, ks))) => h == *h0 && self.a.nkids(*n) == ks.len() && (0..ks.len()).all(|i| self.a.kid(*n, i) == ks[i]),
                _ => false,
            };
            ensure!(ok, "{}: node {:?}, reachable from a root, changed under garbage collection", F::NAME, n);
        }
        c.add("nodes_unchanged_by_gc", snap.len() as u64);
        for (k, (cap, live)) in after.iter().enumerate() {
            // terminals that always exist + everything reachable
            let sub: Vec<u8> = if F::FIXED.len() == 2 { vec![1, 0] } else { vec![F::KINDS[0]] };
            let mut want = F::FIXED[k];
            for (n, (code, e)) in &snap {
                if n.t == sub[k] {
                    let fixed = e.is_none() && (F::FIXED[k] == 3 || *code == U);
                    if !fixed {
                        want += 1;
                    }
                }
            }
            ensure!(*live == want, "{}: after garbage collection {} nodes are live, but {} are reachable from the roots (with the permanent terminals)", F::NAME, live, want);
            ensure!(*cap == before[k].0, "{}: garbage collection changed the table size", F::NAME);
        }
        let freed: usize = before.iter().map(|x| x.1).sum::<usize>() - after.iter().map(|x| x.1).sum::<usize>();
        if fresh {
            ensure!(ret == freed, "{}: gc() reported {} reclaimed slots, the live count fell by {}", F::NAME, ret, freed);
        }
        c.add("slots_reclaimed", freed as u64);
        ensure!(self.a.live() == after.iter().map(|x| x.1).sum::<usize>(), "live_node_count disagrees with the sub-forests");
        Ok(())
    }
}

pub fn gc_case<F: Forest>(c: &mut Case) -> R {
    let big = c.rng.chance(1, 8);
    let dom = Dom::random(&mut c.rng, F::BIN, big);
    let ord = order(&mut c.rng, dom.n());
    c.log(|| format!("{} radices {:?} levels {:?} declared {:?}", F::NAME, dom.rad, dom.lev, ord));
    let mut t = Twin { a: F::build(&dom, &ord), b: F::build(&dom, &ord), pool: Vec::new() };
    for _ in 0..4 + 2 * F::KINDS.len() {
        t.push_fn(&mut c.rng, &dom);
    }
    let rounds = 2 + c.rng.below(4);
    for _ in 0..rounds {
        for _ in 0..10 {
            t.rand_op(c)?;
            if c.rng.chance(1, 3) {
                t.push_fn(&mut c.rng, &dom);
            }
        }
        // forget part of the pool, collect once or more
        let old: Vec<(Nd, Nd)> = t.pool.clone();
        c.rng.shuffle(&mut t.pool);
        let keep = c.rng.below(6);
        t.pool.truncate(keep);
        t.collect(c)?;
        let caps = t.a.caps();
        let slack: Vec<usize> = caps.iter().map(|(a, b)| a - b).collect();
        // reclaimed slots are reused by different functions
        while t.pool.len() < 5 + F::KINDS.len() {
            t.push_fn(&mut c.rng, &dom);
        }
        let caps2 = t.a.caps();
        for k in 0..caps2.len() {
            let want = caps[k].0.max(caps2[k].1);
            ensure!(caps2[k].0 == want, "{}: the node table grew from {} to {} with {} live nodes although {} reclaimed slots were available", F::NAME, caps[k].0, caps2[k].0, caps2[k].1, slack[k]);
            c.add("slots_reused", (caps2[k].1 - caps[k].1).min(slack[k]) as u64);
        }
        let reused: HashSet<Nd> = old.iter().map(|x| x.0).collect();
        if t.pool.iter().any(|p| reused.contains(&p.0)) {
            c.count("rounds_with_root_id_reuse");
        }
        // all pairs on the new population: stale memo entries or unique-table entries show
        let n = t.pool.len().min(9);
        let base: Vec<(Nd, Nd)> = t.pool[..n].to_vec();
        t.all_pairs(c, 9)?;
        for &(x, y) in &base {
            t.judge(x, y, "a kept function")?;
        }
        c.seen(&(F::NAME, c.idx, hash_of(&base), t.a.live()));
        t.pool.truncate(24);
    }
    if c.rng.chance(1, 3) {
        // everything is garbage
        t.pool.clear();
        t.collect(c)?;
        for _ in 0..6 {
            t.push_fn(&mut c.rng, &dom);
            let &(x, y) = t.pool.last().unwrap();
            t.judge(x, y, "a function built after collecting everything")?;
        }
        for _ in 0..10 {
            t.rand_op(c)?;
        }
    }
    Ok(())
}

/// Very many collections (and cache clears) of one small forest: whatever numbers them may wrap
/// around. Slots stay unused for the whole period, then they are taken again.
pub fn gc_wrap<F: Forest>(c: &mut Case, period: usize) -> R {
    let dom = Dom::random(&mut c.rng, F::BIN, false);
    let ord = order(&mut c.rng, dom.n());
    c.log(|| format!("{} radices {:?} levels {:?} declared {:?}, period {}", F::NAME, dom.rad, dom.lev, ord, period));
    let mut t = Twin { a: F::build(&dom, &ord), b: F::build(&dom, &ord), pool: Vec::new() };
    for _ in 0..4 + 3 * F::KINDS.len() {
        t.push_fn(&mut c.rng, &dom);
    }
    t.all_pairs(c, 7)?;
    t.pool.truncate(12);
    t.collect(c)?;
    let old = t.pool.clone();
    let keep = c.rng.below(4);
    t.pool.truncate(keep);
    let roots: Vec<Nd> = t.pool.iter().map(|x| x.0).collect();
    // a collection goes over all slots: a forest grown large gets the short period
    let slots: usize = t.a.caps().iter().map(|x| x.0).sum();
    let period = if slots > 3000 { period.min(1 << 8) } else { period };
    let mode = c.rng.below(3);
    let stir = c.rng.chance(1, 3);
    let start = 1 + c.rng.below(2);
    for r in start..period.saturating_sub(3) {
        if mode > 0 {
            t.a.clear();
            c.count("clears");
        }
        if mode < 2 || r == period / 2 {
            t.a.gc(&roots);
            c.count("gc");
        }
        if stir && r % 64 == 9 {
            let k = *c.rng.pick(F::KINDS);
            rand_fn(&mut t.a, &mut c.rng, &dom, k);
        }
    }
    for round in 0..8 {
        if round % 2 == 0 {
            for _ in 0..3 {
                t.push_fn(&mut c.rng, &dom);
            }
        }
        t.all_pairs(c, 8)?;
        t.pool.truncate(14);
        if mode > 0 {
            t.a.clear();
        }
        if mode < 2 {
            t.collect(c)?;
        }
        for i in 0..t.pool.len() {
            let (x, y) = t.pool[i];
            t.judge(x, y, "a function kept through very many collections")?;
        }
    }
    let reused: HashSet<Nd> = old.iter().map(|x| x.0).collect();
    if t.pool.iter().any(|p| reused.contains(&p.0)) {
        c.count("rounds_with_root_id_reuse");
    }
    c.max("collections_of_one_forest", period as u64);
    c.seen(&(F::NAME, c.idx, period));
    Ok(())
}
/// Which cases are `gc_wrap` cases, and with which period.
pub fn wrap_period(c: &Case) -> Option<usize> {
    if c.idx >= 8 && c.idx < 12 {
        return Some(1 << 16);
    }
    (c.idx % 251 >= 20 && c.idx % 251 < 24).then_some(1 << 8)
}

/// Collections in which next to nothing dies: one operand of the operations just done, while
/// their other operands, their results and everything else stays. A later function takes over
/// the freed slots and the same operations are done with the same partners.
pub fn gc_narrow<F: Forest>(c: &mut Case) -> R {
    let dom = Dom::random(&mut c.rng, F::BIN, false);
    let ord = order(&mut c.rng, dom.n());
    c.log(|| format!("{} radices {:?} levels {:?} declared {:?}", F::NAME, dom.rad, dom.lev, ord));
    let mut t = Twin { a: F::build(&dom, &ord), b: F::build(&dom, &ord), pool: Vec::new() };
    for _ in 0..3 + 2 * F::KINDS.len() {
        t.push_fn(&mut c.rng, &dom);
    }
    let kt = *c.rng.pick(F::KINDS);
    let base = t.pool.len();
    let subs: Vec<u8> = if F::FIXED.len() == 2 { vec![1, 0] } else { vec![F::KINDS[0]] };
    let cap0: Vec<usize> = t.a.caps().iter().map(|x| x.0).collect();
    // what is done with the short-lived function; usize::MAX stands for it
    let mut script: Vec<(usize, Vec<usize>)> = Vec::new();
    for _ in 0..30 {
        let o = c.rng.below(F::OPS.len());
        let pos: Vec<usize> = (0..F::OPS[o].args.len()).filter(|&i| F::OPS[o].args[i] == kt).collect();
        if pos.is_empty() {
            continue;
        }
        let at = *c.rng.pick(&pos);
        let mut idx = Vec::new();
        for (i, &k) in F::OPS[o].args.iter().enumerate() {
            let cs: Vec<usize> = (0..base).filter(|&j| t.pool[j].0.t == k).collect();
            if i == at {
                idx.push(usize::MAX);
            } else if let Some(&j) = (!cs.is_empty()).then(|| c.rng.pick(&cs)) {
                idx.push(j);
            }
        }
        if idx.len() == F::OPS[o].args.len() {
            script.push((o, idx));
        }
        if script.len() >= 10 {
            break;
        }
    }
    let single = c.rng.chance(2, 3);
    let protect = c.rng.chance(3, 4);
    for _ in 0..3 + c.rng.below(4) {
        let at = t.pool.len();
        if single {
            // one node on top of functions already there
            let v = c.rng.below(dom.n());
            let below: Vec<usize> = (0..base)
                .filter(|&j| t.pool[j].0.t == kt && t.a.level_of(t.pool[j].0).map_or(true, |l| l < dom.lev[v]))
                .collect();
            let mut ka = Vec::new();
            let mut kb = Vec::new();
            for _ in 0..dom.rad[v] {
                if !below.is_empty() && c.rng.chance(2, 3) {
                    let j = *c.rng.pick(&below);
                    ka.push(t.pool[j].0);
                    kb.push(t.pool[j].1);
                } else {
                    let code = small_leaf::<F>(&mut c.rng, kt);
                    ka.push(t.a.leaf(kt, code));
                    kb.push(t.b.leaf(kt, code));
                }
            }
            let x = t.a.mk(v, &ka);
            let y = t.b.mk(v, &kb);
            t.pool.push((x, y));
        } else {
            let mut r1 = c.rng.clone();
            let x = rand_fn(&mut t.a, &mut r1, &dom, kt);
            let y = rand_fn(&mut t.b, &mut c.rng, &dom, kt);
            t.pool.push((x, y));
        }
        for (o, idx) in &script {
            let idx: Vec<usize> = idx.iter().map(|&j| if j == usize::MAX { at } else { j }).collect();
            t.op(c, *o, &idx)?;
        }
        let gone = t.pool.remove(at).0;
        let mut extra = Vec::new();
        for (k, (cap, _)) in t.a.caps().iter().enumerate() {
            let upto = if protect && subs[k] != kt { *cap } else { cap0[k] };
            extra.extend((0..upto).map(|id| Nd { t: subs[k], id }));
        }
        t.collect_with(c, &extra)?;
        c.count("narrow_collections");
        if c.rng.chance(1, 3) {
            t.pool.truncate(base);
        } else if t.pool.len() > base + 40 {
            t.pool.truncate(base + 40);
        }
        c.seen(&(F::NAME, c.idx, gone, t.a.live()));
    }
    for i in 0..base {
        let (x, y) = t.pool[i];
        t.judge(x, y, "a kept function")?;
    }
    Ok(())
}

// ------------------------------------------------------------- memo transparency

/// Results in a manager with a long history are those of a fresh manager.
pub fn cache_case<F: Forest>(c: &mut Case, heavy: bool) -> R {
    let dom = if heavy {
        let n = if F::BIN { 16 } else { 9 };
        let rad = (0..n).map(|_| if F::BIN { 2 } else { 2 + c.rng.below(2) }).collect();
        Dom::new(&mut c.rng, rad, 8, true)
    } else {
        Dom::random(&mut c.rng, F::BIN, false)
    };
    let ord = order(&mut c.rng, dom.n());
    let mut f = F::build(&dom, &ord);
    c.log(|| format!("{} radices {:?} levels {:?} declared {:?}", F::NAME, dom.rad, dom.lev, ord));
    if heavy && c.rng.chance(1, 2) {
        junk(&mut f, &mut c.rng, &dom, 80_000);
        if f.live() > 1 << 16 {
            c.count("histories_beyond_65536_nodes");
        }
    }
    let mut pool = Vec::new();
    for _ in 0..if heavy { 24 } else { 8 } {
        for &kind in F::KINDS {
            let n = if heavy {
                let k = 60 + c.rng.below(80);
                rand_dag(&mut f, &mut c.rng, &dom, kind, k, true)
            } else {
                rand_fn(&mut f, &mut c.rng, &dom, kind)
            };
            pool.push(n);
        }
    }
    let mut hist: Vec<(usize, Vec<Nd>, Nd)> = Vec::new();
    let steps = if heavy { 500 } else { 150 };
    for s in 0..steps {
        let o = c.rng.below(F::OPS.len());
        if heavy && (F::NAME == "zdd" && o > 2 || matches!(F::OPS[o].name, "add" | "sub" | "mul")) && c.rng.chance(3, 4) {
            continue;
        }
        let a = if !hist.is_empty() && c.rng.chance(1, 3) && !heavy {
            // another operation on operands that were just used together
            let (_, a, _) = c.rng.pick(&hist).clone();
            let mut a = a;
            if c.rng.chance(1, 2) {
                a.reverse();
            }
            if a.len() == F::OPS[o].args.len() && a.iter().zip(F::OPS[o].args).all(|(x, k)| x.t == *k) {
                a
            } else {
                continue;
            }
        } else {
            match pick_args::<F>(&mut c.rng, &pool, o) {
                Some(a) => a,
                None => continue,
            }
        };
        if !legal(&f, o, &a) {
            continue;
        }
        let r = f.apply(o, &a);
        c.log(|| format!("{} {:?} -> {:?}", F::OPS[o].name, a, r));
        c.count("ops_with_history");
        hist.push((o, a, r));
        if c.rng.chance(1, 3) && reach(&f, &[r]).len() < 600 {
            pool.push(r);
        }
        if pool.len() > 80 {
            pool.drain(..40);
        }
        if !heavy && c.rng.chance(1, 40) {
            // collection keeps only part of the memo
            c.rng.shuffle(&mut pool);
            let k = (pool.len() / 2).max(2);
            pool.truncate(k);
            f.gc(&pool);
            hist.clear();
            c.count("gc");
            for &kind in F::KINDS {
                let n = rand_fn(&mut f, &mut c.rng, &dom, kind);
                pool.push(n);
            }
        }
        if heavy && s % 50 == 0 {
            c.max("memo_entries", f.memo_len() as u64);
        }
        if !heavy && c.rng.chance(1, 60) {
            f.clear();
        }
    }
    c.max("memo_entries", f.memo_len() as u64);
    // judge
    let checks = if heavy { 60 } else { 40 };
    for _ in 0..checks.min(hist.len()) {
        let (o, a, r) = c.rng.pick(&hist).clone();
        // again, with the memo as it is
        let r2 = f.apply(o, &a);
        ensure!(r2 == r, "{}: {} on the same operands gave {:?} first and {:?} later", F::NAME, F::OPS[o].name, r, r2);
        // in a fresh manager
        let mut g = F::build(&dom, &ord);
        let mut memo = HashMap::new();
        let b: Vec<Nd> = a.iter().map(|&n| copy_into(&f, &mut g, n, &mut memo)).collect();
        let s = g.apply(o, &b);
        same(&f, r, &g, s, &mut HashSet::new()).map_err(|e| format!("{}: {} in a manager with history differs from a fresh manager: {}", F::NAME, F::OPS[o].name, e))?;
        c.count("compared_with_fresh_manager");
        c.seen(&(F::NAME, c.idx, o, &a));
    }
    f.clear();
    ensure!(f.memo_len() == 0, "{}: {} memo entries are left after clear_cache", F::NAME, f.memo_len());
    for _ in 0..20.min(hist.len()) {
        let (o, a, r) = c.rng.pick(&hist).clone();
        let r2 = f.apply(o, &a);
        ensure!(r2 == r, "{}: {} gave {:?} before clear_cache and {:?} after", F::NAME, F::OPS[o].name, r, r2);
        c.count("compared_after_clear");
    }
    Ok(())
}

/// `set_baseline` makes the all-zero vector a member and changes nothing else.
pub fn baseline_case<V: Val>(c: &mut Case) -> R {
    let dom = Dom::random(&mut c.rng, false, false);
    let ord = order(&mut c.rng, dom.n());
    let mut f = FZm::<V>::build(&dom, &ord);
    for _ in 0..12 {
        let n = rand_fn(&mut f, &mut c.rng, &dom, 1);
        let before = table(&f, &dom, n)?;
        let v = c.rng.range(-2, 3);
        let r = v1(f.m.set_baseline(n.id, V::of(v)));
        let mut want = before.clone();
        if want[0] == U {
            want[0] = v;
            c.count("baselines_added");
        } else {
            ensure!(r == n, "set_baseline on a family that has the baseline gave another node");
            c.count("baselines_present");
        }
        let got = table(&f, &dom, r)?;
        ensure!(got == want, "set_baseline({}) of {:?} is {:?}", v, before, got);
        ensure!(table(&f, &dom, n)? == before, "set_baseline changed its operand");
        ensure!(rebuild(&mut f, &dom, 1, &want) == r, "set_baseline gave a node that is not the canonical one");
        check_shape(&f, &dom, &[r, n])?;
        c.seen(&(before, v));
        if c.rng.chance(1, 4) {
            f.gc(&[r]);
            ensure!(table(&f, &dom, r)? == want, "collection changed the family");
        }
    }
    Ok(())
}
