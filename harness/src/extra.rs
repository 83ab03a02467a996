//! Monitors for the compute cache on its own, the Graphviz pictures, and the cost of the
//! analyses on diagrams with astronomically many paths.
use crate::bssm;
use crate::engine::*;
use crate::ensure;
use crate::generic::*;
use crate::mssm;
use crate::num::*;
use crate::rt::*;
use common::prelude::ComputeCache;
use std::collections::{HashMap, HashSet};

// ---------------------------------------------------------------- P13
type Key = (u32, u32, u32);
/// A table filled far beyond its largest size. Keys and values are computed from a counter, so
/// that a lookup can be judged without remembering what was stored.
fn cachetab_huge(c: &mut Case) -> R {
    let mut t = ComputeCache::new();
    let ids = 1u64 << 24;
    let salt = c.rng.next();
    fn mix(mut x: u64) -> u64 {
        x = (x ^ x >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ x >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ x >> 31
    }
    // mostly runs of neighbouring keys, some scattered ones
    let key = |i: u64| -> Key {
        if i % 16 == 15 {
            let h = mix(i ^ salt);
            ((i % 3) as u32, (h % ids) as u32, (h >> 40) as u32)
        } else {
            (3, 7, i as u32)
        }
    };
    let val = |k: Key, gen: u64| -> u32 { (mix(k.0 as u64 ^ (k.1 as u64) << 8 ^ (k.2 as u64) << 32 ^ gen << 60 ^ salt) % ids) as u32 };
    let top = 15_500_000u64;
    let mut hits = 0u64;
    for i in 0..top {
        let k = key(i);
        let v = val(k, 0);
        t.put(k.0, k.1, k.2, v);
        if i % 8 == 0 {
            let j = c.rng.next() % (i + 1000);
            let q = key(j);
            if let Some(x) = t.get(q.0, q.1, q.2) {
                ensure!(x == val(q, 0), "with {} entries get({:?}) answered {}, every put stored {}", t.len(), q, x, val(q, 0));
                hits += 1;
            }
        }
    }
    c.max("entries_in_one_table", t.len() as u64);
    // overwrite a part
    let gen = 1;
    for i in (0..top).step_by(7) {
        let k = key(i);
        t.put(k.0, k.1, k.2, val(k, gen));
        let g = t.get(k.0, k.1, k.2);
        ensure!(g.is_none() || g == Some(val(k, gen)), "after overwriting get({:?}) answered {:?}", k, g);
    }
    let live: Vec<bool> = (0..ids).map(|i| i == 0 || mix(i ^ salt) % 3 > 0).collect();
    t.retain_live(&live);
    for i in (0..top).step_by(3) {
        let k = key(i);
        if let Some(x) = t.get(k.0, k.1, k.2) {
            ensure!(x == val(k, 0) || x == val(k, gen), "after a liveness scan get({:?}) answered {}", k, x);
            ensure!(live[k.1 as usize] && live[k.2 as usize] && live[x as usize], "after a liveness scan get({:?}) answered {} although a node it mentions is dead", k, x);
            hits += 1;
        }
    }
    t.clear();
    for i in (0..top).step_by(5) {
        let k = key(i);
        ensure!(t.get(k.0, k.1, k.2).is_none(), "a cleared table answers for {:?}", k);
    }
    c.add("entries_recalled", hits);
    c.count("tables_beyond_the_largest_size");
    Ok(())
}
/// Very many clears or liveness scans of one table: whatever counts them may wrap around, and
/// what was forgotten long ago must stay forgotten.
fn cachetab_wrap(c: &mut Case, period: usize) -> R {
    let mut t = ComputeCache::new();
    let ids = 40usize;
    let mode = c.rng.below(4);
    let lag = c.rng.below(3); // clears before the entries are made
    for _ in 0..lag {
        t.clear();
    }
    let key = |rng: &mut Rng| -> Key { (rng.below(4) as u32, rng.below(ids) as u32, rng.below(ids) as u32) };
    let mut old: HashMap<Key, u32> = HashMap::new();
    for _ in 0..60 {
        let k = key(&mut c.rng);
        let v = c.rng.below(ids) as u32;
        t.put(k.0, k.1, k.2, v);
        old.insert(k, v);
    }
    let none = {
        let mut l = vec![false; ids];
        l[0] = true;
        l
    };
    // one entry that stays alive through every scan and is dead at the end
    let all = vec![true; ids];
    let last = {
        let mut l = all.clone();
        l[7] = false;
        l
    };
    let steady: Key = (1, 7, 7);
    for r in 1..=period + 3 {
        match mode {
            0 => t.clear(),
            1 => t.retain_live(if r == 1 { &none } else { &all }),
            2 => t.retain_live3(if r == 1 { &none } else { &all }),
            _ if r == period / 2 => t.retain_live(&none),
            _ => t.clear(),
        }
        c.count(if mode == 0 || mode == 3 { "clears" } else { "liveness_scans" });
        if r == 1 {
            // an entry of nothing but the permanent terminal may stay
            if mode == 1 || mode == 2 {
                old.retain(|k, v| (k.1, k.2, *v) != (0, 0, 0));
            }
            t.put(steady.0, steady.1, steady.2, 9);
        }
        let near = (r + 4) % 256 < 8 || r < 3 || (r + 4) % (1 << 12) < 8;
        if near {
            for (k, v) in &old {
                if *k == steady {
                    continue;
                }
                let g = t.get(k.0, k.1, k.2);
                ensure!(g.is_none(), "{} {} ago get({:?}) was forgotten (value {}), now it answers {:?}", r, if mode == 0 || mode == 3 { "clears" } else { "scans" }, k, v, g);
                c.count("probes");
            }
            let g = t.get(steady.0, steady.1, steady.2);
            ensure!(g.is_none() || g == Some(9) && (mode == 1 || mode == 2 || r == 1), "get({:?}) answered {:?} after {} rounds of kind {}", steady, g, r, mode);
        }
    }
    if mode == 1 || mode == 2 {
        t.retain_live(&last);
        let g = t.get(steady.0, steady.1, steady.2);
        ensure!(g.is_none(), "after {} liveness scans an entry about a dead node is still answered: {:?}", period + 4, g);
    }
    c.max("invalidations_of_one_table", period as u64 + 3);
    Ok(())
}
pub fn cachetab_case(c: &mut Case) -> R {
    if c.idx == 6 || c.tier == Tier::Thorough && c.idx % 2000 == 6 {
        return cachetab_wrap(c, 1 << 16);
    }
    if c.idx % 89 == 12 {
        return cachetab_wrap(c, 1 << 8);
    }
    if c.idx == 5 || c.tier == Tier::Thorough && c.idx % 1000 == 5 {
        return cachetab_huge(c);
    }
    let mut t = ComputeCache::new();
    // last value put under each key since it was last invalidated
    let mut model: HashMap<Key, u32> = HashMap::new();
    let ids = *c.rng.pick(&[3usize, 20, 300, 5000, 70_000]);
    let wide = c.rng.chance(1, 5); // arbitrary 32-bit keys: no liveness scans
    let heavy = c.idx % 61 == 7;
    let steps = if heavy { 6 } else { 30 };
    ensure!(t.is_empty() && t.len() == 0, "a new table reports {} entries", t.len());
    for _ in 0..steps {
        match c.rng.below(10) {
            0..=6 => {
                let k = if heavy { 20_000 + c.rng.below(40_000) } else { 1 + c.rng.below(400) };
                let style = c.rng.below(4);
                let base = c.rng.below(ids) as u32;
                for i in 0..k {
                    let key: Key = if wide {
                        match style {
                            0 => (c.rng.next() as u32, c.rng.next() as u32, c.rng.next() as u32),
                            1 => ((c.rng.next() as u32) << 20, (c.rng.next() as u32) << 16, u32::MAX - c.rng.below(3) as u32),
                            _ => (c.rng.below(4) as u32, u32::MAX - i as u32, c.rng.next() as u32),
                        }
                    } else {
                        match style {
                            // operation code, two ids; permutations of the same words
                            0 => {
                                let a = c.rng.below(ids) as u32;
                                let b = c.rng.below(ids) as u32;
                                let o = c.rng.below(3.min(ids)) as u32;
                                *c.rng.pick(&[(o, a, b), (o, b, a), (a, o, b)])
                            }
                            1 => ((c.rng.below(8) % ids) as u32, (base + i as u32) % ids as u32, ((i * 7) % ids) as u32),
                            _ => (c.rng.below(ids) as u32, c.rng.below(ids) as u32, c.rng.below(ids) as u32),
                        }
                    };
                    let v = if wide { (c.rng.next() as u32).min(u32::MAX - 1) } else { c.rng.below(ids) as u32 };
                    let pre = t.get(key.0, key.1, key.2);
                    ensure!(pre.is_none() || pre == model.get(&key).copied(), "get({:?}) answered {:?}, last put was {:?}", key, pre, model.get(&key));
                    t.put(key.0, key.1, key.2, v);
                    let got = t.get(key.0, key.1, key.2);
                    ensure!(got.is_none() || got == Some(v), "get({:?}) right after put({}) answered {:?}", key, v, got);
                    model.insert(key, v);
                    c.count("puts");
                    // keys that share words with it
                    for q in [(key.1, key.0, key.2), (key.0, key.2, key.1), (key.0, key.1, key.2.wrapping_add(1)), (key.0.wrapping_add(1), key.1, key.2)] {
                        let g = t.get(q.0, q.1, q.2);
                        ensure!(g.is_none() || g == model.get(&q).copied(), "get({:?}) answered {:?}, last put was {:?}", q, g, model.get(&q));
                        c.count("probes");
                    }
                }
            }
            7 | 8 if !wide => {
                let dens = c.rng.below(4);
                let mut live: Vec<bool> = (0..ids).map(|_| c.rng.below(4) < 1 + dens).collect();
                live[0] = true;
                let three = c.rng.chance(1, 2);
                if three {
                    t.retain_live3(&live);
                } else {
                    t.retain_live(&live);
                }
                let ok = |k: &Key, v: u32| live[k.1 as usize] && live[k.2 as usize] && live[v as usize] && (!three || live[k.0 as usize]);
                model.retain(|k, v| ok(k, *v));
                c.count("liveness_scans");
            }
            9 => {
                t.clear();
                model.clear();
                c.count("clears");
                ensure!(t.is_empty(), "a cleared table is not empty");
            }
            _ => {}
        }
        // everything the model knows about, and everything it has forgotten
        let mut hits = 0usize;
        for (k, v) in &model {
            match t.get(k.0, k.1, k.2) {
                None => {}
                Some(x) => {
                    ensure!(x == *v, "get({:?}) answered {}, last put was {}", k, x, v);
                    hits += 1;
                }
            }
        }
        c.add("entries_recalled", hits as u64);
        c.add("entries_lost", (model.len() - hits) as u64);
        c.max("entries_in_one_table", hits as u64);
        ensure!(t.len() == hits && t.is_empty() == (hits == 0), "len() is {}, but {} entries can be retrieved: something answers for a key that was never put or should be gone", t.len(), hits);
        if hits > 12_288 {
            c.count("tables_grown");
        }
        c.seen(&(hits, model.len(), t.len(), ids));
    }
    Ok(())
}

// ---------------------------------------------------------------- P30
#[derive(Default)]
struct Pic {
    /// name -> (label, round?)
    nodes: HashMap<String, String>,
    edges: HashMap<String, HashMap<String, String>>,
    root: String,
}
fn quoted(s: &str) -> Option<(&str, &str)> {
    let s = s.trim_start().strip_prefix('"')?;
    let e = s.find('"')?;
    Some((&s[..e], &s[e + 1..]))
}
fn label(s: &str) -> Option<&str> {
    let i = s.find("label")?;
    let r = s[i + 5..].trim_start().strip_prefix('=')?;
    quoted(r).map(|x| x.0)
}
fn parse(text: &str) -> Result<Pic, String> {
    let open = text.find('{').ok_or("no graph")?;
    ensure!(text[..open].trim().ends_with("digraph") || text[..open].trim().starts_with("digraph"), "not a digraph: {}", &text[..open]);
    let close = text.rfind('}').ok_or("unterminated graph")?;
    ensure!(text[close + 1..].trim().is_empty() && close > open, "text after the graph");
    let mut p = Pic::default();
    let mut target: HashSet<String> = HashSet::new();
    for st in text[open + 1..close].split(';') {
        let st = st.trim();
        let (a, rest) = match quoted(st) {
            Some(x) => x,
            None => continue, // graph attributes
        };
        let rest = rest.trim_start();
        if let Some(r) = rest.strip_prefix("->") {
            let (b, attrs) = quoted(r).ok_or_else(|| format!("bad edge: {}", st))?;
            let l = label(attrs).ok_or_else(|| format!("edge without label: {}", st))?;
            let old = p.edges.entry(a.to_string()).or_default().insert(l.to_string(), b.to_string());
            ensure!(old.is_none(), "two edges labelled {} leave {}", l, a);
            target.insert(b.to_string());
        } else {
            let l = label(rest).ok_or_else(|| format!("node without label: {}", st))?;
            let old = p.nodes.insert(a.to_string(), l.to_string());
            ensure!(old.is_none(), "node {} is drawn twice", a);
        }
    }
    for (a, m) in &p.edges {
        ensure!(p.nodes.contains_key(a), "edge from {}, which is not drawn", a);
        for b in m.values() {
            ensure!(p.nodes.contains_key(b), "edge to {}, which is not drawn", b);
        }
    }
    let roots: Vec<&String> = p.nodes.keys().filter(|n| !target.contains(*n)).collect();
    ensure!(roots.len() == 1, "the picture has {} nodes without an incoming edge, expected the root only", roots.len());
    p.root = roots[0].clone();
    Ok(p)
}
/// Follow the picture; None = the edge is not drawn.
fn follow<'a>(p: &'a Pic, state: &dyn Fn(&str) -> Option<usize>, met: &mut Vec<&'a str>) -> Result<Option<&'a str>, String> {
    let mut cur = &p.root;
    for _ in 0..=p.nodes.len() {
        let l = &p.nodes[cur];
        match p.edges.get(cur) {
            None => return Ok(Some(l)),
            Some(m) => {
                let s = state(l).ok_or_else(|| format!("node {} has edges but its label {:?} is no variable", cur, l))?;
                met.push(l);
                match m.get(&s.to_string()) {
                    None => return Ok(None),
                    Some(b) => cur = b,
                }
            }
        }
    }
    Err("the picture has a cycle".into())
}
fn leaf_code(l: &str, kind: u8) -> Option<i64> {
    match (l, kind) {
        ("0" | "F", 0) => Some(0),
        ("1" | "T", 0) => Some(1),
        ("?" | "*" | "Undet", _) => Some(U),
        (_, 1) => l.parse().ok(),
        _ => None,
    }
}
pub fn dot_case<F: Forest>(c: &mut Case) -> R {
    let big = c.rng.chance(1, 8);
    let dom = Dom::random(&mut c.rng, F::BIN, big);
    let ord = order(&mut c.rng, dom.n());
    let mut f = F::build(&dom, &ord);
    let mut pool: Vec<Nd> = Vec::new();
    for _ in 0..4 {
        let kind = *c.rng.pick(F::KINDS);
        let n = if dom.full && c.rng.chance(1, 3) && F::NAME != "zdd" {
            let mut t = rand_table::<F>(&mut c.rng, &dom, kind);
            for x in t.iter_mut() {
                if c.rng.chance(1, 5) {
                    *x = U;
                }
            }
            rebuild(&mut f, &dom, kind, &t)
        } else if c.rng.chance(1, 12) {
            let v = F::rand_leaf(&mut c.rng, kind);
            f.leaf(kind, v)
        } else {
            rand_fn(&mut f, &mut c.rng, &dom, kind)
        };
        pool.push(n);
        if c.rng.chance(1, 4) {
            f.gc(&pool);
        }
    }
    for &n in &pool {
        let text = f.dot(n);
        let ctx = |m: String| format!("{} picture of node {:?}: {}", F::NAME, n, m);
        let p = parse(&text).map_err(ctx)?;
        for pt in &dom.pts {
            let want = eval(&f, &dom, n, pt)?;
            let mut met = Vec::new();
            let state = |l: &str| l.strip_prefix('v').and_then(|x| x.parse::<usize>().ok()).filter(|&v| v < dom.n()).map(|v| pt[v] as usize);
            let got = follow(&p, &state, &mut met).map_err(ctx)?;
            let mut got = match got {
                // not drawn: the terminal that stands for nothing
                None => Some(if F::ZS { F::absent() } else { U }),
                Some(l) => leaf_code(l, if F::NAME == "zmdd" || F::NAME == "mtmdd" { 1 } else { n.t }),
            };
            if F::ZS && (0..dom.n()).any(|v| pt[v] != 0 && !met.contains(&format!("v{}", v).as_str())) {
                got = Some(F::absent());
            }
            ensure!(got == Some(want), "{} picture of node {:?}: following it at the point {:?} ends at {:?}, the diagram says {}", F::NAME, n, pt, got, want);
            c.count("points_followed");
        }
        let drawn = reach(&f, &[n]);
        let inner = drawn.values().filter(|e| e.is_some()).count();
        let pin = p.nodes.keys().filter(|k| p.edges.contains_key(*k)).count();
        // a node all of whose edges are omitted cannot exist in a reduced diagram
        ensure!(inner == pin, "{} picture of node {:?}: {} inner nodes drawn, the diagram has {}", F::NAME, n, pin, inner);
        c.count("pictures_followed");
        c.max("nodes_in_one_picture", p.nodes.len() as u64);
        c.seen(&(F::NAME, text));
    }
    Ok(())
}
/// The pictures offered by the handles.
pub fn dot_handles(c: &mut Case) -> R {
    let n = c.rng.below(6);
    let b = bssm::new_bs(c, n);
    let ix = |names: &[String], l: &str| names.iter().position(|x| x == l);
    let (f, t) = bssm::any_fn(c, &b);
    let p = parse(&f.dot())?;
    for (x, &want) in t.iter().enumerate() {
        let got = follow(&p, &|l| ix(&b.names, l).map(|i| x >> i & 1), &mut Vec::new())?;
        ensure!(got.and_then(|l| leaf_code(l, 0)) == Some(want as i64), "picture of a binary function at {:b}: {:?}, expected {}", x, got, want);
        c.count("points_followed");
    }
    let mt = bssm::mono_tab(c, n);
    let g = bssm::build_tab(&b, &mt);
    for cut in [false, true] {
        let z = if cut { b.m.mincut(&g) } else { b.m.minpath(&g) }.ok_or("monotone function refused")?;
        let fam = bssm::fam_of_zdd(&z, "family")?;
        let p = parse(&z.dot())?;
        for x in 0..1usize << n {
            let mut met = Vec::new();
            let got = follow(&p, &|l| ix(&b.names, l).map(|i| x >> i & 1), &mut met)?;
            let all = (0..n).all(|i| x >> i & 1 == 0 || met.contains(&b.names[i].as_str()));
            let member = all && got == Some("1");
            let set: bssm::Set = (0..n).filter(|i| x >> i & 1 == 1).map(|i| b.names[i].clone()).collect();
            ensure!(member == fam.contains(&set), "picture of a family: {:?} is {}a member there", set, if member { "" } else { "not " });
            c.count("points_followed");
        }
    }
    c.count("handle_pictures");
    let s: mssm::Ms<i32> = mssm::new_ms(c, 4, 80);
    let bo = c.rng.chance(1, 2);
    let (f, x) = mssm::any_fn(c, &s, bo, true);
    let p = parse(&f.dot())?;
    for (k, pt) in s.pts.iter().enumerate() {
        let got = follow(&p, &|l| ix(&s.names, l).map(|i| pt[i]), &mut Vec::new())?;
        let got = match got {
            None => Some(U),
            Some(l) => leaf_code(l, !x.b as u8),
        };
        ensure!(got == Some(x.t[k]), "picture of a multi-state function at {:?}: {:?}, expected {}", pt, got, x.t[k]);
        c.count("points_followed");
    }
    let x = mssm::mono_t(c, &s, bo);
    let f = mssm::build(&s, &x);
    for cut in [false, true] {
        let z = if cut { s.m.mincut(&f) } else { s.m.minpath(&f) }.ok_or("monotone function refused")?;
        let mut model: HashMap<Vec<usize>, i64> = HashMap::new();
        for l in z.labels() {
            for m in z.extract(&[l].into_iter().collect()) {
                model.insert(s.names.iter().map(|n| m[n]).collect(), l as i64);
            }
        }
        let p = parse(&z.dot())?;
        for pt in &s.pts {
            // raw coordinates: levels below the top for cuts
            let d: Vec<usize> = (0..s.n()).map(|i| if cut { s.rad[i] - 1 - pt[i] } else { pt[i] }).collect();
            let mut met = Vec::new();
            let got = follow(&p, &|l| ix(&s.names, l).map(|i| d[i]), &mut met)?;
            let all = (0..s.n()).all(|i| d[i] == 0 || met.contains(&s.names[i].as_str()));
            let got = if all { got.and_then(|l| leaf_code(l, 1)).filter(|v| *v != U) } else { None };
            ensure!(got == model.get(pt).copied(), "picture of a {} family at {:?}: {:?}, expected {:?}", if cut { "cut" } else { "path" }, pt, got, model.get(pt));
            c.count("points_followed");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P31
/// A diagram with a few nodes per level and every level connected to the next: the number
/// of paths is exponential in the number of variables, the number of nodes linear.
fn ladder<F: Forest>(f: &mut F, rng: &mut Rng, dom: &Dom, kind: u8, width: usize) -> Nd {
    let mut vs: Vec<usize> = (0..dom.n()).collect();
    vs.sort_by_key(|&v| dom.lev[v]);
    let mut cur: Vec<Nd> = (0..width.max(2)).map(|i| f.leaf(kind, if kind == 0 { (i % 2) as i64 } else { i as i64 })).collect();
    cur.dedup();
    for &v in &vs {
        let mut next = Vec::new();
        for i in 0..width {
            let ks: Vec<Nd> = (0..dom.rad[v]).map(|j| if rng.chance(1, 6) { *rng.pick(&cur) } else { cur[(i + j) % cur.len()] }).collect();
            next.push(f.mk(v, &ks));
        }
        cur = next;
    }
    cur[0]
}
/// Paths from `n` to leaves, as a float.
fn paths<F: Forest>(f: &F, n: Nd, memo: &mut HashMap<Nd, f64>) -> f64 {
    if let Some(x) = memo.get(&n) {
        return *x;
    }
    let r = match f.look(n) {
        Look::Leaf(_) => 1.0,
        Look::Node(_) => (0..f.nkids(n)).map(|i| paths(f, f.kid(n, i), memo)).sum(),
    };
    memo.insert(n, r);
    r
}
pub fn cost_engine<F: Forest>(c: &mut Case) -> R {
    let nv = 40 + c.rng.below(21);
    let rad: Vec<usize> = (0..nv).map(|_| if F::BIN { 2 } else { 2 + c.rng.below(2) }).collect();
    let dom = Dom::new(&mut c.rng, rad, 8, true);
    let ord = order(&mut c.rng, nv);
    let mut f = F::build(&dom, &ord);
    let o = c.rng.below(F::OPS.len());
    let width = 2 + c.rng.below(2);
    let op = &F::OPS[o];
    let mut args: Vec<Nd> = vec![f.leaf(op.args[0], 1); op.args.len()];
    // operands are created in any order: ids tell nothing about positions
    for i in order(&mut c.rng, op.args.len()) {
        let k = op.args[i];
        let n = if (op.name == "product" || op.name == "divide") && i == 1 {
            // a single set: the result stays as small as the first operand
            let mut x = f.leaf(0, 1);
            let mut vs: Vec<usize> = (0..nv).collect();
            vs.sort_by_key(|&v| dom.lev[v]);
            for &v in &vs {
                if c.rng.chance(1, 8) {
                    let z = f.leaf(0, 0);
                    x = f.mk(v, &[z, x]);
                }
            }
            x
        } else {
            ladder(&mut f, &mut c.rng, &dom, k, width)
        };
        args[i] = n;
    }
    let mut memo = HashMap::new();
    let pc = args.iter().map(|a| paths(&f, *a, &mut memo)).fold(0.0, f64::max);
    if pc > 1e9 {
        c.count("operands_with_over_1e9_paths");
    }
    if !legal::<F>(&f, o, &args) {
        return Ok(());
    }
    let sizes: Vec<usize> = args.iter().map(|a| reach(&f, &[*a]).len()).collect();
    let live0 = f.live();
    c.log(|| format!("{} {} on operands of {:?} nodes and up to {:e} paths", F::NAME, op.name, sizes, pc));
    let r = f.apply(o, &args);
    let rs = reach(&f, &[r]).len();
    // generous: pairs (triples) of operand nodes, a few results for each
    let bound = 64 + 8 * sizes.iter().map(|s| *s as u64).product::<u64>();
    let made = f.live().saturating_sub(live0) as u64;
    ensure!(made <= bound && rs as u64 <= bound, "{} {}: operands of {:?} nodes gave a result of {} nodes, {} created on the way", F::NAME, op.name, sizes, rs, made);
    // once more, and again after a collection and with an empty memo
    ensure!(f.apply(o, &args) == r, "{} {}: repeating the operation gives another node", F::NAME, op.name);
    let mut roots = args.clone();
    roots.push(r);
    f.gc(&roots);
    f.clear();
    ensure!(f.apply(o, &args) == r, "{} {}: repeating the operation after a collection gives another node", F::NAME, op.name);
    let p = parse(&f.dot(r))?;
    ensure!(p.nodes.len() <= rs, "picture larger than the diagram");
    c.count("operations_costed");
    c.seen(&(F::NAME, o, sizes, rs));
    Ok(())
}
fn ticks<T>(f: impl FnOnce() -> T) -> (T, u64) {
    OPS.with(|c| c.set(0));
    let r = f();
    (r, OPS.with(|c| c.get()))
}
pub fn cost_bss(c: &mut Case) -> R {
    let n = 36 + c.rng.below(22);
    let b = bssm::new_bs(c, n);
    let f = match c.rng.below(4) {
        0 => {
            // parity: two nodes per level, 2^n paths
            let mut f = b.vars[0].clone();
            for v in &b.vars[1..] {
                f = f.xor(v);
            }
            f
        }
        1 => {
            let k = n / 3 + c.rng.below(n / 3);
            b.m.kofn(k, &b.vars)
        }
        _ => {
            let k = 3 * n;
            bssm::big_dag(c, &b, k)
        }
    };
    let (lv, nn) = bssm::levels_in(&f);
    let pv: HashMap<String, Cnt> = b.names.iter().map(|s| (s.clone(), Cnt(c.rng.f64()))).collect();
    c.log(|| format!("binary function of {} nodes over {} variables", nn, n));
    let ((), t) = ticks(|| {
        f.prob(&pv, &[true]);
    });
    ensure!(t <= 60 * nn as u64 + 100, "probability of a diagram with {} nodes took {} arithmetic operations", nn, t);
    c.max("arithmetic_per_node_x100_prob", if nn > 0 { 100 * t / nn as u64 } else { 0 });
    let ((), t) = ticks(|| {
        f.bmeas(&pv, &[true]);
    });
    ensure!(t <= 200 * nn as u64 + 100, "importance over a diagram with {} nodes took {} arithmetic operations", nn, t);
    c.max("arithmetic_per_node_x100_bmeas", if nn > 0 { 100 * t / nn as u64 } else { 0 });
    let a = f.bdd_count(&[true]);
    let z = f.bdd_count(&[false]);
    c.max("paths_counted", a.max(z));
    let _ = f.size();
    let d = f.dual();
    ensure!(bssm::levels_in(&d).1 == nn, "the dual of a diagram with {} nodes has {}", nn, bssm::levels_in(&d).1);
    ensure!(f.not().dual().eq(&d.not()), "negation and dual do not commute");
    // enumeration is incremental: the first few paths of very many
    // (all outcomes selected: a selective enumeration may have to search)
    ensure!(f.bdd_extract(&[true]).len() == a, "len {} of an enumeration, count {}", f.bdd_extract(&[true]).len(), a);
    let first: Vec<_> = f.bdd_extract(&[true, false]).take(4).collect();
    ensure!(first.len() as u64 == (a + z).min(4), "{} of the first 4 paths of {}", first.len(), a + z);
    let p = parse(&f.dot())?;
    ensure!(p.nodes.len() <= nn + 2, "picture of {} nodes for a diagram of {}", p.nodes.len(), nn);
    // monotone: families with very many members
    let k = n / 3 + c.rng.below(n / 3);
    let g = b.m.kofn(k, &b.vars);
    let mp = b.m.minpath(&g).ok_or("kofn refused")?;
    let mc = b.m.mincut(&g).ok_or("kofn refused")?;
    ensure!(mp.count(&[true]) == bssm::binom(n as u64, k as u64), "{} minimal paths of {}-of-{}", mp.count(&[true]), k, n);
    ensure!(mc.count(&[true]) == bssm::binom(n as u64, (n - k + 1) as u64), "{} minimal cuts of {}-of-{}", mc.count(&[true]), k, n);
    c.max("sets_counted", mp.count(&[true]));
    ensure!(mp.extract(&[true]).take(3).count() == 3, "first sets of a large family");
    ensure!(mp.union(&mc).intersect(&mp).eq(&mp), "absorption on large families");
    ensure!(mp.setdiff(&mp).is_zero(), "difference with itself");
    let h = f.and(&g).or(&f.not().and(&g));
    ensure!(h.eq(&g), "splitting a function on another and joining the parts gives another node");
    ensure!(f.ite(&g, &g).eq(&g) && f.ite(&b.m.one(), &b.m.zero()).eq(&f), "ite identities");
    c.count("analyses_costed");
    c.seen(&(lv.len(), nn, t));
    Ok(())
}
pub fn cost_mss(c: &mut Case) -> R {
    use mss::prelude::*;
    let n = 22 + c.rng.below(8);
    let mut m: MssMgr<i32> = MssMgr::new();
    let rad: Vec<usize> = (0..n).map(|_| 3).collect();
    let names: Vec<String> = (0..n).map(|i| format!("c{}", i)).collect();
    let vars: Vec<MddNode<i32>> = (0..n).map(|i| m.defvar(&names[i], rad[i])).collect();
    let mut f = vars[0].clone();
    for v in &vars[1..] {
        f = f.add(v);
    }
    let lvl = 1 + c.rng.below(2 * n) as i32;
    let mut g = f.ge(&m.value(lvl));
    let pv: HashMap<String, Vec<Cnt>> = names.iter().map(|s| (s.clone(), vec![Cnt(0.2), Cnt(0.3), Cnt(0.5)])).collect();
    for (what, h, ss) in [("value", &mut f, vec![lvl, lvl + 1]), ("boolean", &mut g, vec![1])] {
        let nn = h.size().0.max(1);
        let (_, t) = ticks(|| h.prob(&pv, &ss));
        ensure!(t <= 60 * nn + 200, "probability of a {} diagram with {} nodes took {} arithmetic operations", what, nn, t);
        let (_, t2) = ticks(|| h.bmeas(&pv, &ss));
        ensure!(t2 <= 300 * nn + 200, "importance over a {} diagram with {} nodes took {} arithmetic operations", what, nn, t2);
        c.max("arithmetic_per_node_x100_prob", 100 * t / nn);
        c.max("arithmetic_per_node_x100_bmeas", 100 * t2 / nn);
        let hs: HashSet<i32> = ss.iter().copied().collect();
        let k = h.mdd_count(&hs);
        c.max("paths_counted", k);
        ensure!(h.mdd_extract(&hs).len() == k, "len {} of an enumeration, count {}", h.mdd_extract(&hs).len(), k);
        let every: HashSet<i32> = (0..=2 * n as i32).collect();
        ensure!(h.mdd_extract(&every).take(4).count() == 4, "first paths of a large {} function", what);
        let p = parse(&h.dot())?;
        ensure!(p.nodes.len() as u64 <= nn + 70, "picture of {} nodes for a diagram of {}", p.nodes.len(), nn);
    }
    // number of vectors with a given sum
    let mut d = vec![1u64];
    for _ in 0..n {
        let mut e = vec![0u64; d.len() + 2];
        for (i, x) in d.iter().enumerate() {
            for j in 0..3 {
                e[i + j] += x;
            }
        }
        d = e;
    }
    let one: HashSet<i32> = [1].into_iter().collect();
    let zero: HashSet<i32> = [0].into_iter().collect();
    let mp = m.minpath(&g).ok_or("a threshold was refused")?;
    let mc = m.mincut(&g).ok_or("a threshold was refused")?;
    ensure!(mp.count(&one) == d[lvl as usize] && mc.count(&zero) == d[lvl as usize - 1], "sum of {} >= {}: {} minimal paths, {} minimal cuts", n, lvl, mp.count(&one), mc.count(&zero));
    c.max("sets_counted", mp.count(&one));
    ensure!(mp.extract(&[0, 1].into_iter().collect()).take(2).count() == 2, "first vectors of a large family");
    ensure!(mp.intersect(&mp).get_id() == mp.get_id(), "intersection with itself");
    let vp = m.minpath(&f).ok_or("a sum was refused")?;
    ensure!(vp.count(&[lvl].into_iter().collect()) == d[lvl as usize], "minimal vectors of a sum at {}", lvl);
    ensure!(vp.labels().len() == 2 * n + 1, "labels of a sum");
    let vc = m.mincut(&f).ok_or("a sum was refused")?;
    ensure!(vc.count(&[lvl].into_iter().collect()) == d[lvl as usize], "maximal vectors of a sum at {}", lvl);
    ensure!(vc.labels().len() == 2 * n + 1, "labels of a sum");
    let h = f.max(&f.min(&f));
    ensure!(h.get_node() == f.get_node(), "lattice absorption on a large function");
    c.count("multi_state_analyses_costed");
    c.seen(&(n, lvl));
    Ok(())
}
