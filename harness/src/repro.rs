//! The same calls in the same order give the same answers: a script is carried out in two
//! managers of their own and the two transcripts of everything observable are compared.
//! (Hash tables of the standard library are seeded anew for every table, so an answer
//! that depends on such a table's order differs between the two runs.)
use crate::bssm;
use crate::engine::Val;
use crate::ensure;
use crate::rt::*;
use bss::prelude::*;
use mss::prelude::{MddNode, MssMgr, ZmddNode};
use std::collections::{BTreeMap, HashMap, HashSet};

struct Tr(Vec<(&'static str, String)>);
impl Tr {
    fn put(&mut self, k: &'static str, v: impl FnOnce() -> String) {
        self.0.push((k, v()));
    }
}
fn bits(m: HashMap<String, f64>) -> String {
    let m: BTreeMap<String, u64> = m.into_iter().map(|(k, v)| (k, v.to_bits())).collect();
    format!("{:?}", m)
}

fn bss_script(rng: &mut Rng, big: bool) -> Tr {
    let mut t = Tr(Vec::new());
    let mut m = BssMgr::new();
    let n = 3 + rng.below(if big { 14 } else { 7 });
    if rng.chance(1, 2) {
        m.bdd().set_gc_threshold(rng.below(200));
        m.zdd().set_gc_threshold(rng.below(60));
    }
    let names: Vec<String> = (0..n).map(|i| bssm::var_name(rng, i, i % 5)).collect();
    let vars: Vec<BddNode> = names.iter().map(|s| m.defvar(s)).collect();
    let mut pv: HashMap<String, f64> = HashMap::new();
    for s in &names {
        pv.insert(s.clone(), rng.f64());
    }
    let mut pool = vars.clone();
    let mut fams: Vec<ZddNode> = Vec::new();
    for _ in 0..20 + rng.below(60) {
        let f = pool[rng.below(pool.len())].clone();
        let g = pool[rng.below(pool.len())].clone();
        let ss: &[bool] = if rng.chance(2, 3) { &[true] } else { &[false, true] };
        match rng.below(20) {
            0..=2 => pool.push(f.and(&g)),
            3..=5 => pool.push(f.or(&g)),
            6 => pool.push(f.xor(&g)),
            7 => pool.push(f.not()),
            8 => {
                let mut l: Vec<BddNode> = (0..rng.below(6)).map(|_| pool[rng.below(pool.len())].clone()).collect();
                let k = rng.below(l.len() + 1);
                pool.push(match rng.below(3) {
                    0 => m.and(&l),
                    1 => m.or(&l),
                    _ => m.kofn(k, &l),
                });
                l.clear();
            }
            9 => {
                let text = format!("{} {} & {} | save(z) load(z) {} &", names[rng.below(n)], names[rng.below(n)], names[rng.below(n)], names[rng.below(n)]);
                match m.rpn(&text) {
                    Ok(x) => pool.push(x),
                    Err(e) => t.put("rpn error", || e),
                }
            }
            10 => match m.rpn(["& x", "", "nope", "1 2 3", "T ?"][rng.below(5)]) {
                Ok(x) => t.put("rpn", || format!("{:?} {:?}", x.is_one(), x.size())),
                Err(e) => t.put("rpn error", || e),
            },
            11 => t.put("prob", || format!("{:x}", f.prob(&pv, ss).to_bits())),
            12 => t.put("importance", || bits(f.bmeas(&pv, ss))),
            13 => t.put("count", || format!("{} {:?}", f.bdd_count(ss), f.size())),
            14 => t.put("enumeration", || f.bdd_extract(ss).take(60).map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";")),
            15 => t.put("picture", || f.dot()),
            16 | 17 => {
                let z = if rng.chance(1, 2) { m.minpath(&f) } else { m.mincut(&f) };
                t.put("monotone", || z.is_some().to_string());
                if let Some(z) = z {
                    t.put("sets", || z.extract(&[true]).take(80).map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";"));
                    t.put("family picture", || format!("{} {} {:?}", z.dot(), z.count(&[true]), z.size()));
                    fams.push(z);
                }
            }
            18 => {
                t.put("manager", || format!("{:?} {:?} {} {:?} {}", m.size(), m.get_varorder(), m.bdd().live_node_count(), m.zdd().size(), m.zdd().live_node_count()));
            }
            _ => {
                if pool.len() > n + 4 {
                    let k = n + rng.below(pool.len() - n);
                    pool.swap_remove(k);
                }
                if fams.len() > 1 {
                    let (a, b) = (fams[rng.below(fams.len())].clone(), fams[rng.below(fams.len())].clone());
                    let r = if rng.chance(1, 2) { a.union(&b) } else { a.setdiff(&b) };
                    t.put("family algebra", || r.extract(&[true]).take(80).map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";"));
                    fams.push(r);
                    fams.truncate(6);
                }
            }
        }
    }
    t
}

fn zdd_script(rng: &mut Rng) -> Tr {
    let mut t = Tr(Vec::new());
    let mut m = ZddMgr::new();
    if rng.chance(1, 2) {
        m.set_gc_threshold(rng.below(80));
    }
    let names: Vec<String> = (0..3 + rng.below(6)).map(|i| bssm::var_name(rng, i, 4)).collect();
    let mut pool = vec![m.base()];
    for _ in 0..20 + rng.below(50) {
        let f = pool[rng.below(pool.len())].clone();
        let g = pool[rng.below(pool.len())].clone();
        match rng.below(9) {
            0 => {
                let s: Vec<Vec<String>> = (0..rng.below(5)).map(|_| names.iter().filter(|_| rng.chance(1, 3)).cloned().collect()).collect();
                pool.push(m.from_sets(&s));
            }
            1 => pool.push(m.singleton(&names[rng.below(names.len())])),
            2 => pool.push(f.union(&g)),
            3 => pool.push(f.intersect(&g)),
            4 => pool.push(f.setdiff(&g)),
            5 if f.count(&[true]) * g.count(&[true]) < 400 => pool.push(f.product(&g)),
            6 if !g.is_zero() => pool.push(f.divide(&g)),
            7 => {
                t.put("sets", || f.extract(&[true]).take(80).map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(";"));
                t.put("family", || format!("{} {} {:?} {:?} {}", f.dot(), f.count(&[true]), f.size(), m.size(), m.live_node_count()));
            }
            _ => {
                if pool.len() > 4 {
                    let k = rng.below(pool.len());
                    pool.swap_remove(k);
                }
            }
        }
    }
    t
}

fn mss_script<V: Val>(rng: &mut Rng) -> Tr {
    let mut t = Tr(Vec::new());
    let mut m: MssMgr<V> = MssMgr::new();
    if rng.chance(1, 2) {
        m.set_gc_threshold(rng.below(250));
    }
    let n = 2 + rng.below(4);
    let names: Vec<String> = (0..n).map(|i| bssm::var_name(rng, i, i % 5)).collect();
    let rad: Vec<usize> = (0..n).map(|_| 1 + rng.below(4)).collect();
    let vars: Vec<MddNode<V>> = names.iter().zip(&rad).map(|(s, &r)| m.defvar(s, r)).collect();
    let dom: HashMap<String, usize> = names.iter().cloned().zip(rad.iter().copied()).collect();
    let pv: HashMap<String, Vec<f64>> = names.iter().zip(&rad).map(|(s, &r)| (s.clone(), (0..r).map(|_| rng.f64() / r as f64).collect())).collect();
    let mut pool = vars.clone();
    let mut fams: Vec<ZmddNode<V>> = Vec::new();
    let show = |x: &HashMap<String, usize>| format!("{:?}", x.iter().collect::<BTreeMap<_, _>>());
    for _ in 0..20 + rng.below(50) {
        let mut f = pool[rng.below(pool.len())].clone();
        let g = pool[rng.below(pool.len())].clone();
        let ss: HashSet<V> = (0..1 + rng.below(4)).map(|i| V::of(i as i64)).collect();
        let mut l: Vec<V> = ss.iter().copied().collect();
        l.sort();
        match rng.below(18) {
            0..=2 => pool.push(f.min(&g)),
            3..=5 => pool.push(f.max(&g)),
            6 => {
                let c = if rng.chance(1, 2) { f.ge(&g) } else { f.eq(&g) };
                let x = c.ite(&g, &f);
                t.put("condition", || format!("{} {:?}", c.dot(), c.size()));
                pool.push(x);
            }
            7 => pool.push(m.value(V::of(rng.range(0, 5)))),
            8 => {
                let text = format!("{} {} max {} min 2 max", names[rng.below(n)], names[rng.below(n)], names[rng.below(n)]);
                match m.rpn(&text, &dom) {
                    Ok(x) => pool.push(x),
                    Err(e) => t.put("rpn error", || e),
                }
            }
            9 => match m.rpn(["min x", "", "1 2 3", "1 ?"][rng.below(4)], &dom) {
                Ok(_) => t.put("rpn", || "accepted".into()),
                Err(e) => t.put("rpn error", || e),
            },
            10 => t.put("prob", || format!("{:x}", f.prob(&pv, &l).to_bits())),
            11 => {
                let r: BTreeMap<String, Vec<u64>> = f.bmeas(&pv, &l).into_iter().map(|(k, v)| (k, v.into_iter().map(|x| x.to_bits()).collect())).collect();
                t.put("importance", || format!("{:?}", r));
            }
            12 => t.put("count", || format!("{} {:?}", f.mdd_count(&ss), f.size())),
            13 => t.put("enumeration", || f.mdd_extract(&ss).take(60).map(|x| show(&x)).collect::<Vec<_>>().join(";")),
            14 => t.put("picture", || f.dot()),
            15 => {
                let z = if rng.chance(1, 2) { m.minpath(&f) } else { m.mincut(&f) };
                t.put("monotone", || z.is_some().to_string());
                if let Some(z) = z {
                    t.put("labels", || z.labels().iter().map(|x| x.to().to_string()).collect::<Vec<_>>().join(","));
                    t.put("vectors", || z.extract(&ss).take(80).map(|x| show(&x)).collect::<Vec<_>>().join(";"));
                    let v = l[rng.below(l.len())];
                    t.put("vectors of one level", || z.extract_level(v).iter().take(80).map(show).collect::<Vec<_>>().join(";"));
                    t.put("family picture", || format!("{} {}", z.dot(), z.count(&ss)));
                    fams.push(z);
                }
                if fams.len() > 1 {
                    let (a, b) = (fams[rng.below(fams.len())].clone(), fams[rng.below(fams.len())].clone());
                    let r = if rng.chance(1, 2) { a.intersect(&b) } else { a.setdiff(&b) };
                    t.put("family algebra", || r.extract(&ss).take(80).map(|x| show(&x)).collect::<Vec<_>>().join(";"));
                    fams.push(r);
                    fams.truncate(6);
                }
            }
            16 => t.put("manager", || format!("{:?} {:?} {}", m.size(), m.get_varorder(), m.live_node_count())),
            _ => {
                if pool.len() > n + 4 {
                    let k = n + rng.below(pool.len() - n);
                    pool.swap_remove(k);
                }
            }
        }
    }
    t
}

pub fn repro_case(c: &mut Case) -> R {
    let seed = c.rng.clone();
    let which = c.idx % 4;
    let big = c.idx % 11 == 0;
    let go = || {
        let mut r = seed.clone();
        match which {
            0 => bss_script(&mut r, big),
            1 => zdd_script(&mut r),
            2 => mss_script::<i32>(&mut r),
            _ => mss_script::<i64>(&mut r),
        }
    };
    let (a, b) = (go(), go());
    for (i, ((k, x), (l, y))) in a.0.iter().zip(&b.0).enumerate() {
        ensure!(k == l && x == y, "the same calls, made twice, gave different answers (observation {} of {}): {} {:?} and {} {:?}", i, a.0.len(), k, clip(x), l, clip(y));
        if !x.is_empty() {
            c.seen(&(k, x));
        }
    }
    ensure!(a.0.len() == b.0.len(), "the same calls, made twice, gave {} and {} observations", a.0.len(), b.0.len());
    c.add("observations_compared", a.0.len() as u64);
    c.count(["binary_scripts_repeated", "family_scripts_repeated", "multi_state_scripts_repeated", "multi_state_scripts_repeated"][which as usize]);
    Ok(())
}
fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}
