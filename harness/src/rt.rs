//! Runtime of the monitors: seeded randomness, counters of what was observed, worker
//! processes, crash / hang attribution, replay files and evidence.
use crate::mem::untracked;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x1234_5678_9abc_def1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // fixed-key SipHash: same value in every process
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

/// What one case sees: its own random stream, its log, and the counters.
pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub tier: Tier,
    pub st: &'a mut Stats,
    log: Option<std::fs::File>,
    trail: Vec<String>,
}
const DISTINCT_CAP: usize = 3_000_000;

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &'static str) {
        untracked(|| *self.st.counts.entry(k).or_insert(0) += 1);
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        untracked(|| *self.st.counts.entry(k).or_insert(0) += n);
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = untracked(|| self.st.maxes.entry(k).or_insert(0));
        if n > *e {
            *e = n;
        }
    }
    /// Record a distinct non-trivial observation (hash of what was compared).
    pub fn seen<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.st.distinct.len() < DISTINCT_CAP {
            untracked(|| self.st.distinct.insert(hash_of(t)));
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(file) = &mut self.log {
            let _ = writeln!(file, "{}", f());
        } else if self.trail.len() < 12 && self.st.samples.len() < 2 {
            untracked(|| self.trail.push(f()));
        }
    }
    pub fn logging(&self) -> bool {
        self.log.is_some()
    }
}

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Case) -> R;

pub struct Prop {
    pub id: &'static str,
    /// one line: how cases are made and what a distinct observation is
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    /// counters that must be non-zero, or the run observed nothing worth a verdict
    pub must: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !($c) { return Err(format!($($fmt)*)); } };
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut r = Rng::new(seed.wrapping_mul(0x1000_0000_01b3) ^ hash_of(id) ^ idx.wrapping_mul(0x2545_F491_4F6C_DD1D));
    r.next();
    r.next()
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        untracked(|| LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc)));
    }));
}

/// Run `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn run_case(p: &Prop, seed: u64, idx: u64, tier: Tier, st: &mut Stats, log: Option<std::fs::File>) -> R {
    let mut c = Case { idx, rng: Rng::new(case_seed(seed, p.id, idx)), tier, st, log, trail: Vec::new() };
    let r = guarded(|| (p.run)(&mut c));
    if c.log.is_none() && c.st.samples.len() < 2 && !c.trail.is_empty() {
        let mut s = format!("case {}: ", idx);
        s.push_str(&c.trail.join("; "));
        let s: String = s.chars().take(1200).collect();
        c.st.samples.push(s);
    }
    match r {
        Ok(r) => r,
        Err(m) => Err(format!("the code under test panicked on legal use: {}", m)),
    }
}

/// CPU seconds after which one case counts as not terminating (the slowest case on the
/// unchanged tree needs about 6 s in the quick tier).
fn hang_cpu_s(tier: Tier) -> u64 {
    match tier {
        Tier::Quick => 60,
        Tier::Thorough => 120,
    }
}

fn cpu_ticks() -> u64 {
    let mut s = String::new();
    if std::fs::File::open("/proc/self/stat").and_then(|mut f| f.read_to_string(&mut s)).is_err() {
        return 0;
    }
    let rest = s.rsplit(')').next().unwrap_or("");
    let v: Vec<&str> = rest.split_whitespace().collect();
    let u: u64 = v.get(11).and_then(|x| x.parse().ok()).unwrap_or(0);
    let k: u64 = v.get(12).and_then(|x| x.parse().ok()).unwrap_or(0);
    u + k
}

/// Ends the process with code 77 when one case has used far more CPU time than any case
/// of this workload needs (CPU time of this process, so machine load does not matter).
fn watchdog(stop: Option<PathBuf>, tier: Tier) {
    std::thread::spawn(move || {
        let mut stopped = 0;
        let mut last = u64::MAX;
        let mut base = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CUR.load(Ordering::SeqCst);
            let t = cpu_ticks();
            // another worker has found a violation and this one is stuck in its case
            if c != u64::MAX && stop.as_ref().is_some_and(|p| p.exists()) {
                stopped += 1;
                if stopped > 20 {
                    std::process::exit(78);
                }
            }
            if c != last {
                last = c;
                base = t;
            } else if c != u64::MAX && t.saturating_sub(base) > hang_cpu_s(tier) * 100 {
                println!("H {}", c);
                if let Some(p) = &stop {
                    let _ = std::fs::write(p, "");
                }
                std::process::exit(77);
            }
        }
    });
}

pub fn worker(p: &'static Prop, tier: Tier, seed: u64, k: u64, n: u64, total: u64, budget_s: u64, dir: &Path) {
    watchdog(Some(dir.join("stop")), tier);
    let dir = dir.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let t0 = Instant::now();
            let mut st = Stats::default();
            let mut done = 0u64;
            let mut slowest = 0u64;
            let mut out = String::new();
            let mark = dir.join(format!("cur{}", k));
            let mut markf = std::fs::File::create(&mark).ok();
            // block b of n cases: worker k takes a rotating place in it
            let mut block = 0;
            let mut last_poll = Instant::now();
            while block * n < total {
                let i = block * n + (k + block) % n;
                block += 1;
                if i >= total {
                    continue;
                }
                if t0.elapsed().as_secs() >= budget_s && done > 0 {
                    break;
                }
                if last_poll.elapsed().as_millis() > 300 {
                    last_poll = Instant::now();
                    if dir.join("stop").exists() {
                        break; // another worker has found a violation
                    }
                }
                CUR.store(i, Ordering::SeqCst);
                if let Some(f) = &mut markf {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_at(format!("{:<20}\n", i).as_bytes(), 0);
                }
                let c0 = Instant::now();
                let r = run_case(p, seed, i, tier, &mut st, None);
                let ms = c0.elapsed().as_millis() as u64;
                if ms > 1000 && std::env::var_os("VERIF_SLOW").is_some() {
                    eprintln!("{} case {}: {} ms", p.id, i, ms);
                }
                slowest = slowest.max(ms);
                done += 1;
                if let Err(m) = r {
                    let _ = writeln!(out, "V {} {}", i, m.replace('\n', " "));
                    let _ = std::fs::write(dir.join("stop"), "");
                    break;
                }
            }
            CUR.store(u64::MAX, Ordering::SeqCst);
            let _ = writeln!(out, "N {}", done);
            let _ = writeln!(out, "M slowest_case_ms {}", slowest);
            for (a, b) in &st.counts {
                let _ = writeln!(out, "C {} {}", a, b);
            }
            for (a, b) in &st.maxes {
                let _ = writeln!(out, "M {} {}", a, b);
            }
            for s in &st.samples {
                let _ = writeln!(out, "S {}", s.replace('\n', " "));
            }
            let mut bytes = Vec::with_capacity(st.distinct.len() * 8);
            for d in &st.distinct {
                bytes.extend_from_slice(&d.to_le_bytes());
            }
            let _ = std::fs::write(dir.join(format!("dist{}", k)), bytes);
            let _ = writeln!(out, "E");
            print!("{}", out);
            let _ = std::io::stdout().flush();
        })
        .unwrap();
    let _ = h.join();
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Re-run one case with its history written out line by line (survives a crash).
pub fn replay(p: &'static Prop, tier: Tier, seed: u64, idx: u64, path: &Path, header: bool) -> R {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).map_err(|e| e.to_string())?;
    if header {
        let _ = writeln!(f, "property={} seed={} tier={:?} case={}", p.id, seed, tier, idx);
    }
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            CUR.store(idx, Ordering::SeqCst);
            let mut st = Stats::default();
            run_case(p, seed, idx, tier, &mut st, Some(f))
        })
        .unwrap();
    h.join().unwrap_or_else(|_| Err("case thread died".into()))
}

pub fn replay_main(p: &'static Prop, tier: Tier, seed: u64, idx: u64, path: &Path) -> i32 {
    watchdog(None, tier);
    match replay(p, tier, seed, idx, path, false) {
        Ok(()) => {
            println!("case {} held", idx);
            0
        }
        Err(m) => {
            println!("case {} failed: {}", idx, m);
            1
        }
    }
}

/// Parent: fan the cases out over worker processes, merge, judge, write evidence.
pub fn drive(p: &'static Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let vdir = verif_dir();
    let exe = std::env::current_exe().unwrap();
    let tmp = vdir.join("work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let n = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(8).clamp(1, 8);
    let n = std::env::var("VERIF_PROCS").ok().and_then(|s| s.parse().ok()).unwrap_or(n);
    let total = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let total = std::env::var("VERIF_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let budget: u64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 1500,
    });
    let mut kids = Vec::new();
    for k in 0..n {
        let c = std::process::Command::new(&exe)
            .args(["--worker", p.id, &format!("{:?}", tier), &seed.to_string(), &k.to_string(), &n.to_string(), &total.to_string(), &budget.to_string()])
            .arg(&tmp)
            .stdout(std::process::Stdio::piped())
            .stderr(if std::env::var_os("VERIF_SLOW").is_some() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
            .spawn()
            .expect("spawn worker");
        kids.push(c);
    }
    let mut evals = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut viol: Vec<(u64, String)> = Vec::new();
    let mut broken: Vec<String> = Vec::new();
    let threads: Vec<_> = kids
        .into_iter()
        .enumerate()
        .map(|(k, mut c)| {
            std::thread::spawn(move || {
                let so = c.stdout.take().unwrap();
                let lines: Vec<String> = std::io::BufReader::new(so).lines().map_while(Result::ok).collect();
                let st = c.wait();
                (k, lines, st)
            })
        })
        .collect();
    for t in threads {
        let (k, lines, st) = t.join().unwrap();
        let mut ended = false;
        let mut hung = None;
        for l in &lines {
            let mut it = l.splitn(3, ' ');
            match it.next() {
                Some("N") => evals += it.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0),
                Some("C") => {
                    let a = it.next().unwrap_or("").to_string();
                    *counts.entry(a).or_insert(0) += it.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                }
                Some("M") => {
                    let a = it.next().unwrap_or("").to_string();
                    let v = it.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    let e = maxes.entry(a).or_insert(0);
                    *e = (*e).max(v);
                }
                Some("S") => samples.push(l[2..].to_string()),
                Some("V") => {
                    let i = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    viol.push((i, it.next().unwrap_or("").to_string()));
                }
                Some("H") => hung = it.next().and_then(|x| x.parse::<u64>().ok()),
                Some("E") => ended = true,
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(tmp.join(format!("dist{}", k))) {
            for ch in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(ch.try_into().unwrap()));
            }
        }
        if !ended {
            let cur: Option<u64> = std::fs::read_to_string(tmp.join(format!("cur{}", k))).ok().and_then(|s| s.trim().parse().ok());
            use std::os::unix::process::ExitStatusExt;
            let sig = st.as_ref().ok().and_then(|s| s.signal());
            match (hung, sig, cur) {
                (Some(i), _, _) => viol.push((i, format!("no answer after {} s of CPU time in one case (does not terminate, or its cost exploded)", hang_cpu_s(tier)))),
                // 6 abort (also: stack overflow, out of memory), 11 segv, 7 bus, 4 ill, 8 fpe
                (None, Some(s), Some(i)) if [4, 6, 7, 8, 11].contains(&s) => {
                    viol.push((i, format!("the process died with signal {} (stack overflow, memory exhaustion or invalid access) in this case", s)))
                }
                _ => broken.push(format!("worker {} ended without a result: {:?}", k, st)),
            }
        }
    }
    viol.sort();
    let mut code = 0;
    if let Some((idx, msg)) = viol.first().cloned() {
        let rdir = vdir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let rp = rdir.join(format!("{}-seed{}-case{}.txt", p.id, seed, idx));
        let _ = std::fs::write(
            &rp,
            format!(
                "property={} seed={} tier={:?} case={}\nfailure: {}\nre-run: ./check.sh {} --replay {} {} {:?}\n--- history of the failing case\n",
                p.id, seed, tier, idx, msg, p.id, idx, seed, tier
            ),
        );
        // In a child process: the case may crash again.
        let st = std::process::Command::new(&exe)
            .args(["--replay", p.id, &format!("{:?}", tier), &seed.to_string(), &idx.to_string()])
            .arg(&rp)
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .output();
        if let (Ok(mut f), Ok(o)) = (std::fs::OpenOptions::new().append(true).open(&rp), st) {
            let _ = writeln!(f, "--- replay: status {:?}\n{}", o.status, String::from_utf8_lossy(&o.stdout));
        }
        println!("FAILED {} case {}: {}", p.id, idx, msg);
        println!("VIOLATION property={} replay={}", p.id, rp.display());
        code = 1;
    }
    if code == 0 && !broken.is_empty() {
        println!("INCONCLUSIVE {}: {}", p.id, broken.join("; "));
        code = 2;
    }
    if code == 0 {
        for m in p.must {
            if counts.get(*m).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE {}: the run observed no event of kind {}", p.id, m);
                code = 2;
            }
        }
    }
    // evidence
    let mut j = String::new();
    let wall = t0.elapsed().as_secs_f64();
    let tn = if tier == Tier::Quick { "quick" } else { "thorough" };
    let _ = write!(j, "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [", jstr(p.id), tn, seed, evals, distinct.len(), jstr(p.rule));
    samples.truncate(4);
    let _ = write!(j, "{}", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "],\n  \"planned_cases\": {},\n  \"observed\": {{", total);
    let _ = write!(j, "{}", counts.iter().map(|(a, b)| format!("{}: {}", jstr(a), b)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "}},\n  \"maxima\": {{");
    let _ = write!(j, "{}", maxes.iter().map(|(a, b)| format!("{}: {}", jstr(a), b)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "}}\n }},\n \"assumptions\": [");
    let _ = write!(j, "{}", p.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let _ = write!(j, "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, if code == 1 { viol.len() } else { 0 });
    let ed = vdir.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    let _ = std::fs::write(ed.join(format!("{}.json", p.id)), j);
    let _ = std::fs::remove_dir_all(&tmp);
    println!(
        "{} {} seed={} cases={} distinct={} wall={:.1}s observed: {}",
        p.id,
        tn,
        seed,
        evals,
        distinct.len(),
        wall,
        counts.iter().chain(maxes.iter()).map(|(a, b)| format!("{}={}", a, b)).collect::<Vec<_>>().join(" ")
    );
    code
}
