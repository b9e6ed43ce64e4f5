//! A small property-based testing engine.
//!
//! A check is `fn(&mut Gen) -> Result<(), String>`. Every random choice goes through `Gen`, which
//! records it on a tape. A failing tape is shrunk (chunks deleted, choices lowered) and saved as the
//! replay file; replaying feeds the tape back, an exhausted tape yields 0 (the simplest choice).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng {
    s: u64,
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng { s: mix(seed.wrapping_add(0x9E3779B97F4A7C15)) }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.s)
    }
}

#[derive(Default, Clone)]
pub struct CaseMeta {
    pub trivial: bool,
    pub key: u64,
    pub has_key: bool,
    pub labels: Vec<String>,
    pub sample: Option<String>,
    /// keys of further cases that were part of this one
    pub more: Vec<u64>,
    pub known: Vec<String>,
}

pub struct Gen {
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    rng: Rng,
    pub meta: CaseMeta,
    pub dir: std::path::PathBuf,
}

impl Gen {
    pub fn random(seed: u64, dir: std::path::PathBuf) -> Self {
        Gen { replay: None, pos: 0, rec: vec![], rng: Rng::new(seed), meta: Default::default(), dir }
    }
    pub fn from_tape(t: Vec<u64>, dir: std::path::PathBuf) -> Self {
        Gen { replay: Some(t), pos: 0, rec: vec![], rng: Rng::new(0), meta: Default::default(), dir }
    }
    fn draw(&mut self, n: u64) -> u64 {
        // n == 0 means the full range
        let raw = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0),
            None => self.rng.next(),
        };
        self.pos += 1;
        let v = if n == 0 { raw } else { raw % n };
        self.rec.push(v);
        v
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(n)
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    /// An unsigned value of `bits` bits biased towards boundaries.
    pub fn bits(&mut self, bits: usize) -> u64 {
        if bits == 0 {
            return 0;
        }
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(8) {
            0 => self.below(4) & mask,
            1 => mask - (self.below(4) & mask),
            2 => {
                // a single power of two, perhaps plus or minus 1
                let p = self.below(bits as u64);
                let d = self.below(3);
                (1u64 << p).wrapping_add(d).wrapping_sub(1) & mask
            }
            3 => {
                let b = 1 + self.below(bits as u64);
                self.u64() & mask & (if b >= 64 { u64::MAX } else { (1u64 << b) - 1 })
            }
            _ => self.u64() & mask,
        }
    }
    /// A small length, mostly short.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(8) {
            0 => 0,
            1..=4 => self.idx(max.min(3) + 1),
            5 | 6 => self.idx(max.min(9) + 1),
            _ => self.idx(max + 1),
        }
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.len(max);
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.meta.labels.push(l.into());
    }
    /// Marks the case as trivial by the rule of the check.
    pub fn trivial(&mut self) {
        self.meta.trivial = true;
    }
    /// What makes the case distinct from others (by default its tape).
    pub fn key<T: Hash>(&mut self, t: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.meta.key = h.finish();
        self.meta.has_key = true;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.meta.sample.is_none() {
            self.meta.sample = Some(f());
        }
    }
    pub fn known(&mut self, s: &str) {
        self.meta.known.push(s.to_string());
    }
}

pub type Res = Result<(), String>;
pub type CheckFn = fn(&mut Gen) -> Res;

#[derive(Clone, Copy)]
pub struct Check {
    pub name: &'static str,
    pub f: CheckFn,
    /// cases in the quick tier; the thorough tier runs `deep` times as many
    pub quick: u64,
    pub deep: u64,
}
pub const fn check(name: &'static str, f: CheckFn, quick: u64, deep: u64) -> Check {
    Check { name, f, quick, deep }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or("panic".into())),
    }
}
fn run_case(f: CheckFn, g: &mut Gen) -> Res {
    match catch(|| f(g)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub per_check: BTreeMap<String, u64>,
    pub capped: bool,
}

pub struct Failure {
    pub check: &'static str,
    pub tape: Vec<u64>,
    pub msg: String,
    pub case: u64,
}

fn thread_cpu_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe extern "C" {
        fn clock_gettime(id: i32, ts: *mut i64) -> i32;
    }
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, ts.as_mut_ptr()) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

fn still_fails(f: CheckFn, tape: &[u64], dir: &std::path::Path) -> Option<(Vec<u64>, String)> {
    let mut g = Gen::from_tape(tape.to_vec(), dir.to_path_buf());
    match run_case(f, &mut g) {
        Ok(()) => None,
        Err(m) => Some((g.rec, m)),
    }
}

/// Shrinks in a thread of its own: a smaller case may be one that does not end.
pub fn shrink(f: CheckFn, tape: Vec<u64>, msg: String, dir: &std::path::Path) -> (Vec<u64>, String) {
    let shown = Arc::new(Mutex::new((tape.clone(), msg.clone())));
    let (p, d) = (shown.clone(), dir.to_path_buf());
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || shrink_in(f, tape, msg, &d, &p)).unwrap();
    let start = Instant::now();
    while !h.is_finished() && start.elapsed() < Duration::from_secs(80) {
        std::thread::sleep(Duration::from_millis(20));
    }
    let r = shown.lock().unwrap().clone();
    r
}

fn shrink_in(f: CheckFn, tape: Vec<u64>, msg: String, dir: &std::path::Path, shown: &Mutex<(Vec<u64>, String)>) {
    let start = Instant::now();
    let budget = Duration::from_secs(60);
    let mut best = tape;
    let mut best_msg = msg;
    // A shorter tape is better, then a lexicographically smaller one.
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let mut improved = false;
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
            if start.elapsed() > budget {
                return false;
            }
            if let Some((rec, m)) = still_fails(f, &cand, dir) {
                // strip trailing zeros: an exhausted tape yields zeros
                let mut rec = rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                if better(&rec, best) {
                    *shown.lock().unwrap() = (rec.clone(), m.clone());
                    *best = rec;
                    *best_msg = m;
                    return true;
                }
            }
            false
        };
        for size in [256usize, 64, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i < best.len() {
                if size <= best.len() && i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if attempt(c, &mut best, &mut best_msg) {
                        improved = true;
                        continue;
                    }
                    // delete the chunk and lower the preceding choice (a length)
                    if i > 0 && best[i - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(i..i + size);
                        c[i - 1] -= 1;
                        if attempt(c, &mut best, &mut best_msg) {
                            improved = true;
                            continue;
                        }
                    }
                }
                i += size.max(1);
            }
        }
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut c = best.clone();
            c[i] = 0;
            if attempt(c, &mut best, &mut best_msg) {
                improved = true;
                continue;
            }
            // binary descent
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut rounds = 0;
            while lo + 1 < hi && rounds < 64 && i < best.len() {
                rounds += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(c, &mut best, &mut best_msg) {
                    improved = true;
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
        }
        if !improved || start.elapsed() > budget {
            break;
        }
    }
}

/// Runs one case in this process.
pub fn one_case(prop: &str, c: &Check, seed: u64, i: u64, dir: &std::path::Path) -> (Vec<u64>, Res) {
    let mut g = Gen::random(case_seed(seed, prop, c.name, i), dir.to_path_buf());
    let r = run_case(c.f, &mut g);
    (g.rec, r)
}

/// Limits this process: `cpu` seconds of processor time (0: any), `mem` bytes of address space.
pub fn limit(cpu: u64, mem: u64) {
    unsafe extern "C" {
        fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
    }
    // RLIMIT_CPU, RLIMIT_AS, RLIMIT_CORE of Linux
    unsafe {
        if cpu > 0 {
            setrlimit(0, &[cpu, cpu + 5]);
        }
        setrlimit(9, &[mem, mem]);
        setrlimit(4, &[0, 0]);
    }
}

/// Seconds after which a case, which normally takes milliseconds, is taken to hang.
pub const HANG: u64 = 60;

fn note(check: u64, case: u64) -> [u8; 16] {
    let mut b = [0; 16];
    b[..8].copy_from_slice(&check.to_le_bytes());
    b[8..].copy_from_slice(&case.to_le_bytes());
    b
}
/// The cases (check from 0, number) that ran when the process that wrote the notes ended.
pub fn notes(dir: &std::path::Path) -> Vec<(usize, u64)> {
    let b = std::fs::read(dir.join("progress")).unwrap_or_default();
    b.chunks_exact(16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .filter(|(c, _)| *c > 0)
        .map(|(c, i)| (c as usize - 1, i))
        .collect()
}

pub struct Outcome {
    pub stats: Stats,
    pub failure: Option<Failure>,
    /// a case that used more CPU time than any case may
    pub hang: Option<(String, u64)>,
}

/// Case `i` of a check is a pure function of (seed, property, check, i).
pub fn case_seed(seed: u64, prop: &str, check: &str, i: u64) -> u64 {
    let mut h = mix(seed ^ 0x5EED);
    for b in prop.bytes().chain([0]).chain(check.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(i))
}

pub fn run_checks(
    prop: &'static str,
    checks: &[Check],
    seed: u64,
    thorough: bool,
    cap: Duration,
    scratch: &std::path::Path,
) -> Outcome {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let stats = Arc::new(Mutex::new(Stats::default()));
    let start = Instant::now();
    let mut failure: Option<Failure> = None;
    // which cases run at the moment, for the parent process to read if this one ends abnormally
    let progress = Arc::new(std::fs::File::create(scratch.join("progress")).unwrap());
    let hang: Arc<Mutex<Option<(String, u64)>>> = Arc::new(Mutex::new(None));
    for (nth, c) in checks.iter().enumerate() {
        let total = if thorough { c.quick * c.deep } else { c.quick };
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let found: Arc<Mutex<Option<(u64, Vec<u64>, String)>>> = Arc::new(Mutex::new(None));
        let alive: Arc<Vec<(AtomicU64, AtomicU64)>> =
            Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect());
        let done = Arc::new(AtomicU64::new(0));
        for t in 0..threads {
            let (next, stop, found, stats, alive, done) =
                (next.clone(), stop.clone(), found.clone(), stats.clone(), alive.clone(), done.clone());
            let progress = progress.clone();
            let dir = scratch.join(format!("t{t}"));
            std::fs::create_dir_all(&dir).unwrap();
            let c = *c;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut local = Stats::default();
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > cap {
                            local.capped = true;
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        alive[t].1.store(i, Ordering::Relaxed);
                        alive[t].0.fetch_add(1, Ordering::Relaxed);
                        let _ = progress.write_all_at(&note(nth as u64 + 1, i), t as u64 * 16);
                        let mut g = Gen::random(case_seed(seed, prop, c.name, i), dir.clone());
                        let r = run_case(c.f, &mut g);
                        let n = 1 + g.meta.more.len() as u64;
                        local.evaluations += n;
                        *local.per_check.entry(c.name.to_string()).or_default() += n;
                        local.distinct.extend(g.meta.more.iter().map(|k| mix(*k)));
                        for l in &g.meta.labels {
                            *local.labels.entry(format!("{}/{}", c.name, l)).or_default() += 1;
                        }
                        for k in &g.meta.known {
                            *local.known.entry(k.clone()).or_default() += 1;
                        }
                        if !g.meta.trivial {
                            let key = if g.meta.has_key {
                                g.meta.key
                            } else {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                g.rec.hash(&mut h);
                                h.finish()
                            };
                            local.distinct.insert(mix(key ^ case_seed(0, "", c.name, 0)));
                        }
                        if let Some(s) = g.meta.sample.take() {
                            if i < 200 && !g.meta.trivial && local.samples.len() < 1 {
                                let mut s = format!("{}: {}", c.name, s);
                                if s.len() > 600 {
                                    let mut e = 600;
                                    while !s.is_char_boundary(e) {
                                        e -= 1;
                                    }
                                    s.truncate(e);
                                    s.push('…');
                                }
                                local.samples.push(s);
                            }
                        }
                        if let Err(m) = r {
                            let mut f = found.lock().unwrap();
                            // keep the lowest case so that the outcome does not depend on timing
                            if f.as_ref().is_none_or(|(j, _, _)| i < *j) {
                                *f = Some((i, g.rec, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    alive[t].1.store(u64::MAX, Ordering::Relaxed);
                    let _ = progress.write_all_at(&note(0, 0), t as u64 * 16);
                    let mut s = stats.lock().unwrap();
                    s.evaluations += local.evaluations;
                    s.capped |= local.capped;
                    s.distinct.extend(local.distinct);
                    for (k, v) in local.labels {
                        *s.labels.entry(k).or_default() += v;
                    }
                    for (k, v) in local.known {
                        *s.known.entry(k).or_default() += v;
                    }
                    for (k, v) in local.per_check {
                        *s.per_check.entry(k).or_default() += v;
                    }
                    if s.samples.iter().filter(|x| x.starts_with(&format!("{}: ", c.name))).count() < 2 {
                        s.samples.extend(local.samples);
                    }
                    drop(s);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watchdog: a case that never ends is not an answer (error exit), unless a failure is known.
        let mut last: Vec<(u64, Instant)> = alive.iter().map(|a| (a.0.load(Ordering::Relaxed), Instant::now())).collect();
        while done.load(Ordering::SeqCst) < threads as u64 {
            std::thread::sleep(Duration::from_millis(5));
            for t in 0..threads {
                let n = alive[t].0.load(Ordering::Relaxed);
                let case = alive[t].1.load(Ordering::Relaxed);
                if n != last[t].0 || case == u64::MAX {
                    last[t] = (n, Instant::now());
                } else if last[t].1.elapsed() > Duration::from_secs(HANG) {
                    *hang.lock().unwrap() = Some((c.name.to_string(), case));
                }
            }
            if hang.lock().unwrap().is_some() {
                break;
            }
        }
        if let Some((i, tape, msg)) = found.lock().unwrap().take() {
            // in case shrinking ends this process
            let _ = std::fs::write(scratch.join("failure"), serde_json::json!({"check": c.name, "tape": tape, "what": msg}).to_string());
            let d = scratch.join("shrink");
            std::fs::create_dir_all(&d).unwrap();
            let (tape, msg) = shrink(c.f, tape, msg, &d);
            failure = Some(Failure { check: c.name, tape, msg, case: i });
            break;
        }
        if hang.lock().unwrap().is_some() {
            break;
        }
    }
    let _ = thread_cpu_ns;
    let stats = std::mem::take(&mut *stats.lock().unwrap());
    let hang = hang.lock().unwrap().take();
    Outcome { stats, failure, hang }
}

/// CPU time used by the closure on this thread, in seconds.
pub fn cpu_of<T>(f: impl FnOnce() -> T) -> (T, f64) {
    let a = thread_cpu_ns();
    let r = f();
    (r, (thread_cpu_ns() - a) as f64 / 1e9)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
