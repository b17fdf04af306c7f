//! Choice-sequence based property testing: a case is a function of a sequence of
//! recorded integer draws, so any failing case shrinks and replays from that sequence.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------- random source ----------

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { state: mix(seed), replay: None, rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), rec: vec![] }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.state)
    }
    /// uniform in 0..n, recorded; 0 is the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability p%; the simplest choice is false
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // the simplest choice keeps the order
            let j = i - self.n(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------- deterministic hash seeds ----------

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) };
}

pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(s));
}

/// Overrides the C library's getrandom, from which std draws the seeds of its hash maps:
/// a case, which runs in a thread of its own, thus sees hash orders fixed by its choices.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.with(|c| c.get());
    for i in 0..len {
        s = mix(s);
        unsafe { *buf.add(i) = (s >> 24) as u8 };
    }
    HASH_SEED.with(|c| c.set(s));
    len as isize
}

// ---------- results ----------

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::pbt::fail($sig, format!($($a)*)); } };
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub sample: String,
    pub digest: u64,
    pub runs: u64,
    pub verbose: bool,
}

impl Ctx {
    pub fn label(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_insert(0) += 1;
    }
    /// the case written out; its hash tells distinct cases apart
    pub fn case(&mut self, s: impl Into<String>) {
        self.sample = s.into();
        self.digest = hash_str(&self.sample);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// What a panic says when code under test does not take what a case is made of.
pub const REFUSES: &str = "podo refuses part of a valid database";

fn panicked() -> Outcome {
    let m = LAST_PANIC.with(|p| p.borrow().clone());
    if m.contains(REFUSES) {
        return Outcome::Fail(Fail { sig: "refuses".into(), msg: m });
    }
    Outcome::Harness(m)
}

/// Calls code under test: a panic in it is a failure, not an error of the harness.
pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            fail("panic", format!("{what} panicked: {m}"))
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

/// A fixed input: an ordinary regression, or, when the known-findings file lists it, a known finding.
pub struct Fixed {
    pub id: &'static str,
    pub what: &'static str,
    pub f: fn(&mut Ctx) -> Res,
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Part>,
    pub fixed: Vec<Fixed>,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

enum Outcome {
    Pass,
    Fail(Fail),
    Harness(String),
}

const CASE_SECS: u64 = 40;

/// Runs one case in a thread of its own.
fn run_case(f: CaseFn, mut src: Src, seed: u64) -> (Outcome, Ctx, Vec<u64>) {
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            set_hash_seed(seed);
            // the first draw fixes the hash order
            let hs = src.below(1 << 32);
            set_hash_seed(hs);
            let mut ctx = Ctx::default();
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut src, &mut ctx)));
            let out = match r {
                Ok(Ok(())) => Outcome::Pass,
                Ok(Err(e)) if e.msg.contains(crate::probe::UNSUPPORTED) => {
                    ctx.label(crate::probe::OUTSIDE);
                    ctx.nontrivial = false;
                    Outcome::Pass
                }
                Ok(Err(e)) => Outcome::Fail(e),
                Err(_) if LAST_PANIC.with(|p| p.borrow().contains(crate::probe::OUTSIDE)) => {
                    ctx.label(crate::probe::OUTSIDE);
                    ctx.nontrivial = false;
                    Outcome::Pass
                }
                Err(_) => panicked(),
            };
            (out, ctx, src.rec)
        })
        .expect("spawn");
    h.join().expect("join")
}

// ---------- shrinking ----------

fn shrink(f: CaseFn, best: Vec<u64>, sig: &str, budget: Duration) -> (Vec<u64>, Fail, Ctx) {
    let start = Instant::now();
    let runs = Cell::new(0u32);
    let attempt = |c: &Vec<u64>| -> Option<(Vec<u64>, Fail, Ctx)> {
        runs.set(runs.get() + 1);
        let (o, ctx, rec) = run_case(f, Src::replay(c.clone()), 0);
        match o {
            Outcome::Fail(e) if e.sig == sig => Some((rec, e, ctx)),
            _ => None,
        }
    };
    let mut cur = match attempt(&best) {
        Some(x) => x,
        None => {
            return (best, Fail { sig: sig.into(), msg: "(did not fail again when replayed)".into() }, Ctx::default())
        }
    };
    let simpler = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    loop {
        let mut progress = false;
        let mut size = (cur.0.len() / 2).max(1).next_power_of_two();
        while size >= 1 {
            let mut i = 0;
            while i + size <= cur.0.len() {
                if start.elapsed() > budget {
                    return cur;
                }
                let mut c = cur.0.clone();
                c.drain(i..i + size);
                if let Some(x) = attempt(&c) {
                    if simpler(&x.0, &cur.0) {
                        cur = x;
                        progress = true;
                        continue;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        let mut size = 8;
        while size >= 1 {
            let mut i = 0;
            while i < cur.0.len() {
                if start.elapsed() > budget {
                    return cur;
                }
                let end = (i + size).min(cur.0.len());
                if cur.0[i..end].iter().any(|v| *v != 0) {
                    let mut c = cur.0.clone();
                    c[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(x) = attempt(&c) {
                        if simpler(&x.0, &cur.0) {
                            cur = x;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < cur.0.len() {
            let mut lo = 0;
            while i < cur.0.len() && lo < cur.0[i] {
                if start.elapsed() > budget {
                    return cur;
                }
                let mid = lo + (cur.0[i] - lo) / 2;
                let mut c = cur.0.clone();
                c[i] = mid;
                match attempt(&c) {
                    Some(x) if simpler(&x.0, &cur.0) => {
                        cur = x;
                        progress = true;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if !progress || start.elapsed() > budget || runs.get() > 20000 {
            return cur;
        }
    }
}

// ---------- runner ----------

struct Stats {
    evaluations: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: BTreeMap<u64, (String, String)>,
    per_part: BTreeMap<String, u64>,
}

struct Found {
    part: usize,
    index: u64,
    fail: Fail,
    rec: Vec<u64>,
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
}

pub fn known_findings() -> Vec<Value> {
    let p = verif_dir().join("known_findings.json");
    let t = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    serde_json::from_str::<Value>(&t)
        .ok()
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default()
}

/// Work of one process: every part's cases, or a slice of them. Exit status: 0 clean, 1 violation, 2 error.
fn work(check: &Check, slots: Option<PathBuf>) -> i32 {
    let slow = env_u64("VERIF_SLOW", 0);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_u64("VERIF_SEED", 1);
    let threads = env_u64("VERIF_THREADS", 8).max(1);
    let cap = Duration::from_secs(env_u64("VERIF_SECS", if thorough { 1200 } else { 45 }));
    let scale = env_u64("VERIF_SCALE", 100);
    let only = std::env::var("VERIF_PART").ok();
    let start = Instant::now();

    // fixed inputs
    let known = known_findings();
    let mut fixed_run = 0u64;
    let mut known_lines = vec![];
    let mut violation: Option<(String, Value)> = None;
    if only.is_none() {
        for fx in &check.fixed {
            fixed_run += 1;
            let f = fx.f;
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                set_hash_seed(7);
                let mut ctx = Ctx::default();
                match catch_unwind(AssertUnwindSafe(|| f(&mut ctx))) {
                    Ok(Ok(())) => (Outcome::Pass, ctx),
                    Ok(Err(e)) => (Outcome::Fail(e), ctx),
                    Err(_) => (panicked(), ctx),
                }
            });
            let (o, _ctx) = h.expect("spawn").join().expect("join");
            match o {
                Outcome::Pass => {}
                Outcome::Harness(m) => {
                    eprintln!("harness error in fixed input {}: {m}", fx.id);
                    return 2;
                }
                Outcome::Fail(e) => {
                    let listed = known.iter().any(|k| k["property"] == check.id && k["input"] == fx.id);
                    if listed {
                        known_lines.push(format!("KNOWN-FINDING: property={} {} [{}]", check.id, fx.what, fx.id));
                    } else if violation.is_none() {
                        violation = Some((
                            fx.id.to_string(),
                            json!({"check": check.id, "fixed": fx.id, "sig": e.sig, "message": e.msg}),
                        ));
                    }
                }
            }
        }
    }
    for l in &known_lines {
        println!("{l}");
    }

    let mut jobs: Vec<(usize, u64)> = vec![];
    {
        // the parts take turns in proportion to their size, so that a time limit cuts all of them alike
        let counts: Vec<u64> = check
            .parts
            .iter()
            .map(|p| {
                if only.as_deref().map(|o| o != p.name).unwrap_or(false) {
                    return 0;
                }
                let n = if thorough { p.thorough } else { p.quick };
                (n * scale / 100).max(1)
            })
            .collect();
        let max = counts.iter().copied().max().unwrap_or(0);
        for step in 0..max {
            for (pi, n) in counts.iter().enumerate() {
                let (a, b) = (step * n / max, (step + 1) * n / max);
                for i in a..b {
                    jobs.push((pi, i));
                }
            }
        }
    }
    let next = AtomicU64::new(0);
    let unrepeated = AtomicU64::new(0);
    let stop = AtomicBool::new(violation.is_some());
    let found: Mutex<Option<(u64, Found)>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let stats = Mutex::new(Stats {
        evaluations: fixed_run,
        nontrivial: 0,
        seen: HashSet::new(),
        labels: BTreeMap::new(),
        samples: BTreeMap::new(),
        per_part: BTreeMap::new(),
    });
    let slot_file: Option<Slots> = slots.as_ref().map(|p| Slots::create(p, threads as usize));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let unrepeated = &unrepeated;
            let (jobs, next, stop, found, harness, stats, slot_file) =
                (&jobs, &next, &stop, &found, &harness, &stats, &slot_file);
            sc.spawn(move || loop {
                if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                    break;
                }
                let j = next.fetch_add(1, Ordering::Relaxed);
                if j as usize >= jobs.len() {
                    break;
                }
                let (pi, i) = jobs[j as usize];
                let part = &check.parts[pi];
                let s = mix(seed ^ hash_str(check.id) ^ hash_str(part.name).rotate_left(7)).wrapping_add(mix(i));
                if let Some(sf) = slot_file {
                    sf.set(t as usize, pi as u64 + 1, i);
                }
                let t0 = Instant::now();
                let (o, ctx, rec) = run_case(part.f, Src::random(s), s);
                if slow > 0 && t0.elapsed().as_millis() as u64 > slow {
                    eprintln!("slow: part {} case {i} {:?}", part.name, t0.elapsed());
                }
                if let Some(sf) = slot_file {
                    sf.set(t as usize, 0, 0);
                }
                let o = match o {
                    // A failure counts when it repeats: a case is a function of its choices.
                    Outcome::Fail(e) => {
                        let mut again = None;
                        for _ in 0..4 {
                            match run_case(part.f, Src::replay(rec.clone()), 0).0 {
                                Outcome::Fail(_) => {
                                    again = Some(Outcome::Fail(e.clone()));
                                    break;
                                }
                                Outcome::Harness(m) => {
                                    again = Some(Outcome::Harness(m));
                                    break;
                                }
                                Outcome::Pass => {}
                            }
                        }
                        match again {
                            Some(o) => o,
                            None => {
                                eprintln!("note: part {} case {i} failed once and did not repeat: [{}] {}", part.name, e.sig, e.msg);
                                unrepeated.fetch_add(1, Ordering::Relaxed);
                                Outcome::Pass
                            }
                        }
                    }
                    o => o,
                };
                match o {
                    Outcome::Harness(m) => {
                        *harness.lock().unwrap() = Some(format!("part {} case {i}: {m}", part.name));
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    Outcome::Fail(e) => {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map(|(k, _)| j < *k).unwrap_or(true) {
                            *g = Some((j, Found { part: pi, index: i, fail: e, rec }));
                        }
                        drop(g);
                        let mut st = stats.lock().unwrap();
                        st.evaluations += 1 + ctx.runs;
                        // earlier cases are finished by their threads; later ones are not started
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    Outcome::Pass => {
                        let mut st = stats.lock().unwrap();
                        st.evaluations += 1 + ctx.runs;
                        *st.per_part.entry(part.name.to_string()).or_insert(0) += 1;
                        for (k, v) in ctx.labels {
                            *st.labels.entry(k).or_insert(0) += v;
                        }
                        if ctx.nontrivial && st.seen.insert(ctx.digest ^ hash_str(part.name)) {
                            st.nontrivial += 1;
                            if i < 3 {
                                let mut s = ctx.sample;
                                if s.len() > 1500 {
                                    let mut k = 1500;
                                    while !s.is_char_boundary(k) {
                                        k -= 1;
                                    }
                                    s.truncate(k);
                                    s.push_str(" …");
                                }
                                st.samples.insert(j, (part.name.to_string(), s));
                            }
                        }
                    }
                }
            });
        }
    });
    if let Some(m) = harness.into_inner().unwrap() {
        eprintln!("harness error: {m}");
        return 2;
    }
    let mut code = 0;
    let mut violations = 0;
    let replay_dir = verif_dir().join("evidence/replays");
    if let Some((_, fo)) = found.into_inner().unwrap() {
        let part = &check.parts[fo.part];
        let budget = Duration::from_secs(if thorough { 120 } else { 25 });
        let (choices, e, ctx) = shrink(part.f, fo.rec, &fo.fail.sig, budget);
        violation = Some((
            format!("{}-{}", part.name, fo.index),
            json!({
                "check": check.id, "part": part.name, "seed": seed, "index": fo.index,
                "sig": e.sig, "message": e.msg, "original_message": fo.fail.msg,
                "case": ctx.sample, "choices": choices,
            }),
        ));
    }
    if let Some((name, v)) = &violation {
        code = 1;
        violations = 1;
        report_violation(check.id, name, v, &replay_dir);
    }
    let st = stats.into_inner().unwrap();
    let ev = json!({
        "property": check.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial,
            "rule": check.rule,
            "samples": st.samples.values().take(12).map(|(p, s)| json!({"part": p, "case": s})).collect::<Vec<_>>(),
            "cases_per_part": st.per_part,
            "distribution": st.labels,
            "fixed_inputs": fixed_run,
            "known_findings_seen": known_lines.len(),
            "failures_that_did_not_repeat": unrepeated.load(Ordering::Relaxed),
        },
        "assumptions": check.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    write_evidence(check.id, &ev);
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1} s",
        check.id,
        if thorough { "thorough" } else { "quick" },
        st.evaluations,
        st.nontrivial,
        violations,
        start.elapsed().as_secs_f64()
    );
    code
}

pub fn write_evidence(id: &str, ev: &Value) {
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d).expect("evidence dir");
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(ev).unwrap()).expect("evidence");
}

fn report_violation(id: &str, name: &str, v: &Value, dir: &Path) {
    std::fs::create_dir_all(dir).expect("replay dir");
    let p = dir.join(format!("{id}-{name}.json"));
    std::fs::write(&p, serde_json::to_string_pretty(v).unwrap()).expect("replay");
    println!("{}", v["case"].as_str().unwrap_or(""));
    println!("[{}] {}", v["sig"].as_str().unwrap_or(""), v["message"].as_str().unwrap_or(""));
    println!("VIOLATION property={} replay={}", id, p.display());
}

// ---------- supervision: a crash or hang of the worker process is a finding too ----------

struct Slots {
    ptr: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
impl Slots {
    fn create(p: &Path, n: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("slots");
        f.set_len((n * 16) as u64).expect("slots");
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), n * 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED);
        Slots { ptr: ptr as *mut u64 }
    }
    fn set(&self, t: usize, a: u64, b: u64) {
        unsafe {
            std::ptr::write_volatile(self.ptr.add(2 * t + 1), b);
            std::ptr::write_volatile(self.ptr.add(2 * t), a);
        }
    }
}

fn read_slots(p: &Path) -> Vec<(u64, u64)> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks(16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .collect()
}

fn case_seed(check: &Check, pi: usize, i: u64) -> u64 {
    let seed = env_u64("VERIF_SEED", 1);
    mix(seed ^ hash_str(check.id) ^ hash_str(check.parts[pi].name).rotate_left(7)).wrapping_add(mix(i))
}

pub fn main_run(check: Check) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    install_panic_hook();
    let exe = std::env::current_exe().expect("exe");
    if let Some(k) = args.iter().position(|a| a == "--one") {
        // --one PART INDEX: one case, in this process
        let pi: usize = args[k + 1].parse().expect("part");
        let i: u64 = args[k + 2].parse().expect("index");
        let s = case_seed(&check, pi, i);
        let (o, _, _) = run_case(check.parts[pi].f, Src::random(s), s);
        return match o {
            Outcome::Pass => 0,
            Outcome::Fail(e) => {
                println!("[{}] {}", e.sig, e.msg);
                1
            }
            Outcome::Harness(m) => {
                eprintln!("harness error: {m}");
                2
            }
        };
    }
    if let Some(k) = args.iter().position(|a| a == "--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[k + 1]).expect("replay file")).expect("json");
        if let Some(fid) = v["fixed"].as_str() {
            let fx = check.fixed.iter().find(|f| f.id == fid).expect("fixed input");
            let mut ctx = Ctx { verbose: true, ..Default::default() };
            return match (fx.f)(&mut ctx) {
                Ok(()) => {
                    println!("passes");
                    0
                }
                Err(e) => {
                    println!("{}\n[{}] {}", ctx.sample, e.sig, e.msg);
                    1
                }
            };
        }
        let pi = check.parts.iter().position(|p| Some(p.name) == v["part"].as_str()).expect("part");
        let (src, s) = match v["choices"].as_array() {
            Some(c) => (Src::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()), 0),
            None => {
                let s = case_seed(&check, pi, v["index"].as_u64().unwrap());
                (Src::random(s), s)
            }
        };
        let (o, ctx, _) = run_case(check.parts[pi].f, src, s);
        println!("{}", ctx.sample);
        return match o {
            Outcome::Pass => {
                println!("passes");
                0
            }
            Outcome::Fail(e) => {
                println!("[{}] {}", e.sig, e.msg);
                1
            }
            Outcome::Harness(m) => {
                println!("harness error: {m}");
                2
            }
        };
    }
    if let Some(k) = args.iter().position(|a| a == "--worker") {
        let slots = PathBuf::from(&args[k + 1]);
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
        }
        return work(&check, Some(slots));
    }
    // supervisor
    let dir = new_scratch_root();
    let slots = dir.join("slots");
    let mut child = std::process::Command::new(&exe)
        .args(&args[1..])
        .arg("--worker")
        .arg(&slots)
        .spawn()
        .expect("worker");
    let mut since: BTreeMap<usize, ((u64, u64), Instant)> = BTreeMap::new();
    let mut hung = false;
    let started = Instant::now();
    let status = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break Some(st);
        }
        for (t, s) in read_slots(&slots).into_iter().enumerate() {
            if s.0 == 0 {
                since.remove(&t);
                continue;
            }
            let e = since.entry(t).or_insert((s, Instant::now()));
            if e.0 != s {
                *e = (s, Instant::now());
            } else if e.1.elapsed() > Duration::from_secs(CASE_SECS) {
                hung = true;
            }
        }
        if hung {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    use std::os::unix::process::ExitStatusExt;
    let clean_exit = status.as_ref().map(|s| s.signal().is_none() && matches!(s.code(), Some(0..=2))).unwrap_or(false);
    let code = if clean_exit {
        status.unwrap().code().unwrap()
    } else {
        // find the case that crashes or hangs by itself
        let cands: Vec<(u64, u64)> = read_slots(&slots).into_iter().filter(|s| s.0 != 0).collect();
        let mut hit = None;
        for (p, i) in cands {
            eprintln!("note: part {} case {i} was running", check.parts[p as usize - 1].name);
            let mut c = std::process::Command::new(&exe)
                .args(&args[1..])
                .args(["--one", &(p - 1).to_string(), &i.to_string()])
                .spawn()
                .expect("one");
            let t0 = Instant::now();
            let st = loop {
                if let Some(st) = c.try_wait().expect("wait") {
                    break Some(st);
                }
                if t0.elapsed() > Duration::from_secs(CASE_SECS) {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(20));
            };
            match st {
                None => hit = Some((p, i, "hang")),
                Some(s) if s.signal().is_some() => hit = Some((p, i, "crash")),
                _ => {}
            }
            if hit.is_some() {
                break;
            }
        }
        match hit {
            Some((p, i, kind)) => {
                let part = &check.parts[p as usize - 1];
                let v = json!({
                    "check": check.id, "part": part.name, "seed": env_u64("VERIF_SEED", 1), "index": i, "sig": kind,
                    "message": format!("the code under test {} in this case (replay the file to see it)",
                        if kind == "hang" { "does not end" } else { "crashes the process" }),
                });
                report_violation(check.id, &format!("{}-{}", part.name, i), &v, &verif_dir().join("evidence/replays"));
                let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
                write_evidence(check.id, &json!({
                    "property": check.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": env_u64("VERIF_SEED", 1),
                    "level": check.level,
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": check.rule, "samples": [v]},
                    "wall_s": started.elapsed().as_secs_f64(), "violations": 1
                }));
                1
            }
            None => {
                eprintln!("harness error: the worker ended with {status:?} and no case repeats it");
                2
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);
/// A new scratch directory, on a memory file system when there is one; the supervisor removes them all.
pub fn scratch_dir() -> PathBuf {
    let base = match std::env::var("VERIF_SCRATCH") {
        Ok(b) => PathBuf::from(b),
        Err(_) => new_scratch_root(),
    };
    loop {
        let k = SCRATCH.fetch_add(1, Ordering::Relaxed);
        let d = base.join(format!("{}-{}", std::process::id(), k));
        match std::fs::create_dir(&d) {
            Ok(()) => return d,
            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => {}
            Err(e) => panic!("no scratch directory {d:?}: {e}"),
        }
    }
}

fn new_scratch_root() -> PathBuf {
    for base in ["/dev/shm", "/tmp"] {
        for k in 0..100 {
            let d = PathBuf::from(base).join(format!("podo-verif-{}-{}", std::process::id(), k));
            if std::fs::create_dir(&d).is_ok() {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755));
                std::env::set_var("VERIF_SCRATCH", &d);
                return d;
            }
        }
    }
    panic!("no place for scratch directories");
}
