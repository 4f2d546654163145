//! Runs a check: hands cases to threads, watches every parse (panics, crashes, effort), gathers
//! what was observed, and reports.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::rng::Rng;

// ---------------------------------------------------------------------------------------------
// Effort: the number of allocations a thread makes. The parser allocates at every step it takes
// (each name, each failed alternative), so this is a deterministic measure of its work.

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
pub static STUCK: AtomicUsize = AtomicUsize::new(0);
static EXIT_ON_LIMIT: AtomicBool = AtomicBool::new(false);

#[inline]
fn tick() {
    let over = ALLOCS
        .try_with(|a| {
            let n = a.get() + 1;
            a.set(n);
            LIMIT.try_with(|l| n > l.get()).unwrap_or(false)
        })
        .unwrap_or(false);
    if over {
        over_limit();
    }
}

#[cold]
fn over_limit() {
    if EXIT_ON_LIMIT.load(Ordering::SeqCst) {
        unsafe { libc_exit(70) }
    }
    STUCK.fetch_add(1, Ordering::SeqCst);
    loop {
        std::thread::sleep(Duration::from_secs(3600));
    }
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

pub fn set_limit(n: u64) {
    LIMIT.with(|l| l.set(n))
}

pub const CASE_LIMIT: u64 = 60_000_000;

// ---------------------------------------------------------------------------------------------

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stream: String,
    pub case: u64,
    pub why: String,
    pub source: String,
    pub expected: String,
    pub got: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub per_stream: BTreeMap<String, u64>,
}

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Env, u64),
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub streams: Vec<Stream>,
    pub assumptions: &'static [&'static str],
}

/// Where things are.
#[derive(Clone)]
pub struct Places {
    /// The folder of the harness, with the known findings.
    pub verif: PathBuf,
    /// The tools, where any user may run them.
    pub bins: PathBuf,
    /// This program, where any user may run it.
    pub me: PathBuf,
    /// Builds of it with sanitizers.
    pub asan: PathBuf,
    pub tsan: PathBuf,
    /// For files that come and go.
    pub scratch: PathBuf,
    /// For what the supervisor reads.
    pub work: PathBuf,
}

pub struct Shared {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
    pub bins: PathBuf,
    pub me: PathBuf,
    pub asan: PathBuf,
    pub tsan: PathBuf,
    pub scratch: PathBuf,
    pub work: PathBuf,
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub next: AtomicUsize,
    pub deadline: Instant,
    pub inconclusive: Mutex<Vec<String>>,
}

pub struct Env {
    pub shared: Arc<Shared>,
    pub stream: &'static str,
    pub case: u64,
    pub r: Rng,
    slot: std::fs::File,
    pub thread: usize,
    /// Effort of the last parse.
    pub effort: u64,
    /// What a parse may cost before it is given up.
    pub limit: u64,
    stats: Stats,
}

#[derive(Debug, Clone)]
pub enum Parsed {
    Text(String),
    Panic(String),
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

impl Env {
    pub fn thorough(&self) -> bool {
        self.shared.thorough
    }

    fn note(&mut self, src: &str) {
        let mut b = Vec::with_capacity(src.len() + 8);
        b.extend_from_slice(&(src.len() as u64).to_le_bytes());
        b.extend_from_slice(src.as_bytes());
        let _ = self.slot.write_all_at(&b, 0);
    }

    /// Parses under observation.
    pub fn parse(&mut self, src: &str) -> Parsed {
        self.note(src);
        self.stats.evaluations += 1;
        let before = allocs();
        set_limit(before + self.limit);
        let r = std::panic::catch_unwind(|| elm_parser::verif::parse(src));
        set_limit(u64::MAX);
        self.effort = allocs() - before;
        let _ = self.slot.write_all_at(&0u64.to_le_bytes(), 0);
        match r {
            Ok(s) => Parsed::Text(s),
            Err(p) => Parsed::Panic(panic_text(p)),
        }
    }

    /// The text of the outcome; a panic is a violation of whatever is being checked.
    pub fn outcome(&mut self, src: &str) -> Option<String> {
        match self.parse(src) {
            Parsed::Text(s) => Some(s),
            Parsed::Panic(m) => {
                self.violate("the parser panicked", src, "a tree or an error", &m);
                None
            }
        }
    }

    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.counts.get_mut(k) {
            *v += n;
        } else {
            self.stats.counts.insert(k.to_string(), n);
        }
    }

    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.stats.counts.entry(format!("max: {}", k)).or_insert(0);
        *v = (*v).max(n);
    }

    pub fn evaluated(&mut self) {
        self.stats.evaluations += 1;
    }

    /// Counts a case that exercised what the property is about.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) {
        self.stats.distinct.insert(hash(key));
    }

    pub fn sample(&mut self, s: &str) {
        let stream = self.stream;
        let v = self.stats.samples.entry(stream.to_string()).or_default();
        if v.len() < 3 && s.len() < 1500 {
            v.push(s.to_string());
        }
    }

    pub fn violate(&mut self, why: &str, source: &str, expected: &str, got: &str) {
        let v = Violation {
            stream: self.stream.to_string(),
            case: self.case,
            why: why.to_string(),
            source: source.to_string(),
            expected: expected.to_string(),
            got: got.to_string(),
        };
        let mut l = self.shared.violations.lock().unwrap();
        l.push(v);
        if l.len() >= 40 {
            self.shared.stop.store(true, Ordering::SeqCst);
        }
    }

    pub fn known_finding(&mut self, what: &str) {
        let mut l = self.shared.known.lock().unwrap();
        if !l.iter().any(|x| x == what) {
            l.push(what.to_string());
        }
    }

    pub fn inconclusive(&mut self, what: &str) {
        let mut l = self.shared.inconclusive.lock().unwrap();
        if l.len() < 20 {
            l.push(what.to_string());
        }
    }

    fn flush(&mut self) {
        let s = std::mem::take(&mut self.stats);
        let mut g = self.shared.stats.lock().unwrap();
        g.evaluations += s.evaluations;
        g.distinct.extend(s.distinct);
        for (k, v) in s.counts {
            let e = g.counts.entry(k.clone()).or_insert(0);
            if k.starts_with("max: ") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        for (k, v) in s.samples {
            let e = g.samples.entry(k).or_default();
            e.extend(v);
            e.truncate(3);
        }
        for (k, v) in s.per_stream {
            *g.per_stream.entry(k).or_insert(0) += v;
        }
    }
}

/// For `mon one`: the effort limit ends the process with status 70.
pub fn exit_on_limit(n: u64) {
    EXIT_ON_LIMIT.store(true, Ordering::SeqCst);
    set_limit(allocs() + n);
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

pub const STACK: usize = 1 << 28;

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub known: Vec<String>,
    pub inconclusive: Vec<String>,
    pub stats: Stats,
    pub complete: bool,
    pub wall: f64,
}

pub fn run(check: &Check, seed: u64, thorough: bool, only: Option<(String, u64)>, places: &Places, cap: Duration) -> Outcome {
    let started = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        // a panic of the code under test is judged where it is caught; one of the harness is not
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if loc.starts_with("src/") {
            let _ = writeln!(std::io::stderr(), "harness panic: {}", info);
        }
    }));
    let mut plan: Vec<(usize, u64, f64)> = vec![];
    for (i, s) in check.streams.iter().enumerate() {
        let n = if thorough { s.thorough } else { s.quick };
        for c in 0..n {
            if let Some((name, case)) = &only {
                if name != s.name || *case != c {
                    continue;
                }
            }
            plan.push((i, c, (c as f64 + 0.5) / n as f64));
        }
    }
    plan.sort_by(|a, b| a.2.partial_cmp(&b.2).unwrap());
    let plan: Arc<Vec<(usize, u64)>> = Arc::new(plan.into_iter().map(|p| (p.0, p.1)).collect());
    let streams: Arc<Vec<(&'static str, fn(&mut Env, u64))>> = Arc::new(check.streams.iter().map(|s| (s.name, s.run)).collect());
    let shared = Arc::new(Shared {
        id: check.id.to_string(),
        seed,
        thorough,
        verif: places.verif.clone(),
        bins: places.bins.clone(),
        me: places.me.clone(),
        asan: places.asan.clone(),
        tsan: places.tsan.clone(),
        scratch: places.scratch.clone(),
        work: places.work.clone(),
        stats: Mutex::new(Stats::default()),
        violations: Mutex::new(vec![]),
        known: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        next: AtomicUsize::new(0),
        deadline: started + cap,
        inconclusive: Mutex::new(vec![]),
    });
    let threads = std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
    });
    let done = Arc::new(AtomicUsize::new(0));
    for t in 0..threads {
        let (plan, streams, shared, done) = (plan.clone(), streams.clone(), shared.clone(), done.clone());
        let slot = std::fs::File::create(places.work.join(format!("slot-{}", t))).expect("slot file");
        let id_hash = hash(check.id);
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let mut env = Env {
                    shared: shared.clone(),
                    stream: "",
                    case: 0,
                    r: Rng::new(0, 0, 0),
                    slot,
                    thread: t,
                    effort: 0,
                    limit: CASE_LIMIT,
                    stats: Stats::default(),
                };
                loop {
                    if shared.stop.load(Ordering::SeqCst) || Instant::now() > shared.deadline {
                        break;
                    }
                    let k = shared.next.fetch_add(1, Ordering::SeqCst);
                    if k >= plan.len() {
                        break;
                    }
                    let (s, c) = plan[k];
                    let (name, f) = streams[s];
                    env.stream = name;
                    env.case = c;
                    env.limit = CASE_LIMIT;
                    env.r = Rng::new(seed, id_hash ^ hash(name), c);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut env, c)));
                    set_limit(u64::MAX);
                    if let Err(p) = r {
                        let m = panic_text(p);
                        env.inconclusive(&format!("the harness failed in {} case {}: {}", name, c, m));
                        shared.stop.store(true, Ordering::SeqCst);
                    }
                    *env.stats.per_stream.entry(name.to_string()).or_insert(0) += 1;
                    if k % 64 == 0 {
                        env.flush();
                    }
                }
                env.flush();
                done.fetch_add(1, Ordering::SeqCst);
            })
            .expect("thread");
    }
    // the deadline stops the handing out of cases; a case itself may take a while longer
    let hard = cap + Duration::from_secs(240);
    loop {
        let stuck = STUCK.load(Ordering::SeqCst);
        if done.load(Ordering::SeqCst) + stuck >= threads {
            break;
        }
        if started.elapsed() > hard {
            shared.inconclusive.lock().unwrap().push("some cases did not end in time".to_string());
            if ends(check.id) {
                // a parse that goes on without allocating: held against its own processor time
                let texts: Vec<String> = slots(&places.work);
                let runs: Vec<_> = texts
                    .into_iter()
                    .enumerate()
                    .filter_map(|(k, t)| {
                        let f = places.work.join(format!("endless-{}", k));
                        std::fs::write(&f, &t).ok()?;
                        let c = std::process::Command::new("bash")
                            .args(["-c", "ulimit -t 60; exec \"$0\" one \"$1\""])
                            .arg(&places.me)
                            .arg(&f)
                            .stdout(std::process::Stdio::null())
                            .stderr(std::process::Stdio::null())
                            .spawn()
                            .ok()?;
                        Some((t, c))
                    })
                    .collect();
                for (t, mut c) in runs {
                    use std::os::unix::process::ExitStatusExt;
                    let s = c.wait().ok();
                    let over = s.map(|s| s.code() == Some(70) || matches!(s.signal(), Some(9) | Some(24))).unwrap_or(false);
                    if over {
                        shared.violations.lock().unwrap().push(Violation { stream: "endless".to_string(), case: 0, why: "parsing does not end within a minute of processor time".to_string(), source: t, expected: "an outcome".to_string(), got: "given up".to_string() });
                    }
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let stuck = STUCK.load(Ordering::SeqCst);
    if stuck > 0 {
        // the texts are in the slots
        let texts = slots(&places.work);
        if ends(check.id) {
            for t in texts {
                shared.violations.lock().unwrap().push(Violation { stream: "effort".to_string(), case: 0, why: "parsing takes far more effort than any text of this length should".to_string(), source: t, expected: "an outcome".to_string(), got: "given up".to_string() });
            }
        } else {
            shared.inconclusive.lock().unwrap().push(format!("{} parses were given up, as they took too much effort", stuck));
        }
    }
    let handed = shared.next.load(Ordering::SeqCst);
    let stats = std::mem::take(&mut *shared.stats.lock().unwrap());
    let violations = std::mem::take(&mut *shared.violations.lock().unwrap());
    let known = std::mem::take(&mut *shared.known.lock().unwrap());
    let inconclusive = std::mem::take(&mut *shared.inconclusive.lock().unwrap());
    Outcome { violations, known, inconclusive, stats, complete: handed >= plan.len(), wall: started.elapsed().as_secs_f64() }
}

/// Whether the property says that parsing ends.
fn ends(id: &str) -> bool {
    id == "C01" || id == "C02"
}

/// What the slots say was being parsed when the worker died.
pub fn slots(work: &Path) -> Vec<String> {
    let mut out = vec![];
    let mut t = 0;
    while let Ok(b) = std::fs::read(work.join(format!("slot-{}", t))) {
        t += 1;
        if b.len() < 8 {
            continue;
        }
        let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
        if n > 0 && b.len() >= 8 + n {
            if let Ok(s) = String::from_utf8(b[8..8 + n].to_vec()) {
                out.push(s);
            }
        }
    }
    out
}

pub fn write_atomically(path: &Path, text: &str) -> std::io::Result<()> {
    if let Some(d) = path.parent() {
        std::fs::create_dir_all(d)?;
    }
    let tmp = path.with_extension("tmp");
    std::fs::write(&tmp, text)?;
    std::fs::rename(&tmp, path)
}

#[derive(Clone, Debug)]
pub struct Known {
    pub input: String,
    pub what: String,
}

/// The findings listed for a property: lines `KNOWN-FINDING: property=<id> <input>: <what fails>`.
pub fn known_findings(verif: &Path, id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let start = format!("KNOWN-FINDING: property={} ", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&start[..]))
        .filter_map(|l| l.split_once(": "))
        .map(|(a, b)| Known { input: a.to_string(), what: b.to_string() })
        .collect()
}
