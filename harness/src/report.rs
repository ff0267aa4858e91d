//! Verdicts and evidence. A check records every evaluated case here; the
//! verdict is computed from what was recorded, never from a return value alone.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Violation {
    sig: String,
    detail: String,
}

#[derive(Default)]
struct Inner {
    evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    gauges: BTreeMap<String, f64>,
    violations: Vec<Violation>,
    inconclusive: Vec<String>,
}

pub struct Report {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<String>,
    rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
    inner: Mutex<Inner>,
}

/// On a slow machine a phase does fewer jobs, but never fewer than its minimum.
#[derive(Clone, Copy)]
pub struct Phase {
    until: Instant,
    hard: Instant,
}

impl Phase {
    /// True when job `i` should be left out; the first `min` jobs are always done (up to a limit
    /// that keeps the whole check within its allowance).
    pub fn over(&self, i: usize, min: usize) -> bool {
        let now = Instant::now();
        (i >= min && now > self.until) || now > self.hard
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn new(property: &str, tier: Tier, seed: u64, only: Option<String>) -> Report {
        Report {
            property: property.into(),
            tier,
            seed,
            only,
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            start: Instant::now(),
            inner: Mutex::new(Inner::default()),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    /// A phase of the workload with a time budget of its own.
    pub fn phase(&self, quick_s: u64, thorough_s: u64) -> Phase {
        let s = if self.thorough() { thorough_s } else { quick_s };
        Phase {
            until: Instant::now() + Duration::from_secs(s),
            hard: self.start + Duration::from_secs(if self.thorough() { 30_000 } else { 700 }),
        }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    /// One evaluated case. `key` identifies it for the distinct count (None: trivial case).
    pub fn eval(&self, key: Option<&str>) {
        progress();
        let mut g = self.inner.lock().unwrap();
        g.evaluations += 1;
        if let Some(k) = key {
            g.distinct.insert(hash(k));
        }
    }
    pub fn evals(&self, n: u64, keys: impl IntoIterator<Item = u64>) {
        progress();
        let mut g = self.inner.lock().unwrap();
        g.evaluations += n;
        g.distinct.extend(keys);
    }
    pub fn sample(&self, s: String) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 6 {
            g.samples.push(s);
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        progress();
        *self.inner.lock().unwrap().counters.entry(name.into()).or_insert(0) += n;
    }
    pub fn gauge_max(&self, name: &str, v: f64) {
        let mut g = self.inner.lock().unwrap();
        let e = g.gauges.entry(name.into()).or_insert(f64::NEG_INFINITY);
        *e = e.max(v);
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }
    /// `sig` identifies what failed (matched against the known-findings file);
    /// `detail` lets a reader replay it.
    pub fn violation(&self, sig: &str, detail: String) {
        let mut g = self.inner.lock().unwrap();
        if g.violations.len() < 200 {
            eprintln!("[{}] violation {sig}: {detail}", self.property);
            g.violations.push(Violation {
                sig: sig.into(),
                detail,
            });
        }
    }
    pub fn inconclusive(&self, why: String) {
        self.inner.lock().unwrap().inconclusive.push(why);
    }
    pub fn failed(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    /// Runs code under test; a panic on an input it must handle is a violation.
    pub fn guard<T>(&self, sig: &str, case: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.violation(&format!("{sig}:panic"), format!("{case}: panicked: {m}"));
                None
            }
        }
    }
    /// Fails the run as inconclusive when a monitor saw less than it must have.
    pub fn require(&self, name: &str, at_least: u64) {
        let have = self.counter(name);
        if have < at_least && self.only.is_none() {
            self.inconclusive(format!("observed only {have} of at least {at_least} `{name}`"));
        }
    }

    pub fn finish(&self) -> i32 {
        let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
        let dir = PathBuf::from(&verif).join("evidence");
        let _ = fs::create_dir_all(dir.join("replay"));
        let g = self.inner.lock().unwrap();
        let known = fs::read_to_string(PathBuf::from(&verif).join("KNOWN_FINDINGS.txt"))
            .unwrap_or_default();
        let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
        let mut fresh = vec![];
        for v in &g.violations {
            let prefix = format!("known: property={} sig={} ", self.property, v.sig);
            match known.lines().find(|l| l.starts_with(&prefix)) {
                Some(l) => {
                    known_hits.insert(v.sig.clone(), l[prefix.len()..].to_string());
                }
                None => fresh.push(v),
            }
        }
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]",
            js(&self.property),
            self.seed,
            g.evaluations,
            g.distinct.len(),
            js(&self.rule.lock().unwrap()),
            g.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(o, ",\n  \"observed\": {{");
        let mut first = true;
        for (k, v) in &g.counters {
            let _ = write!(o, "{}{}: {v}", if first { "" } else { ", " }, js(k));
            first = false;
        }
        for (k, v) in &g.gauges {
            if v.is_finite() {
                let _ = write!(o, "{}{}: {v:.3}", if first { "" } else { ", " }, js(k));
                first = false;
            }
        }
        let _ = write!(
            o,
            "}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"known_findings\": {},\n \"inconclusive\": [{}],\n \"violations\": {}\n}}\n",
            self.assumptions
                .lock()
                .unwrap()
                .iter()
                .map(|s| js(s))
                .collect::<Vec<_>>()
                .join(", "),
            self.start.elapsed().as_secs_f64(),
            known_hits.len(),
            g.inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            fresh.len()
        );
        let path = dir.join(format!("{}.json", self.property));
        if let Err(e) = fs::write(&path, o) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        println!(
            "{} {tier} seed={} evaluations={} distinct={} {}",
            self.property,
            self.seed,
            g.evaluations,
            g.distinct.len(),
            g.counters
                .iter()
                .map(|(k, v)| format!("{k}={v}"))
                .chain(g.gauges.iter().map(|(k, v)| format!("{k}={v:.2}")))
                .collect::<Vec<_>>()
                .join(" ")
        );
        for (sig, what) in &known_hits {
            println!("KNOWN-FINDING: property={} {what} [{sig}]", self.property);
        }
        if !fresh.is_empty() {
            let rp = dir.join("replay").join(format!("{}.json", self.property));
            let mut r = format!(
                "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"rerun\": {},\n \"violations\": [\n",
                js(&self.property),
                self.seed,
                js(&format!(
                    "VERIF_SEED={} VERIF_TIER={tier} bash /verif/check.sh {}",
                    self.seed, self.property
                ))
            );
            for (i, v) in fresh.iter().enumerate() {
                let _ = write!(
                    r,
                    "{}  {{\"sig\": {}, \"detail\": {}}}",
                    if i > 0 { ",\n" } else { "" },
                    js(&v.sig),
                    js(&v.detail)
                );
            }
            r.push_str("\n ]\n}\n");
            let _ = fs::write(&rp, r);
            for v in fresh.iter().take(10) {
                println!("  {}: {}", v.sig, v.detail);
            }
            println!("VIOLATION property={} replay={}", self.property, rp.display());
            return 1;
        }
        if !g.inconclusive.is_empty() {
            println!("INCONCLUSIVE property={} {}", self.property, g.inconclusive.join("; "));
            return 3;
        }
        0
    }
}

/// Seconds (since the first call) at which something finished last.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static BEGIN: OnceLock<Instant> = OnceLock::new();

fn progress() {
    PROGRESS.store(BEGIN.get_or_init(Instant::now).elapsed().as_secs(), Ordering::Relaxed);
}

/// Ends the check with a violation when the code under test does not return: nothing the
/// workload does takes more than a small fraction of this limit.
pub fn watch(rep: &'static Report) {
    progress();
    let limit = if rep.thorough() { 1500 } else { 400 };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let idle = BEGIN.get().unwrap().elapsed().as_secs() - PROGRESS.load(Ordering::Relaxed);
        if idle > limit {
            rep.violation("hang", format!("no operation of the workload returned for {limit} s"));
            std::process::exit(rep.finish());
        }
    });
}

/// Runs the check in a process of its own, so that a crash of the code under test (a fatal
/// signal) is reported as what it is. None: this is that process.
pub fn supervise(rep: &Report) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    if std::env::var_os("VERIF_SUPERVISED").is_some() {
        return None;
    }
    let st = std::process::Command::new(std::env::current_exe().ok()?)
        .args(std::env::args_os().skip(1))
        .env("VERIF_SUPERVISED", "1")
        .status()
        .ok()?;
    match st.signal() {
        // Illegal instruction, abort (stack overflow too), bus error, arithmetic, segmentation.
        Some(n @ (4 | 6 | 7 | 8 | 11)) => {
            rep.rule("the process that runs the workload must not be ended by a fatal signal");
            rep.eval(None);
            rep.violation("crash", format!("the code under test ended the process with signal {n}"));
            Some(rep.finish())
        }
        Some(_) => Some(5),
        None => Some(st.code().unwrap_or(5)),
    }
}

thread_local! {
    static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
static ANY: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Panics inside `catch` are recorded, not printed.
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let text = format!("{m} at {loc}");
        LAST.with(|l| *l.borrow_mut() = text.clone());
        if QUIET.with(|q| q.get()) == 0 {
            // A worker thread of the code under test: remembered for the joining `catch`.
            let mut a = ANY.lock().unwrap();
            if a.len() < 64 {
                a.push(text);
            }
            if std::thread::current().name() == Some("main") {
                old(info);
            }
        }
    }));
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    progress();
    r.map_err(|_| {
        let mut m = LAST.with(|l| l.borrow().clone());
        if m.contains("a scoped thread panicked") {
            if let Some(w) = ANY.lock().unwrap().pop() {
                m = format!("{w} (in worker thread)");
            }
        }
        m.chars().take(600).collect()
    })
}

/// Runs `n` numbered jobs on up to `workers` threads.
pub fn parallel(workers: usize, n: usize, job: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers.min(n.max(1)))
            .map(|_| {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n {
                        return;
                    }
                    job(i);
                    progress();
                })
            })
            .collect();
        for h in hs {
            if let Err(e) = h.join() {
                std::panic::resume_unwind(e);
            }
        }
    });
}
