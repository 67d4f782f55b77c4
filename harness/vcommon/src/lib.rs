//! Shared machinery of the runtime monitors: seeded workloads, oracle verdicts, evidence.
//!
//! A check is a binary: it runs *streams* of cases. Every case has its own seed, derived from
//! VERIF_SEED, the stream name and the case index, so any case can be replayed alone
//! (`VERIF_REPLAY=<stream>:<case seed>`). The oracle of a case returns `Err(Viol)` when an
//! observed execution contradicts the property. A panic escaping the code under test is a
//! violation too; a panic raised with `harness_bug!` is not (exit 2: no verdict).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

mod rng;
pub use rng::Rng;

#[derive(Debug, Clone)]
pub struct Viol {
    /// Stable signature, matched against the known-findings file.
    pub sig: String,
    pub msg: String,
}

pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !($cond) { return Err($crate::Viol { sig: ($sig).to_string(), msg: format!($($fmt)*) }); }
    };
}

#[macro_export]
macro_rules! harness_bug {
    ($($fmt:tt)*) => { panic!("HARNESS-BUG: {}", format!($($fmt)*)) };
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    input: String,
    distinct: Vec<u64>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    sample: Option<String>,
    soft: Vec<Viol>,
    slot: Option<Arc<Mutex<Slot>>>,
}

impl Case {
    fn new(seed: u64, slot: Option<Arc<Mutex<Slot>>>) -> Case {
        Case {
            rng: Rng::new(seed),
            seed,
            input: String::new(),
            distinct: Vec::new(),
            counters: BTreeMap::new(),
            sets: BTreeMap::new(),
            sample: None,
            soft: Vec::new(),
            slot,
        }
    }
    /// Describes the input, for replays and hangs.
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
        if let Some(slot) = &self.slot {
            slot.lock().unwrap().input = self.input.clone();
        }
    }
    pub fn append_input(&mut self, s: &str) {
        let mut i = std::mem::take(&mut self.input);
        i.push_str(s);
        self.input(i);
    }
    /// A violation that does not end the case (the first one that is not a known finding counts).
    pub fn soft(&mut self, r: Result<(), Viol>) {
        self.soft.extend(r.err());
    }
    /// Marks this case as a distinct non-trivial one, identified by `key`.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) {
        self.distinct.push(hash_of(key));
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.to_owned()).or_default() += n;
    }
    /// Counts distinct values seen over the run, under `what`.
    pub fn seen<T: Hash + ?Sized>(&mut self, what: &str, value: &T) {
        self.sets.entry(what.to_owned()).or_default().insert(hash_of(value));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into());
    }
    pub fn current_input(&self) -> &str {
        &self.input
    }
}

struct Slot {
    started: Option<Instant>,
    stream: String,
    seed: u64,
    input: String,
}

pub struct Stream {
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
}

pub struct Check {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    rule: String,
    start: Instant,
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    streams: BTreeMap<String, u64>,
    samples: Vec<String>,
    assumptions: Vec<String>,
    violations: Vec<(String, u64, String, Viol)>,
    harness_errors: Vec<String>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    minimums: Vec<(String, u64)>,
    slots: Vec<Arc<Mutex<Slot>>>,
    hang_limit: Duration,
    stop_at: Duration,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic of the code under test into a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if msg.starts_with("HARNESS-BUG") {
                panic!("{msg}");
            }
            Err(Viol { sig: format!("panic:{what}"), msg: format!("{what} panicked: {msg} (at {loc})") })
        }
    }
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}

impl Check {
    pub fn new(id: &str, rule: &str) -> Check {
        install_hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let known = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=<id> sig=<sig> <what fails>
                let rest = l.strip_prefix("known: property=")?;
                let (pid, rest) = rest.split_once(" sig=")?;
                let (sig, what) = rest.split_once(' ')?;
                (pid == id).then(|| (sig.to_owned(), what.to_owned()))
            })
            .collect();
        Check {
            id: id.into(),
            thorough,
            seed,
            rule: rule.into(),
            start: Instant::now(),
            evaluations: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            sets: BTreeMap::new(),
            streams: BTreeMap::new(),
            samples: Vec::new(),
            assumptions: Vec::new(),
            violations: Vec::new(),
            harness_errors: Vec::new(),
            known,
            known_hit: BTreeMap::new(),
            minimums: Vec::new(),
            slots: Vec::new(),
            hang_limit: Duration::from_secs(std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(150)),
            stop_at: if thorough { Duration::from_secs(3600) } else { Duration::from_secs(240) },
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// The run proves nothing unless the counter `what` reached `n`: otherwise there is no verdict.
    pub fn require(&mut self, what: &str, n: u64) {
        self.minimums.push((what.into(), n));
    }

    pub fn add(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.into()).or_default() += n;
    }

    pub fn report(&mut self, stream: &str, seed: u64, input: &str, v: Viol) {
        if let Some((_, what)) = self.known.iter().find(|(sig, _)| *sig == v.sig) {
            self.known_hit.insert(v.sig.clone(), what.clone());
            return;
        }
        if self.violations.len() < 50 {
            self.violations.push((stream.into(), seed, input.into(), v));
        }
    }

    /// One fixed case.
    pub fn one(&mut self, name: &str, f: impl Fn(&mut Case) -> Result<(), Viol> + Sync) {
        self.stream(name, Stream { quick: 1, thorough: 1, threads: 1 }, f);
    }

    pub fn cases(&mut self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) -> Result<(), Viol> + Sync) {
        self.stream(name, Stream { quick, thorough, threads: 8 }, f);
    }

    pub fn stream(&mut self, name: &str, s: Stream, f: impl Fn(&mut Case) -> Result<(), Viol> + Sync) {
        let n = if self.thorough { s.thorough } else { s.quick };
        let only: Option<u64> = match std::env::var("VERIF_REPLAY") {
            Ok(r) => match r.split_once(':') {
                Some((st, seed)) if st == name => Some(seed.parse().expect("VERIF_REPLAY")),
                _ => return,
            },
            Err(_) => None,
        };
        let threads = if only.is_some() { 1 } else { s.threads.min(n as usize).max(1) };
        while self.slots.len() < threads {
            let slot = Arc::new(Mutex::new(Slot { started: None, stream: String::new(), seed: 0, input: String::new() }));
            self.slots.push(slot);
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let base = hash_of(&(self.seed, name));
        let results: Mutex<Vec<(u64, u64, Result<(), Viol>, Case)>> = Mutex::new(Vec::new());
        let merged = Mutex::new((0u64, HashSet::<u64>::new(), BTreeMap::<String, u64>::new(), BTreeMap::<String, HashSet<u64>>::new(), Vec::<(u64, String)>::new()));
        let harness_errors = Mutex::new(Vec::new());
        let known: BTreeMap<String, String> = self.known.iter().cloned().collect();
        let known_seen = Mutex::new(HashSet::new());
        let trace = std::env::var("VERIF_TRACE").ok();
        let started = self.start;
        let stop_at = self.stop_at;
        std::thread::scope(|sc| {
            let done = Arc::new(AtomicBool::new(false));
            {
                let done = done.clone();
                let slots = self.slots.clone();
                let id = self.id.clone();
                let limit = self.hang_limit;
                sc.spawn(move || {
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(100));
                        for s in &slots {
                            let g = s.lock().unwrap();
                            if g.started.is_some_and(|t| t.elapsed() > limit) {
                                let v = Viol { sig: "hang".into(), msg: format!("one case still runs after {limit:?}") };
                                let p = write_replay(&id, 0, &g.stream, g.seed, &g.input, &v);
                                println!("hang: {} case {}", g.stream, g.seed);
                                println!("VIOLATION property={id} replay={p}");
                                std::process::exit(1);
                            }
                        }
                    }
                });
            }
            let workers: Vec<_> = (0..threads)
                .map(|t| {
                    let slot = self.slots[t].clone();
                    let (next, stop, results, merged, harness_errors, f, trace) =
                        (&next, &stop, &results, &merged, &harness_errors, &f, &trace);
                    let (known, known_seen) = (&known, &known_seen);
                    let name = name.to_owned();
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= n || stop.load(Ordering::Relaxed) || started.elapsed() > stop_at {
                                    break;
                                }
                                let seed = only.unwrap_or_else(|| hash_of(&(base, i)));
                                {
                                    let mut g = slot.lock().unwrap();
                                    g.started = Some(Instant::now());
                                    g.stream = name.clone();
                                    g.seed = seed;
                                    g.input.clear();
                                }
                                if let Some(dir) = trace {
                                    let _ = std::fs::write(format!("{dir}/t{t}"), format!("{name}:{seed}\n"));
                                }
                                let mut case = Case::new(seed, Some(slot.clone()));
                                let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                                slot.lock().unwrap().started = None;
                                let r = match r {
                                    Ok(r) => r,
                                    Err(_) => {
                                        let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                        if msg.starts_with("HARNESS-BUG") || loc.starts_with("h_") || loc.starts_with("vcommon") || loc.starts_with("vgen") {
                                            harness_errors.lock().unwrap().push(format!("{name}:{seed}: {msg} at {loc}"));
                                            stop.store(true, Ordering::Relaxed);
                                            continue;
                                        }
                                        Err(Viol { sig: "panic".into(), msg: format!("panic: {msg} (at {loc})") })
                                    }
                                };
                                {
                                    let mut m = merged.lock().unwrap();
                                    m.0 += 1;
                                    m.1.extend(case.distinct.drain(..));
                                    for (k, v) in std::mem::take(&mut case.counters) {
                                        *m.2.entry(k).or_default() += v;
                                    }
                                    for (k, v) in std::mem::take(&mut case.sets) {
                                        m.3.entry(k).or_default().extend(v);
                                    }
                                    if i < 40 {
                                        if let Some(s) = case.sample.take() {
                                            m.4.push((i, s));
                                        }
                                    }
                                }
                                let soft = std::mem::take(&mut case.soft);
                                let mut r = r;
                                for v in soft {
                                    if known.contains_key(&v.sig) {
                                        known_seen.lock().unwrap().insert(v.sig);
                                    } else if r.is_ok() {
                                        r = Err(v);
                                    }
                                }
                                if r.as_ref().is_err_and(|v| known.contains_key(&v.sig)) {
                                    known_seen.lock().unwrap().insert(r.unwrap_err().sig);
                                    r = Ok(());
                                }
                                if r.is_err() {
                                    let mut res = results.lock().unwrap();
                                    res.push((i, seed, r, case));
                                    if res.len() > 200 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                if only.is_some() {
                                    break;
                                }
                            }
                        })
                        .expect("spawn")
                })
                .collect();
            for w in workers {
                let _ = w.join();
            }
            done.store(true, Ordering::Relaxed);
        });
        let (evals, distinct, counters, sets, mut samples) = merged.into_inner().unwrap();
        self.evaluations += evals;
        *self.streams.entry(name.into()).or_default() += evals;
        self.distinct.extend(distinct);
        for (k, v) in counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in sets {
            self.sets.entry(k).or_default().extend(v);
        }
        samples.sort();
        for (_, s) in samples.into_iter().take(3) {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.harness_errors.extend(harness_errors.into_inner().unwrap());
        for sig in known_seen.into_inner().unwrap() {
            let what = known[&sig].clone();
            self.known_hit.insert(sig, what);
        }
        let mut res = results.into_inner().unwrap();
        res.sort_by_key(|r| r.0);
        for (_, seed, r, case) in res {
            if let Err(v) = r {
                self.report(name, seed, &case.input, v);
            }
        }
    }

    pub fn finish(self) -> ! {
        let distinct = self.distinct.len();
        let mut cov = String::new();
        cov.push_str(&format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}", self.evaluations, distinct, json(&self.rule)));
        cov.push_str(", \"observed\": {");
        let mut first = true;
        let all: BTreeMap<String, u64> = self
            .counters
            .iter()
            .map(|(k, v)| (k.clone(), *v))
            .chain(self.sets.iter().map(|(k, v)| (format!("distinct {k}"), v.len() as u64)))
            .collect();
        for (k, v) in &all {
            if !first {
                cov.push_str(", ");
            }
            first = false;
            cov.push_str(&format!("{}: {}", json(k), v));
        }
        cov.push_str("}, \"cases_per_stream\": {");
        cov.push_str(&self.streams.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", "));
        cov.push_str("}, \"samples\": [");
        let mut samples = self.samples.clone();
        if samples.is_empty() {
            samples.push("(no sample recorded)".into());
        }
        cov.push_str(&samples.iter().map(|s| json(&clip(s, 1500))).collect::<Vec<_>>().join(", "));
        cov.push(']');
        let ev = format!(
            "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"known_findings_observed\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
            json(&self.id),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            cov,
            self.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
            self.known_hit.keys().map(|s| json(s)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            self.violations.len()
        );
        let replaying = std::env::var("VERIF_REPLAY").is_ok();
        if !replaying {
            let dir = root().join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), ev).expect("write evidence");
        }
        for (sig, what) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, sig);
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s; {}",
            self.id,
            self.evaluations,
            distinct,
            self.violations.len(),
            self.start.elapsed().as_secs_f64(),
            all.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        if !self.violations.is_empty() {
            let mut sigs = HashSet::new();
            for (i, (stream, seed, input, v)) in self.violations.iter().enumerate() {
                // (VERIF_ALL, for triage, also keeps those which fail alike.)
                if (!sigs.insert(v.sig.clone()) || sigs.len() > 10) && std::env::var_os("VERIF_ALL").is_none() {
                    continue;
                }
                let p = write_replay(&self.id, i, stream, *seed, input, v);
                println!("[{}] {}", v.sig, clip(&v.msg, 1200));
                println!("VIOLATION property={} replay={}", self.id, p);
            }
            std::process::exit(1);
        }
        if !self.harness_errors.is_empty() {
            println!("HARNESS ERROR (no verdict): {}", self.harness_errors.join("; "));
            std::process::exit(2);
        }
        if !replaying {
            for (what, n) in &self.minimums {
                let got = all.get(what).copied().unwrap_or(0);
                if got < *n {
                    println!("NO VERDICT: the monitors observed only {got} x '{what}', fewer than {n}");
                    std::process::exit(2);
                }
            }
        }
        std::process::exit(0)
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}…", &s[..i])
}

fn write_replay(id: &str, i: usize, stream: &str, seed: u64, input: &str, v: &Viol) -> String {
    let dir = root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{i}.txt"));
    let text = format!(
        "property: {id}\nreplay: VERIF_REPLAY='{stream}:{seed}' python3 /verif/bin/check.py {id}\nsignature: {}\nviolation: {}\n\ninput:\n{input}\n",
        v.sig, v.msg
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
