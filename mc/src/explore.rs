//! The explorer: stateless depth-first enumeration of choice sequences, a worker pool over cases,
//! violation records, replay and statistics.
//!
//! Every source of nondeterminism of an execution is a choice point of the session kept by the
//! patched `rand` crate: the random draws of the code under test, and the environment answers of
//! the harness (inject an error here?), which call `choose`. An execution is identified by
//! (suite, case, tag, base, alternatives) and is re-run exactly from that.

use std::collections::HashSet;
use std::fs::File;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::real;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// How many executions of a case are enumerated.
#[derive(Clone, Copy, Debug)]
pub enum Bound {
    /// Every choice sequence.
    All,
    /// Every choice sequence with at most this many deviations from the default answers.
    Dev(u32),
}
impl Bound {
    pub fn text(&self) -> String { match self { Bound::All => "all choice sequences".into(), Bound::Dev(k) => format!("<= {k} deviations") } }
}

/// An environment answer of the harness: one of `n`, 0 being the default.
pub fn choose(n: u64) -> u64 { rand::mc::choose(n).expect("choice outside a session") }

/// Runs `f` under a session of its own that replays the draws made so far (then defaults); the
/// current session is untouched. Also the draws `f` consumed.
pub fn same_draws<T>(f: impl FnOnce() -> T) -> T {
    let (alts, base) = rand::mc::snapshot().expect("same_draws outside a session");
    with_draws(alts, base, f).0
}
/// Runs `f` under a session of its own; also returns the alternatives it passed and the raw draws.
pub fn with_draws<T>(alts: Vec<u32>, base: Vec<u32>, f: impl FnOnce() -> T) -> (T, Vec<(u32, u32)>, u64) {
    let outer = rand::mc::suspend();
    rand::mc::begin(alts, base, vec![]);
    let r = catch_unwind(AssertUnwindSafe(f));
    let s = rand::mc::end();
    rand::mc::resume(outer);
    let (tr, raw) = s.map(|s| (s.trace, s.raw_draws)).unwrap_or_default();
    match r { Ok(v) => (v, tr, raw), Err(e) => std::panic::resume_unwind(e) }
}

/// What stopped a call into the code under test.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Crash { Fuel, Panic(String) }
impl std::fmt::Display for Crash {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self { Crash::Fuel => write!(f, "does not terminate (fuel exhausted)"), Crash::Panic(m) => write!(f, "panic: {m}") }
    }
}
pub fn crash_of(e: Box<dyn std::any::Any + Send>) -> Crash {
    if e.is::<real::OutOfFuel>() { return Crash::Fuel; }
    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "(non-string payload)".into());
    Crash::Panic(m)
}
/// Runs `f` with `fuel` coordinate operations, containing panics.
pub fn guarded<T>(fuel: u64, f: impl FnOnce() -> T) -> Result<T, Crash> {
    let saved = real::fuel();
    real::set_fuel(fuel);
    let r = catch_unwind(AssertUnwindSafe(f));
    real::set_fuel(saved);
    r.map_err(crash_of)
}

pub struct Violation {
    pub suite: String, pub case: usize, pub desc: String, pub tag: String,
    pub base: Vec<u32>, pub alts: Vec<u32>, pub msg: String, pub reproduced: bool,
}

#[derive(Default)]
pub struct SuiteStat { pub name: String, pub cases: u64, pub executions: u64, pub bound: String, pub complete: bool }

/// Only this execution (replay), or only this case (crash hunting).
pub struct Only { pub suite: String, pub case: usize, pub exec: Option<(String, Vec<u32>, Vec<u32>)> }

pub struct Ctx {
    pub prop: String, pub tier: Tier, pub seed: i64, pub root: PathBuf, pub start: Instant, pub deadline: Duration,
    pub threads: usize, pub only: Option<Only>,
    slots: File, slot_state: Vec<Slot>,
    stop: AtomicBool, capped: AtomicBool,
    states: AtomicU64, transitions: AtomicU64, executions: AtomicU64, outcomes: AtomicU64, raw_draws: AtomicU64, diverged: AtomicU64,
    pub rng_points: AtomicU64,
    suites: Mutex<Vec<SuiteStat>>, samples: Mutex<Vec<String>>, violation: Mutex<Option<Violation>>, known: Mutex<Vec<String>>,
    known_list: Vec<String>, carried_wall_ms: AtomicU64, pub extra: Mutex<Vec<(String, String)>>,
    /// Which build of the code under test this worker is ("" or "assertions", ...); prefixes suite names.
    pub part: String, carried: Mutex<Vec<String>>,
}
#[derive(Default)]
struct Slot { beat: AtomicU64, active: AtomicBool, suite: AtomicUsize, case: AtomicUsize }

/// Per worker, per case view of the exploration.
pub struct Case<'c> {
    pub ctx: &'c Ctx, pub suite: &'c str, pub index: usize, pub desc: &'c dyn Fn() -> String, worker: usize,
    seen: HashSet<u64>, execs: u64,
}

pub fn hash_u32s(it: impl IntoIterator<Item = u32>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in it { h = (h.rotate_left(5) ^ v as u64).wrapping_mul(0x517cc1b727220a95); }
    h
}

pub const SLOT: u64 = 1 << 14;

impl Ctx {
    pub fn new(prop: &str, tier: Tier, only: Option<Only>) -> Ctx {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let slots = match std::env::var("MC_SLOTS") {
            Ok(p) => File::options().read(true).write(true).create(true).truncate(false).open(p).expect("slot file"),
            Err(_) => File::options().write(true).open("/dev/null").unwrap(),
        };
        let threads = if only.is_some() { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) };
        let known_list = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines()
            .filter_map(|l| l.strip_prefix(&format!("known: property={prop} sig=")).map(|s| s.trim().to_string())).collect();
        let secs = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 5400 });
        let part = std::env::var("MC_PART").unwrap_or_default();
        let ctx = Ctx {
            prop: prop.into(), tier, seed, root, start: Instant::now(), deadline: Duration::from_secs(secs), threads, only,
            slots, slot_state: (0..threads).map(|_| Slot::default()).collect(),
            stop: AtomicBool::new(false), capped: AtomicBool::new(false), states: AtomicU64::new(0), transitions: AtomicU64::new(0),
            executions: AtomicU64::new(0), outcomes: AtomicU64::new(0), raw_draws: AtomicU64::new(0), diverged: AtomicU64::new(0), rng_points: AtomicU64::new(0),
            suites: Mutex::new(vec![]), samples: Mutex::new(vec![]), violation: Mutex::new(None), known: Mutex::new(vec![]), known_list,
            extra: Mutex::new(vec![]), carried_wall_ms: AtomicU64::new(0), part, carried: Mutex::new(vec![]),
        };
        // counters of the parts that ran before this one
        if let Ok(p) = std::env::var("MC_CARRY") {
            for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
                let Some((k, v)) = l.split_once('\t') else { continue };
                let n: u64 = v.parse().unwrap_or(0);
                match k {
                    "states" => { ctx.states.fetch_add(n, Relaxed); }
                    "transitions" => { ctx.transitions.fetch_add(n, Relaxed); }
                    "executions" => { ctx.executions.fetch_add(n, Relaxed); }
                    "outcomes" => { ctx.outcomes.fetch_add(n, Relaxed); }
                    "raw" => { ctx.raw_draws.fetch_add(n, Relaxed); }
                    "diverged" => { ctx.diverged.fetch_add(n, Relaxed); }
                    "points" => { ctx.rng_points.fetch_max(n, Relaxed); }
                    "wall_ms" => { ctx.carried_wall_ms.fetch_add(n, Relaxed); }
                    "capped" => ctx.capped.store(n != 0, Relaxed),
                    "suite" => ctx.carried.lock().unwrap().push(v.to_string()),
                    "sample" => ctx.samples.lock().unwrap().push(v.to_string()),
                    _ => { }
                }
            }
        }
        ctx
    }
    /// Seconds, the parts before this one included.
    pub fn wall(&self) -> f64 { self.start.elapsed().as_secs_f64() + self.carried_wall_ms.load(Relaxed) as f64 / 1000.0 }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn add_transitions(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    pub fn beat_of(&self, worker: usize) { self.slot_state[worker].beat.fetch_add(1, Relaxed); }
    pub fn add_states(&self, n: u64) { self.states.fetch_add(n, Relaxed); }

    /// Runs `body` for every case index on the worker pool. `bound` only documents the bound.
    pub fn suite(&self, name: &str, bound: &str, n: usize, desc: impl Fn(usize) -> String + Sync, body: impl Fn(&mut Case) + Sync) {
        if self.stopped() { return; }
        let name = &*if self.part.is_empty() { name.to_string() } else { format!("[{}] {name}", self.part) };
        if let Some(o) = &self.only { if o.suite != name { return; } }
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let execs0 = self.executions.load(Relaxed);
        let suite_no = self.suites.lock().unwrap().len();
        std::thread::scope(|sc| {
            let alive = std::sync::Arc::new(AtomicBool::new(true));
            let hs: Vec<_> = (0..self.threads).map(|w| {
                let (next, done, desc, body) = (&next, &done, &desc, &body);
                std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || loop {
                    if self.stopped() { return; }
                    if self.start.elapsed() > self.deadline { self.capped.store(true, Relaxed); return; }
                    let i = match &self.only { Some(o) => { if next.fetch_add(1, Relaxed) > 0 { return; } o.case } None => next.fetch_add(1, Relaxed) };
                    if i >= n { return; }
                    let s = &self.slot_state[w];
                    s.suite.store(suite_no, Relaxed); s.case.store(i, Relaxed); s.beat.fetch_add(1, Relaxed); s.active.store(true, Relaxed);
                    let _ = self.slots.write_at(format!("{name}\t{i}\n\0").as_bytes(), w as u64 * SLOT);
                    let d = || desc(i);
                    let mut c = Case { ctx: self, suite: name, index: i, desc: &d, worker: w, seen: HashSet::new(), execs: 0 };
                    // code under test that panics where the harness does not expect it
                    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut c))) {
                        let _ = rand::mc::end();
                        c.fail("", vec![], format!("unexpected {}", crash_of(e)), false);
                        return;
                    }
                    if i == n / 2 && c.execs > 0 { let execs = c.execs; self.sample_few(|| format!("{name}: {}: {execs} executions, {} distinct outcomes", desc(i), c.seen.len())); }
                    self.outcomes.fetch_add(c.seen.len() as u64, Relaxed);
                    s.active.store(false, Relaxed);
                    done.fetch_add(1, Relaxed);
                }).unwrap()
            }).collect();
            // Watchdog: an execution that burns no fuel and does not come back.
            let (a2, desc) = (alive.clone(), &desc);
            sc.spawn(move || {
                let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); self.threads];
                while a2.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    for w in 0..self.threads {
                        let s = &self.slot_state[w];
                        let b = s.beat.load(Relaxed);
                        if b != last[w].0 || !s.active.load(Relaxed) { last[w] = (b, Instant::now()); continue; }
                        if last[w].1.elapsed() > Duration::from_secs(60) {
                            let i = s.case.load(Relaxed);
                            let v = Violation { suite: name.into(), case: i, desc: desc(i), tag: "".into(), base: vec![], alts: vec![],
                                msg: "an execution of this case did not come back within 60 s".into(), reproduced: false };
                            *self.violation.lock().unwrap() = Some(v);
                            let code = self.finish();
                            std::process::exit(code);
                        }
                    }
                }
            });
            let mut panicked = None;
            for h in hs { if let Err(e) = h.join() { panicked = Some(e); self.stop.store(true, Relaxed); } }
            alive.store(false, Relaxed);
            if let Some(e) = panicked { eprintln!("harness panic: {}", crash_of(e)); std::process::exit(3); }
        });
        let d = done.load(Relaxed);
        self.suites.lock().unwrap().push(SuiteStat { name: name.into(), cases: d, executions: self.executions.load(Relaxed) - execs0, bound: bound.into(), complete: d == n as u64 || self.only.is_some() });
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("[{:7.2}s] {name}: {d}/{n} cases, {} executions", self.start.elapsed().as_secs_f64(), self.executions.load(Relaxed) - execs0);
        }
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 8 { let s = s(); v.push(s); }
    }

    /// A generic sample, for suites that record none of their own.
    fn sample_few(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 4 { let s = s(); v.push(s); }
    }

    fn report(&self, v: Violation) {
        let sig = format!("{} {} {}", v.suite, v.desc.replace('\n', " "), v.msg.lines().next().unwrap_or(""));
        if self.known_list.iter().any(|k| *k == sig) { let mut k = self.known.lock().unwrap(); if !k.contains(&sig) { k.push(sig); } return; }
        let mut g = self.violation.lock().unwrap();
        if g.is_none() { *g = Some(v); }
        self.stop.store(true, Relaxed);
    }

    /// Writes evidence and replay, prints the verdict; the exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violation.lock().unwrap().take();
        for k in self.known.lock().unwrap().iter() { println!("KNOWN-FINDING: property={} {}", self.prop, k); }
        if let Some(o) = &self.only {
            match &v { Some(v) => println!("REPRODUCED suite={} case={} {}\n{}", o.suite, o.case, v.desc, v.msg), None => println!("not reproduced (suite={} case={})", o.suite, o.case) }
            return if v.is_some() { 1 } else { 0 };
        }
        let suites = self.suites.lock().unwrap();
        let mut js: Vec<String> = self.carried.lock().unwrap().clone();
        let carried = js.len();
        js.extend(suites.iter().map(|s| format!("{{\"name\":{},\"cases\":{},\"executions\":{},\"bound\":{},\"complete\":{}}}", esc(&s.name), s.cases, s.executions, esc(&s.bound), s.complete)));
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| esc(s)).collect();
        let capped = self.capped.load(Relaxed);
        let exhaustive = !capped && v.is_none() && js.iter().all(|s| s.ends_with("\"complete\":true}"));
        let extra: String = self.extra.lock().unwrap().iter().map(|(k, v)| format!(",{}:{}", esc(k), v)).collect();
        let ev = format!("{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes\":{},\"rng_choice_points_seen\":{},\"uncontrolled_raw_draws\":{},\"replay_divergences\":{},\"exhaustive\":{},\"time_cap_hit\":{}{},\"suites\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            esc(&self.prop), if self.quick() { "\"quick\"" } else { "\"thorough\"" }, self.seed,
            self.states.load(Relaxed), self.transitions.load(Relaxed), self.executions.load(Relaxed), self.outcomes.load(Relaxed),
            self.rng_points.load(Relaxed), self.raw_draws.load(Relaxed), self.diverged.load(Relaxed), exhaustive, capped, extra, js.join(","), samples.join(","),
            ["states = distinct nodes of the choice trees (or scheduler states); transitions = choice steps executed, replays included; every explored execution is an execution of the real code",
             "exhaustive refers to the finite space described by the suites (inputs x choice sequences within the stated bound)",
             "coordinates are exactly representable unless a suite says otherwise; oracles are exact integer arithmetic"].iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.wall(), if v.is_some() { 1 } else { 0 });
        if let Ok(p) = std::env::var("MC_CARRY_OUT") {
            let mut t = format!("states\t{}\ntransitions\t{}\nexecutions\t{}\noutcomes\t{}\nraw\t{}\ndiverged\t{}\npoints\t{}\ncapped\t{}\nwall_ms\t{}\n", self.states.load(Relaxed), self.transitions.load(Relaxed), self.executions.load(Relaxed),
                self.outcomes.load(Relaxed), self.raw_draws.load(Relaxed), self.diverged.load(Relaxed), self.rng_points.load(Relaxed), capped as u64, (self.wall() * 1000.0) as u64);
            for j in &js { t += &format!("suite\t{j}\n"); }
            for s in self.samples.lock().unwrap().iter().take(4) { t += &format!("sample\t{}\n", s.replace('\n', " ")); }
            let _ = std::fs::write(p, t);
        }
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), ev).expect("evidence file");
        println!("{} {}: states={} transitions={} executions={} outcomes={} suites={} exhaustive={} wall={:.1}s", self.prop, if self.quick() { "quick" } else { "thorough" },
            self.states.load(Relaxed), self.transitions.load(Relaxed), self.executions.load(Relaxed), self.outcomes.load(Relaxed), suites.len() + carried, exhaustive, self.wall());
        match v {
            None => 0,
            Some(v) => { self.print_violation(&v); 1 }
        }
    }
    fn print_violation(&self, v: &Violation) {
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.replay", self.prop, v.suite.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
        let join = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let short = |s: &str| if s.len() <= 200_000 { s.to_string() } else { format!("{} ... ({} bytes)", s.chars().take(200_000).collect::<String>(), s.len()) };
        let txt = format!("property {}\ntier {}\npart {}\nsuite {}\ncase {}\ntag {}\nbase {}\nalts {}\nreproduced {}\n# input: {}\n# {}\n", self.prop, if self.quick() { "quick" } else { "thorough" }, self.part, v.suite, v.case, v.tag, join(&v.base), join(&v.alts), v.reproduced, short(&v.desc).replace('\n', "\n# "), short(&v.msg).replace('\n', "\n# "));
        let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(txt.as_bytes()));
        let short = |s: &str| if s.len() <= 4000 { s.to_string() } else { format!("{} ... ({} bytes)", s.chars().take(4000).collect::<String>(), s.len()) };
        println!("  input: {}\n  {}", short(&v.desc), v.msg.lines().take(12).map(short).collect::<Vec<_>>().join("\n  "));
        println!("VIOLATION property={} replay={}", self.prop, path.display());
    }
    pub fn violation_now(&self, v: Violation) { self.report(v); }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o.push('"');
    o
}

impl<'c> Case<'c> {
    /// Enumerates the choice sequences of `f` within `bound`. `f` returns a hash of what was observed
    /// or the description of a violation. Stops at the first violation.
    pub fn explore(&mut self, tag: &str, base: &[u32], bound: Bound, mut f: impl FnMut() -> Result<u64, String>) {
        let ctx = self.ctx;
        let mut prefix: Vec<u32> = vec![];
        let mut only_once = false;
        let own = base.len();
        let mut base = base.to_vec();
        let mut salt = 0u32;
        if let Some(Only { exec: Some((t, b, a)), .. }) = &ctx.only {
            if t != tag || b.len() > own + 1 || !b.starts_with(&base) { return; }
            base = b.clone();
            prefix = a.clone();
            only_once = true;
        }
        let hunting = ctx.only.is_some();
        let mut trace_buf = Vec::new();
        let (mut st, mut tr, mut ex, mut raw, mut div) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut max_pts = 0u64;
        // number of choice points of the previous execution that the current one shares
        let mut shared = 0usize;
        let mut bad = None;
        loop {
            if hunting {
                let j = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                let _ = ctx.slots.write_at(format!("{}\t{}\t{}\t{}\t{}\n\0", self.suite, self.index, tag, j(&base), j(&prefix)).as_bytes(), 0);
            }
            ctx.slot_state[self.worker].beat.fetch_add(1, Relaxed);
            rand::mc::begin(prefix, base.clone(), trace_buf);
            let r = f();
            let s = rand::mc::end().expect("session lost");
            let mut trace = s.trace;
            ex += 1; tr += trace.len() as u64; st += (trace.len() - shared.min(trace.len())) as u64 + (shared == 0) as u64;
            raw += s.raw_draws; div += s.diverged as u64; max_pts = max_pts.max(trace.len() as u64);
            match r {
                Ok(h) => { self.seen.insert(h); }
                Err(msg) => { bad = Some((trace.iter().map(|x| x.0).collect::<Vec<u32>>(), msg)); break; }
            }
            if only_once || ctx.stopped() { break; }
            // next sequence in depth-first order with at most k deviations
            prefix = s.prefix;
            prefix.clear();
            let mut devs = trace.iter().filter(|x| x.0 != 0).count() as u32;
            while let Some(&(a, n)) = trace.last() {
                if a != 0 { devs -= 1; }
                let fits = match bound { Bound::All => true, Bound::Dev(k) => devs + 1 <= k };
                if a + 1 < n && fits { break; }
                trace.pop();
            }
            if trace.is_empty() {
                // Code that draws raw bits instead of numbers out of a range: those draws cannot be
                // enumerated, so other streams of them are all that is left to vary.
                let streams = match bound { Bound::All => 40, Bound::Dev(0) => 2, Bound::Dev(_) => 12 };
                if s.raw_draws == 0 || salt == streams { break; }
                salt += 1;
                base.truncate(own);
                base.push(salt);
                trace_buf = trace;
                shared = 0;
                continue;
            }
            let l = trace.len() - 1;
            trace[l].0 += 1;
            prefix.extend(trace.iter().map(|x| x.0));
            shared = l;
            trace_buf = trace;
            if ex & 0xfff == 0 && ctx.start.elapsed() > ctx.deadline { ctx.capped.store(true, Relaxed); break; }
        }
        ctx.states.fetch_add(st, Relaxed); ctx.transitions.fetch_add(tr, Relaxed); ctx.executions.fetch_add(ex, Relaxed);
        ctx.raw_draws.fetch_add(raw, Relaxed); ctx.diverged.fetch_add(div, Relaxed); ctx.rng_points.fetch_max(max_pts, Relaxed);
        self.execs += ex;
        if let Some((alts, msg)) = bad {
            // The same choices must give the same observation again
            let mut reproduced = true;
            for _ in 0..2 {
                rand::mc::begin(alts.clone(), base.to_vec(), vec![]);
                let r = f();
                let _ = rand::mc::end();
                if r.is_ok() { reproduced = false; }
            }
            ctx.report(Violation { suite: self.suite.into(), case: self.index, desc: (self.desc)(), tag: tag.into(), base: base.to_vec(), alts, msg, reproduced });
        }
    }
    /// For checks that enumerate on their own: counts one execution / reports a violation.
    pub fn worker_id(&self) -> usize { self.worker }
    pub fn beat(&self) { self.ctx.slot_state[self.worker].beat.fetch_add(1, Relaxed); }
    pub fn count(&mut self, executions: u64, states: u64, transitions: u64) {
        self.ctx.executions.fetch_add(executions, Relaxed);
        self.ctx.states.fetch_add(states, Relaxed);
        self.ctx.transitions.fetch_add(transitions, Relaxed);
        self.execs += executions;
    }
    pub fn outcome(&mut self, h: u64) { self.seen.insert(h); }
    pub fn fail(&self, tag: &str, alts: Vec<u32>, msg: String, reproduced: bool) {
        self.ctx.report(Violation { suite: self.suite.into(), case: self.index, desc: (self.desc)(), tag: tag.into(), base: vec![], alts, msg, reproduced });
    }
}
