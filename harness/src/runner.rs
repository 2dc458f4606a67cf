//! Runs the cases of a property on all cores, watches them, and reports.
//!
//! The parent process starts a child which does the work, so that an abort, a stack overflow or a
//! hang of the code under test is observed and not suffered. A case is determined by
//! (seed, property, tier, leg, index) alone, which is what a replay file holds.

use crate::faults::Runaway;
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut Cx) -> Result<(), String>;

pub struct Leg {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub fn leg(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Leg {
    Leg {
        name,
        quick,
        thorough,
        f,
    }
}

pub enum Probe {
    /// the defect is there, in exactly the listed form
    Present(String),
    Absent,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub legs: Vec<Leg>,
    /// counters which must not be zero, or the run has shown nothing
    pub required: &'static [&'static str],
    /// known findings: (key in the known-findings file, is it there)
    pub probes: Vec<(&'static str, fn() -> Probe)>,
}

#[derive(Default)]
struct Stats {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: BTreeMap<(String, u64), Value>,
    evaluations: u64,
}

pub struct Cx {
    pub rng: Rng,
    pub idx: u64,
    pub leg: &'static str,
    pub thorough: bool,
    pub seed: u64,
    pub tmp: std::path::PathBuf,
    evals: Option<u64>,
    st: Stats,
}

const DISTINCT_MAX: usize = 2_000_000;

impl Cx {
    pub fn count(&mut self, key: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.st.counters.get_mut(key) {
            *c += n;
        } else {
            self.st.counters.insert(key.to_string(), n);
        }
    }
    /// One distinct non-trivial case
    pub fn seen(&mut self, hash: u64) {
        if self.st.distinct.len() < DISTINCT_MAX {
            self.st.distinct.insert(hash);
        }
    }
    pub fn seen_of(&mut self, x: &impl std::hash::Hash) {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        x.hash(&mut h);
        self.seen(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.idx < 2 {
            let mut v = f();
            clip(&mut v);
            self.st.samples.insert((self.leg.to_string(), self.idx), v);
        }
    }
    /// How many evaluations this case was, if not one
    pub fn evals(&mut self, n: u64) {
        *self.evals.get_or_insert(0) += n;
    }
}

fn clip(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 1500 => {
            let mut i = 1500;
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            s.truncate(i);
            s.push('…');
        }
        Value::Array(a) => a.iter_mut().for_each(clip),
        Value::Object(o) => o.values_mut().for_each(clip),
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------
// panics

#[derive(Debug, Clone)]
pub enum Caught {
    Panic { loc: String, msg: String },
    /// it went on reading from a source which had ended
    Runaway(String),
}

impl std::fmt::Display for Caught {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Caught::Panic { loc, msg } => {
                let m: String = msg.chars().take(300).collect();
                write!(f, "panic at {}: {}", loc, m)
            }
            Caught::Runaway(m) => write!(f, "does not stop: {}", m),
        }
    }
}

struct HarnessBug(String);

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static PANICS: RefCell<u64> = const { RefCell::new(0) };
}

/// How many panics there were in this thread, caught or not
pub fn panics() -> u64 {
    PANICS.with(|p| *p.borrow())
}

fn payload_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no message)".to_string()
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = payload_text(info.payload());
        PANICS.with(|p| *p.borrow_mut() += 1);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn in_harness(loc: &str) -> bool {
    // this crate is compiled with paths relative to it, everything else with absolute ones
    loc.starts_with("src/")
}

/// Run code under test; an unwinding panic of it is returned. A panic in the harness's own code is
/// passed on as a failure of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => {
            if let Some(r) = p.downcast_ref::<Runaway>() {
                return Err(Caught::Runaway(r.0.clone()));
            }
            if p.is::<HarnessBug>() {
                std::panic::resume_unwind(p);
            }
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), payload_text(&*p)));
            if in_harness(&loc) {
                std::panic::resume_unwind(Box::new(HarnessBug(format!("{loc}: {msg}"))));
            }
            Err(Caught::Panic { loc, msg })
        }
    }
}

/// As guard, where a panic is not allowed
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|c| format!("{}: {}", what, c))
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub verif: std::path::PathBuf,
    pub work: std::path::PathBuf,
}

const CASE_CPU_S: u64 = 40;
const SLOT: u64 = 96;
const EXIT_HANG: i32 = 77;
const MAX_VIOLATIONS: usize = 4;

fn thread_cpu(clock: libc::clockid_t) -> Option<f64> {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    if unsafe { libc::clock_gettime(clock, &mut ts) } == 0 {
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9)
    } else {
        None
    }
}

struct Worker {
    clock: libc::clockid_t,
    /// CPU time of the thread when its case began (µs), u64::MAX when idle
    began: AtomicU64,
}

struct Found {
    leg: &'static str,
    idx: u64,
    msg: String,
}

/// The child: run everything, write result.json into the work directory
pub fn child(prop: &Prop, opts: &Opts) -> i32 {
    install_panic_hook();
    let slots = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(opts.work.join("slots"))
        .unwrap();
    let n_workers = std::env::var("VERIF_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map_or(4, |n| n.get())
                .min(16)
        });
    let n_workers = if opts.only.is_some() { 1 } else { n_workers };
    let soft = Duration::from_secs(
        std::env::var("VERIF_SOFT_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if opts.thorough { 420 } else { 200 }),
    );
    let start = Instant::now();
    let next: Vec<AtomicU64> = prop.legs.iter().map(|_| AtomicU64::new(0)).collect();
    let total: Vec<u64> = prop
        .legs
        .iter()
        .map(|l| if opts.thorough { l.thorough } else { l.quick })
        .map(|n| ((n as f64 * scale()).ceil() as u64).min(n))
        .collect();
    let stop = AtomicBool::new(false);
    let harness_bug: Mutex<Option<String>> = Mutex::new(None);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());
    let workers: Mutex<Vec<Arc<Worker>>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);

    let pick = || -> Option<(usize, u64)> {
        if stop.load(SeqCst) || start.elapsed() > soft {
            return None;
        }
        let mut best: Option<(usize, f64)> = None;
        for (i, t) in total.iter().enumerate() {
            let n = next[i].load(SeqCst);
            if n < *t {
                let frac = n as f64 / *t as f64;
                if best.is_none_or(|b| frac < b.1) {
                    best = Some((i, frac));
                }
            }
        }
        let (i, _) = best?;
        let n = next[i].fetch_add(1, SeqCst);
        if n < total[i] {
            Some((i, n))
        } else {
            Some((usize::MAX, 0)) // another worker was faster, try again
        }
    };

    std::thread::scope(|sc| {
        for w in 0..n_workers {
            let (pick, slots, stop, harness_bug, found, merged, workers, done) = (
                &pick,
                &slots,
                &stop,
                &harness_bug,
                &found,
                &merged,
                &workers,
                &done,
            );
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let mut clock: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                    let me = Arc::new(Worker {
                        clock,
                        began: AtomicU64::new(u64::MAX),
                    });
                    workers.lock().unwrap().push(me.clone());
                    let tmp = opts.work.join(format!("w{}", w));
                    std::fs::create_dir_all(&tmp).unwrap();
                    let mut st = Stats::default();
                    let mut only = opts.only.clone();
                    loop {
                        let (leg, idx) = if opts.only.is_some() {
                            match only.take() {
                                Some((l, i)) => {
                                    match prop.legs.iter().find(|x| x.name == l) {
                                        Some(l) => (l, i),
                                        None => {
                                            *harness_bug.lock().unwrap() =
                                                Some(format!("no leg {}", l));
                                            break;
                                        }
                                    }
                                }
                                None => break,
                            }
                        } else {
                            match pick() {
                                None => break,
                                Some((usize::MAX, _)) => continue,
                                Some((l, i)) => (&prop.legs[l], i),
                            }
                        };
                        let mut line = format!("{}\t{}", leg.name, idx).into_bytes();
                        line.resize(SLOT as usize - 1, b' ');
                        line.push(b'\n');
                        let _ = slots.write_at(&line, w as u64 * SLOT);
                        me.began
                            .store((thread_cpu(clock).unwrap_or(0.) * 1e6) as u64, SeqCst);
                        let mut cx = Cx {
                            rng: Rng::from_parts(
                                opts.seed,
                                &format!("{}/{}", prop.id, leg.name),
                                idx,
                            ),
                            idx,
                            leg: leg.name,
                            thorough: opts.thorough,
                            seed: opts.seed,
                            tmp: tmp.clone(),
                            evals: None,
                            st: std::mem::take(&mut st),
                        };
                        let r = catch_unwind(AssertUnwindSafe(|| (leg.f)(&mut cx)));
                        me.began.store(u64::MAX, SeqCst);
                        cx.st.evaluations += cx.evals.unwrap_or(1);
                        st = std::mem::take(&mut cx.st);
                        *st.counters.entry(format!("leg {}", leg.name)).or_default() += 1;
                        let msg = match r {
                            Ok(Ok(())) => None,
                            Ok(Err(m)) => Some(m),
                            Err(p) => {
                                let (loc, msg) = LAST_PANIC
                                    .with(|p| p.borrow_mut().take())
                                    .unwrap_or(("?".into(), payload_text(&*p)));
                                if let Some(b) = p.downcast_ref::<HarnessBug>() {
                                    *harness_bug.lock().unwrap() =
                                        Some(format!("{} {}: {}", leg.name, idx, b.0));
                                    stop.store(true, SeqCst);
                                    None
                                } else if let Some(r) = p.downcast_ref::<Runaway>() {
                                    Some(format!("does not stop: {}", r.0))
                                } else if in_harness(&loc) {
                                    *harness_bug.lock().unwrap() =
                                        Some(format!("{} {}: {}: {}", leg.name, idx, loc, msg));
                                    stop.store(true, SeqCst);
                                    None
                                } else {
                                    Some(format!("unexpected panic at {}: {}", loc, msg))
                                }
                            }
                        };
                        done.fetch_add(1, SeqCst);
                        if let Some(msg) = msg {
                            let mut f = found.lock().unwrap();
                            f.push(Found {
                                leg: leg.name,
                                idx,
                                msg,
                            });
                            if f.len() >= MAX_VIOLATIONS {
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.evaluations += st.evaluations;
                    for (k, v) in st.counters {
                        *m.counters.entry(k).or_default() += v;
                    }
                    m.distinct.extend(st.distinct);
                    m.samples.extend(st.samples);
                    drop(m);
                    workers.lock().unwrap().retain(|x| !Arc::ptr_eq(x, &me));
                })
                .unwrap();
        }
        // the watch: CPU time, so a loaded machine makes no difference
        let workers = &workers;
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(50));
            let ws = workers.lock().unwrap();
            if ws.is_empty() && start.elapsed() > Duration::from_secs(1) {
                return;
            }
            for w in ws.iter() {
                let b = w.began.load(SeqCst);
                if b == u64::MAX {
                    continue;
                }
                if let Some(now) = thread_cpu(w.clock) {
                    if w.began.load(SeqCst) == b
                        && now - b as f64 / 1e6 > CASE_CPU_S as f64 * cpu_factor()
                    {
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
    });

    if let Some(b) = harness_bug.into_inner().unwrap() {
        println!("the harness failed: {}", b);
        return 2;
    }
    let m = merged.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| (f.leg, f.idx));
    let result = json!({
        "evaluations": m.evaluations,
        "distinct": m.distinct.len(),
        "counters": m.counters,
        "samples": m.samples.iter().map(|((l, i), v)| json!({"leg": l, "case": i, "what": v})).collect::<Vec<_>>(),
        "cases": done.load(SeqCst),
        "planned": total.iter().sum::<u64>(),
        "found": found.iter().map(|f| json!({"leg": f.leg, "case": f.idx, "what": f.msg})).collect::<Vec<_>>(),
    });
    std::fs::write(opts.work.join("result.json"), result.to_string()).unwrap();
    0
}

/// Which part of the cases to run, under a slow instrument
fn scale() -> f64 {
    std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.)
}

/// Some cases of every leg in this process, one after the other: for an interpreter, which cannot
/// start processes
pub fn inline(prop: &Prop, opts: &Opts, per_leg: u64, soft: Duration) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let mut st = Stats::default();
    let mut n = 0;
    let skip: Vec<String> = std::env::var("VERIF_SKIP")
        .map_or(vec![], |s| s.split(',').map(|x| x.to_string()).collect());
    'all: for idx in 0..per_leg {
        for leg in prop.legs.iter().rev() {
            if start.elapsed() > soft {
                break 'all;
            }
            if skip.iter().any(|s| s == leg.name) {
                continue;
            }
            let mut cx = Cx {
                rng: Rng::from_parts(opts.seed, &format!("{}/{}", prop.id, leg.name), idx),
                idx,
                leg: leg.name,
                thorough: opts.thorough,
                seed: opts.seed,
                tmp: opts.work.clone(),
                evals: None,
                st: std::mem::take(&mut st),
            };
            let t = Instant::now();
            let r = guard(|| (leg.f)(&mut cx));
            eprintln!("{} {}: {:.1} s", leg.name, idx, t.elapsed().as_secs_f64());
            st = std::mem::take(&mut cx.st);
            n += 1;
            let msg = match r {
                Ok(Ok(())) => continue,
                Ok(Err(m)) => m,
                Err(c) => c.to_string(),
            };
            println!("{} {} case {}: {}", prop.id, leg.name, idx, msg);
            return 1;
        }
    }
    println!(
        "INLINE {}",
        json!({"cases": n, "distinct": st.distinct.len(), "observed": st.counters})
    );
    0
}

fn cpu_factor() -> f64 {
    std::env::var("VERIF_CPU_FACTOR")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.)
}

// ---------------------------------------------------------------------------------------------

enum Ended {
    Result(Value),
    /// the code under test ended the process
    Crash(String),
    Hang,
    Harness(String),
}

fn run_child(prop: &Prop, opts: &Opts) -> Ended {
    let _ = std::fs::remove_file(opts.work.join("result.json"));
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg(prop.id)
        .arg("--child")
        .arg("--seed")
        .arg(opts.seed.to_string())
        .arg("--tier")
        .arg(if opts.thorough { "thorough" } else { "quick" })
        .arg("--work")
        .arg(&opts.work);
    if let Some((l, i)) = &opts.only {
        c.arg("--case").arg(format!("{}:{}", l, i));
    }
    let log = std::fs::File::create(opts.work.join("child.log")).unwrap();
    c.stderr(log.try_clone().unwrap());
    let st = match c.status() {
        Ok(s) => s,
        Err(e) => return Ended::Harness(format!("cannot start: {}", e)),
    };
    if st.code() == Some(0) {
        return match std::fs::read_to_string(opts.work.join("result.json"))
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
        {
            Some(v) => Ended::Result(v),
            None => Ended::Harness("no result".into()),
        };
    }
    let tail = || {
        let s = std::fs::read(opts.work.join("child.log")).unwrap_or_default();
        String::from_utf8_lossy(&s[..s.len().min(6000)]).to_string()
    };
    if st.code() == Some(EXIT_HANG) {
        return Ended::Hang;
    }
    if st.code() == Some(66) {
        return Ended::Crash(format!("sanitizer report: {}", tail()));
    }
    match st.signal() {
        Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE)) => {
            Ended::Crash(format!("process ended by signal {}: {}", s, tail()))
        }
        _ => Ended::Harness(format!("child: {}: {}", st, tail())),
    }
}

fn known_lines(opts: &Opts) -> Vec<(String, String)> {
    // known: property=P13 key=xml-close-then-drop text
    let s = std::fs::read_to_string(opts.verif.join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let k = rest.strip_prefix("key=")?.split(' ').next()?;
            Some((p.to_string(), k.to_string()))
        })
        .collect()
}

pub fn parent(prop: &Prop, opts: &Opts) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let mut found: Vec<(String, u64, String)> = vec![];
    let mut result = json!({"evaluations": 0, "distinct": 0, "counters": {}, "samples": []});
    let mut trouble: Option<String> = None;
    match run_child(prop, opts) {
        Ended::Result(v) => {
            for f in v["found"].as_array().unwrap() {
                found.push((
                    f["leg"].as_str().unwrap().to_string(),
                    f["case"].as_u64().unwrap(),
                    f["what"].as_str().unwrap().to_string(),
                ));
            }
            result = v;
        }
        Ended::Harness(m) => trouble = Some(m),
        e @ (Ended::Crash(_) | Ended::Hang) => {
            // which case was it? Run each candidate alone.
            let what = match &e {
                Ended::Crash(m) => m.clone(),
                _ => "does not stop".to_string(),
            };
            let slots = std::fs::read_to_string(opts.work.join("slots")).unwrap_or_default();
            let mut cands: Vec<(String, u64)> = slots
                .lines()
                .filter_map(|l| {
                    let (a, b) = l.trim().trim_start_matches('\0').split_once('\t')?;
                    Some((a.to_string(), b.trim().parse().ok()?))
                })
                .collect();
            if let Some(o) = &opts.only {
                cands = vec![o.clone()];
            }
            for c in cands {
                let mut o = opts.clone();
                o.only = Some(c.clone());
                match run_child(prop, &o) {
                    Ended::Crash(m) => found.push((c.0, c.1, m)),
                    Ended::Hang => found.push((
                        c.0,
                        c.1,
                        format!("does not stop: more than {} s of CPU time", CASE_CPU_S),
                    )),
                    Ended::Result(v) => {
                        if let Some(f) = v["found"].as_array().and_then(|a| a.first()) {
                            found.push((c.0, c.1, f["what"].as_str().unwrap_or("").to_string()))
                        }
                    }
                    Ended::Harness(_) => {}
                }
            }
            if found.is_empty() {
                let crash = ["4", "6", "7", "8", "11"]
                    .iter()
                    .any(|n| what.contains(&format!("ended by signal {}:", n)))
                    && !what.contains("memory allocation of");
                if what.contains("sanitizer report") || (prop.id == "P27" && crash) {
                    // a race, or what it did to memory, need not happen again
                    found.push(("sanitizer".into(), 0, what));
                } else {
                    trouble = Some(format!("could not be reproduced: {}", what));
                }
            }
        }
    }

    // known findings
    let mut known = vec![];
    if opts.only.is_none() && trouble.is_none() {
        let listed = known_lines(opts);
        for (key, f) in &prop.probes {
            let is_listed = listed.iter().any(|(p, k)| p == prop.id && k == key);
            match guard(f) {
                Ok(Probe::Absent) => {}
                Ok(Probe::Present(m)) if is_listed => known.push(format!("{}: {}", key, m)),
                Ok(Probe::Present(m)) => found.push((format!("probe {}", key), 0, m)),
                Err(c) => found.push((format!("probe {}", key), 0, c.to_string())),
            }
        }
    }

    let _ = std::fs::create_dir_all(opts.verif.join("evidence"));
    let _ = std::fs::create_dir_all(opts.verif.join("replays"));
    let planned = result["planned"].as_u64().unwrap_or(0);
    let cases = result["cases"].as_u64().unwrap_or(0);
    let evidence = std::env::var("VERIF_EVIDENCE").map_or(
        opts.verif.join(format!("evidence/{}.json", prop.id)),
        std::path::PathBuf::from,
    );
    let ev = json!({
        "property": prop.id,
        "tier": if opts.thorough { "thorough" } else { "quick" },
        "seed": opts.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": result["evaluations"],
            "distinct_nontrivial": result["distinct"],
            "rule": prop.rule,
            "samples": result["samples"],
            "observed": result["counters"],
            "cases_planned": planned,
            "cases_run": cases,
            "known_findings": known,
            "build": std::env::var("VERIF_BUILD").unwrap_or_default(),
            "hooks": cfg!(osmio_verif),
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    if opts.only.is_none() {
        std::fs::write(
            evidence,
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .unwrap();
    }

    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, k);
    }
    for (leg, idx, msg) in &found {
        let name = format!("{}-{}-{}.json", prop.id, leg.replace(' ', "_"), idx);
        let path = opts.verif.join("replays").join(&name);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": prop.id,
                "seed": opts.seed,
                "tier": if opts.thorough { "thorough" } else { "quick" },
                "leg": leg,
                "case": idx,
                "what": msg,
                "replay_with": format!("bash check.sh {} --replay replays/{}", prop.id, name),
            }))
            .unwrap(),
        );
        println!("{} {} case {}: {}", prop.id, leg, idx, msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    if !found.is_empty() {
        return 1;
    }
    if let Some(t) = trouble {
        println!("INCONCLUSIVE property={}: {}", prop.id, t);
        return 2;
    }
    if opts.only.is_none() {
        for r in prop.required {
            if result["counters"][*r].as_u64().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE property={}: never observed: {}", prop.id, r);
                return 2;
            }
        }
        if cases < planned / 10 {
            if opts.thorough {
                println!("{}: {} of {} cases in the time", prop.id, cases, planned);
            } else {
                println!(
                    "INCONCLUSIVE property={}: only {} of {} cases in the time",
                    prop.id, cases, planned
                );
                return 2;
            }
        }
    }
    println!(
        "{}: held on {} evaluations ({} distinct) in {} cases, {:.1} s",
        prop.id,
        result["evaluations"],
        result["distinct"],
        cases,
        start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    0
}
