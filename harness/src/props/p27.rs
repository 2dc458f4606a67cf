//! P27: readers, writers and shared objects used at the same time.
//!
//! Only built for P27: whether things can be sent between threads is decided by the compiler.

use super::p17::random_edit;
use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::{self, Enc};
use crate::rd::{cs_of, Item};
use crate::rng::Rng;
use crate::runner::*;
use crate::xmlw::{self, W};
use osmio::changesets::{Changeset, ChangesetReader, ChangesetTagReader};
use osmio::obj_types::*;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::prelude::*;
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMReader, OSMWriter};
use serde_json::json;
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Barrier, Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn prop() -> Prop {
    Prop {
        id: "P27",
        level: "exploration",
        rule: "2 to 8 threads are started at once, each step of theirs (an object read or written, a read() or write() call of a source or sink) preceded by a random delay. Independent: every thread runs its own readers, writers, edits and conversions, and must produce what the same job produced alone. Alternating: the same jobs, step by step in random order in one thread. Moved: the jobs go from thread to thread between steps. Blocked: the source or sink of one job blocks until another job has finished. Shared: objects from one Arc PBF reader are read, cloned, edited as clones, converted, sent and dropped by all threads at once, each comparing with the reference model. Pipeline: objects go through channels from a reader to several writers. The order of the steps of all threads is recorded; distinct by that order (interleaving). The same is run under ThreadSanitizer and AddressSanitizer (thorough: also Miri).",
        assumptions: &["schedules are those the machine and the injected delays produce", "the monitor's own log of steps uses relaxed atomics, which order nothing, so that races stay visible to ThreadSanitizer"],
        legs: vec![
            leg("independent", 120, 6000, independent),
            leg("alternating", 150, 8000, alternating),
            leg("moved", 60, 3000, moved),
            leg("blocked", 150, 8000, blocked),
            leg("shared", 150, 8000, shared),
            leg("pipeline", 80, 4000, pipeline),
        ],
        required: &[
            "steps",
            "switches between threads",
            "jobs",
            "shared objects",
            "clones edited",
            "objects sent",
            "blocked while others ran",
            "documents from the pipeline",
        ],
        probes: vec![],
    }
}

/// These are promised by being used from several threads below; here is the whole list
#[allow(dead_code)]
fn promised() {
    fn both<T: Send + Sync>() {}
    fn send<T: Send>() {}
    both::<ArcNode>();
    both::<ArcWay>();
    both::<ArcRelation>();
    both::<ArcOSMObj>();
    both::<StringNode>();
    both::<StringWay>();
    both::<StringRelation>();
    both::<StringOSMObj>();
    both::<Changeset>();
    both::<osmio::TimestampFormat>();
    send::<XMLReader<Paced>>();
    send::<OSCReader<Paced>>();
    send::<osmio::stringpbf::PBFReader<Paced>>();
    send::<osmio::arcpbf::PBFReader<Paced>>();
    send::<ChangesetReader<Paced>>();
    send::<XMLWriter<Paced>>();
    send::<OSCWriter<Paced>>();
}

/// Cases are small under an interpreter
fn tiny() -> bool {
    std::env::var_os("VERIF_TINY").is_some()
}

fn factor() -> u64 {
    std::env::var("VERIF_CPU_FACTOR")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

// ---------------------------------------------------------------------------------------------
// pacing and the log of steps

struct Pace {
    rng: Rng,
    ticket: Option<Arc<AtomicU64>>,
    log: Vec<u64>,
    style: usize,
}

thread_local! {
    static PACE: RefCell<Option<Pace>> = const { RefCell::new(None) };
}

/// A step: note it, and maybe wait a little
fn point() {
    let wait = PACE.with(|p| match &mut *p.borrow_mut() {
        None => None,
        Some(p) => {
            if let Some(t) = &p.ticket {
                // relaxed: it must not order what the threads do
                let n = t.fetch_add(1, Ordering::Relaxed);
                p.log.push(n);
            }
            match (p.style, p.rng.below(100)) {
                (0, _) => None,
                (_, 0..=59) => None,
                (_, 60..=89) => Some(0),
                (1, _) => Some(1 + p.rng.below(300)),
                _ => Some(1000 + p.rng.below(40)),
            }
        }
    });
    match wait {
        None => {}
        Some(0) => std::thread::yield_now(),
        Some(n) if n < 1000 => (0..n).for_each(|_| std::hint::spin_loop()),
        Some(n) => std::thread::sleep(Duration::from_micros(n as u64 - 1000)),
    }
}

struct Ran<T> {
    out: Vec<T>,
    logs: Vec<Vec<u64>>,
}

static DEADLOCKED: AtomicBool = AtomicBool::new(false);

/// Run these at the same time, each in its own thread
fn team<T: Send + 'static>(
    rng: &mut Rng,
    log: bool,
    fs: Vec<Box<dyn FnOnce() -> Result<T, String> + Send>>,
) -> Result<Ran<T>, String> {
    if DEADLOCKED.load(Ordering::SeqCst) {
        return Ok(Ran { out: vec![], logs: vec![] }); // reported already
    }
    let n = fs.len();
    let ticket = log.then(|| Arc::new(AtomicU64::new(0)));
    let barrier = Arc::new(Barrier::new(n));
    let (tx, rx) = mpsc::channel();
    let style = rng.below(3);
    let mut handles = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        let (ticket, barrier, tx, rng) = (ticket.clone(), barrier.clone(), tx.clone(), Rng::new(rng.u64()));
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    PACE.with(|p| {
                        *p.borrow_mut() = Some(Pace {
                            rng,
                            ticket,
                            log: vec![],
                            style,
                        })
                    });
                    barrier.wait();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| guard(f)));
                    let log = PACE.with(|p| p.borrow_mut().take().unwrap().log);
                    let _ = tx.send((i, r, log));
                })
                .unwrap(),
        );
    }
    drop(tx);
    let limit = Duration::from_secs(60 * factor());
    let began = Instant::now();
    let mut all: Vec<Option<(Result<T, String>, Vec<u64>)>> = (0..n).map(|_| None).collect();
    for _ in 0..n {
        match rx.recv_timeout(limit.saturating_sub(began.elapsed())) {
            Ok((_, Err(p), _)) => std::panic::resume_unwind(p),
            Ok((i, Ok(r), log)) => {
                let r = match r {
                    Ok(r) => r,
                    Err(c) => Err(format!("{}", c)),
                };
                all[i] = Some((r, log));
            }
            Err(_) => {
                DEADLOCKED.store(true, Ordering::SeqCst);
                let stuck: Vec<usize> = (0..n).filter(|i| all[*i].is_none()).collect();
                return Err(format!(
                    "threads {:?} of {} have not finished after {} s: deadlock",
                    stuck,
                    n,
                    limit.as_secs()
                ));
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let mut ran = Ran { out: vec![], logs: vec![] };
    for (i, x) in all.into_iter().enumerate() {
        let (r, log) = x.unwrap();
        ran.out.push(r.map_err(|e| format!("thread {} of {}: {}", i, n, e))?);
        ran.logs.push(log);
    }
    Ok(ran)
}

/// Note which order the steps came in
fn observe_order(cx: &mut Cx, logs: &[Vec<u64>]) {
    let mut order: Vec<(u64, u8)> = vec![];
    for (i, l) in logs.iter().enumerate() {
        order.extend(l.iter().map(|t| (*t, i as u8)));
    }
    order.sort();
    let order: Vec<u8> = order.into_iter().map(|x| x.1).collect();
    let switches = order.windows(2).filter(|w| w[0] != w[1]).count() as u64;
    cx.count("steps", order.len() as u64);
    cx.count("switches between threads", switches);
    cx.count("cases in which threads overlapped", (switches >= logs.len() as u64) as u64);
    if switches > 0 {
        cx.seen(crate::rng::hash_bytes(&order));
    }
    let leg = cx.leg;
    cx.sample(|| {
        json!({"leg": leg, "threads": logs.len(), "steps": order.len(), "switches": switches,
               "order": order.iter().take(200).map(|x| (b'0' + x % 10) as char).collect::<String>()})
    });
}

// ---------------------------------------------------------------------------------------------
// sources and sinks

#[derive(Default)]
struct Gate {
    /// (somebody waits, it is open)
    st: Mutex<(bool, bool)>,
    cv: Condvar,
}

impl Gate {
    fn wait(&self) {
        let mut st = self.st.lock().unwrap();
        st.0 = true;
        self.cv.notify_all();
        while !st.1 {
            st = self.cv.wait(st).unwrap();
        }
    }
    /// Wait until somebody waits there, or has passed without
    fn wait_for_waiter(&self) -> bool {
        let mut st = self.st.lock().unwrap();
        while !st.0 && !st.1 {
            st = self.cv.wait(st).unwrap();
        }
        st.0
    }
    fn open(&self) {
        self.st.lock().unwrap().1 = true;
        self.cv.notify_all();
    }
}

/// A source over bytes of its own, or a sink into bytes of its own
struct Paced {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    out: Arc<Mutex<Vec<u8>>>,
    gate: Option<(usize, Arc<Gate>)>,
}

impl Paced {
    fn gate(&mut self) {
        if self.gate.as_ref().is_some_and(|g| self.pos >= g.0) {
            let (_, g) = self.gate.take().unwrap();
            g.wait();
        }
    }
}

impl Read for Paced {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        point();
        self.gate();
        let n = buf.len().min(self.data.len() - self.pos).min(self.chunk);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Paced {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        // the writers write character by character
        self.pos += buf.len();
        if self.pos / 64 != (self.pos - buf.len()) / 64 {
            point();
        }
        self.gate();
        self.out.lock().unwrap().extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// jobs

#[derive(Clone, Debug)]
enum Job {
    Xml(Vec<u8>),
    Osc(Vec<u8>),
    Pbf(Vec<u8>),
    Arc(Vec<u8>),
    Pos(Vec<u8>),
    Typed(Vec<u8>),
    Cs(Vec<u8>),
    CsBz2(Vec<u8>),
    TagsFile(PathBuf),
    PbfFile(PathBuf),
    ArcFile(PathBuf),
    WriteXml(Vec<MObj>),
    WriteOsc(Vec<MObj>),
    Edits(Vec<MObj>, u64),
    Times(Vec<Ts>),
}

impl Job {
    fn name(&self) -> &'static str {
        match self {
            Job::Xml(_) => "read XML",
            Job::Osc(_) => "read OSC",
            Job::Pbf(_) => "read PBF",
            Job::Arc(_) => "read PBF as Arc",
            Job::Pos(_) => "read positions",
            Job::Typed(_) => "read ways and relations of PBF",
            Job::Cs(_) => "read changesets",
            Job::CsBz2(_) => "read bzip2 changesets",
            Job::TagsFile(_) => "read changeset tags by name",
            Job::PbfFile(_) => "read PBF by name",
            Job::ArcFile(_) => "read PBF as Arc by name",
            Job::WriteXml(_) => "write XML",
            Job::WriteOsc(_) => "write OSC",
            Job::Edits(..) => "edit and convert",
            Job::Times(_) => "convert times",
        }
    }
}

#[derive(Default, Debug, PartialEq)]
struct Outcome {
    items: Vec<Item>,
    bytes: Vec<u8>,
    text: Vec<String>,
}

impl Outcome {
    fn same(&self, other: &Outcome) -> Result<(), String> {
        if self == other {
            return Ok(());
        }
        for (i, (a, b)) in self.items.iter().zip(&other.items).enumerate() {
            if a != b {
                return Err(format!("item #{}: alone {} but now {}", i, short(a), short(b)));
            }
        }
        if self.items.len() != other.items.len() {
            return Err(format!("{} items alone but {} now", self.items.len(), other.items.len()));
        }
        if self.text != other.text {
            return Err(format!("alone {} but now {}", short(&self.text), short(&other.text)));
        }
        let at = self.bytes.iter().zip(&other.bytes).take_while(|x| x.0 == x.1).count();
        Err(format!(
            "documents differ from byte {}: alone {:?} but now {:?}",
            at,
            text(&self.bytes[at..self.bytes.len().min(at + 100)]),
            text(&other.bytes[at..other.bytes.len().min(at + 100)])
        ))
    }
}

/// One step; false when there is nothing more to do
type Step = Box<dyn FnMut(&mut Outcome) -> bool + Send>;

fn steps(mut next: impl FnMut() -> Option<Item> + Send + 'static) -> Step {
    Box::new(move |o| match guard(&mut next) {
        Ok(Some(i)) => {
            o.items.push(i);
            true
        }
        Ok(None) => false,
        Err(c) => {
            o.text.push(format!("ended with {}", c));
            false
        }
    })
}

fn reader<R: OSMReader + Send + 'static>(mut r: R) -> Step {
    steps(move || r.next().map(|o| Item::Obj(observe(&o))))
}

fn build_here(m: &MObj, i: usize) -> AnyObj {
    AnyObj::build(m, [Repr::S, Repr::A, Repr::R][i % 3])
}

fn writer(objs: Vec<MObj>, sink: Paced, xml: bool) -> Step {
    let out = sink.out.clone();
    let mut i = 0;
    let mut x = None;
    let mut c = None;
    if xml {
        x = Some(XMLWriter::new(sink));
    } else {
        c = Some(OSCWriter::new(sink));
    }
    Box::new(move |o| {
        let r = guard(|| {
            if let Some(m) = objs.get(i) {
                let obj = build_here(m, i);
                if let Some(w) = &mut x {
                    write_any(w, &obj).map_err(|e| e.to_string())?;
                } else if let Some(w) = &mut c {
                    write_any(w, &obj).map_err(|e| e.to_string())?;
                }
                i += 1;
                return Ok(true);
            }
            drop(x.take());
            if let Some(mut w) = c.take() {
                w.close().map_err(|e| e.to_string())?;
            }
            Ok::<bool, String>(false)
        });
        match r {
            Ok(Ok(true)) => return true,
            Ok(Ok(false)) => {}
            Ok(Err(e)) => o.text.push(format!("error {}", e)),
            Err(e) => o.text.push(format!("ended with {}", e)),
        }
        o.bytes = std::mem::take(&mut *out.lock().unwrap());
        false
    })
}

fn start(job: &Job, chunk: usize, gate: Option<(usize, Arc<Gate>)>) -> Step {
    let source = |d: &[u8]| Paced {
        data: d.to_vec(),
        pos: 0,
        chunk,
        out: Default::default(),
        gate: gate.clone(),
    };
    match job {
        Job::Xml(d) => reader(XMLReader::new(source(d))),
        Job::Osc(d) => reader(OSCReader::new(source(d))),
        Job::Pbf(d) => reader(osmio::stringpbf::PBFReader::new(source(d))),
        Job::Arc(d) => reader(osmio::arcpbf::PBFReader::new(source(d))),
        Job::PbfFile(p) => reader(osmio::stringpbf::PBFReader::from_filename(p).unwrap()),
        Job::ArcFile(p) => reader(osmio::arcpbf::PBFReader::from_filename(p).unwrap()),
        Job::Pos(d) => {
            let mut r = osmio::stringpbf::PBFNodePositionReader::from_reader(source(d));
            steps(move || r.next().map(|(id, (a, b))| Item::Pos(id, a.inner(), b.inner())))
        }
        Job::Typed(d) => {
            let mut a = osmio::stringpbf::PBFReader::new(source(d));
            let mut b = osmio::arcpbf::PBFReader::new(source(d));
            steps(move || {
                let x = a.ways().next().map(|w| Item::Obj(observe_way(&w)));
                x.or_else(|| b.relations().next().map(|w| Item::Obj(observe_relation(&w))))
            })
        }
        Job::Cs(d) => {
            let mut r = ChangesetReader::from_reader(source(d));
            steps(move || r.next().map(|c| Item::Cs(cs_of(&c.unwrap()))))
        }
        Job::CsBz2(d) => {
            let mut r = ChangesetReader::from_bz2_reader(source(d));
            steps(move || r.next().map(|c| Item::Cs(cs_of(&c.unwrap()))))
        }
        Job::TagsFile(p) => {
            let mut r = ChangesetTagReader::from_filename(p.to_str().unwrap()).unwrap();
            steps(move || {
                r.next().map(|x| {
                    let (id, t) = x.unwrap();
                    Item::Tags(id, t)
                })
            })
        }
        Job::WriteXml(objs) => writer(objs.clone(), source(&[]), true),
        Job::WriteOsc(objs) => writer(objs.clone(), source(&[]), false),
        Job::Edits(objs, seed) => {
            let objs = objs.clone();
            let mut rng = Rng::new(*seed);
            let mut i = 0;
            steps(move || {
                let m = objs.get(i)?;
                let mut o = build_here(m, i);
                i += 1;
                let mut m = m.clone();
                for _ in 0..3 {
                    random_edit(&mut rng, &mut o, &mut m);
                    point();
                }
                let mut got = match o {
                    AnyObj::S(o) => observe(&o),
                    AnyObj::R(o) => observe(&StringOSMObj::from(o)),
                    AnyObj::A(o) => observe(&StringOSMObj::from(o)),
                };
                // a form of the timestamp is none of the observations here
                got.ts = got.ts.map(|t| t.instant().map_or(t, Ts::Epoch));
                Some(Item::Obj(got))
            })
        }
        Job::Times(ts) => {
            let ts = ts.clone();
            let mut i = 0;
            Box::new(move |o| {
                let t = match ts.get(i) {
                    Some(t) => t.to_osm(),
                    None => return false,
                };
                i += 1;
                point();
                match guard(|| (t.to_iso_string(), t.to_epoch_number())) {
                    Ok((s, n)) => o.text.push(format!("{} {}", s, n)),
                    Err(c) => o.text.push(c.to_string()),
                }
                true
            })
        }
    }
}

fn run_job(job: &Job, chunk: usize, gate: Option<(usize, Arc<Gate>)>) -> Outcome {
    let mut o = Outcome::default();
    let mut s = start(job, chunk, gate);
    while s(&mut o) {
        point();
    }
    o
}

fn xml_cfg() -> Cfg {
    Cfg {
        big: false,
        dup_keys: false,
        ..Cfg::xml()
    }
}

fn n_objects(rng: &mut Rng) -> usize {
    if tiny() {
        1 + rng.below(4)
    } else {
        10 + rng.below(*rng.clone().pick(&[10usize, 60, 200]))
    }
}

const KINDS: usize = 15;

fn random_job(cx: &mut Cx, tag: usize, kind: usize) -> Job {
    let n = n_objects(&mut cx.rng);
    // some strings are the same in several threads
    let mut own = cx.rng.clone();
    cx.rng.u64();
    if cx.rng.chance(1, 4) {
        own = Rng::new(cx.idx);
    }
    let rng = &mut own;
    // compressing with bzip2 takes an interpreter minutes
    let kind = if tiny() && matches!(kind, 7 | 8) { 6 } else { kind };
    match kind {
        0 | 1 => {
            let objs = gen::small_objects(rng, &xml_cfg(), n);
            let mut w = W::new(rng, 1);
            if kind == 0 {
                w.osm(&objs);
                Job::Xml(w.out.into_bytes())
            } else {
                w.osc(&objs);
                Job::Osc(w.out.into_bytes())
            }
        }
        2..=5 | 9 | 10 => {
            let objs = pbfw::gen_objects(rng, n, true);
            let f = Enc::new(rng, 1).write(&objs).bytes;
            match kind {
                2 => Job::Pbf(f),
                3 => Job::Arc(f),
                4 => Job::Pos(f),
                5 => Job::Typed(f),
                _ => {
                    let p = cx.tmp.join(format!("job{}.osm.pbf", tag));
                    std::fs::write(&p, f).unwrap();
                    if kind == 9 {
                        Job::PbfFile(p)
                    } else {
                        Job::ArcFile(p)
                    }
                }
            }
        }
        6..=8 => {
            let cs = xmlw::gen_changesets(rng, n);
            let mut w = W::new(rng, 1);
            w.changesets(&cs);
            let doc = w.out.into_bytes();
            match kind {
                6 => Job::Cs(doc),
                7 => Job::CsBz2(super::p10::bz2(&doc)),
                _ => {
                    let p = cx.tmp.join(format!("job{}.osm.bz2", tag));
                    std::fs::write(&p, super::p10::bz2(&doc)).unwrap();
                    Job::TagsFile(p)
                }
            }
        }
        11 => Job::WriteXml(gen::small_objects(rng, &xml_cfg(), n)),
        12 => Job::WriteOsc(gen::small_objects(rng, &xml_cfg(), n)),
        13 => Job::Edits(gen::small_objects(rng, &xml_cfg(), n), rng.u64()),
        _ => {
            let cfg = xml_cfg();
            Job::Times((0..n).map(|_| gen::timestamp(rng, &cfg)).collect())
        }
    }
}

fn random_chunk(rng: &mut Rng) -> usize {
    *rng.pick(&[64usize, 300, 4096, usize::MAX])
}

fn jobs(cx: &mut Cx, n: usize) -> Vec<(Job, usize, Outcome)> {
    let mut v = vec![];
    // often several of the same kind
    let same = cx.rng.chance(1, 3);
    let one = cx.rng.below(KINDS);
    for i in 0..n {
        let kind = if same { one } else { cx.rng.below(KINDS) };
        let j = random_job(cx, i, kind);
        let chunk = random_chunk(&mut cx.rng);
        let alone = run_job(&j, chunk, None);
        cx.count("jobs", 1);
        cx.count(&format!("job: {}", j.name()), 1);
        v.push((j, chunk, alone));
    }
    v
}

fn n_threads(rng: &mut Rng) -> usize {
    if tiny() {
        2 + rng.below(2)
    } else {
        2 + rng.below(7)
    }
}

/// Each thread its own jobs
fn independent(cx: &mut Cx) -> Result<(), String> {
    let n = n_threads(&mut cx.rng);
    let per = if tiny() { 1 } else { 3 };
    let all = Arc::new(jobs(cx, n * per));
    let fs = (0..n)
        .map(|t| {
            let all = all.clone();
            Box::new(move || {
                for (job, chunk, alone) in &all[t * per..(t + 1) * per] {
                    let now = run_job(job, *chunk, None);
                    alone
                        .same(&now)
                        .map_err(|e| format!("{}: {}", job.name(), e))?;
                }
                Ok(())
            }) as Box<dyn FnOnce() -> Result<(), String> + Send>
        })
        .collect();
    let ran = team(&mut cx.rng, true, fs)?;
    observe_order(cx, &ran.logs);
    Ok(())
}

/// One thread, several readers and writers under way
fn alternating(cx: &mut Cx) -> Result<(), String> {
    let n = n_threads(&mut cx.rng) + 1;
    let all = jobs(cx, n);
    let mut on: Vec<(usize, Step, Outcome)> = all
        .iter()
        .enumerate()
        .map(|(i, (j, chunk, _))| (i, start(j, *chunk, None), Outcome::default()))
        .collect();
    let burst = *cx.rng.pick(&[1usize, 1, 4]);
    let mut steps = 0;
    while !on.is_empty() {
        let k = cx.rng.below(on.len());
        let mut more = true;
        for _ in 0..1 + cx.rng.below(burst) {
            let x = &mut on[k];
            more = more && x.1(&mut x.2);
            steps += 1;
        }
        if !more {
            let (i, s, o) = on.swap_remove(k);
            drop(s);
            let (job, _, alone) = &all[i];
            alone
                .same(&o)
                .map_err(|e| format!("alternating with {} others: {}: {}", n - 1, job.name(), e))?;
        }
    }
    cx.count("steps in one thread", steps);
    Ok(())
}

/// From thread to thread
fn moved(cx: &mut Cx) -> Result<(), String> {
    let n = n_threads(&mut cx.rng);
    let all = jobs(cx, n);
    let mut on: Vec<(usize, Step, Outcome, bool)> = all
        .iter()
        .enumerate()
        .map(|(i, (j, chunk, _))| (i, start(j, *chunk, None), Outcome::default(), false))
        .collect();
    let rounds = 2 + cx.rng.below(6);
    for r in 0..rounds {
        let last = r + 1 == rounds;
        cx.rng.shuffle(&mut on);
        let mut fs = vec![];
        for (i, mut s, mut o, mut done) in on.drain(..) {
            let limit = if last { usize::MAX } else { cx.rng.below(25) };
            fs.push(Box::new(move || {
                let mut k = 0;
                while !done && k < limit {
                    done = !s(&mut o);
                    point();
                    k += 1;
                }
                Ok((i, s, o, done))
            }) as Box<dyn FnOnce() -> Result<_, String> + Send>);
        }
        let ran = team(&mut cx.rng, true, fs)?;
        if ran.out.is_empty() {
            return Ok(());
        }
        observe_order(cx, &ran.logs);
        on = ran.out;
        cx.count("times moved", on.len() as u64);
    }
    for (i, _, o, _) in on {
        let (job, _, alone) = &all[i];
        alone
            .same(&o)
            .map_err(|e| format!("moved between threads: {}: {}", job.name(), e))?;
    }
    Ok(())
}

/// One whose source or sink blocks does not hold up the others
fn blocked(cx: &mut Cx) -> Result<(), String> {
    let mut all = jobs(cx, 3);
    // the first one has a source or sink of ours
    while matches!(
        all[0].0,
        Job::TagsFile(_) | Job::PbfFile(_) | Job::ArcFile(_) | Job::Edits(..) | Job::Times(_)
    ) {
        all[0] = jobs(cx, 1).pop().unwrap();
    }
    let size = match &all[0].0 {
        Job::Xml(d) | Job::Osc(d) | Job::Pbf(d) | Job::Arc(d) | Job::Pos(d) | Job::Typed(d) | Job::Cs(d) | Job::CsBz2(d) => d.len(),
        _ => all[0].2.bytes.len(),
    };
    let at = cx.rng.below(size + 1);
    let gate = Arc::new(Gate::default());
    let all = Arc::new(all);
    let left = Arc::new(AtomicU64::new(2));
    let mut fs: Vec<Box<dyn FnOnce() -> Result<bool, String> + Send>> = vec![];
    {
        let (all, gate) = (all.clone(), gate.clone());
        fs.push(Box::new(move || {
            let (job, chunk, alone) = &all[0];
            // readers of whole blocks would go past it in one read
            let chunk = (*chunk).min(300);
            let now = run_job(job, chunk, Some((at, gate.clone())));
            gate.open(); // in case it never came there
            alone.same(&now).map_err(|e| format!("{}: {}", job.name(), e))?;
            Ok(false)
        }));
    }
    for k in 1..3 {
        let (all, gate, left) = (all.clone(), gate.clone(), left.clone());
        fs.push(Box::new(move || {
            let was = gate.wait_for_waiter();
            let (job, chunk, alone) = &all[k];
            let now = guard(|| run_job(job, *chunk, None));
            if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                gate.open();
            }
            let now = now.map_err(|c| c.to_string())?;
            alone.same(&now).map_err(|e| format!("{}: {}", job.name(), e))?;
            Ok(was)
        }));
    }
    let what = all[0].0.name();
    let ran = team(&mut cx.rng, true, fs).map_err(|e| {
        format!("{}; thread 0 ({}) waited in its source or sink at byte {} for {} and {} to finish", e, what, at, all[1].0.name(), all[2].0.name())
    })?;
    observe_order(cx, &ran.logs);
    cx.count("blocked while others ran", ran.out.iter().filter(|x| **x).count() as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// shared objects

fn arc_objects(cx: &mut Cx, n: usize) -> Result<(Vec<ArcOSMObj>, Vec<MObj>), String> {
    let cfg = Cfg {
        big: false,
        ..Cfg::pbf()
    };
    let few: Vec<String> = (0..4).map(|_| gen::string(&mut cx.rng, cfg.chars)).collect();
    let objs: Vec<MObj> = (0..n)
        .map(|_| {
            let mut m = gen::object(&mut cx.rng, &cfg);
            // the same strings in many objects
            if cx.rng.bool() {
                m.user = Some(cx.rng.pick(&few).clone());
                m.version.get_or_insert(1);
                m.changeset.get_or_insert(1);
                m.uid.get_or_insert(1);
                m.ts.get_or_insert(Ts::Epoch(1));
            }
            for t in &mut m.tags {
                if cx.rng.bool() {
                    t.1 = cx.rng.pick(&few).clone();
                }
            }
            let mut seen = std::collections::HashSet::new();
            m.tags.retain(|t| seen.insert(t.0.clone()));
            m
        })
        .collect();
    let f = Enc::new(&mut cx.rng, 1).write(&objs);
    let got: Vec<ArcOSMObj> = must("arcpbf", || {
        osmio::arcpbf::PBFReader::new(&f.bytes[..]).objects().collect()
    })?;
    // what it reads is P07's matter: what one thread sees now, all must see
    let seen: Vec<MObj> = got.iter().map(observe).collect();
    Ok((got, seen))
}

fn like(what: &str, m: &MObj, got: &MObj) -> Result<(), String> {
    match m.diff(got) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what, d)),
    }
}

#[derive(Default)]
struct Did {
    looked: u64,
    edited: u64,
    converted: u64,
    sent: u64,
}

fn shared(cx: &mut Cx) -> Result<(), String> {
    let n_obj = if tiny() { 3 } else { *cx.rng.pick(&[1usize, 3, 20]) };
    let (objs, models) = arc_objects(cx, n_obj)?;
    if objs.is_empty() {
        return Ok(());
    }
    let n = n_threads(&mut cx.rng);
    let ops = if tiny() { 6 } else { 20 + cx.rng.below(60) };
    let objs = Arc::new(objs);
    let models = Arc::new(models);
    // in some cases nothing goes between the threads but the objects they start with, so that
    // nothing orders what they do
    let sending = cx.rng.bool();
    cx.count("cases without channels", (!sending) as u64);
    let mut rxs = vec![];
    let mut txs = vec![];
    for _ in 0..n {
        let (tx, rx) = mpsc::channel::<(ArcOSMObj, MObj)>();
        txs.push(tx);
        rxs.push(rx);
    }
    let mut fs = vec![];
    let mut own: Vec<Vec<ArcOSMObj>> = (0..n).map(|_| objs.to_vec()).collect();
    for (t, rx) in rxs.into_iter().enumerate() {
        let (objs, models, txs) = (objs.clone(), models.clone(), txs.clone());
        let mut rng = Rng::new(cx.rng.u64());
        let mut mine = own.pop().unwrap();
        fs.push(Box::new(move || {
            let mut did = Did::default();
            let mut kept: Vec<(ArcOSMObj, MObj)> = vec![];
            for _ in 0..ops {
                point();
                let k = rng.below(objs.len());
                let m = &models[k];
                match rng.below(9) {
                    0 | 1 => like("shared object", m, &observe(&objs[k]))?,
                    2 => like("clone", m, &observe(&objs[k].clone()))?,
                    3 | 4 => {
                        // through the all-representations type, to use the same edits as P17
                        let mut c = AnyObj::A(objs[k].clone());
                        let mut cm = m.clone();
                        for _ in 0..1 + rng.below(6) {
                            random_edit(&mut rng, &mut c, &mut cm);
                        }
                        like("edited clone", &cm, &c.observe())?;
                        like("original of an edited clone", m, &observe(&objs[k]))?;
                        did.edited += 1;
                        if let AnyObj::A(c) = c {
                            kept.push((c, cm));
                        }
                    }
                    5 => {
                        let s = StringOSMObj::from(objs[k].clone());
                        like("converted", m, &observe(&s))?;
                        did.converted += 1;
                    }
                    6 if sending => {
                        let x = if kept.is_empty() || rng.bool() {
                            (objs[k].clone(), m.clone())
                        } else {
                            let i = rng.below(kept.len());
                            kept.swap_remove(i)
                        };
                        let to = rng.below(txs.len());
                        let _ = txs[to].send(x); // it may have finished
                        did.sent += 1;
                    }
                    7 => {
                        // drop one of the objects which this thread owns
                        if !mine.is_empty() {
                            let i = rng.below(mine.len());
                            mine.swap_remove(i);
                        }
                    }
                    _ => {
                        let i = rng.below(kept.len() + 1);
                        if i < kept.len() {
                            let (o, m) = kept.swap_remove(i);
                            like("kept clone", &m, &observe(&o))?;
                        }
                    }
                }
                while let Ok((mut o, mut m)) = rx.try_recv() {
                    like("received object", &m, &observe(&o))?;
                    if rng.bool() {
                        let mut a = AnyObj::A(o);
                        random_edit(&mut rng, &mut a, &mut m);
                        like("received and edited", &m, &a.observe())?;
                        o = match a {
                            AnyObj::A(o) => o,
                            _ => unreachable!(),
                        };
                        kept.push((o, m));
                    }
                }
                did.looked += 1;
            }
            for (o, m) in &kept {
                like("kept clone at the end", m, &observe(o))?;
            }
            drop(objs);
            point();
            let _ = t;
            Ok(did)
        }) as Box<dyn FnOnce() -> Result<Did, String> + Send>);
    }
    drop(txs);
    // sometimes the threads are the only owners
    let keep = cx.rng.bool().then(|| objs.clone());
    cx.count("shared objects", objs.len() as u64);
    drop(objs);
    let ran = team(&mut cx.rng, true, fs)?;
    observe_order(cx, &ran.logs);
    for d in &ran.out {
        cx.count("looks", d.looked);
        cx.count("clones edited", d.edited);
        cx.count("converted", d.converted);
        cx.count("objects sent", d.sent);
    }
    if let Some(objs) = keep {
        for (o, m) in objs.iter().zip(models.iter()) {
            like("original after all threads", m, &observe(o))?;
        }
    }
    Ok(())
}

/// A reader, channels, writers
fn pipeline(cx: &mut Cx) -> Result<(), String> {
    let n_obj = n_objects(&mut cx.rng);
    let objs = gen::small_objects(&mut cx.rng, &Cfg { chars: crate::gen::Chars::Xml, big: false, ..Cfg::pbf() }, n_obj);
    let f = Enc::new(&mut cx.rng, 1).write(&objs).bytes;
    let string_reader = cx.rng.chance(1, 4);
    let n = if tiny() { 2 } else { 1 + cx.rng.below(6) };
    let xml: Vec<bool> = (0..n).map(|_| cx.rng.bool()).collect();
    let bound = *cx.rng.pick(&[0usize, 1, 16]);
    let broadcast = cx.rng.bool();

    fn write<O: OSMObj>(objs: impl Iterator<Item = O>, xml: bool) -> Result<Vec<u8>, String> {
        let out: Arc<Mutex<Vec<u8>>> = Default::default();
        let sink = Paced { data: vec![], pos: 0, chunk: 1, out: out.clone(), gate: None };
        if xml {
            let mut w = XMLWriter::new(sink);
            for o in objs {
                w.write_obj(&o).map_err(|e| e.to_string())?;
                point();
            }
            drop(w);
        } else {
            let mut w = OSCWriter::new(sink);
            for o in objs {
                w.write_obj(&o).map_err(|e| e.to_string())?;
                point();
            }
            w.close().map_err(|e| e.to_string())?;
        }
        let v = std::mem::take(&mut *out.lock().unwrap());
        Ok(v)
    }
    fn go<R: OSMReader + 'static>(
        cx: &mut Cx,
        open: impl Fn(Paced) -> R,
        f: Vec<u8>,
        xml: Vec<bool>,
        bound: usize,
        broadcast: bool,
    ) -> Result<(), String>
    where
        R: Send,
        R::Obj: Clone + Send + 'static,
    {
        let n = xml.len();
        let source = |chunk: usize| Paced { data: f.clone(), pos: 0, chunk, out: Default::default(), gate: None };
        // alone
        let all: Vec<R::Obj> = must("reader", || open(source(usize::MAX)).objects().collect())?;
        let mut want = vec![];
        for (i, x) in xml.iter().enumerate() {
            let some: Vec<R::Obj> = all.iter().enumerate().filter(|(k, _)| broadcast || k % n == i).map(|x| x.1.clone()).collect();
            want.push(write(some.into_iter(), *x)?);
        }
        drop(all);
        let mut fs: Vec<Box<dyn FnOnce() -> Result<Vec<u8>, String> + Send>> = vec![];
        let mut txs = vec![];
        for x in xml.clone() {
            let (tx, rx) = mpsc::sync_channel::<R::Obj>(bound);
            txs.push(tx);
            fs.push(Box::new(move || write(rx.into_iter(), x)));
        }
        let mut r = open(source(random_chunk(&mut cx.rng)));
        fs.push(Box::new(move || {
            for (k, o) in r.objects().enumerate() {
                point();
                if broadcast {
                    for tx in &txs {
                        tx.send(o.clone()).map_err(|_| "a writer has gone".to_string())?;
                    }
                } else {
                    txs[k % txs.len()].send(o).map_err(|_| "a writer has gone".to_string())?;
                }
            }
            Ok(vec![])
        }));
        let ran = team(&mut cx.rng, true, fs)?;
        observe_order(cx, &ran.logs);
        for (i, (w, g)) in want.iter().zip(&ran.out).enumerate() {
            let a = Outcome { bytes: w.clone(), ..Default::default() };
            let b = Outcome { bytes: g.clone(), ..Default::default() };
            a.same(&b).map_err(|e| format!("writer {}: {}", i, e))?;
            cx.count("documents from the pipeline", 1);
        }
        Ok(())
    }
    if string_reader {
        go(cx, osmio::stringpbf::PBFReader::new, f, xml, bound, broadcast)
    } else {
        go(cx, osmio::arcpbf::PBFReader::new, f, xml, bound, broadcast)
    }
}
