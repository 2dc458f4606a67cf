//! P28: reading and writing stream.

use super::p17;
use super::util::*;
use crate::alloc;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::Enc;
use crate::rd::Rk;
use crate::rng::Rng;
use crate::runner::*;
use crate::xmlw::{self, W};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::OSMWriter;
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Write};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "P28",
        level: "exploration",
        rule: "Readers of every kind read long inputs which consist of units (elements, sections, blocks), handed over unit by unit by a source which notes, whenever it is asked for the next one, how much memory the reading thread has in use and which items it has been given. The second half of the input repeats the first, but for one small object in each unit, so memory in use must not be higher there. Objects are taken all, or by kind (also kinds which are never there). Writers are measured after every object. Whatever is dropped must give all its memory back. Distinct by reader, request and content; non-trivial: the end was reached, or items were.",
        assumptions: &["allocations are counted for the thread which reads"],
        legs: vec![
            leg("memory of readers", 240, 4000, memory),
            leg("early end", 1200, 30000, early),
            leg("prompt", 1800, 40000, prompt),
            leg("tag reader", 8, 100, tag_reader),
            leg("memory of writers", 64, 2000, writers),
            leg("objects", 240, 6000, objects),
        ],
        required: &["units read", "memory samples", "readers at their end", "readers dropped early", "prompt items", "objects written", "rounds of objects", "requests which find nothing"],
        probes: vec![],
    }
}

const KINDS: [Rk; 6] = [Rk::Xml, Rk::Osc, Rk::Pbf, Rk::Arc, Rk::Pos, Rk::Cs];

/// What is asked for
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Ask {
    All,
    Kind(Kind),
}

impl Ask {
    fn takes(self, k: Kind) -> bool {
        match self {
            Ask::All => true,
            Ask::Kind(x) => x == k,
        }
    }
}

struct Input {
    /// the beginning, the units, the end
    parts: Vec<Vec<u8>>,
    /// items in all parts up to and with this one
    items: Vec<u64>,
}

/// The kinds which are generated
fn allowed(rng: &mut Rng) -> Vec<Kind> {
    match rng.below(4) {
        0 => vec![Kind::Node],
        1 => vec![*rng.pick(&[Kind::Node, Kind::Way, Kind::Rel])],
        _ => vec![Kind::Node, Kind::Way, Kind::Rel],
    }
}

fn few(rng: &mut Rng, cfg: &Cfg, kinds: &[Kind]) -> Vec<MObj> {
    let n = *rng.pick(&[0usize, 1, 1, 2, 4]);
    (0..n)
        .map(|_| {
            let k = *rng.pick(kinds);
            gen::object_of(rng, cfg, k)
        })
        .collect()
}

/// A small object which is like no other
fn unique(kind: Kind, i: usize) -> MObj {
    let mut m = MObj::new(kind, 100_000_000 + i as i64);
    m.user = Some(format!("user with the number {:09}", i));
    m.uid = Some(100_000_000 + i as u32);
    m.version = Some(100_000 + i as u32);
    m.changeset = Some(100_000_000 + i as u32);
    m.ts = Some(Ts::Epoch(1_000_000_000 + i as i64));
    m.tags = vec![(format!("key with the number {:09}", i), format!("value with the number {:09}", i))];
    if kind == Kind::Node {
        m.latlon = Some((100_000_000 + i as i32, 100_000_000 - i as i32));
    }
    m
}

fn input(rng: &mut Rng, rk: Rk, ask: Ask, pool: usize, n: usize, full: bool) -> Input {
    let fancy = *rng.pick(&[0usize, 1, 3]);
    let kinds = allowed(rng);
    // only things which are not objects
    let nothing = full && rng.chance(1, 4);
    // each unit without the small object
    let mut bodies: Vec<(Vec<u8>, Vec<Kind>)> = vec![];
    let mut cfg = match rk {
        Rk::Xml | Rk::Osc | Rk::Cs => Cfg::xml(),
        _ => Cfg::pbf(),
    };
    cfg.big = false;
    let mut untagged = rng.chance(1, 4);
    if rk != Rk::Cs {
        untagged = false;
    }
    for j in 0..pool {
        if nothing {
            bodies.push((no_objects(rng, rk), vec![]));
            continue;
        }
        let mut w = W::new(rng, fancy);
        match rk {
            Rk::Xml => {
                let objs = few(w.rng, &cfg, &kinds);
                for m in &objs {
                    w.nl();
                    w.misc(true);
                    w.object(m, Some(!m.deleted));
                }
                bodies.push((w.out.into_bytes(), objs.iter().map(|o| o.kind).collect()));
            }
            Rk::Osc => {
                let objs = few(w.rng, &cfg, &kinds);
                let section = *w.rng.pick(&["create", "modify", "delete"]);
                w.nl();
                w.out.push_str(&format!("<{}>", section));
                for m in &objs {
                    w.nl();
                    w.misc(true);
                    w.object(m, Some(!m.deleted));
                }
                w.misc(true);
                w.out.push_str(&format!("</{}>", section));
                bodies.push((w.out.into_bytes(), objs.iter().map(|o| o.kind).collect()));
            }
            Rk::Cs => {
                let mut k = vec![];
                for _ in 0..w.rng.below(3) {
                    let mut c = xmlw::gen_changeset(w.rng, 1 + j as u32);
                    if untagged {
                        c.tags.clear();
                    }
                    w.nl();
                    w.misc(true);
                    w.changeset(&c);
                    k.push(Kind::Node);
                }
                w.misc(true);
                bodies.push((w.out.into_bytes(), k));
            }
            Rk::Pbf | Rk::Arc | Rk::Pos => {
                drop(w);
                let objs = few(rng, &cfg, &kinds);
                let k: Vec<Kind> = objs.iter().map(|o| o.kind).collect();
                let mut e = Enc::new(rng, fancy);
                if e.rng.chance(1, 5) {
                    e.header();
                }
                let mut groups: Vec<Vec<MObj>> = vec![];
                for o in objs {
                    match groups.last_mut() {
                        Some(g) if g[0].kind == o.kind => g.push(o),
                        _ => groups.push(vec![o]),
                    }
                }
                e.data_block(groups);
                bodies.push((e.file.bytes, k));
            }
        }
    }
    let last_kind = *rng.pick(&kinds);
    let mut parts = vec![match rk {
        Rk::Xml | Rk::Cs => b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osm version=\"0.6\">".to_vec(),
        Rk::Osc => b"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<osmChange version=\"0.6\">".to_vec(),
        _ => {
            let mut e = Enc::new(rng, 0);
            e.header();
            e.file.bytes
        }
    }];
    let mut items = vec![0u64];
    let mut total = 0;
    let counted = |k: Kind| match rk {
        Rk::Cs => true,
        Rk::Pos => k == Kind::Node,
        _ => ask.takes(k),
    };
    for i in 0..n {
        let (body, k) = &bodies[i % pool];
        let mut b = body.clone();
        total += k.iter().filter(|k| counted(**k)).count() as u64;
        if full && !nothing {
            let m = unique(last_kind, i);
            match rk {
                Rk::Xml | Rk::Osc => {
                    let mut w = W::new(rng, 0);
                    if rk == Rk::Osc {
                        w.out.push_str("<modify>");
                    }
                    w.object(&m, Some(true));
                    if rk == Rk::Osc {
                        w.out.push_str("</modify>");
                    }
                    b.extend(w.out.bytes());
                }
                Rk::Cs => {
                    let tag = if untagged {
                        String::new()
                    } else {
                        format!("<tag k=\"key {:09}\" v=\"value {:09}\"/>", i, i)
                    };
                    b.extend(
                        format!(
                            "<changeset id=\"{}\" created_at=\"2020-01-01T00:00:00Z\" open=\"false\" num_changes=\"1\" comments_count=\"0\" user=\"user {:09}\" uid=\"{}\">{}</changeset>",
                            100_000_000 + i, i, 100_000_000 + i, tag
                        )
                        .bytes(),
                    );
                }
                _ => {
                    let mut e = Enc::new(rng, 0);
                    let data = e.primitive_block(&mut [vec![m]]);
                    e.blob("OSMData", &data, &crate::pbfw::Content::Raw, vec![]);
                    b.extend(e.file.bytes);
                }
            }
            total += counted(last_kind) as u64;
        }
        parts.push(b);
        items.push(total);
    }
    parts.push(match rk {
        Rk::Xml | Rk::Cs => b"\n</osm>\n".to_vec(),
        Rk::Osc => b"\n</osmChange>\n".to_vec(),
        _ => vec![],
    });
    items.push(total);
    Input { parts, items }
}

/// What is skipped by every request
fn no_objects(rng: &mut Rng, rk: Rk) -> Vec<u8> {
    match rk {
        Rk::Xml | Rk::Osc | Rk::Cs => {
            let text: String = (0..rng.below(100)).map(|_| *rng.pick(&['a', ' ', 'ü', '\n'])).collect();
            match rng.below(6) {
                0 => format!("<!-- {} -->", text),
                1 => "<bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon=\"4\"/>".to_string(),
                2 => format!("<note>{}</note>", text),
                3 => text,
                4 => format!("<meta osm_base=\"{}\"></meta>", rng.below(1000)),
                _ if rk == Rk::Osc => "<create></create>".to_string(),
                _ => format!("<?p {}?>", rng.below(1000)),
            }
            .into_bytes()
        }
        _ => {
            let mut e = Enc::new(rng, 3);
            match e.rng.below(4) {
                0 => e.header(),
                1 => {
                    let n = e.rng.below(200);
                    e.blob("OSMUnknown", &vec![7; n], &crate::pbfw::Content::Raw, vec![]);
                }
                2 => {
                    let data = e.primitive_block(&mut []);
                    e.blob("OSMData", &data, &crate::pbfw::Content::Zlib { level: 6, raw_size: true }, vec![]);
                }
                _ => {
                    let data = e.primitive_block(&mut [vec![]]);
                    e.blob("OSMData", &data, &crate::pbfw::Content::Raw, vec![]);
                }
            }
            e.file.bytes
        }
    }
}

#[derive(Default)]
struct Log {
    /// memory in use when this part was asked for
    used: RefCell<Vec<isize>>,
    /// items delivered
    got: Cell<u64>,
    /// (part asked for, items which should have been there, items there)
    late: Cell<Option<(usize, u64, u64)>>,
    lag: Cell<u64>,
}

struct Source {
    input: Rc<Input>,
    part: usize,
    pos: usize,
    log: Rc<Log>,
}

impl Source {
    fn new(input: &Rc<Input>) -> (Source, Rc<Log>) {
        let log = Rc::new(Log::default());
        // nothing is allocated while the reader runs
        log.used.borrow_mut().reserve(input.parts.len() + 1);
        (
            Source {
                input: input.clone(),
                part: 0,
                pos: 0,
                log: log.clone(),
            },
            log,
        )
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        while self.part < self.input.parts.len() && self.pos == self.input.parts[self.part].len() {
            self.part += 1;
            self.pos = 0;
        }
        if self.part == self.input.parts.len() {
            return Ok(0);
        }
        if self.pos == 0 {
            let mut u = self.log.used.borrow_mut();
            while u.len() < self.part {
                let last = u.last().copied().unwrap_or(0);
                u.push(last); // an empty part
            }
            u.push(alloc::live());
            if self.part >= 1 && self.log.got.get() < self.input.items[self.part - 1] {
                self.log.lag.set(self.log.lag.get() + 1);
            }
            if self.part >= 2 {
                let want = self.input.items[self.part - 2];
                if self.log.got.get() < want && self.log.late.get().is_none() {
                    self.log.late.set(Some((self.part, want, self.log.got.get())));
                }
            }
        }
        let p = &self.input.parts[self.part][self.pos..];
        let n = p.len().min(buf.len());
        buf[..n].copy_from_slice(&p[..n]);
        self.pos += n;
        Ok(n)
    }
}

fn take<T>(log: &Log, max: u64, it: impl Iterator<Item = T>) -> Option<u64> {
    let mut n = 0;
    for x in it {
        drop(x);
        n += 1;
        log.got.set(n);
        if n == max {
            return None;
        }
    }
    Some(n)
}

fn ask_reader<R: OSMReader>(mut r: R, ask: Ask, own: bool, log: &Log, max: u64) -> Option<u64> {
    match (ask, own) {
        (Ask::All, false) => take(log, max, r.objects()),
        (Ask::All, true) => take(log, max, std::iter::from_fn(|| r.next())),
        (Ask::Kind(Kind::Node), _) => take(log, max, r.nodes()),
        (Ask::Kind(Kind::Way), _) => take(log, max, r.ways()),
        (Ask::Kind(Kind::Rel), _) => take(log, max, r.relations()),
    }
}

/// The number of items, if the end was reached
fn run(rk: Rk, ask: Ask, own: bool, src: Source, log: &Log, max: u64) -> Option<u64> {
    match rk {
        Rk::Xml => ask_reader(osmio::xml::XMLReader::new(src), ask, own, log, max),
        Rk::Osc => ask_reader(osmio::osc::OSCReader::new(src), ask, own, log, max),
        Rk::Pbf => {
            let mut r = osmio::stringpbf::PBFReader::new(src);
            match (ask, own) {
                // its own iterators, which skip blocks
                (Ask::Kind(Kind::Node), true) => take(log, max, r.nodes()),
                (Ask::Kind(Kind::Way), true) => take(log, max, r.ways()),
                (Ask::Kind(Kind::Rel), true) => take(log, max, r.relations()),
                _ => ask_reader(r, ask, own, log, max),
            }
        }
        Rk::Arc => ask_reader(osmio::arcpbf::PBFReader::new(src), ask, own, log, max),
        Rk::Pos => take(log, max, osmio::stringpbf::PBFNodePositionReader::from_reader(src)),
        Rk::Cs => take(log, max, ChangesetReader::from_reader(src).map(|c| c.unwrap())),
    }
}

fn choose(cx: &mut Cx) -> (Rk, Ask, bool) {
    let rk = KINDS[cx.idx as usize % 6];
    let ask = match rk {
        Rk::Pos | Rk::Cs => Ask::All,
        _ => *cx.rng.pick(&[
            Ask::All,
            Ask::All,
            Ask::All,
            Ask::Kind(Kind::Node),
            Ask::Kind(Kind::Way),
            Ask::Kind(Kind::Rel),
        ]),
    };
    (rk, ask, cx.rng.bool())
}

fn memory(cx: &mut Cx) -> Result<(), String> {
    let (rk, ask, own) = choose(cx);
    let pool = 8;
    let n = if cx.thorough { 4096 } else { 1536 };
    let input = Rc::new(input(&mut cx.rng, rk, ask, pool, n, true));
    let what = format!("{:?} reader, asked for {:?}", rk, ask);
    let (src, log) = Source::new(&input);
    let before = alloc::live();
    let end = must(&what, || run(rk, ask, own, src, &log, u64::MAX))?;
    let after = alloc::live();
    let total = *input.items.last().unwrap();
    if end != Some(total) {
        return Err(format!("{}: {:?} items of {}", what, end, total));
    }
    cx.count("readers at their end", 1);
    cx.count("requests which find nothing", (total == 0) as u64);
    cx.count("items", total);
    gives_back(&what, before, after)?;
    let used = log.used.borrow();
    let used: Vec<isize> = used.iter().map(|u| u - before).collect();
    if used.len() < n {
        return Err(format!("{}: the end was reached after {} of {} units", what, used.len(), n));
    }
    cx.count("units read", used.len() as u64);
    cx.count("memory samples", used.len() as u64);
    grows(&what, &used)?;
    cx.seen(crate::rng::hash_bytes(&input.parts.concat()) ^ crate::rng::hash_bytes(what.as_bytes()));
    let steps: Vec<isize> = used.iter().step_by(n / 8).copied().collect();
    cx.sample(|| json!({"reader": what, "items": total, "bytes": input.parts.iter().map(|p| p.len()).sum::<usize>(), "memory in use": steps}));
    Ok(())
}

const SLACK: isize = 12_000;

fn grows(what: &str, used: &[isize]) -> Result<(), String> {
    let n = used.len();
    let a = used[..n / 2].iter().max().unwrap();
    let b = used[n / 2..].iter().max().unwrap();
    if b - a > SLACK {
        let steps: Vec<isize> = used.iter().step_by((n / 8).max(1)).copied().collect();
        return Err(format!(
            "{}: {} bytes in use at most in the first half and {} in the second, at intervals: {:?}",
            what, a, b, steps
        ));
    }
    Ok(())
}

fn gives_back(what: &str, before: isize, after: isize) -> Result<(), String> {
    if after - before > 2048 {
        return Err(format!("{}: dropped, but {} bytes are still in use", what, after - before));
    }
    Ok(())
}

/// Many short inputs, and readers which are dropped in the middle
fn early(cx: &mut Cx) -> Result<(), String> {
    let (rk, ask, own) = choose(cx);
    let input = Rc::new(input(&mut cx.rng, rk, ask, 4, 8, true));
    let total = *input.items.last().unwrap();
    let max = 1 + cx.rng.below(total as usize + 1) as u64;
    let what = format!("{:?} reader, asked for {:?}, {} of {} items", rk, ask, max, total);
    let mut rounds = vec![];
    for _ in 0..8 {
        let (src, log) = Source::new(&input);
        let before = alloc::live();
        let r = must(&what, || run(rk, ask, own, src, &log, max))?;
        rounds.push(alloc::live() - before);
        if r.is_none() {
            cx.count("readers dropped early", 1);
        }
    }
    // something may have been made which is then kept for good
    let kept: isize = rounds[1..].iter().sum();
    if kept > 1024 {
        return Err(format!("{}: eight times; bytes still in use after each: {:?}", what, rounds));
    }
    cx.evals(8);
    cx.seen(crate::rng::hash_bytes(&input.parts.concat()) ^ max);
    Ok(())
}

/// Items come when their unit has
fn prompt(cx: &mut Cx) -> Result<(), String> {
    let (rk, ask, own) = choose(cx);
    let n = *cx.rng.pick(&[3usize, 8, 30]);
    let full = cx.rng.bool();
    let input = Rc::new(input(&mut cx.rng, rk, ask, n, n, full));
    let (src, log) = Source::new(&input);
    let what = format!("{:?} reader, asked for {:?}", rk, ask);
    let end = must(&what, || run(rk, ask, own, src, &log, u64::MAX))?;
    let total = *input.items.last().unwrap();
    if end != Some(total) {
        return Err(format!("{}: {:?} items of {}", what, end, total));
    }
    if let Some((part, want, got)) = log.late.get() {
        return Err(format!(
            "{}: part {} of {} is asked for when {} items had been returned, but the parts before the last one it was given have {}",
            what, part, input.parts.len(), got, want
        ));
    }
    cx.count("prompt items", total);
    cx.count("parts asked for with the one before not yet returned", log.lag.get());
    cx.count("units read", n as u64);
    cx.evals(n as u64);
    cx.seen(crate::rng::hash_bytes(&input.parts.concat()));
    Ok(())
}

/// It can only be made from a file
fn tag_reader(cx: &mut Cx) -> Result<(), String> {
    let input = input(&mut cx.rng, Rk::Cs, Ask::All, 8, 10000, true);
    let doc = |n: usize| {
        let mut b = input.parts[..n].concat();
        b.extend(input.parts.last().unwrap());
        b
    };
    let mut peaks = vec![];
    for n in [1000, 1000, 10000] {
        let b = doc(n);
        let mut z = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
        z.write_all(&b).unwrap();
        let z = z.finish().unwrap();
        let p = cx.tmp.join("dump.osm.bz2");
        std::fs::write(&p, z).unwrap();
        let name = p.to_str().unwrap().to_string();
        let before = alloc::live();
        alloc::take_peak();
        let items = must("tag reader", || -> Result<u64, String> {
            let r = ChangesetTagReader::from_filename(&name).map_err(|e| e.to_string())?;
            let mut n = 0;
            for x in r {
                x.map_err(|e| e.to_string())?;
                n += 1;
            }
            Ok(n)
        })??;
        let peak = alloc::take_peak() - before;
        gives_back("tag reader", before, alloc::live())?;
        peaks.push((n, b.len(), peak));
        cx.count("items", items);
        cx.count("requests which find nothing", (items == 0) as u64);
        cx.count("readers at their end", 1);
    }
    if peaks[2].2 - peaks[1].2 > 65_536 {
        return Err(format!("tag reader: (changesets, bytes of text, most memory in use): {:?}", peaks));
    }
    cx.count("memory samples", 3);
    cx.seen(crate::rng::hash_bytes(&input.parts.concat()));
    cx.sample(|| json!({"tag reader: units, bytes, most memory in use": peaks}));
    cx.evals(3);
    Ok(())
}

/// Counts
struct Count(Rc<Cell<u64>>);

impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.set(self.0.get() + b.len() as u64);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn writers(cx: &mut Cx) -> Result<(), String> {
    let osc = cx.idx % 2 == 1;
    let cfg = Cfg {
        big: false,
        ..Cfg::xml()
    };
    let ms: Vec<MObj> = (0..16).map(|_| gen::object(&mut cx.rng, &cfg)).collect();
    let pool = build_all(&mut cx.rng, &ms);
    let n = if cx.thorough { 6000 } else { 2000 };
    let kind = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let others: Vec<AnyObj> = (0..n).map(|i| AnyObj::build(&unique(kind, i), Repr::S)).collect();
    let mut used = Vec::with_capacity(n);
    let bytes = Rc::new(Cell::new(0u64));
    fn go<T: OSMWriter<Count>>(mut w: T, pool: &[AnyObj], others: &[AnyObj], used: &mut Vec<isize>, close: bool) -> Result<(), String> {
        for (i, o) in others.iter().enumerate() {
            write_any(&mut w, &pool[i % pool.len()]).map_err(|e| e.to_string())?;
            write_any(&mut w, o).map_err(|e| e.to_string())?;
            used.push(alloc::live());
        }
        if close {
            w.close().map_err(|e| e.to_string())?;
        }
        Ok(())
    }
    let what = if osc { "OSC writer" } else { "XML writer" };
    let close = cx.rng.bool();
    let sink = Count(bytes.clone());
    let before = alloc::live();
    must(what, || {
        if osc {
            go(osmio::osc::OSCWriter::new(sink), &pool, &others, &mut used, close)
        } else {
            go(osmio::xml::XMLWriter::new(sink), &pool, &others, &mut used, close)
        }
    })??;
    let after = alloc::live();
    gives_back(what, before, after)?;
    used.iter_mut().for_each(|u| *u -= before);
    grows(what, &used)?;
    cx.count("objects written", 2 * n as u64);
    cx.count("bytes written", bytes.get());
    cx.count("memory samples", n as u64);
    cx.seen_of(&(osc, &ms));
    cx.sample(|| json!({"writer": what, "objects": 2 * n, "bytes": bytes.get(), "memory in use": [used[0], used[n - 1]]}));
    cx.evals(n as u64);
    Ok(())
}

/// Objects which are made, edited, cloned, converted and dropped leave nothing behind
fn objects(cx: &mut Cx) -> Result<(), String> {
    let seed = cx.rng.u64();
    let mut left = Vec::with_capacity(64);
    let start = alloc::live();
    for round in 0..40u64 {
        let mut rng = Rng::new(seed.wrapping_add(round));
        must("objects", || one_round(&mut rng))?;
        left.push(alloc::live() - start);
    }
    if left[39] - left[7] > 1024 {
        return Err(format!("bytes still in use after each of 40 rounds: {:?}", left));
    }
    cx.count("rounds of objects", 40);
    cx.evals(40);
    cx.seen(seed);
    Ok(())
}

fn one_round(rng: &mut Rng) {
    let cfg = Cfg {
        big: false,
        dup_keys: false,
        ..Cfg::any()
    };
    let mut all: Vec<(AnyObj, MObj)> = vec![];
    for _ in 0..6 {
        let m = gen::object(rng, &cfg);
        let r = *rng.pick(&[Repr::S, Repr::R, Repr::A]);
        all.push((AnyObj::build(&m, r), m));
    }
    let objs = crate::pbfw::gen_objects(rng, 6, true);
    let f = Enc::new(rng, 0).write(&objs);
    for (o, m) in osmio::arcpbf::PBFReader::new(&f.bytes[..]).objects().zip(f.objs) {
        all.push((AnyObj::A(o), m));
    }
    for _ in 0..30 {
        let i = rng.below(all.len());
        match rng.below(6) {
            0 => {
                let c = all[i].0.clone();
                let m = all[i].1.clone();
                all.push((c, m));
            }
            1 if all.len() > 2 => drop(all.swap_remove(i)),
            2 => {
                let (o, m) = all.swap_remove(i);
                let s: StringOSMObj = match o {
                    AnyObj::S(o) => o,
                    AnyObj::R(o) => o.into(),
                    AnyObj::A(o) => o.into(),
                };
                all.push((AnyObj::S(s), m));
            }
            3 => {
                let j = match &all[i].0 {
                    AnyObj::S(o) => o.tags_json_string(),
                    AnyObj::R(o) => o.tags_json_string(),
                    AnyObj::A(o) => o.tags_json_string(),
                };
                drop(j);
            }
            _ => {
                let (o, m) = &mut all[i];
                p17::random_edit(rng, o, m);
            }
        }
    }
}
