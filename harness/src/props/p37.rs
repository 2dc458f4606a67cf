//! P37: the traits, implemented by somebody else.

use super::p17::{self, Edit};
use super::p18;
use super::util::*;
use crate::faults::Sink;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw;
use crate::rng::Rng;
use crate::runner::*;
use osmio::osc::OSCWriter;
use osmio::prelude::*;
use osmio::xml::XMLWriter;
use osmio::{Lat, Lon, OSMReader, OSMWriteError, OSMWriter, ParseLatLonError, TimestampFormat};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::io::Cursor;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "P37",
        level: "exploration",
        rule: "An object type, two readers and a writer are implemented here with the required methods only. Every provided method of the object traits is compared with the model, also after random edits and refused positions; the XML and OSC writers must write these objects byte for byte like the library's own; the readers' iterators are opened, advanced in many ways and dropped in random order against a model of what is left; what from_iter does with a writer is logged. Distinct by content; non-trivial: there are tags, nodes, members or several objects.",
        assumptions: &["an implementation keeps to the documentation of the traits"],
        legs: vec![
            leg("objects", 24000, 300000, objects),
            leg("positions", 16000, 200000, positions),
            leg("written", 16000, 200000, written),
            leg("readers", 24000, 300000, readers),
            leg("writers", 16000, 200000, writers),
        ],
        required: &[
            "objects viewed", "edits", "positions set", "positions refused", "objects written",
            "objects read", "iterators dropped before the end", "sorted readers", "whole outputs", "outputs given up",
        ],
        probes: vec![],
    }
}

// ---------------------------------------------------------------------------------------------
// the implementations

/// Node, way and relation in one
#[derive(Clone, Debug, PartialEq)]
struct Own {
    m: MObj,
    ts: Option<TimestampFormat>,
}

fn own(m: &MObj) -> Own {
    Own {
        m: m.clone(),
        ts: m.ts.as_ref().map(|t| t.to_osm()),
    }
}

impl OSMObjBase for Own {
    fn id(&self) -> i64 {
        self.m.id
    }
    fn set_id(&mut self, val: impl Into<i64>) {
        self.m.id = val.into();
    }
    fn version(&self) -> Option<u32> {
        self.m.version
    }
    fn set_version(&mut self, val: impl Into<Option<u32>>) {
        self.m.version = val.into();
    }
    fn deleted(&self) -> bool {
        self.m.deleted
    }
    fn set_deleted(&mut self, val: bool) {
        self.m.deleted = val;
    }
    fn changeset_id(&self) -> Option<u32> {
        self.m.changeset
    }
    fn set_changeset_id(&mut self, val: impl Into<Option<u32>>) {
        self.m.changeset = val.into();
    }
    fn timestamp(&self) -> &Option<TimestampFormat> {
        &self.ts
    }
    fn set_timestamp(&mut self, val: impl Into<Option<TimestampFormat>>) {
        self.ts = val.into();
        self.m.ts = self.ts.as_ref().map(Ts::of);
    }
    fn uid(&self) -> Option<u32> {
        self.m.uid
    }
    fn set_uid(&mut self, val: impl Into<Option<u32>>) {
        self.m.uid = val.into();
    }
    fn user(&self) -> Option<&str> {
        self.m.user.as_deref()
    }
    fn set_user<'a>(&mut self, val: impl Into<Option<&'a str>>) {
        self.m.user = val.into().map(|s| s.to_string());
    }
    fn tags<'a>(&'a self) -> Box<dyn ExactSizeIterator<Item = (&'a str, &'a str)> + 'a> {
        Box::new(self.m.tags.iter().map(|t| (&*t.0, &*t.1)))
    }
    fn tag(&self, key: impl AsRef<str>) -> Option<&str> {
        self.m.tags.iter().find(|t| t.0 == key.as_ref()).map(|t| &*t.1)
    }
    fn set_tag(&mut self, key: impl AsRef<str>, value: impl Into<String>) {
        p17::apply_model(&mut self.m, &Edit::Tag(key.as_ref().to_string(), value.into()));
    }
    fn unset_tag(&mut self, key: impl AsRef<str>) {
        self.m.tags.retain(|t| t.0 != key.as_ref());
    }
    fn object_type(&self) -> OSMObjectType {
        self.m.kind.osm()
    }
}

impl Node for Own {
    fn lat_lon(&self) -> Option<(Lat, Lon)> {
        latlon(&self.m)
    }
    fn set_lat_lon_direct(&mut self, loc: Option<(Lat, Lon)>) {
        self.m.latlon = loc.map(|(a, b)| (a.inner(), b.inner()));
    }
}

impl Way for Own {
    fn nodes(&self) -> &[i64] {
        &self.m.nodes
    }
    fn num_nodes(&self) -> usize {
        self.m.nodes.len()
    }
    fn node(&self, idx: usize) -> Option<i64> {
        self.m.nodes.get(idx).copied()
    }
    fn set_nodes(&mut self, nodes: impl IntoIterator<Item = impl Into<i64>>) {
        self.m.nodes = nodes.into_iter().map(|n| n.into()).collect();
    }
}

impl Relation for Own {
    fn members<'a>(&'a self) -> Box<dyn ExactSizeIterator<Item = (OSMObjectType, i64, &'a str)> + 'a> {
        Box::new(self.m.members.iter().map(|m| (m.0.osm(), m.1, &*m.2)))
    }
    fn set_members(&mut self, members: impl IntoIterator<Item = (OSMObjectType, i64, impl Into<String>)>) {
        self.m.members = members.into_iter().map(|(t, i, r)| (Kind::of(t), i, r.into())).collect();
    }
}

impl OSMObj for Own {
    type Node = Own;
    type Way = Own;
    type Relation = Own;
    fn into_node(self) -> Option<Own> {
        (self.m.kind == Kind::Node).then_some(self)
    }
    fn into_way(self) -> Option<Own> {
        (self.m.kind == Kind::Way).then_some(self)
    }
    fn into_relation(self) -> Option<Own> {
        (self.m.kind == Kind::Rel).then_some(self)
    }
    fn as_node(&self) -> Option<&Own> {
        (self.m.kind == Kind::Node).then_some(self)
    }
    fn as_way(&self) -> Option<&Own> {
        (self.m.kind == Kind::Way).then_some(self)
    }
    fn as_relation(&self) -> Option<&Own> {
        (self.m.kind == Kind::Rel).then_some(self)
    }
    fn as_node_mut(&mut self) -> Option<&mut Own> {
        (self.m.kind == Kind::Node).then_some(self)
    }
    fn as_way_mut(&mut self) -> Option<&mut Own> {
        (self.m.kind == Kind::Way).then_some(self)
    }
    fn as_relation_mut(&mut self) -> Option<&mut Own> {
        (self.m.kind == Kind::Rel).then_some(self)
    }
}

thread_local! {
    /// What the next OwnReader gives
    static SOURCE: RefCell<Vec<MObj>> = const { RefCell::new(vec![]) };
}

struct OwnReader {
    objs: std::vec::IntoIter<MObj>,
    asked: Cell<usize>,
    inner: Cursor<Vec<u8>>,
}

impl OSMReader for OwnReader {
    type R = Cursor<Vec<u8>>;
    type Obj = Own;
    fn new(inner: Self::R) -> Self {
        OwnReader {
            objs: SOURCE.take().into_iter(),
            asked: Cell::new(0),
            inner,
        }
    }
    fn into_inner(self) -> Self::R {
        self.inner
    }
    fn inner(&self) -> &Self::R {
        &self.inner
    }
    fn next(&mut self) -> Option<Own> {
        self.asked.set(self.asked.get() + 1);
        self.objs.next().as_ref().map(own)
    }
}

/// It remembers whether it is sorted
struct Sorted {
    r: OwnReader,
    sorted: bool,
}

impl OSMReader for Sorted {
    type R = Cursor<Vec<u8>>;
    type Obj = Own;
    fn new(inner: Self::R) -> Self {
        Sorted {
            r: OwnReader::new(inner),
            sorted: false,
        }
    }
    fn set_sorted_assumption(&mut self, sorted: bool) {
        self.sorted = sorted;
    }
    fn get_sorted_assumption(&mut self) -> bool {
        self.sorted
    }
    fn into_inner(self) -> Self::R {
        self.r.inner
    }
    fn inner(&self) -> &Self::R {
        &self.r.inner
    }
    fn next(&mut self) -> Option<Own> {
        self.r.next()
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Call {
    New,
    Obj(MObj),
    Close,
}

/// Logs the calls; the one of this number fails
#[derive(Clone)]
struct Log(Rc<RefCell<Vec<Call>>>, usize);

impl std::io::Write for Log {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct OwnWriter {
    log: Log,
    open: bool,
}

impl OwnWriter {
    fn call(&mut self, c: Call) -> Result<(), OSMWriteError> {
        let mut l = self.log.0.borrow_mut();
        l.push(c);
        if l.len() - 1 == self.log.1 {
            return Err(OSMWriteError::OPLWrite(std::io::Error::other("full")));
        }
        Ok(())
    }
}

impl OSMWriter<Log> for OwnWriter {
    fn new(log: Log) -> Self {
        let mut w = OwnWriter { log, open: true };
        let _ = w.call(Call::New);
        w
    }
    fn close(&mut self) -> Result<(), OSMWriteError> {
        self.call(Call::Close)?;
        self.open = false;
        Ok(())
    }
    fn is_open(&self) -> bool {
        self.open
    }
    fn write_obj(&mut self, obj: &impl OSMObj) -> Result<(), OSMWriteError> {
        if !self.open {
            return Err(OSMWriteError::AlreadyClosed);
        }
        self.call(Call::Obj(observe(obj)))
    }
    fn into_inner(self) -> Log {
        self.log
    }
}

// ---------------------------------------------------------------------------------------------

fn view(cx: &mut Cx, o: &Own, m: &MObj) -> Result<(), String> {
    let mut absent: Vec<String> = vec!["".into(), "area".into(), "nope".into()];
    absent.extend(m.tags.iter().take(3).map(|t| format!("{} ", t.0)));
    cx.count("objects viewed", 1);
    must("provided methods", || p18::any(cx, o.clone(), m, &absent))?
}

fn apply(o: &mut Own, e: &Edit) {
    match e {
        Edit::Strip => o.strip_metadata(),
        Edit::UnsetLatLon => o.unset_lat_lon(),
        Edit::LatLon(x) => o.set_lat_lon_direct(x.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)))),
        Edit::Ts(x) => o.set_timestamp(x.as_ref().map(|t| t.to_osm())),
        e => p17::apply_model(&mut o.m, e),
    }
}

fn objects(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::any();
    cfg.dup_keys = cx.rng.chance(1, 4);
    let mut m = gen::object(&mut cx.rng, &cfg);
    if m.kind == Kind::Way && cx.rng.bool() {
        // what areas are
        m.nodes = (0..cx.rng.below(6)).map(|_| cx.rng.range(1, 2)).collect();
        if !m.tags.iter().any(|t| t.0 == "area") && cx.rng.bool() {
            m.tags.push(("area".into(), cx.rng.pick(&["no", "yes", "NO", ""]).to_string()));
        }
    }
    let mut o = own(&m);
    view(cx, &o, &m)?;
    for _ in 0..cx.rng.below(5) {
        let e = match cx.rng.below(3) {
            0 => Edit::Strip,
            1 if m.kind == Kind::Node => Edit::UnsetLatLon,
            _ => p17::make(&mut cx.rng, &m),
        };
        must("edit", || apply(&mut o, &e))?;
        p17::apply_model(&mut m, &e);
        if let Some(d) = m.diff(&observe(&o)) {
            return Err(format!("after {}: {}", short(&e), d));
        }
        view(cx, &o, &m)?;
        cx.count("edits", 1);
    }
    if !m.trivial() {
        cx.seen_of(&m);
    }
    cx.sample(|| json!({"object": short(&m)}));
    cx.evals(1);
    Ok(())
}

/// set_lat_lon with whatever it takes
fn positions(cx: &mut Cx) -> Result<(), String> {
    let mut m = gen::object_of(&mut cx.rng, &Cfg::any(), Kind::Node);
    let mut o = own(&m);
    for _ in 0..6 {
        let (a, b) = (gen::coord(&mut cx.rng), gen::coord(&mut cx.rng));
        let (la, lo) = (Lat::from_inner(a), Lon::from_inner(b));
        // one of these is no number of degrees that a coordinate can have
        let bad = *cx.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e9, -1e300]);
        // whole degrees are exact with few digits, too
        let (da, db) = (cx.rng.range(-90, 90) as i32, cx.rng.range(-180, 180) as i32);
        let (fa, fb) = (da as f32, db as f32);
        let how = cx.rng.below(10);
        let r: Result<(), ParseLatLonError> = must("set_lat_lon", || match how {
            0 => o.set_lat_lon((f64::from(la), f64::from(lo))),
            1 => o.set_lat_lon(Some((f64::from(la), f64::from(lo)))),
            2 => o.set_lat_lon(None as Option<(f64, f64)>),
            3 => o.set_lat_lon(None as Option<(f64, f32)>),
            4 => o.set_lat_lon((fa, fb)),
            5 => o.set_lat_lon((fa, f64::from(lo))),
            6 => o.set_lat_lon((bad, f64::from(lo))),
            7 => o.set_lat_lon((f64::from(la), bad)),
            8 => o.set_lat_lon(Some((fa, bad))),
            _ => o.set_lat_lon((bad as f32, fb)),
        })?;
        let e7 = 10_000_000;
        let now = match how {
            0 | 1 => Some((a, b)),
            2 | 3 => None,
            4 => Some((da * e7, db * e7)),
            5 => Some((da * e7, b)),
            _ => m.latlon,
        };
        if r.is_ok() != (how < 6) {
            return Err(format!("set_lat_lon in way {} with {:?} {:?} {}: {:?}", how, la, lo, bad, r));
        }
        m.latlon = now;
        cx.count("positions set", r.is_ok() as u64);
        cx.count("positions refused", r.is_err() as u64);
        if let Some(d) = m.diff(&observe(&o)) {
            return Err(format!("set_lat_lon in way {} gave {:?}, then {}", how, r, d));
        }
        view(cx, &o, &m)?;
    }
    cx.seen_of(&m);
    cx.evals(6);
    Ok(())
}

fn written(cx: &mut Cx) -> Result<(), String> {
    let objs = xml_objects(&mut cx.rng, 8);
    fn go<W: OSMWriter<Sink>>(objs: &[MObj], own_: bool, close: bool) -> (Vec<u8>, Vec<bool>) {
        let sink = Sink::new();
        let mut w = W::new(sink.clone());
        let mut ok: Vec<bool> = objs
            .iter()
            .map(|m| match own_ {
                true => w.write_obj(&own(m)).is_ok(),
                false => w.write_obj(&build_string(m)).is_ok(),
            })
            .collect();
        if close {
            ok.push(w.close().is_ok());
        }
        drop(w);
        (sink.data(), ok)
    }
    let (osc, close) = (cx.rng.bool(), cx.rng.bool());
    let run = |own: bool| {
        must("write", || match osc {
            true => go::<OSCWriter<Sink>>(&objs, own, close),
            false => go::<XMLWriter<Sink>>(&objs, own, close),
        })
    };
    let (want, got) = (run(false)?, run(true)?);
    cx.count("objects written", objs.len() as u64);
    if want != got {
        let at = want.0.iter().zip(&got.0).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "written as {} from byte {} on: {} for the library's own objects, {} for the same data from another type",
            if osc { "OSC" } else { "XML" },
            at,
            short(&text(&want.0[at.min(want.0.len())..])),
            short(&text(&got.0[at.min(got.0.len())..]))
        ));
    }
    if objs.len() > 1 {
        cx.seen_of(&objs);
    }
    cx.evals(1);
    Ok(())
}

/// What an iterator over these gives, by itself
fn next_of(left: &mut std::slice::Iter<MObj>, kind: Option<Kind>) -> Option<MObj> {
    left.find(|m| kind.is_none_or(|k| k == m.kind)).cloned()
}

fn advance<I: Iterator<Item = Own>>(rng: &mut Rng, it: &mut I, left: &mut std::slice::Iter<MObj>, kind: Option<Kind>) -> Result<bool, String> {
    let rest = left.clone().filter(|m| kind.is_none_or(|k| k == m.kind)).count();
    let (lo, hi) = it.size_hint();
    if lo > rest || hi.is_some_and(|h| h < rest) {
        return Err(format!("size_hint() is {:?} where {} are left", (lo, hi), rest));
    }
    let n = *rng.pick(&[0usize, 0, 1, 1, 2, 5, 100]);
    let how = rng.below(6);
    let mut want = vec![];
    let mut got: Vec<Option<Own>> = vec![];
    match how {
        0 | 1 => {
            want.push(next_of(left, kind));
            got.push(it.next());
        }
        2 => {
            want.push((0..=n).map_while(|_| next_of(left, kind)).nth(n));
            got.push(it.nth(n));
        }
        3 => {
            want.extend((0..n).map_while(|_| next_of(left, kind)).map(Some));
            got.extend(it.by_ref().take(n).map(Some));
        }
        4 => {
            let id = left.as_slice().get(rng.below(8)).map_or(0, |m| m.id);
            want.push(std::iter::from_fn(|| next_of(left, kind)).find(|m| m.id == id));
            got.push(it.find(|o| o.id() == id));
        }
        _ => {
            if rng.chance(1, 3) {
                want.extend(std::iter::from_fn(|| next_of(left, kind)).map(Some));
                got.extend(it.by_ref().map(Some));
            }
        }
    }
    if want.len() != got.len() {
        return Err(format!("{} objects of kind {:?} in way {}, should be {}", got.len(), kind, how, want.len()));
    }
    for (w, g) in want.iter().zip(&got) {
        let d = match (w, g) {
            (None, None) => continue,
            (Some(w), Some(g)) => w.diff(&observe(g)),
            (w, g) => Some(format!("{} should be {}", short(&g.as_ref().map(observe)), short(w))),
        };
        if let Some(d) = d {
            return Err(format!("in way {}, kind {:?}: {}", how, kind, d));
        }
    }
    Ok(left.as_slice().is_empty())
}

fn iterate<R: OSMReader<Obj = Own, R = Cursor<Vec<u8>>>>(cx: &mut Cx, r: &mut R, objs: &[MObj]) -> Result<(), String> {
    let mut left = objs.iter();
    let mut steps = 0;
    while steps < 60 {
        let kind = *cx.rng.pick(&[None, Some(Kind::Node), Some(Kind::Way), Some(Kind::Rel)]);
        let k = cx.rng.below(4);
        let rng = &mut cx.rng;
        let mut end = false;
        must("iterate", || -> Result<(), String> {
            if rng.chance(1, 5) {
                let (want, got) = (left.next(), r.next());
                if want.is_some() != got.is_some() || want.is_some_and(|w| w.diff(&observe(got.as_ref().unwrap())).is_some()) {
                    return Err(format!("next() is {}, should be {}", short(&got.map(|o| o.m)), short(&want)));
                }
                return Ok(());
            }
            // k times on the same iterator
            macro_rules! on {
                ($it:expr) => {{
                    let mut it = $it;
                    for _ in 0..k {
                        end = advance(rng, &mut it, &mut left, kind)?;
                    }
                }};
            }
            match kind {
                None => on!(r.objects()),
                Some(Kind::Node) => on!(r.nodes()),
                Some(Kind::Way) => on!(r.ways()),
                Some(Kind::Rel) => on!(r.relations()),
            }
            Ok(())
        })??;
        cx.count("iterators dropped before the end", !end as u64);
        steps += 1;
        if left.as_slice().is_empty() && cx.rng.chance(1, 4) {
            break;
        }
    }
    cx.count("objects read", (objs.len() - left.as_slice().len()) as u64);
    Ok(())
}

fn readers(cx: &mut Cx) -> Result<(), String> {
    let mut objs = pbfw::gen_objects(&mut cx.rng, 40, false);
    let sorted = cx.rng.bool();
    if sorted {
        objs.sort_by_key(|m| (m.kind as u8, m.id));
    }
    let inner = cx.rng.bytes(9);
    SOURCE.set(objs.clone());
    let back = if cx.rng.bool() {
        let mut r = OwnReader::new(Cursor::new(inner.clone()));
        for _ in 0..cx.rng.below(3) {
            let s = cx.rng.bool() && sorted;
            let now = must("assumption", || {
                if s { r.assume_sorted() } else { r.assume_unsorted() }
                r.get_sorted_assumption()
            })?;
            // it cannot remember
            if now {
                return Err("a reader which knows nothing of order claims to assume one".into());
            }
        }
        if r.asked.get() != 0 {
            return Err("the reader was asked for objects too early".into());
        }
        iterate(cx, &mut r, &objs)?;
        r.into_inner()
    } else {
        let mut r = Sorted::new(Cursor::new(inner.clone()));
        for _ in 0..cx.rng.below(4) {
            let s = cx.rng.bool() && sorted;
            let now = must("assumption", || {
                if s { r.assume_sorted() } else { r.assume_unsorted() }
                r.get_sorted_assumption()
            })?;
            if now != s {
                return Err(format!("told {} and assumes {}", s, now));
            }
            cx.count("sorted readers", s as u64);
        }
        iterate(cx, &mut r, &objs)?;
        r.into_inner()
    };
    if back.position() != 0 || back.into_inner() != inner {
        return Err("what is inside the reader was touched".into());
    }
    if objs.len() > 1 {
        cx.seen_of(&objs);
    }
    cx.evals(1);
    Ok(())
}

/// from_iter of a writer
fn writers(cx: &mut Cx) -> Result<(), String> {
    let objs = gen::small_objects(&mut cx.rng, &Cfg::any(), 8);
    // call 0 is new(), which cannot fail
    let fails = if cx.rng.bool() { usize::MAX } else { cx.rng.range(1, objs.len() as i64 + 4) as usize };
    let calls = Rc::new(RefCell::new(vec![]));
    let log = Log(calls.clone(), fails);
    let mixed = cx.rng.bool();
    let r = guard(|| {
        if mixed {
            OwnWriter::from_iter(log, objs.iter().map(own))
        } else {
            OwnWriter::from_iter(log, objs.iter().map(build_string))
        }
    });
    let done = calls.borrow().clone();
    let mut all = vec![Call::New];
    all.extend(objs.iter().cloned().map(Call::Obj));
    all.push(Call::Close);
    let same = |a: &Call, b: &Call| match (a, b) {
        (Call::Obj(a), Call::Obj(b)) => a.diff(b).is_none(),
        (a, b) => a == b,
    };
    let expect = |n: usize| -> Result<(), String> {
        if done.len() < n || done.len() > all.len() || !done.iter().zip(&all).all(|(a, b)| same(a, b)) {
            return Err(format!("from_iter made the calls {}, should be {}", short(&done), short(&all)));
        }
        Ok(())
    };
    if fails < all.len() {
        // it says so, and nothing is left out before that
        expect(fails + 1)?;
        if let Ok(w) = r {
            return Err(format!("call {} failed, and from_iter gives a writer (open {}) as if it had not", fails, w.is_open()));
        }
        cx.count("outputs given up", 1);
    } else {
        expect(all.len())?;
        let mut w = r.map_err(|e| format!("from_iter: {}", e))?;
        if w.is_open() {
            return Err("from_iter leaves the writer open".into());
        }
        if !matches!(w.set_header(("a", "b")), Err(OSMWriteError::FormatDoesntSupportHeaders)) {
            return Err("a writer without headers takes one".into());
        }
        if !Rc::ptr_eq(&w.into_inner().0, &calls) {
            return Err("from_iter gives another writer".into());
        }
        cx.count("whole outputs", 1);
    }
    if objs.len() > 1 {
        cx.seen_of(&objs);
    }
    cx.evals(1);
    Ok(())
}
