//! P09: histories of full and typed iteration on one reader, against a pointer into the list.

use super::util::*;
use crate::faults::{Chunk, Src};
use crate::gen::Cfg;
use crate::model::*;
use crate::pbfw::{self, Enc};
use crate::rd::Rk;
use crate::runner::*;
use crate::xmlw::W;
use osmio::prelude::*;
use osmio::OSMReader;
use serde_json::json;
use std::io::Read;

pub fn prop() -> Prop {
    Prop {
        id: "P09",
        level: "exploration",
        rule: "Random files with kinds in any order over several blocks; on one reader a random history of requests (all objects, only nodes, ways or relations; by next(), the trait's iterators and the reader's own; a few items or all of them; next, nth, count, last) and after each item the model's pointer into the list of objects says what must come. Distinct by hash of file and history; non-trivial: at least two kinds of request.",
        assumptions: &["valid input files"],
        legs: vec![
            leg("pbf", 40000, 200000, |cx| pbf(cx, Rk::Pbf)),
            leg("arc", 32000, 200000, |cx| pbf(cx, Rk::Arc)),
            leg("xml", 16000, 60000, |cx| xml(cx, Rk::Xml)),
            leg("osc", 16000, 60000, |cx| xml(cx, Rk::Osc)),
            leg("single", 12000, 60000, single),
            leg("runs", 24, 200, runs),
        ],
        required: &[
            "requests",
            "request own nodes",
            "request ways",
            "request all",
            "assumed sorted",
            "items",
            "changes of kind inside a block",
        ],
        probes: vec![],
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Want {
    All,
    Only(Kind),
}

trait Typed {
    /// an iterator of the trait, or the one of the type itself
    fn typed(&mut self, want: Want, own: bool) -> Box<dyn Iterator<Item = MObj> + '_>;
    fn one(&mut self) -> Option<MObj>;
    fn assume(&mut self, sorted: bool);
}

fn by_trait<R: OSMReader>(r: &mut R, want: Want) -> Box<dyn Iterator<Item = MObj> + '_> {
    match want {
        Want::All => Box::new(OSMReader::objects(r).map(|o| observe(&o))),
        Want::Only(Kind::Node) => Box::new(OSMReader::nodes(r).map(|o| observe_node(&o))),
        Want::Only(Kind::Way) => Box::new(OSMReader::ways(r).map(|o| observe_way(&o))),
        Want::Only(Kind::Rel) => Box::new(OSMReader::relations(r).map(|o| observe_relation(&o))),
    }
}

/// whatever method syntax finds: the type's own iterators if it has any
macro_rules! typed {
    ($t:ty) => {
        impl<S: Read> Typed for $t {
            fn typed(&mut self, want: Want, own: bool) -> Box<dyn Iterator<Item = MObj> + '_> {
                if !own {
                    return by_trait(self, want);
                }
                match want {
                    Want::All => Box::new(self.objects().map(|o| observe(&o))),
                    Want::Only(Kind::Node) => Box::new(self.nodes().map(|o| observe_node(&o))),
                    Want::Only(Kind::Way) => Box::new(self.ways().map(|o| observe_way(&o))),
                    Want::Only(Kind::Rel) => {
                        Box::new(self.relations().map(|o| observe_relation(&o)))
                    }
                }
            }
            fn one(&mut self) -> Option<MObj> {
                OSMReader::next(self).map(|o| observe(&o))
            }
            fn assume(&mut self, sorted: bool) {
                if sorted {
                    self.assume_sorted();
                } else {
                    self.assume_unsorted();
                }
            }
        }
    };
}
typed!(osmio::stringpbf::PBFReader<S>);
typed!(osmio::arcpbf::PBFReader<S>);
typed!(osmio::xml::XMLReader<S>);
typed!(osmio::osc::OSCReader<S>);

struct Model<'a> {
    objs: &'a [MObj],
    pos: usize,
}

impl Model<'_> {
    fn next(&mut self, want: Want) -> Option<MObj> {
        while self.pos < self.objs.len() {
            let o = &self.objs[self.pos];
            self.pos += 1;
            if want == Want::All || want == Want::Only(o.kind) {
                return Some(o.clone());
            }
        }
        None
    }
}

fn compare(want: &Option<MObj>, got: &Option<MObj>) -> Result<(), String> {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => match a.diff(b) {
            None => Ok(()),
            Some(d) => Err(d),
        },
        (None, Some(b)) => Err(format!("should be the end but is {}", short(b))),
        (Some(a), None) => Err(format!("should be {} but is the end", short(a))),
    }
}

fn history<R: Typed>(cx: &mut Cx, r: &mut R, objs: &[MObj], fixed: Option<Want>) -> Result<u64, String> {
    let mut m = Model { objs, pos: 0 };
    let mut log: Vec<String> = vec![];
    let mut hash = 0u64;
    let wants = [
        Want::All,
        Want::Only(Kind::Node),
        Want::Only(Kind::Way),
        Want::Only(Kind::Rel),
    ];
    let steps = if fixed.is_some() { 1 } else { cx.rng.range(2, 14) };
    let small = cx.rng.bool();
    // a sorted file may be said to be sorted, that must not change what it holds
    let sorted = objs.windows(2).all(|w| (w[0].kind as usize, w[0].id) <= (w[1].kind as usize, w[1].id));
    let mut assumed = false;
    for step in 0..steps + 2 {
        // at the end, run it dry and then ask once more
        let last = step >= steps;
        let want = match fixed {
            Some(w) if step == 0 => w,
            _ => *cx.rng.pick(&wants),
        };
        if cx.rng.chance(1, 4) {
            assumed = sorted && cx.rng.chance(2, 3);
            r.assume(assumed);
            cx.count(if assumed { "assumed sorted" } else { "assumed unsorted" }, 1);
            log.push(format!("assume sorted {}", assumed));
        }
        let own = cx.rng.bool();
        let take = if last || fixed.is_some() || cx.rng.chance(1, 12) {
            usize::MAX
        } else if small {
            cx.rng.below(4)
        } else {
            cx.rng.below(12)
        };
        let how = if last || fixed.is_some() { 0 } else { cx.rng.below(10) };
        let name = match want {
            Want::All => "all",
            Want::Only(Kind::Node) => "nodes",
            Want::Only(Kind::Way) => "ways",
            Want::Only(Kind::Rel) => "relations",
        };
        let entry = format!(
            "{}{} take {} how {}",
            if own { "own " } else { "" },
            name,
            if take == usize::MAX { -1 } else { take as i64 },
            how
        );
        hash = hash.rotate_left(9) ^ crate::rng::hash_bytes(entry.as_bytes());
        cx.count("requests", 1);
        cx.count(&format!("request {}{}", if own { "own " } else { "" }, name), 1);
        log.push(entry);
        let before = m.pos;
        let rr: Result<(), String> = must("reading", || {
            if how == 1 && want == Want::All {
                for _ in 0..take.min(1000) {
                    let (a, b) = (m.next(want), r.one());
                    compare(&a, &b)?;
                    if a.is_none() {
                        break;
                    }
                }
                return Ok(());
            }
            let mut it = r.typed(want, own);
            // promised sizes must be right
            let left = objs[m.pos..]
                .iter()
                .filter(|o| want == Want::All || want == Want::Only(o.kind))
                .count();
            let (lo, hi) = it.size_hint();
            if lo > left || hi.is_some_and(|h| h < left) {
                return Err(format!("size hint ({}, {:?}) but {} are left", lo, hi, left));
            }
            match how {
                2 => {
                    let n = take.min(3);
                    let got = it.nth(n);
                    let mut want_o = None;
                    for _ in 0..=n {
                        want_o = m.next(want);
                        if want_o.is_none() {
                            break;
                        }
                    }
                    compare(&want_o, &got)
                }
                3 if take == usize::MAX => {
                    let got = it.count();
                    let mut n = 0;
                    while m.next(want).is_some() {
                        n += 1;
                    }
                    if n == got {
                        Ok(())
                    } else {
                        Err(format!("{} items counted, should be {}", got, n))
                    }
                }
                _ => {
                    let mut n = 0;
                    while n < take {
                        let (a, b) = (m.next(want), it.next());
                        compare(&a, &b)?;
                        if a.is_none() {
                            // and it stays at the end
                            return compare(&None, &it.next());
                        }
                        n += 1;
                    }
                    Ok(())
                }
            }
        })
        .and_then(|x| x);
        rr.map_err(|e| {
            format!(
                "after objects {}..{} of {} {:?}, history {:?}: {}",
                before,
                m.pos,
                objs.len(),
                objs.iter().take(60).map(|o| format!("{}{}", o.kind.name(), o.id)).collect::<Vec<_>>(),
                log,
                e
            )
        })?;
        cx.count("items", (m.pos - before) as u64);
        if assumed && m.pos == objs.len() {
            // a request for one kind may have ended at the last of its kind
            break;
        }
    }
    cx.evals(log.len() as u64);
    cx.sample(|| json!({"objects": objs.len(), "history": log}));
    Ok(hash)
}

fn pbf_file(cx: &mut Cx) -> pbfw::PbfFile {
    let mut objs = pbfw::gen_objects(&mut cx.rng, 24, false);
    if cx.rng.chance(1, 3) {
        objs.sort_by_key(|o| (o.kind as usize, o.id));
    }
    let fancy = cx.rng.below(3).min(1);
    let f = Enc::new(&mut cx.rng, fancy).write(&objs);
    for u in &f.used {
        if *u == "blocks of several kinds" {
            cx.count("changes of kind inside a block", 1);
        }
    }
    f
}

fn pbf(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let f = pbf_file(cx);
    let src = Src::of(&f.bytes).chunks(Chunk::Random(700), 0, cx.rng.u64());
    let h = match kind {
        Rk::Pbf => history(cx, &mut osmio::stringpbf::PBFReader::new(src), &f.objs, None)?,
        _ => history(cx, &mut osmio::arcpbf::PBFReader::new(src), &f.objs, None)?,
    };
    cx.seen(h ^ crate::rng::hash_bytes(&f.bytes));
    Ok(())
}

fn xml_doc(cx: &mut Cx, kind: Rk) -> (String, Vec<MObj>) {
    let cfg = Cfg::xml();
    let mut objs = crate::gen::objects(&mut cx.rng, &cfg, 14);
    if cx.rng.chance(1, 4) {
        objs.sort_by_key(|o| (o.kind as usize, o.id));
    }
    let mut w = W::new(&mut cx.rng, 1);
    let said = if kind == Rk::Xml {
        w.osm(&objs);
        objs
    } else {
        w.osc(&objs)
    };
    (w.out, said)
}

fn xml(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let (doc, said) = xml_doc(cx, kind);
    let src = Src::of(doc.as_bytes());
    let h = match kind {
        Rk::Xml => history(cx, &mut osmio::xml::XMLReader::new(src), &said, None)?,
        _ => history(cx, &mut osmio::osc::OSCReader::new(src), &said, None)?,
    };
    cx.seen(h ^ crate::rng::hash_bytes(doc.as_bytes()));
    Ok(())
}

/// Tens of thousands of objects (or of blocks) of another kind before the one asked for
fn runs(cx: &mut Cx) -> Result<(), String> {
    let n = *cx.rng.pick(&[300usize, 40_000, 70_000]);
    let order = *cx.rng.pick(&[
        [Kind::Node, Kind::Way, Kind::Rel],
        [Kind::Rel, Kind::Node, Kind::Way],
        [Kind::Way, Kind::Rel, Kind::Node],
        [Kind::Way, Kind::Node, Kind::Rel],
    ]);
    let mut objs = vec![];
    for (i, k) in order.iter().enumerate() {
        for j in 0..if i == 2 { 2 } else { n } {
            let mut m = MObj::new(*k, (i * n + j) as i64);
            m.version = Some(1);
            if *k == Kind::Node {
                m.latlon = Some((j as i32, 7));
            }
            objs.push(m);
        }
    }
    cx.count("runs of one kind", 2);
    let want = *cx.rng.pick(&[
        None,
        Some(Want::Only(order[0])),
        Some(Want::Only(order[1])),
        Some(Want::Only(order[2])),
        Some(Want::Only(order[2])),
    ]);
    match cx.idx % 4 {
        r @ (0 | 1) => {
            let mut e = Enc::new(&mut cx.rng, 0);
            e.header();
            let per = *e.rng.pick(&[1usize, 7, 8000]);
            let mut blocks: Vec<Vec<MObj>> = vec![];
            for m in &objs {
                match blocks.last_mut() {
                    Some(b) if b.len() < per && b[0].kind == m.kind => b.push(m.clone()),
                    _ => blocks.push(vec![m.clone()]),
                }
            }
            for b in blocks {
                e.data_block(vec![b]);
            }
            let f = e.file;
            if r == 0 {
                history(cx, &mut osmio::stringpbf::PBFReader::new(&f.bytes[..]), &f.objs, want)?;
            } else {
                history(cx, &mut osmio::arcpbf::PBFReader::new(&f.bytes[..]), &f.objs, want)?;
            }
        }
        r => {
            let mut w = W::new(&mut cx.rng, 0);
            if r == 2 {
                w.osm(&objs);
                let doc = w.out;
                history(cx, &mut osmio::xml::XMLReader::new(doc.as_bytes()), &objs, want)?;
            } else {
                let said = w.osc(&objs);
                let doc = w.out;
                history(cx, &mut osmio::osc::OSCReader::new(doc.as_bytes()), &said, want)?;
            }
        }
    }
    Ok(())
}

/// Only one kind is ever asked for
fn single(cx: &mut Cx) -> Result<(), String> {
    let k = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let want = Some(Want::Only(k));
    match cx.rng.below(4) {
        0 | 1 => {
            let f = pbf_file(cx);
            let src = Src::of(&f.bytes);
            if cx.rng.bool() {
                history(cx, &mut osmio::stringpbf::PBFReader::new(src), &f.objs, want)?;
            } else {
                history(cx, &mut osmio::arcpbf::PBFReader::new(src), &f.objs, want)?;
            }
        }
        2 => {
            let (doc, said) = xml_doc(cx, Rk::Xml);
            history(cx, &mut osmio::xml::XMLReader::new(doc.as_bytes()), &said, want)?;
        }
        _ => {
            let (doc, said) = xml_doc(cx, Rk::Osc);
            history(cx, &mut osmio::osc::OSCReader::new(doc.as_bytes()), &said, want)?;
        }
    }
    Ok(())
}
