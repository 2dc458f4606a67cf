//! P01, P02: what is written as XML or OSC is what is read back.

use super::util::*;
use crate::faults::{Chunk, Sink};
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rd::{self, Rk};
use crate::runner::*;
use osmio::osc::OSCWriter;
use osmio::xml::XMLWriter;
use osmio::OSMWriter;
use serde_json::json;

const RULE: &str = "Random object sequences (all kinds, String/Rc/Arc representations, every field present or absent, edge values, strings with markup, white space runs, every XML character class) are written and the bytes read back; each returned object is compared field by field with a model. Distinct by hash of the object sequence; non-trivial: at least one object.";
const ASSUME: &[&str] = &[
    "strings contain only characters XML 1.0 can represent",
    "the XML writer is finished once (see the finding of P13)",
];

pub fn xml() -> Prop {
    Prop {
        id: "P01",
        level: "exploration",
        rule: RULE,
        assumptions: ASSUME,
        legs: vec![
            leg("mixed", 48000, 400000, |cx| mixed(cx, Rk::Xml)),
            leg("one", 72000, 400000, |cx| one(cx, Rk::Xml)),
            leg("many", 96, 200, |cx| many(cx, Rk::Xml)),
            leg("chars", 560, 560, |cx| chars(cx, Rk::Xml)),
            leg("huge", 12, 120, |cx| huge(cx, Rk::Xml)),
        ],
        required: &["objects", "deleted", "nodes without location"],
        probes: vec![],
    }
}

pub fn osc() -> Prop {
    Prop {
        id: "P02",
        level: "exploration",
        rule: RULE,
        assumptions: &ASSUME[..1],
        legs: vec![
            leg("mixed", 48000, 400000, |cx| mixed(cx, Rk::Osc)),
            leg("one", 72000, 400000, |cx| one(cx, Rk::Osc)),
            leg("many", 96, 200, |cx| many(cx, Rk::Osc)),
            leg("chars", 560, 560, |cx| chars(cx, Rk::Osc)),
            leg("huge", 12, 120, |cx| huge(cx, Rk::Osc)),
        ],
        required: &["objects", "deleted", "nodes without location"],
        probes: vec![],
    }
}

/// Write all, finish in one of the ways
pub fn write(cx: &mut Cx, kind: Rk, objs: &[AnyObj]) -> Result<Vec<u8>, String> {
    let mut sink = Sink::new();
    if cx.rng.chance(1, 8) {
        let n = 1 + cx.rng.below(9);
        let seed = cx.rng.u64();
        sink = sink.chunks(Chunk::Random(n), 5, seed);
    }
    let out = sink.clone();
    let how = cx.rng.below(4);
    must("writing", || match kind {
        Rk::Xml => {
            let mut w = XMLWriter::new(sink);
            for o in objs {
                write_any(&mut w, o).map_err(|e| format!("write_obj: {}", e))?;
            }
            if how == 0 {
                w.close().map_err(|e| format!("close: {}", e))?;
                std::mem::forget(w);
            } else {
                drop(w);
            }
            Ok(())
        }
        _ => {
            let mut w = OSCWriter::new(sink);
            for o in objs {
                write_any(&mut w, o).map_err(|e| format!("write_obj: {}", e))?;
            }
            if how < 2 {
                w.close().map_err(|e| format!("close: {}", e))?;
            }
            drop(w);
            Ok(())
        }
    })
    .and_then(|x: Result<(), String>| x)?;
    cx.count(["finish 0", "finish 1", "finish 2", "finish 3"][how], 1);
    Ok(out.data())
}

fn roundtrip(cx: &mut Cx, kind: Rk, models: &[MObj]) -> Result<(), String> {
    let objs = build_all(&mut cx.rng, models);
    for (o, m) in objs.iter().zip(models) {
        // the objects are what they should be before they are written
        if let Some(d) = m.diff(&o.observe()) {
            return Err(format!("object as built: {}", d));
        }
        cx.count(&format!("{:?} objects", o.repr()), 1);
    }
    let bytes = write(cx, kind, &objs)?;
    let got = rd::read(kind, &bytes[..], models.len() + 10);
    let r = rd::expect_items(&rd::objs(models), &got);
    count_objects(cx, models);
    cx.count("bytes written", bytes.len() as u64);
    if !models.is_empty() {
        cx.seen_of(&models);
    }
    cx.sample(|| json!({"objects": models.len(), "document": text(&bytes)}));
    r.map_err(|e| format!("{}; document: {}", e, short(&text(&bytes))))
}

fn mixed(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let m = xml_objects(&mut cx.rng, 12);
    roundtrip(cx, kind, &m)
}

fn one(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let mut cfg = Cfg::xml();
    cfg.dup_keys = false;
    let m = vec![gen::object(&mut cx.rng, &cfg)];
    roundtrip(cx, kind, &m)
}

/// Documents larger than any buffer
fn many(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let cfg = Cfg::xml();
    let m: Vec<MObj> = (0..600).map(|_| gen::object(&mut cx.rng, &cfg)).collect();
    roundtrip(cx, kind, &m)
}

/// Extreme in one way
fn huge(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let which = cx.idx as usize % gen::HUGE;
    let (what, m) = gen::huge(&mut cx.rng, &Cfg::xml(), which);
    cx.count(&format!("extreme: {}", what), 1);
    roundtrip(cx, kind, &m)
}

/// Every character XML can represent, alone and between letters, in every place for text: the
/// basic plane in steps, and samples beyond
fn chars(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let step = if cx.thorough { 560 } else { 140 };
    let mut models = vec![];
    let mut n = 0;
    let mut c = cx.idx as u32;
    // all of the first 0x300, in every case's share
    let mut list = vec![];
    while c < 0x11_0000 {
        if let Some(ch) = char::from_u32(c) {
            if gen::xml_char_ok(ch) {
                list.push(ch);
            }
        }
        c += if c < 0x1_0000 { step } else { step * 16 };
    }
    for ch in list {
        let mut m = MObj::new(*cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]), n);
        n += 1;
        m.user = Some(format!("{}", ch));
        m.tags.push((format!("a{}b", ch), format!("{}{}", ch, ch)));
        if m.kind == Kind::Rel {
            m.members.push((Kind::Way, n, format!("x{}", ch)));
        }
        models.push(m);
    }
    cx.count("characters", models.len() as u64);
    roundtrip(cx, kind, &models)
}
