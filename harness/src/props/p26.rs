//! P26: the whole way from PBF through XML or OSC.

use super::util::*;
use crate::faults::{Chunk, Sink, Src};
use crate::gen::{self, Cfg, Chars};
use crate::model::*;
use crate::pbfw::Enc;
use crate::rd::{self, Item, Rk};
use crate::runner::*;
use crate::time::{MAX_EPOCH, MIN_EPOCH};
use osmio::obj_types::{ArcOSMObj, StringOSMObj};
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::{OSMObj, OSMReader, OSMWriter};
use serde_json::json;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "P26",
        level: "exploration",
        rule: "PBF files of random layout are read with both readers (all at once, or kind after kind), the objects written with both writers (as they are, converted or cloned), and the documents read again and written and read once more; what arrives is compared with what the PBF file encodes, and the documents from the two readers with each other byte for byte. Distinct by hash of PBF file; non-trivial: at least one object.",
        assumptions: &["strings contain only characters XML 1.0 can represent; years 0000-9999", "the XML writer is finished once (see the finding of P13)"],
        legs: vec![
            leg("small", 9000, 250_000, |cx| case(cx, 12)),
            leg("dense", 1500, 40_000, |cx| case(cx, 80)),
            leg("large", 12, 300, large),
            leg("huge", 12, 60, huge),
        ],
        required: &["objects", "deleted", "XML documents", "OSC documents", "second documents", "kind after kind", "converted"],
        probes: vec![],
    }
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    AsIs,
    Converted,
    Cloned,
}

/// All objects of the reader, written to one document
fn write<O: OSMObj + Clone>(
    xml: bool,
    objs: impl Iterator<Item = O>,
    how: How,
    conv: fn(O) -> StringOSMObj,
    sink: Sink,
) -> Result<Vec<u8>, String> {
    let out = sink.clone();
    macro_rules! all {
        ($w:ident) => {
            for o in objs {
                match how {
                    How::AsIs => $w.write_obj(&o),
                    How::Converted => $w.write_obj(&conv(o)),
                    How::Cloned => {
                        let c = o.clone();
                        drop(o);
                        $w.write_obj(&c)
                    }
                }
                .map_err(|e| format!("write_obj: {}", e))?;
            }
        };
    }
    if xml {
        let mut w = XMLWriter::new(sink);
        all!(w);
        drop(w);
    } else {
        let mut w = OSCWriter::new(sink);
        all!(w);
        w.close().map_err(|e| format!("close: {}", e))?;
        drop(w);
    }
    Ok(out.data())
}

fn through<R: OSMReader>(
    mut r: R,
    xml: bool,
    typed: bool,
    how: How,
    conv: fn(R::Obj) -> StringOSMObj,
    sink: Sink,
    mut reopen: impl FnMut() -> R,
    wrap: (
        fn(<R::Obj as OSMObj>::Node) -> R::Obj,
        fn(<R::Obj as OSMObj>::Way) -> R::Obj,
        fn(<R::Obj as OSMObj>::Relation) -> R::Obj,
    ),
) -> Result<Vec<u8>, String>
where
    R::Obj: Clone,
{
    if !typed {
        return write(xml, r.objects(), how, conv, sink);
    }
    // only nodes, then only ways, then only relations, each from the beginning of the file
    let mut all: Vec<R::Obj> = r.nodes().map(wrap.0).collect();
    let mut r = reopen();
    all.extend(r.ways().map(wrap.1));
    let mut r = reopen();
    all.extend(r.relations().map(wrap.2));
    write(xml, all.into_iter(), how, conv, sink)
}

fn check(cx: &mut Cx, objs: &[MObj]) -> Result<(), String> {
    let f = Enc::new(&mut cx.rng, 1).write(objs);
    let data = Arc::new(f.bytes.clone());
    count_objects(cx, &f.objs);
    if !f.objs.is_empty() {
        cx.seen(crate::rng::hash_bytes(&data));
    }
    let typed = cx.rng.chance(1, 4);
    cx.count("kind after kind", typed as u64);
    let mut want = f.objs.clone();
    if typed {
        want.sort_by_key(|o| match o.kind {
            Kind::Node => 0,
            Kind::Way => 1,
            Kind::Rel => 2,
        });
    }
    let items = rd::objs(&want);
    let cap = want.len() + 10;
    for xml in [true, false] {
        let mut docs = vec![];
        // conversions are for distinct keys (P19)
        let distinct = f.objs.iter().all(|o| {
            let mut k: Vec<&str> = o.tags.iter().map(|t| t.0.as_str()).collect();
            k.sort();
            k.windows(2).all(|w| w[0] != w[1])
        });
        for arc in [false, true] {
            let mut how = *cx.rng.pick(&[How::AsIs, How::Converted, How::Cloned]);
            if !distinct && how == How::Converted {
                how = How::AsIs;
            }
            cx.count("converted", (how == How::Converted) as u64);
            let mut sink = Sink::new();
            let mut src = Src::new(&data);
            if cx.rng.chance(1, 4) {
                let (a, b) = (cx.rng.u64(), cx.rng.u64());
                sink = sink.chunks(Chunk::Random(30), 5, a);
                src = src.chunks(Chunk::Random(100), 5, b);
            }
            let doc = must("the whole way", || {
                if arc {
                    through(
                        osmio::arcpbf::PBFReader::new(src),
                        xml,
                        typed,
                        how,
                        |o: ArcOSMObj| o.into(),
                        sink,
                        || osmio::arcpbf::PBFReader::new(Src::new(&data)),
                        (ArcOSMObj::Node, ArcOSMObj::Way, ArcOSMObj::Relation),
                    )
                } else {
                    through(
                        osmio::stringpbf::PBFReader::new(src),
                        xml,
                        typed,
                        how,
                        |o: StringOSMObj| o,
                        sink,
                        || osmio::stringpbf::PBFReader::new(Src::new(&data)),
                        (StringOSMObj::Node, StringOSMObj::Way, StringOSMObj::Relation),
                    )
                }
            })
            .and_then(|x| x)
            .map_err(|e| format!("arc {} xml {}: {}", arc, xml, e))?;
            cx.count(if xml { "XML documents" } else { "OSC documents" }, 1);
            let kind = if xml { Rk::Xml } else { Rk::Osc };
            let got = rd::read(kind, &doc[..], cap);
            rd::expect_items(&items, &got).map_err(|e| {
                format!("arc {} xml {}: {}; document {}", arc, xml, e, short(&text(&doc)))
            })?;
            // Every timestamp was a number, and is now an ISO one of the same second
            for (i, m) in got.items.iter().zip(&want) {
                if let (Item::Obj(o), Some(Ts::Epoch(t))) = (i, &m.ts) {
                    if o.ts.as_ref().and_then(|t| t.instant()) != Some(*t) {
                        return Err(format!("timestamp {} became {:?}", t, o.ts));
                    }
                }
            }
            docs.push(doc);
        }
        if docs[0] != docs[1] {
            return Err(format!(
                "the two PBF readers lead to different documents: {} and {}",
                short(&text(&docs[0])),
                short(&text(&docs[1]))
            ));
        }
        // once more: read that, write it in the other format, read it
        let doc2 = must("the second way", || {
            let sink = Sink::new();
            if xml {
                let mut r = XMLReader::new(&docs[0][..]);
                write(false, r.objects(), How::AsIs, |o| o, sink)
            } else {
                let mut r = OSCReader::new(&docs[0][..]);
                write(true, r.objects(), How::AsIs, |o| o, sink)
            }
        })
        .and_then(|x| x)?;
        cx.count("second documents", 1);
        let got = rd::read(if xml { Rk::Osc } else { Rk::Xml }, &doc2[..], cap);
        rd::expect_items(&items, &got)
            .map_err(|e| format!("xml {} and back: {}; document {}", xml, e, short(&text(&doc2))))?;
        cx.sample(|| json!({"pbf bytes": data.len(), "objects": want.len(), "xml": xml, "document": text(&docs[0])}));
    }
    cx.evals(6);
    Ok(())
}

fn cfg() -> Cfg {
    Cfg {
        chars: Chars::Xml,
        // the encoder rounds them to the file's granularity
        ts_range: (MIN_EPOCH + 10_000_000, MAX_EPOCH - 10_000_000),
        ..Cfg::pbf()
    }
}

fn case(cx: &mut Cx, max: usize) -> Result<(), String> {
    let mut cfg = cfg();
    cfg.dup_keys = cx.rng.bool();
    cfg.big = max < 50;
    let mut objs = if max < 50 {
        gen::objects(&mut cx.rng, &cfg, max)
    } else {
        gen::small_objects(&mut cx.rng, &cfg, max)
    };
    if cx.rng.bool() {
        objs.sort_by_key(|o| o.kind as usize);
    }
    check(cx, &objs)
}

fn large(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = cfg();
    cfg.big = false;
    let objs = gen::small_objects(&mut cx.rng, &cfg, 3000);
    check(cx, &objs)
}

/// Extreme in one way
fn huge(cx: &mut Cx) -> Result<(), String> {
    let which = cx.idx as usize % gen::HUGE;
    let (what, objs) = gen::huge(&mut cx.rng, &cfg(), which);
    cx.count(&format!("extreme: {}", what), 1);
    check(cx, &objs)
}
