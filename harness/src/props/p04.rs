//! P04, P05: documents in every style, whose content is known.

use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rd::{self, Rk};
use crate::runner::*;
use crate::xmlw::W;
use serde_json::json;

const RULE: &str = "Documents of random objects are encoded by the harness in random XML styles (attribute order, quotes, entities, character references, white space, comments, processing instructions, CDATA, unknown elements and attributes, self-closing or not, child order, declarations) and read; every object is compared with the model. Distinct by hash of document; non-trivial: at least one object.";
const ASSUME: &[&str] = &[
    "UTF-8, no document type declaration, no XML namespaces, every object has an id",
    "elements named node, way, relation, tag, nd, member occur only in their OSM meaning",
];

pub fn xml() -> Prop {
    Prop {
        id: "P04",
        level: "exploration",
        rule: RULE,
        assumptions: ASSUME,
        legs: vec![
            leg("plain", 9000, 60000, |cx| xml_case(cx, 0)),
            leg("styled", 30000, 300000, |cx| xml_case(cx, 1)),
            leg("wild", 30000, 300000, |cx| xml_case(cx, 3)),
            leg("huge", 12, 120, |cx| huge(cx, Rk::Xml)),
        ],
        required: &["objects", "nodes without location", "style: comments"],
        probes: vec![],
    }
}

pub fn osc() -> Prop {
    Prop {
        id: "P05",
        level: "exploration",
        rule: RULE,
        assumptions: ASSUME,
        legs: vec![
            leg("plain", 9000, 60000, |cx| osc_case(cx, 0)),
            leg("styled", 30000, 300000, |cx| osc_case(cx, 1)),
            leg("wild", 30000, 300000, |cx| osc_case(cx, 3)),
            leg("huge", 12, 120, |cx| huge(cx, Rk::Osc)),
        ],
        required: &[
            "objects",
            "nodes without location",
            "style: deletions",
            "deleted only by section",
        ],
        probes: vec![],
    }
}

fn objects(cx: &mut Cx) -> Vec<MObj> {
    let mut cfg = Cfg::xml();
    cfg.dup_keys = cx.rng.bool();
    gen::objects(&mut cx.rng, &cfg, 12)
}

fn check(cx: &mut Cx, kind: Rk, doc: &str, said: &[MObj], used: &[&'static str]) -> Result<(), String> {
    // the document is what it is meant to be
    if let Err(e) = crate::xmlp::parse(doc.as_bytes()) {
        panic!("the encoder made a bad document: {}\n{}", e, doc);
    }
    for u in used {
        cx.count(&format!("style: {}", u), 1);
    }
    count_objects(cx, said);
    if !said.is_empty() {
        cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    }
    cx.sample(|| json!({"document": doc, "objects": said.len()}));
    let got = rd::read(kind, doc.as_bytes(), said.len() + 10);
    rd::expect_items(&rd::objs(said), &got)
        .map_err(|e| format!("{}; document: {}", e, short(&doc)))
}

fn xml_case(cx: &mut Cx, fancy: usize) -> Result<(), String> {
    let objs = objects(cx);
    let mut w = W::new(&mut cx.rng, fancy);
    w.osm(&objs);
    let (doc, used) = (w.out, w.used);
    check(cx, Rk::Xml, &doc, &objs, &used)
}

fn osc_case(cx: &mut Cx, fancy: usize) -> Result<(), String> {
    let objs = objects(cx);
    let mut w = W::new(&mut cx.rng, fancy);
    let said = w.osc(&objs);
    let (doc, used) = (w.out, w.used);
    let by_section = said
        .iter()
        .zip(&objs)
        .filter(|(s, o)| s.deleted && !o.deleted)
        .count();
    cx.count("deleted only by section", by_section as u64);
    check(cx, Rk::Osc, &doc, &said, &used)
}

/// Extreme in one way
fn huge(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let which = cx.idx as usize % gen::HUGE;
    let (what, objs) = gen::huge(&mut cx.rng, &Cfg::xml(), which);
    cx.count(&format!("extreme: {}", what), 1);
    let mut w = W::new(&mut cx.rng, 1);
    let said = if kind == Rk::Osc {
        w.osc(&objs)
    } else {
        w.osm(&objs);
        objs
    };
    let (doc, used) = (w.out, w.used);
    check(cx, kind, &doc, &said, &used)
}
