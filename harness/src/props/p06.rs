//! P06, P07, P08: PBF files in every layout, whose content is known.

use super::util::*;
use crate::model::*;
use crate::pbfw::{self, Enc, PbfFile};
use crate::rd::{self, Rk};
use crate::runner::*;
use serde_json::json;

const RULE: &str = "Random objects are encoded by the harness's own PBF encoder in random layouts (dense and plain nodes, block and group sizes, empty groups and blocks, raw or zlib of any level with or without raw_size, granularity, offsets, date granularity, string table order, packed or not, field order, unknown fields, missing metadata columns, other blobs) and read; every item is compared with the model. Distinct by hash of file; non-trivial: at least one object.";
const ASSUME: &[&str] = &[
    "coordinates and timestamps are encoded exactly, in 100 nanodegrees and seconds",
    "uid and version fit the signed 32-bit integers of the format",
];

pub fn prop(kind: Rk) -> Prop {
    let (id, legs): (_, [CaseFn; 5]) = match kind {
        Rk::Pbf => (
            "P06",
            [
                |cx| plain(cx, Rk::Pbf),
                |cx| varied(cx, Rk::Pbf),
                |cx| one(cx, Rk::Pbf),
                |cx| big(cx, Rk::Pbf),
                |cx| huge(cx, Rk::Pbf),
            ],
        ),
        Rk::Arc => (
            "P07",
            [
                |cx| plain(cx, Rk::Arc),
                |cx| varied(cx, Rk::Arc),
                |cx| one(cx, Rk::Arc),
                |cx| big(cx, Rk::Arc),
                |cx| huge(cx, Rk::Arc),
            ],
        ),
        _ => (
            "P08",
            [
                |cx| plain(cx, Rk::Pos),
                |cx| varied(cx, Rk::Pos),
                |cx| one(cx, Rk::Pos),
                |cx| big(cx, Rk::Pos),
                |cx| huge(cx, Rk::Pos),
            ],
        ),
    };
    Prop {
        id,
        level: "exploration",
        rule: RULE,
        assumptions: ASSUME,
        legs: vec![
            leg("plain", 4800, 30000, legs[0]),
            leg("varied", 48000, 400000, legs[1]),
            leg("one", 36000, 300000, legs[2]),
            leg("big", 48, 120, legs[3]),
            leg("huge", 24, 240, legs[4]),
        ],
        required: &[
            "items",
            "layout: granularity and offsets",
            "layout: blocks of several kinds",
            "layout: plain nodes",
            "extreme: many strings",
            "extreme: many nodes",
            "extreme: many objects",
        ],
        probes: vec![],
    }
}

fn check(cx: &mut Cx, kind: Rk, f: &PbfFile) -> Result<(), String> {
    for u in &f.used {
        cx.count(&format!("layout: {}", u), 1);
    }
    count_objects(cx, &f.objs);
    cx.count("blobs", f.blobs.len() as u64);
    let want = rd::pbf_items(kind, f);
    cx.count("items", want.len() as u64);
    if !f.objs.is_empty() {
        cx.seen(crate::rng::hash_bytes(&f.bytes));
    }
    cx.sample(|| {
        json!({"file": hex(&f.bytes[..f.bytes.len().min(400)]), "bytes": f.bytes.len(), "objects": f.objs.len(),
               "layout": f.used})
    });
    let got = rd::read(kind, &f.bytes[..], want.len() + 10);
    let mut r = rd::expect_items(&want, &got);
    if r.is_ok() && kind == Rk::Pos {
        // the same as a full read gives
        let full = rd::read(Rk::Pbf, &f.bytes[..], f.objs.len() + 10);
        let nodes: Vec<rd::Item> = full
            .objs()
            .iter()
            .filter(|o| o.kind == Kind::Node)
            .map(|o| rd::Item::Pos(o.id, o.latlon.map_or(0, |x| x.0), o.latlon.map_or(0, |x| x.1)))
            .collect();
        r = rd::expect_items(&nodes, &got).map_err(|e| format!("unlike a full read: {}", e));
    }
    r.map_err(|e| {
        format!(
            "{}; layout {:?}; file {}",
            e,
            f.used,
            hex(&f.bytes[..f.bytes.len().min(300)])
        )
    })
}

fn plain(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let objs = pbfw::gen_objects(&mut cx.rng, 20, false);
    let f = Enc::new(&mut cx.rng, 0).write(&objs);
    check(cx, kind, &f)
}

fn varied(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let objs = pbfw::gen_objects(&mut cx.rng, 20, false);
    let f = Enc::new(&mut cx.rng, 1).write(&objs);
    check(cx, kind, &f)
}

/// One kind of object, few of them
fn one(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let k = *cx.rng.pick(&[Kind::Node, Kind::Node, Kind::Way, Kind::Rel]);
    let cfg = crate::gen::Cfg::pbf();
    let n = cx.rng.range(1, 4);
    let objs: Vec<MObj> = (0..n)
        .map(|_| crate::gen::object_of(&mut cx.rng, &cfg, k))
        .collect();
    let f = Enc::new(&mut cx.rng, 1).write(&objs);
    check(cx, kind, &f)
}

/// As real files: thousands of objects in a block
fn big(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let cfg = crate::gen::Cfg {
        big: false,
        ..crate::gen::Cfg::pbf()
    };
    let mut objs: Vec<MObj> = (0..6000)
        .map(|_| crate::gen::object(&mut cx.rng, &cfg))
        .collect();
    objs.sort_by_key(|o| (o.kind as usize, o.id));
    let fancy = (cx.idx % 2) as usize;
    let f = Enc::new(&mut cx.rng, fancy).write(&objs);
    check(cx, kind, &f)
}

/// Extreme in one way: the number of strings, tags, references, members, nodes or blocks, or the
/// length of strings
fn huge(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let cfg = crate::gen::Cfg {
        dup_keys: false,
        ..crate::gen::Cfg::pbf()
    };
    let which = cx.idx as usize % crate::gen::HUGE;
    let (what, objs) = crate::gen::huge(&mut cx.rng, &cfg, which);
    cx.count(&format!("extreme: {}", what), 1);
    let fancy = (cx.idx as usize / crate::gen::HUGE) % 2;
    let mut e = Enc::new(&mut cx.rng, fancy);
    if fancy == 0 {
        e.header();
    }
    if what == "many objects" {
        // a block for each
        for o in objs {
            e.data_block(vec![vec![o]]);
        }
    } else {
        // all in one block, a group for each kind
        let mut groups: Vec<Vec<MObj>> = vec![];
        for o in objs {
            match groups.last_mut() {
                Some(g) if g[0].kind == o.kind => g.push(o),
                _ => groups.push(vec![o]),
            }
        }
        e.data_block(groups);
    }
    let f = e.file;
    check(cx, kind, &f)
}
