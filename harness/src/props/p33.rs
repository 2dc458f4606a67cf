//! P33: values which cannot be used, in OSM XML.

use super::util::*;
use crate::faults::{Chunk, Src};
use crate::gen::Cfg;
use crate::model::*;
use crate::rd::{self, Item, Rk, Stop};
use crate::runner::*;
use crate::xmlw::W;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "P33",
        level: "exploration",
        rule: "OSM XML and change documents in random styles, in which some objects have values which can't be read as what they should be (numbers, coordinates, flags, references and kinds of members: text, too large, fractions, empty, missing; tags without key or value), up to four in one object. Every other object, and every other value of these objects, must be read as it is. Distinct by hash of the document; all are non-trivial.",
        assumptions: &[
            "a reader may also fail at the object with such a value",
            "a panic which unwinds is an ordinary failure which the caller can contain",
        ],
        legs: vec![leg("osm", 22000, 220000, |cx| one(cx, false)), leg("osc", 22000, 220000, |cx| one(cx, true))],
        required: &["objects with unusable values", "objects without", "unusable values"],
        probes: vec![],
    }
}

fn one(cx: &mut Cx, osc: bool) -> Result<(), String> {
    let mut cfg = Cfg::xml();
    cfg.big = false;
    let n = 1 + cx.rng.below(6);
    let objs = crate::gen::small_objects(&mut cx.rng, &cfg, n);
    let mut bad: Vec<usize> = (0..n).filter(|_| cx.rng.chance(1, 3)).collect();
    if bad.is_empty() {
        bad.push(cx.rng.below(n));
    }
    let fancy = cx.rng.below(4);
    let mut w = W::new(&mut cx.rng, fancy);
    w.unusable = bad;
    let mut said = if osc {
        w.osc(&objs)
    } else {
        w.osm(&objs);
        objs.clone()
    };
    let left = std::mem::take(&mut w.left);
    let data = w.out.into_bytes();
    let at: Vec<usize> = left.iter().map(|l| l.0).collect();
    let mut what = vec![];
    for (i, o, desc) in left {
        cx.count("objects with unusable values", 1);
        cx.count("unusable values", desc.len() as u64);
        for d in &desc {
            let name = d.trim_start_matches("no ").split('=').next().unwrap();
            cx.count(&format!("{} {}", if d.starts_with("no ") { "missing" } else { "unusable" }, name), 1);
        }
        what.push(format!("object {}: {}", i, desc.join(", ")));
        said[i] = o;
    }
    cx.count("objects without", (said.len() - what.len()) as u64);
    cx.seen(crate::rng::hash_bytes(&data));
    cx.sample(|| json!({"unusable": what, "input": text(&data)}));
    let kind = if osc { Rk::Osc } else { Rk::Xml };
    let want: Vec<Item> = rd::objs(&said);
    let mut src = Src::of(&data);
    if cx.rng.chance(1, 8) {
        src = src.chunks(Chunk::Random(100), 0, 3);
    }
    let out = rd::read(kind, src, said.len() + 10);
    let r = match &out.stop {
        // strict, which it may only be with one of them
        Stop::Failed(Caught::Panic { .. }) | Stop::Error(_) => {
            cx.count("refused", 1);
            rd::prefix_items(&want, &out.items).and_then(|_| {
                if at.contains(&out.items.len()) {
                    Ok(())
                } else {
                    Err(format!("fails at object {}: {}", out.items.len(), out.stop))
                }
            })
        }
        _ => rd::expect_items(&want, &out),
    };
    cx.evals(1);
    r.map_err(|e| format!("{:?} with {}: {}; document {}", kind, what.join("; "), e, short(&text(&data))))
}
