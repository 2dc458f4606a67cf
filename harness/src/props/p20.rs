//! P20, P21: changeset dumps in every style, whose content is known.

use crate::gen;
use crate::model::*;
use crate::rd::{self, Item, Rk, Stop};
use crate::runner::*;
use crate::xmlw::{self, MCs, W};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use serde_json::json;
use std::path::PathBuf;

const RULE: &str = "Dumps of random changesets are encoded by the harness in random XML styles (attribute order, quotes, entities, character references, white space, comments, CDATA, unknown elements and attributes, discussions, self-closing or not) and read from memory, through bzip2 and by name; every changeset is compared with the model. Distinct by hash of document; non-trivial: at least one changeset.";
const ASSUME: &[&str] = &[
    "UTF-8, no document type declaration, no XML namespaces; id, created_at, open, num_changes and comments_count are always there, as in the planet's dumps",
    "a changeset's keys are distinct",
];

pub fn full() -> Prop {
    Prop {
        id: "P20",
        level: "exploration",
        rule: RULE,
        assumptions: ASSUME,
        legs: vec![
            leg("plain", 6000, 60000, |cx| full_case(cx, 0)),
            leg("styled", 30000, 400000, |cx| full_case(cx, 1)),
            leg("wild", 30000, 400000, |cx| full_case(cx, 3)),
            leg("long", 80, 600, long),
            leg("calls", 10000, 100000, calls),
            leg("huge", 6, 60, |cx| huge(cx, false)),
        ],
        required: &[
            "changesets",
            "tags",
            "style: discussions",
            "style: self-closing",
            "without closing time",
            "without user",
            "without uid",
            "by name",
            "bzip2",
        ],
        probes: vec![],
    }
}

pub fn tags() -> Prop {
    Prop {
        id: "P21",
        level: "exploration",
        rule: "Dumps as for the full reader (P20), compressed as bzip2 files of one or several streams; the tag reader's pairs are compared with the model and with what the full reader returns for the same file. Distinct by hash of document; non-trivial: at least one tagged changeset.",
        assumptions: ASSUME,
        legs: vec![
            leg("plain", 3000, 30000, |cx| tag_case(cx, 0)),
            leg("styled", 12000, 150000, |cx| tag_case(cx, 1)),
            leg("wild", 12000, 150000, |cx| tag_case(cx, 3)),
            leg("long", 40, 300, long_tags),
            leg("huge", 6, 60, |cx| huge(cx, true)),
        ],
        required: &[
            "tagged changesets",
            "untagged changesets",
            "untagged with other content",
            "ids beyond 32 bits",
            "several streams",
        ],
        probes: vec![],
    }
}

pub fn note(cx: &mut Cx, doc: &str, cs: &[MCs], used: &[&'static str]) {
    if let Err(e) = crate::xmlp::parse(doc.as_bytes()) {
        panic!("the encoder made a bad document: {}\n{}", e, doc);
    }
    for u in used {
        cx.count(&format!("style: {}", u), 1);
    }
    cx.count("changesets", cs.len() as u64);
    cx.count("tags", cs.iter().map(|c| c.tags.len() as u64).sum());
    for c in cs {
        cx.count("without closing time", c.closed.is_none() as u64);
        cx.count("without user", c.user.is_none() as u64);
        cx.count("without uid", c.uid.is_none() as u64);
        cx.count("open", c.open as u64);
    }
    cx.sample(|| json!({"document": doc, "changesets": cs.len()}));
}

/// One or several bzip2 streams, one after the other
pub fn bz2_streams(cx: &mut Cx, data: &[u8]) -> Vec<u8> {
    let n = *cx.rng.pick(&[1usize, 1, 2, 3, 6]);
    let mut cuts: Vec<usize> = (1..n).map(|_| cx.rng.below(data.len() + 1)).collect();
    cuts.push(0);
    cuts.push(data.len());
    cuts.sort();
    let mut out = vec![];
    for w in cuts.windows(2) {
        out.extend(super::p10::bz2(&data[w[0]..w[1]]));
    }
    cx.count("several streams", (n > 1) as u64);
    out
}

pub fn file(cx: &mut Cx, name: &str, data: &[u8]) -> PathBuf {
    let p = cx.tmp.join(name);
    std::fs::write(&p, data).unwrap();
    p
}

fn full_case(cx: &mut Cx, fancy: usize) -> Result<(), String> {
    let cs = xmlw::gen_changesets(&mut cx.rng, 40);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let (doc, used) = (w.out, w.used);
    note(cx, &doc, &cs, &used);
    if !cs.is_empty() {
        cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    }
    let want = rd::changesets(&cs);
    let got = rd::read(Rk::Cs, doc.as_bytes(), want.len() + 10);
    rd::expect_items(&want, &got).map_err(|e| format!("{}; document: {}", e, short(&doc)))?;
    if cx.rng.chance(1, 10) {
        let z = bz2_streams(cx, doc.as_bytes());
        cx.count("bzip2", 1);
        let r = must("from_bz2_reader", || ChangesetReader::from_bz2_reader(&z[..]))?;
        rd::expect_items(&want, &rd::drain_cs(r, want.len() + 10))
            .map_err(|e| format!("through bzip2: {}; document: {}", e, short(&doc)))?;
        let p = file(cx, "dump.osm.bz2", &z);
        cx.count("by name", 1);
        let r = must("from_filename", || {
            ChangesetReader::from_filename(p.to_str().unwrap())
        })?
        .map_err(|e| format!("by name: {}", e))?;
        rd::expect_items(&want, &rd::drain_cs(r, want.len() + 10))
            .map_err(|e| format!("by name: {}; document: {}", e, short(&doc)))?;
        cx.evals(3);
    }
    Ok(())
}

fn many(cx: &mut Cx) -> (String, Vec<MCs>) {
    let mut cs = vec![];
    let n = cx.rng.range(150, 600);
    for i in 0..n {
        let id = 1 + i as u32 * 7;
        cs.push(xmlw::gen_changeset(&mut cx.rng, id));
    }
    let fancy = cx.rng.below(4);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    (w.out, cs)
}

/// More than the readers' buffers hold
fn long(cx: &mut Cx) -> Result<(), String> {
    let (doc, cs) = many(cx);
    cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    cx.count("changesets", cs.len() as u64);
    let want = rd::changesets(&cs);
    let got = rd::read(Rk::Cs, doc.as_bytes(), want.len() + 10);
    rd::expect_items(&want, &got)
}

/// Extreme in one way: the number of changesets or tags, the length of strings
fn huge(cx: &mut Cx, tags: bool) -> Result<(), String> {
    let mut cs = vec![];
    match cx.idx % 3 {
        0 => {
            for i in 0..70_000 {
                let mut c = xmlw::gen_changeset(&mut cx.rng, i * 11 + 1);
                c.tags.truncate(1);
                c.user = c.user.map(|_| format!("u{}", i));
                cs.push(c);
            }
        }
        1 => {
            for (i, n) in [255usize, 256, 257, 300, 20_000].iter().enumerate() {
                let mut c = xmlw::gen_changeset(&mut cx.rng, i as u32 + 1);
                c.tags = (0..*n).map(|i| (format!("k{:05}", i), format!("v{}", i % 99))).collect();
                cs.push(c);
                cs.push(xmlw::gen_changeset(&mut cx.rng, i as u32 + 100));
            }
        }
        _ => {
            for (i, n) in [4096usize, 32_768, 65_536, 70_000, 300_000].iter().enumerate() {
                let mut c = xmlw::gen_changeset(&mut cx.rng, i as u32 + 1);
                c.user = Some("é".repeat(*n / 2));
                c.tags = vec![("日".repeat(n / 3), "x".to_string()), ("y".to_string(), "&".repeat(*n))];
                cs.push(c);
                cs.push(xmlw::gen_changeset(&mut cx.rng, i as u32 + 100));
            }
        }
    }
    let fancy = (cx.idx / 3) as usize % 2;
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let doc = w.out;
    cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    cx.count("changesets", cs.len() as u64);
    if tags {
        let want = rd::tagged(&cs);
        let z = bz2_streams(cx, doc.as_bytes());
        let p = file(cx, "dump.osm.bz2", &z);
        let got = rd::read_tags_file(&p, want.len() + 10)?;
        rd::expect_items(&want, &got)
    } else {
        let want = rd::changesets(&cs);
        let got = rd::read(Rk::Cs, doc.as_bytes(), want.len() + 10);
        rd::expect_items(&want, &got)
    }
}

/// The methods of the reader and of a changeset
fn calls(cx: &mut Cx) -> Result<(), String> {
    let cs = xmlw::gen_changesets(&mut cx.rng, 12);
    let fancy = cx.rng.below(4);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let doc = w.out;
    if !cs.is_empty() {
        cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    }
    let mut r = must("new", || ChangesetReader::new(doc.as_bytes()))?;
    for (i, c) in cs.iter().enumerate() {
        let by_name = cx.rng.bool();
        let got = must("next", || {
            if by_name {
                r.next_changeset()
            } else {
                r.next().transpose()
            }
        })?;
        let got = match got {
            Ok(Some(g)) => g,
            Ok(None) => return Err(format!("ended after {} of {}", i, cs.len())),
            Err(e) => return Err(format!("changeset #{}: {}", i, e)),
        };
        let what = |e: String| format!("changeset #{} {}: {}", i, short(c), e);
        let mut want = c.clone();
        want.tags.sort();
        if rd::cs_of(&got) != want {
            return Err(what(format!("is {}", short(&rd::cs_of(&got)))));
        }
        if got.created.to_epoch_number() != crate::time::parse_rfc3339(&c.created).unwrap() {
            return Err(what("created at another time".to_string()));
        }
        if got.num_tags() != c.tags.len()
            || got.tagged() == c.tags.is_empty()
            || got.untagged() != c.tags.is_empty()
        {
            return Err(what(format!(
                "num_tags {}, tagged {}, untagged {}",
                got.num_tags(),
                got.tagged(),
                got.untagged()
            )));
        }
        for (k, v) in &c.tags {
            if got.tag(k) != Some(v.as_str()) || !got.has_tag(k.clone()) {
                return Err(what(format!("tag {:?} is {:?}", k, got.tag(k))));
            }
        }
        for _ in 0..3 {
            let k = gen::string(&mut cx.rng, gen::Chars::Xml);
            let there = c.tags.iter().any(|t| t.0 == k);
            if got.has_tag(&k) != there || got.tag(&k).is_some() != there {
                return Err(what(format!("tag {:?} should not be there", k)));
            }
        }
        cx.count("tags", c.tags.len() as u64);
        let mut got = got;
        if let Some((k, _)) = c.tags.first() {
            got.tags_mut().remove(k);
            if got.has_tag(k) {
                return Err(what("tags_mut has no effect".to_string()));
            }
        }
        let mut left: Vec<(String, String)> = got.into_tags().into_iter().collect();
        left.sort();
        let mut want: Vec<(String, String)> = c.tags.iter().skip(1).cloned().collect();
        want.sort();
        if left != want {
            return Err(what(format!("into_tags is {}", short(&left))));
        }
    }
    for _ in 0..3 {
        if let Some(x) = must("next", || r.next())? {
            return Err(format!("after the last: {:?}", x.map(|c| c.id)));
        }
    }
    Ok(())
}

/// What the tag reader must return, and what it does with ids that only it can hold
fn tag_case(cx: &mut Cx, fancy: usize) -> Result<(), String> {
    let cs = xmlw::gen_changesets(&mut cx.rng, 40);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let (mut doc, used, spans) = (w.out, w.used, w.spans);
    note(cx, &doc, &cs, &used);
    let want = rd::tagged(&cs);
    cx.count("tagged changesets", want.len() as u64);
    cx.count("untagged changesets", (cs.len() - want.len()) as u64);
    for (c, s) in cs.iter().zip(&spans) {
        if c.tags.is_empty() && !doc[s.0..s.1].ends_with("/>") {
            cx.count("untagged with other content", 1);
        }
    }
    if !want.is_empty() {
        cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    }
    let z = bz2_streams(cx, doc.as_bytes());
    let p = file(cx, "dump.osm.bz2", &z);
    let got = rd::read_tags_file(&p, want.len() + 10)?;
    rd::expect_items(&want, &got).map_err(|e| format!("{}; document: {}", e, short(&doc)))?;

    // and as the full reader says
    let r = must("from_filename", || {
        ChangesetReader::from_filename(p.to_str().unwrap())
    })?
    .map_err(|e| format!("full reader: {}", e))?;
    let full = rd::drain_cs(r, want.len() * 100 + 100);
    if let Stop::End = full.stop {
        let mut pairs = vec![];
        for i in &full.items {
            if let Item::Cs(c) = i {
                if !c.tags.is_empty() {
                    pairs.push((c.id as u64, c.tags.clone()));
                }
            }
        }
        let mut mine = vec![];
        for i in &got.items {
            if let Item::Tags(id, t) = i {
                let mut t = t.clone();
                t.sort();
                mine.push((*id, t));
            }
        }
        if pairs != mine {
            return Err(format!(
                "the full reader says {}, the tag reader {}; document: {}",
                short(&pairs),
                short(&mine),
                short(&doc)
            ));
        }
    } else {
        return Err(format!("full reader: {}", full.stop));
    }

    // ids which do not fit the full reader's 32 bits
    if fancy == 0 && cx.rng.chance(1, 4) {
        let mut ids = vec![];
        let mut s = String::from("<osm>");
        for c in &cs {
            let id = gen::i64_edge(&mut cx.rng, i64::MAX).unsigned_abs();
            s.push_str(&format!("<changeset id=\"{}\">", id));
            for (i, _) in c.tags.iter().enumerate() {
                s.push_str(&format!("<tag k=\"k{}\" v=\"v{}\"/>", i, id));
            }
            s.push_str("</changeset>\n");
            if !c.tags.is_empty() {
                let t = (0..c.tags.len())
                    .map(|i| (format!("k{}", i), format!("v{}", id)))
                    .collect();
                ids.push(Item::Tags(id, t));
                cx.count("ids beyond 32 bits", (id > u32::MAX as u64) as u64);
            }
        }
        s.push_str("</osm>");
        doc = s;
        let z = bz2_streams(cx, doc.as_bytes());
        let p = file(cx, "dump.osm.bz2", &z);
        let got = rd::read_tags_file(&p, ids.len() + 10)?;
        rd::expect_items(&ids, &got).map_err(|e| format!("{}; document: {}", e, short(&doc)))?;
    }

    // the end stays the end
    let name = p.to_str().unwrap();
    if cx.rng.chance(1, 20) {
        let mut r = must("from_filename", || ChangesetTagReader::from_filename(name))?
            .map_err(|e| e.to_string())?;
        while must("next", || r.next())?.is_some() {}
        for _ in 0..3 {
            if must("next", || r.next())?.is_some() {
                return Err("something after the end".to_string());
            }
        }
    }
    Ok(())
}

fn long_tags(cx: &mut Cx) -> Result<(), String> {
    let (doc, cs) = many(cx);
    cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    let want = rd::tagged(&cs);
    let z = bz2_streams(cx, doc.as_bytes());
    let p = file(cx, "dump.osm.bz2", &z);
    let got = rd::read_tags_file(&p, want.len() + 10)?;
    rd::expect_items(&want, &got)
}
