//! P35: shared objects share their strings.

use super::util::*;
use crate::alloc;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::{self, Enc};
use crate::rng::Rng;
use crate::runner::*;
use osmio::arcpbf::PBFReader;
use osmio::obj_types::*;
use osmio::prelude::*;
use serde_json::json;
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "P35",
        level: "exploration",
        rule: "All objects of a PBF file are read with the shared-string reader and kept; the addresses of their users, keys, values and roles are compared by block and content: one address per string which is once in the block's string table. Copies of objects (and of what is in them) must have the addresses of the original, also after some of it is changed. Files whose objects all use the same long strings, with a counting allocator: what is in use for all objects must not depend on the length of the strings times the number of objects; what is in use after all but one are dropped must not depend on the strings of the others. Distinct by content; non-trivial: a string is used by more than one object.",
        assumptions: &["strings are shared if their addresses are the same"],
        legs: vec![
            leg("addresses", 3000, 60000, addresses),
            leg("copies", 3000, 60000, copies),
            leg("memory", 160, 3000, memory),
        ],
        required: &["strings used by several objects", "uses of strings", "copies compared", "objects kept in memory", "objects which outlive the others"],
        probes: vec![],
    }
}

/// Such a file has a string several times
const REPEATS: &str = "string table with repeats and unused strings";

/// Nothing that words() makes
const NEW: &str = "this one is new";

type At<'a> = (&'a str, usize);

/// Every string of an object which is not empty
fn strings<O: OSMObj>(o: &O) -> Vec<At<'_>> {
    let mut all: Vec<&str> = o.user().into_iter().collect();
    for (k, v) in o.tags() {
        all.push(k);
        all.push(v);
    }
    if let Some(r) = o.as_relation() {
        all.extend(r.members().map(|m| m.2));
    }
    all.into_iter().filter(|s| !s.is_empty()).map(|s| (s, s.as_ptr() as usize)).collect()
}

/// Some words, which all objects are made of
fn words(rng: &mut Rng) -> Vec<String> {
    let n = rng.range(4, 12) as usize;
    let mut w: Vec<String> = (0..n)
        .map(|i| match rng.below(5) {
            0 => gen::string(rng, gen::Chars::Any),
            1 => "x".repeat(rng.range(1, 2000) as usize) + &i.to_string(),
            2 => format!("{}", i),
            _ => format!("{}{}", rng.pick(&["name", "highway", "über", "道", "outer"]), i),
        })
        .collect();
    w.sort();
    w.dedup();
    w
}

fn of_words(rng: &mut Rng, o: &mut MObj, w: &[String]) {
    if o.user.is_some() || rng.bool() {
        o.user = Some(rng.pick(w).clone());
    }
    // keys are different
    let mut keys = w.to_vec();
    rng.shuffle(&mut keys);
    let n = o.tags.len().max(rng.below(3)).min(keys.len());
    o.tags = keys.into_iter().take(n).map(|k| (k, rng.pick(w).clone())).collect();
    o.tags.retain(|t| !t.0.is_empty());
    for m in &mut o.members {
        m.2 = rng.pick(w).clone();
    }
}

fn objects(rng: &mut Rng, max: usize) -> Vec<MObj> {
    let mut objs = pbfw::gen_objects(rng, max, true);
    let w = words(rng);
    for o in &mut objs {
        of_words(rng, o, &w);
    }
    objs
}

fn addresses(cx: &mut Cx) -> Result<(), String> {
    let max = if cx.thorough { 60 } else { 30 };
    let objs = objects(&mut cx.rng, max);
    let fancy = cx.rng.below(2);
    let f = Enc::new(&mut cx.rng, fancy).write(&objs);
    let repeats = f.used.contains(&REPEATS);
    let how = cx.rng.below(3);
    let got: Vec<ArcOSMObj> = must("read", || {
        let mut r = PBFReader::new(&f.bytes[..]);
        match how {
            0 => r.objects().collect(),
            _ => {
                let mut v = vec![];
                while let Some(o) = r.next() {
                    v.push(o);
                }
                v
            }
        }
    })?;
    if got.len() != f.objs.len() {
        return Err(format!("{} objects read of {}", got.len(), f.objs.len()));
    }
    for b in &f.blobs {
        let mut seen: HashMap<&str, (usize, usize)> = HashMap::new();
        let mut many = 0;
        for (i, o) in got[b.first..b.first + b.n].iter().enumerate() {
            for (s, at) in strings(o) {
                cx.count("uses of strings", 1);
                match seen.get(s) {
                    None => {
                        seen.insert(s, (at, i));
                    }
                    Some((first, j)) => {
                        if i != *j {
                            many += 1;
                        }
                        if *first != at && !repeats {
                            return Err(format!(
                                "{} of objects {} and {} of a block of {} is in memory twice, once for {} {}",
                                short(&s), j, i, b.n, o.object_type(), o.id()
                            ));
                        }
                    }
                }
            }
        }
        cx.count("strings used by several objects", many);
    }
    cx.evals(got.len() as u64);
    cx.seen(crate::rng::hash_bytes(&f.bytes));
    cx.sample(|| json!({"objects": got.len(), "blocks": f.blobs.len(), "bytes": f.bytes.len()}));
    Ok(())
}

fn same(what: &str, a: &[At], b: &[At]) -> Result<(), String> {
    if a != b {
        let d = a.iter().zip(b).find(|(x, y)| x != y);
        return Err(format!("{}: strings of the copy are not those of the original: {}", what, short(&d)));
    }
    Ok(())
}

/// All of these are in the other
fn part_of(what: &str, part: &[At], whole: &[At]) -> Result<(), String> {
    for p in part {
        if !whole.contains(p) {
            return Err(format!("{}: {} has become a string of its own", what, short(&p.0)));
        }
    }
    Ok(())
}

fn copy_of<O: OSMObj + Clone>(cx: &mut Cx, o: &O) -> Result<(), String> {
    let what = format!("{} {}", o.object_type(), o.id());
    let before = strings(o);
    let mut c = must("clone", || o.clone())?;
    same(&what, &before, &strings(&c))?;
    cx.count("copies compared", 1);
    // the part inside
    let inner = |n: Vec<At>| same(&format!("{}, without the enum", what), &before, &n);
    fn own<'a>(b: &'a impl OSMObjBase) -> Vec<At<'a>> {
        let mut all: Vec<&str> = b.user().into_iter().collect();
        for (k, v) in b.tags() {
            all.push(k);
            all.push(v);
        }
        all.into_iter().filter(|s| !s.is_empty()).map(|s| (s, s.as_ptr() as usize)).collect()
    }
    if let Some(n) = o.as_node() {
        inner(own(&must("clone", || n.clone())?))?;
    } else if let Some(w) = o.as_way() {
        inner(own(&must("clone", || w.clone())?))?;
    } else if let Some(r) = o.as_relation() {
        let r = must("clone", || r.clone())?;
        let mut l = own(&r);
        l.extend(r.members().map(|m| m.2).filter(|s| !s.is_empty()).map(|s| (s, s.as_ptr() as usize)));
        inner(l)?;
    }
    // changed here and there
    let key = o.tags().next().map(|t| t.0.to_string());
    let step = cx.rng.below(9);
    must("change", || match (step, &key) {
        (0, _) => c.set_id(7i64),
        (1, _) => c.set_version(Some(3)),
        (2, _) => c.set_user(None),
        (3, Some(k)) => c.unset_tag(k),
        (4, _) => c.set_deleted(true),
        (5, _) => c.strip_metadata(),
        (6, Some(k)) => c.set_tag(k, NEW),
        (7, _) => c.set_tag(NEW, NEW),
        _ => {
            c.set_uid(Some(9));
            c.set_changeset_id(Some(11));
            c.set_timestamp(None)
        }
    })?;
    let mut left = strings(&c);
    left.retain(|s| s.0 != NEW);
    // the key which is set may be replaced, too
    if let (6, Some(k)) = (step, &key) {
        left.retain(|s| s.0 != k);
    }
    part_of(&format!("{} changed in way {}", what, step), &left, &before)?;
    same(&format!("{} whose copy is changed", what), &before, &strings(o))?;
    Ok(())
}

fn copies(cx: &mut Cx) -> Result<(), String> {
    let mut seen = 0u64;
    if cx.rng.bool() {
        let objs = objects(&mut cx.rng, 8);
        let f = Enc::new(&mut cx.rng, 1).write(&objs);
        let got: Vec<ArcOSMObj> = must("read", || PBFReader::new(&f.bytes[..]).objects().collect())?;
        for o in &got {
            copy_of(cx, o)?;
        }
        seen ^= crate::rng::hash_bytes(&f.bytes);
    } else {
        let w = words(&mut cx.rng);
        let cfg = Cfg {
            dup_keys: false,
            ..Cfg::any()
        };
        for _ in 0..4 {
            let mut m = gen::object(&mut cx.rng, &cfg);
            of_words(&mut cx.rng, &mut m, &w);
            let r = *cx.rng.pick(&[Repr::R, Repr::A]);
            match must("build", || AnyObj::build(&m, r))? {
                AnyObj::R(o) => copy_of(cx, &o)?,
                AnyObj::A(o) => copy_of(cx, &o)?,
                AnyObj::S(_) => {} // without the hooks
            }
            seen ^= cx.rng.u64();
        }
    }
    cx.seen(seen);
    cx.evals(4);
    Ok(())
}

/// Long strings, many objects
fn memory(cx: &mut Cx) -> Result<(), String> {
    let n = *cx.rng.pick(&[100usize, 300, 1000]);
    let len = *cx.rng.pick(&[4_000usize, 20_000]);
    let kind = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let where_ = if kind == Kind::Rel { cx.rng.below(5) } else { cx.rng.below(4) };
    let long = |i: usize| format!("{}{}", i, "s".repeat(len));
    let objs: Vec<MObj> = (0..n)
        .map(|i| {
            let mut o = MObj::new(kind, i as i64 + 1);
            o.version = Some(1);
            o.user = Some("me".to_string());
            if kind == Kind::Node {
                o.latlon = Some((i as i32, 5));
            }
            match where_ {
                0 => o.user = Some(long(0)),
                1 => o.tags = vec![(long(1), "v".to_string())],
                2 => o.tags = vec![("k".to_string(), long(2))],
                3 => o.tags = vec![(long(1), long(2))],
                _ => o.members = vec![(Kind::Way, 5, long(3)), (Kind::Node, i as i64, long(4))],
            }
            o
        })
        .collect();
    let fancy = cx.rng.below(2);
    let mut f = Enc::new(&mut cx.rng, fancy).write(&objs);
    if f.used.contains(&REPEATS) {
        f = Enc::new(&mut cx.rng, 0).write(&objs);
    }
    let blocks = f.blobs.iter().filter(|b| b.n > 0).count();
    let what = format!("{} {}s with the same strings of {} bytes (case {}) in {} blocks", n, kind.name(), len, where_, blocks);
    let before = alloc::live();
    let mut all: Vec<ArcOSMObj> = must("read", || PBFReader::new(&f.bytes[..]).objects().collect())?;
    let kept = alloc::live() - before;
    if all.len() != n {
        return Err(format!("{}: {} read", what, all.len()));
    }
    // up to two long strings for each block
    let limit = (n * 1500 + (blocks + 1) * 3 * len) as isize;
    // too few in each block to see it
    cx.count("files with small blocks", (n < 10 * blocks) as u64);
    if kept > limit {
        return Err(format!("{}: {} bytes are in use for them, of at most {}", what, kept, limit));
    }
    let copies: Vec<ArcOSMObj> = must("clone", || all.clone())?;
    let more = alloc::live() - before - kept;
    if more > (n * 1500) as isize {
        return Err(format!("{}: {} bytes more are in use for copies", what, more));
    }
    cx.count("objects kept in memory", 2 * n as u64);
    drop(copies);
    // one object with short strings of the same block keeps none of the long ones
    let mut last = MObj::new(kind, 1_000_000);
    last.tags = vec![("k".into(), "v".into())];
    if kind == Kind::Node {
        last.latlon = Some((5, 6));
    }
    drop(std::mem::take(&mut all));
    let g = {
        let mut with = objs.clone();
        let at = cx.rng.below(with.len());
        with.insert(at, last);
        Enc::new(&mut cx.rng, 0).write(&with)
    };
    let before = alloc::live();
    let one = must("read", || PBFReader::new(&g.bytes[..]).objects().find(|o| o.id() == 1_000_000))?;
    let kept = alloc::live() - before;
    if one.is_none() {
        return Err(format!("{}: one more was not read", what));
    }
    if kept > 3000 {
        return Err(format!("{}: one more with short strings keeps {} bytes in use when all others are dropped", what, kept));
    }
    cx.count("objects which outlive the others", 1);
    cx.evals(2 * n as u64);
    cx.seen(crate::rng::hash_bytes(&f.bytes));
    cx.sample(|| json!({"what": what, "bytes in use": kept}));
    Ok(())
}
