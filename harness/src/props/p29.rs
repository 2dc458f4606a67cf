//! P29: equality of objects, and builders.

use super::p17;
use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::Enc;
use crate::rng::Rng;
use crate::runner::*;
use crate::xmlw::W;
use osmio::changesets::ChangesetBuilder;
use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::OSMReader;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "P29",
        level: "exploration",
        rule: "Objects with the same data come about in different ways (built with setters, cloned, read from PBF in several layouts by both readers, read from XML, converted, edited to and fro) and are compared with == and != in both directions, as any-objects and as the kind inside; then one is edited. Pairs from a small space of values, which often are equal or differ in one field. Equality must be that of the observed fields. Builders get random subsets of their setters in random order. Distinct by data and route; non-trivial: a comparison or a built object.",
        assumptions: &["pairs whose tags differ in nothing but their order are not judged", "timestamps are valid"],
        legs: vec![
            leg("ways to the same data", 24000, 240000, routes),
            leg("pairs", 24000, 240000, pairs),
            leg("builders", 24000, 240000, builders),
            leg("changeset builder", 4800, 60000, changeset_builder),
        ],
        required: &["equal pairs", "unequal pairs", "equal after edits", "objects from PBF", "objects from XML", "objects converted", "built", "refused"],
        probes: vec![],
    }
}

fn only_order_of_tags(a: &MObj, b: &MObj) -> bool {
    let sorted = |m: &MObj| {
        let mut t = m.tags.clone();
        t.sort();
        t
    };
    a.tags != b.tags && sorted(a) == sorted(b)
}

fn all_ways<T: PartialEq>(a: &T, b: &T) -> Result<bool, String> {
    let r = [a == b, b == a, !(a != b), !(b != a)];
    if r.iter().any(|x| *x != r[0]) {
        return Err(format!("a == b, b == a, !(a != b), !(b != a): {:?}", r));
    }
    Ok(r[0])
}

fn obj_eq<O: OSMObj>(a: &O, b: &O) -> Result<bool, String> {
    let whole = all_ways(a, b)?;
    let mut kinds = vec![];
    if let (Some(a), Some(b)) = (a.as_node(), b.as_node()) {
        kinds.push(all_ways(a, b)?);
    }
    if let (Some(a), Some(b)) = (a.as_way(), b.as_way()) {
        kinds.push(all_ways(a, b)?);
    }
    if let (Some(a), Some(b)) = (a.as_relation(), b.as_relation()) {
        kinds.push(all_ways(a, b)?);
    }
    if kinds.iter().any(|x| *x != whole) {
        return Err(format!("equal as any-object: {}, as the kind inside: {:?}", whole, kinds));
    }
    Ok(whole)
}

fn eq(a: &AnyObj, b: &AnyObj) -> Option<Result<bool, String>> {
    Some(match (a, b) {
        (AnyObj::S(a), AnyObj::S(b)) => obj_eq(a, b),
        (AnyObj::R(a), AnyObj::R(b)) => obj_eq(a, b),
        (AnyObj::A(a), AnyObj::A(b)) => obj_eq(a, b),
        _ => return None,
    })
}

fn judge(cx: &mut Cx, na: &str, a: &AnyObj, ma: &MObj, nb: &str, b: &AnyObj, mb: &MObj) -> Result<(), String> {
    if only_order_of_tags(ma, mb) {
        return Ok(());
    }
    let Some(got) = must("==", || eq(a, b)).map_err(|e| format!("{} and {}: {}", na, nb, e))? else {
        return Ok(());
    };
    let got = got.map_err(|e| format!("{} and {}: {}; {} and {}", na, nb, e, short(ma), short(mb)))?;
    let diff = ma.diff(mb);
    if got != diff.is_none() {
        return Err(format!(
            "{:?} object ({}) and {:?} object ({}) {} but {}: {} and {}",
            a.repr(),
            na,
            b.repr(),
            nb,
            if got { "are equal" } else { "are not equal" },
            diff.unwrap_or("have the same data".into()),
            short(ma),
            short(mb)
        ));
    }
    cx.count(if got { "equal pairs" } else { "unequal pairs" }, 1);
    cx.evals(1);
    Ok(())
}

/// Set everything, whatever was there
fn restore(rng: &mut Rng, o: &mut AnyObj, now: &MObj, m: &MObj) {
    let mut edits = vec![
        p17::Edit::Id(m.id),
        p17::Edit::Version(m.version),
        p17::Edit::Deleted(m.deleted),
        p17::Edit::Changeset(m.changeset),
        p17::Edit::Ts(m.ts.clone()),
        p17::Edit::Uid(m.uid),
        p17::Edit::User(m.user.clone()),
    ];
    match m.kind {
        Kind::Node => edits.push(p17::Edit::LatLon(m.latlon)),
        Kind::Way => edits.push(p17::Edit::Nodes(m.nodes.clone())),
        Kind::Rel => edits.push(p17::Edit::Members(m.members.clone())),
    }
    rng.shuffle(&mut edits);
    // keys which are there twice
    let mut keys: Vec<String> = now.tags.iter().map(|t| t.0.clone()).collect();
    rng.shuffle(&mut keys);
    edits.extend(keys.into_iter().map(p17::Edit::Untag));
    edits.extend(m.tags.iter().map(|(k, v)| p17::Edit::Tag(k.clone(), v.clone())));
    for e in &edits {
        p17::apply_any_obj(o, e);
    }
}

fn routes(cx: &mut Cx) -> Result<(), String> {
    let cfg = Cfg {
        big: false,
        dup_keys: false,
        ..Cfg::pbf()
    };
    let mut m = gen::object(&mut cx.rng, &cfg);
    if cx.rng.chance(1, 3) {
        m.tags.clear();
    }
    // what PBF makes of it
    let f = Enc::new(&mut cx.rng, 1).write(&[m]);
    let m = f.objs[0].clone();
    let xml_ok = {
        let ok = |s: &str| s.chars().all(gen::xml_char_ok);
        m.user.iter().all(|s| ok(s))
            && m.ts.iter().all(|t| t.instant().is_some_and(|t| (crate::time::MIN_EPOCH..=crate::time::MAX_EPOCH).contains(&t)))
            && m.tags.iter().all(|(k, v)| ok(k) && ok(v)) && m.members.iter().all(|x| ok(&x.2))
    };
    let mut all: Vec<(String, AnyObj)> = vec![];
    for r in [Repr::S, Repr::R, Repr::A] {
        all.push(("built".into(), AnyObj::build(&m, r)));
    }
    let mut files = vec![f.bytes];
    for _ in 0..3 {
        let fancy = *cx.rng.pick(&[0usize, 1, 3]);
        let f = Enc::new(&mut cx.rng, fancy).write(std::slice::from_ref(&m));
        if f.objs.len() == 1 && f.objs[0].diff(&m).is_none() {
            files.push(f.bytes);
        }
    }
    for (i, b) in files.iter().enumerate() {
        let arc = must("reading", || osmio::arcpbf::PBFReader::new(&b[..]).objects().collect::<Vec<_>>())?;
        let string = must("reading", || osmio::stringpbf::PBFReader::new(&b[..]).objects().collect::<Vec<_>>())?;
        for o in arc {
            all.push((format!("from PBF file {}", i), AnyObj::A(o)));
        }
        for o in string {
            all.push((format!("from PBF file {}", i), AnyObj::S(o)));
        }
        cx.count("objects from PBF", 2);
    }
    if xml_ok {
        for _ in 0..2 {
            let mut w = W::new(&mut cx.rng, 2);
            w.osm(std::slice::from_ref(&m));
            let doc = w.out.into_bytes();
            let objs = must("reading", || osmio::xml::XMLReader::new(&doc[..]).objects().collect::<Vec<_>>())?;
            for o in objs {
                all.push(("from XML".into(), AnyObj::S(o)));
                cx.count("objects from XML", 1);
            }
        }
    }
    for i in 0..all.len() {
        let s = match &all[i].1 {
            AnyObj::S(_) => continue,
            AnyObj::R(o) => {
                let o = o.clone();
                must("conversion", || StringOSMObj::from(o))?
            }
            AnyObj::A(o) => {
                let o = o.clone();
                must("conversion", || StringOSMObj::from(o))?
            }
        };
        all.push((format!("converted, which was {}", all[i].0), AnyObj::S(s)));
        cx.count("objects converted", 1);
    }
    for i in 0..all.len() {
        let (name, mut o) = all[i].clone();
        let mut now = m.clone();
        must("edits", || {
            for _ in 0..cx.rng.below(6) {
                let mut e = p17::make(&mut cx.rng, &now);
                if matches!(e, p17::Edit::Ts(_)) {
                    e = p17::Edit::Ts(None);
                }
                p17::apply_any_obj(&mut o, &e);
                p17::apply_model(&mut now, &e);
            }
            restore(&mut cx.rng, &mut o, &now, &m);
        })?;
        all.push((format!("edited to and fro, which was {}", name), o));
        cx.count("equal after edits", 1);
    }
    for (n, o) in &all {
        // other properties are about this, but it is what is compared here
        if let Some(d) = m.diff(&must("getters", || o.observe())?) {
            return Err(format!("{}: {}", n, d));
        }
    }
    for i in 0..all.len() {
        for j in i..all.len() {
            let ((na, a), (nb, b)) = (&all[i], &all[j]);
            judge(cx, na, a, &m, nb, b, &m)?;
        }
    }
    // one of them edited
    for _ in 0..4 {
        let (name, mut o) = all[cx.rng.below(all.len())].clone();
        let mut now = m.clone();
        let e = p17::make(&mut cx.rng, &now);
        if matches!(e, p17::Edit::Ts(Some(_))) {
            continue;
        }
        must("edit", || p17::apply_any_obj(&mut o, &e))?;
        p17::apply_model(&mut now, &e);
        for (n, other) in &all {
            judge(cx, &format!("{}, then {}", name, short(&e)), &o, &now, n, other, &m)?;
        }
    }
    cx.seen_of(&m);
    cx.sample(|| json!({"object": short(&m), "ways": all.iter().map(|x| format!("{:?} {}", x.1.repr(), x.0)).collect::<Vec<_>>()}));
    Ok(())
}

/// From a small space
fn small(rng: &mut Rng, kind: Kind) -> MObj {
    let mut m = MObj::new(kind, *rng.pick(&[0i64, 1, -1, 1 << 32, i64::MIN, i64::MAX]));
    let ends = [None, None, Some(0u32), Some(1), Some(u32::MAX), Some(1 << 31)];
    m.version = *rng.pick(&ends);
    m.changeset = *rng.pick(&ends);
    m.uid = *rng.pick(&ends);
    m.deleted = rng.bool();
    let texts = ["", "a", "A", "a ", "b", "a rather long text which is not stored inline", "a rather long text which is not stored inlinE"];
    m.user = rng.bool().then(|| rng.pick(&texts).to_string());
    m.ts = match rng.below(3) {
        0 => None,
        _ => {
            let t = *rng.pick(&[0i64, 1, -1, 1_600_000_000, 1 << 33]);
            Some(if rng.bool() { Ts::Epoch(t) } else { Ts::Iso(gen::iso_with_offset(rng, t)) })
        }
    };
    for _ in 0..*rng.pick(&[0usize, 0, 1, 2, 3]) {
        let k = rng.pick(&texts).to_string();
        if m.tags.iter().all(|t| t.0 != k) {
            m.tags.push((k, rng.pick(&texts).to_string()));
        }
    }
    match kind {
        Kind::Node => {
            m.latlon = rng
                .chance(2, 3)
                .then(|| (*rng.pick(&[0, 1, -1, i32::MAX, i32::MIN]), *rng.pick(&[0, 1, -1, i32::MAX, i32::MIN])))
        }
        Kind::Way => {
            let n = *rng.pick(&[0usize, 1, 2, 6, 7]);
            m.nodes = (0..n).map(|_| *rng.pick(&[0i64, 1, 1 << 32, -1])).collect();
        }
        Kind::Rel => {
            let n = *rng.pick(&[0usize, 1, 2, 3]);
            m.members = (0..n)
                .map(|_| (*rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]), *rng.pick(&[0i64, 1, 1 << 32]), rng.pick(&texts).to_string()))
                .collect();
        }
    }
    m
}

/// One field taken from another object
fn vary(rng: &mut Rng, m: &mut MObj, other: &MObj) -> &'static str {
    macro_rules! from {
        ($f:ident) => {{
            m.$f = other.$f.clone();
            stringify!($f)
        }};
    }
    match rng.below(13) {
        0 => from!(id),
        1 => from!(version),
        2 => from!(changeset),
        3 => from!(uid),
        4 => {
            m.deleted = !m.deleted;
            "deleted"
        }
        5 => from!(user),
        6 => from!(ts),
        7 => from!(tags),
        8 if m.kind == other.kind && m.kind == Kind::Node => from!(latlon),
        8 if m.kind == other.kind && m.kind == Kind::Way => from!(nodes),
        8 if m.kind == other.kind => from!(members),
        9 => {
            if let Some(t) = m.tags.last_mut() {
                t.1.push('x');
            }
            "value"
        }
        10 => {
            match m.kind {
                Kind::Node => m.latlon = m.latlon.map(|(a, b)| (b, a)),
                Kind::Way => m.nodes.reverse(),
                Kind::Rel => m.members.reverse(),
            }
            "order"
        }
        11 => {
            // the same strings in another place
            if let Some(t) = m.tags.first_mut() {
                *t = (t.1.clone(), t.0.clone());
            }
            m.tags.truncate(1);
            "sides of a tag"
        }
        _ => "nothing",
    }
}

fn pairs(cx: &mut Cx) -> Result<(), String> {
    let kind = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let a = small(&mut cx.rng, kind);
    let mut ms = vec![("the first".to_string(), a.clone())];
    for _ in 0..12 {
        let mut m = a.clone();
        let k = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
        let k = if cx.rng.chance(2, 3) { kind } else { k };
        let other = small(&mut cx.rng, k);
        let mut what = vec![];
        for _ in 0..1 + cx.rng.below(2) {
            what.push(vary(&mut cx.rng, &mut m, &other));
        }
        ms.push((what.join(", "), m));
        if cx.rng.chance(1, 6) {
            ms.push(("another".into(), other));
        }
    }
    // the same fields on another kind of object
    let mut m = a.clone();
    m.kind = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    if m.kind != kind {
        m.latlon = None;
        m.nodes.clear();
        m.members.clear();
        ms.push(("another kind".into(), m));
    }
    let r = *cx.rng.pick(&[Repr::S, Repr::R, Repr::A]);
    let objs: Vec<AnyObj> = must("setters", || ms.iter().map(|m| AnyObj::build(&m.1, r)).collect())?;
    for i in 0..ms.len() {
        for j in 0..=i {
            judge(cx, &ms[i].0, &objs[i], &ms[i].1, &ms[j].0, &objs[j], &ms[j].1)?;
        }
    }
    cx.seen_of(&ms);
    Ok(())
}

fn builders(cx: &mut Cx) -> Result<(), String> {
    let kind = [Kind::Node, Kind::Way, Kind::Rel][cx.idx as usize % 3];
    let cfg = Cfg {
        big: false,
        ..Cfg::any()
    };
    // calls in this order, the later one wins
    let mut calls: Vec<(usize, MObj)> = vec![];
    let n = cx.rng.below(16);
    let from = [gen::object_of(&mut cx.rng, &cfg, kind), small(&mut cx.rng, kind)];
    for _ in 0..n {
        calls.push((cx.rng.below(9), cx.rng.pick(&from).clone()));
    }
    if cx.rng.chance(3, 4) {
        let at = cx.rng.below(calls.len() + 1);
        calls.insert(at, (0, from[0].clone()));
    }
    let mut want = MObj::new(kind, 0);
    let mut has_id = false;
    for (c, m) in &calls {
        match c {
            0 => {
                has_id = true;
                want.id = m.id
            }
            1 if m.version.is_some() => want.version = m.version,
            2 => want.deleted = m.deleted,
            3 if m.changeset.is_some() => want.changeset = m.changeset,
            4 if m.ts.is_some() => want.ts = m.ts.clone(),
            5 if m.uid.is_some() => want.uid = m.uid,
            6 if m.user.is_some() => want.user = m.user.clone(),
            7 => want.tags = m.tags.clone(),
            8 if kind == Kind::Node && m.latlon.is_some() => want.latlon = m.latlon,
            8 if kind == Kind::Way => want.nodes = m.nodes.clone(),
            8 if kind == Kind::Rel => want.members = m.members.clone(),
            _ => {}
        }
    }
    macro_rules! base {
        ($b:ident, $c:ident, $m:ident, $special:expr) => {
            match $c {
                0 => drop($b._id($m.id)),
                1 => drop($m.version.map(|x| drop($b._version(x)))),
                2 => drop($b._deleted($m.deleted)),
                3 => drop($m.changeset.map(|x| drop($b._changeset_id(x)))),
                4 => drop($m.ts.as_ref().map(|x| drop($b._timestamp(x.to_osm())))),
                5 => drop($m.uid.map(|x| drop($b._uid(x)))),
                6 => drop($m.user.as_ref().map(|x| drop($b._user(x.as_str().into())))),
                7 => drop($b._tags($m.tags.iter().map(|(k, v)| (k.as_str().into(), v.as_str().into())).collect())),
                _ => $special,
            }
        };
    }
    macro_rules! go {
        ($builder:ident, $look:ident, $b:ident, $m:ident, $special:expr) => {{
            let r = must("builder", || {
                let mut $b = $builder::default();
                for (c, $m) in &calls {
                    base!($b, c, $m, $special);
                }
                ($b.build().map_err(|e| e.to_string()), $b.clone().build().map_err(|e| e.to_string()))
            })?;
            match r {
                (Ok(a), Ok(b)) => {
                    if !has_id {
                        return Err(format!("built without an id: {:?}", short(&$look(&a))));
                    }
                    for o in [&a, &b] {
                        if let Some(d) = want.diff(&$look(o)) {
                            return Err(format!("built: {}; setters called: {:?}", d, calls.iter().map(|c| c.0).collect::<Vec<_>>()));
                        }
                    }
                    if a != b {
                        return Err("two objects of the same builder are not equal".to_string());
                    }
                    cx.count("built", 1);
                }
                (Err(a), Err(_)) => {
                    if has_id {
                        return Err(format!("not built: {}; setters called: {:?}", a, calls.iter().map(|c| c.0).collect::<Vec<_>>()));
                    }
                    cx.count("refused", 1);
                }
                (a, b) => return Err(format!("build(): {:?}, of the cloned builder: {:?}", a, b)),
            }
        }};
    }
    match kind {
        Kind::Node => go!(StringNodeBuilder, observe_node, b, m, drop(latlon(m).map(|x| drop(b._lat_lon(x))))),
        Kind::Way => go!(StringWayBuilder, observe_way, b, m, drop(b._nodes(m.nodes.iter().copied().collect()))),
        Kind::Rel => go!(
            StringRelationBuilder,
            observe_relation,
            b,
            m,
            drop(b._members(m.members.iter().map(|(k, i, r)| (k.osm(), *i, r.as_str().into())).collect()))
        ),
    }
    cx.seen_of(&calls);
    cx.evals(1);
    Ok(())
}

fn changeset_builder(cx: &mut Cx) -> Result<(), String> {
    let c = crate::xmlw::gen_changeset(&mut cx.rng, 7);
    let leave_out: Vec<usize> = if cx.rng.chance(1, 2) { vec![] } else { vec![cx.rng.below(9)] };
    let has = |i: usize| !leave_out.contains(&i);
    let r = must("changeset builder", || {
        let mut b = ChangesetBuilder::default();
        let mut order: Vec<usize> = (0..9).filter(|i| has(*i)).collect();
        cx.rng.shuffle(&mut order);
        for i in order {
            match i {
                0 => drop(b.id(c.id)),
                1 => drop(b.created(osmio::TimestampFormat::ISOString(c.created.clone()))),
                2 => drop(b.open(c.open)),
                3 => drop(b.tags(c.tags.iter().cloned().collect())),
                4 => drop(b.num_changes(c.num_changes)),
                5 => drop(b.comments_count(c.comments_count)),
                6 => drop(c.closed.clone().map(|x| drop(b.closed(osmio::TimestampFormat::ISOString(x))))),
                7 => drop(c.uid.map(|x| drop(b.uid(x)))),
                _ => drop(c.user.clone().map(|x| drop(b.user(x)))),
            }
        }
        b.build().map_err(|e| e.to_string())
    })?;
    let needed = (0..6).all(has);
    match r {
        Ok(x) => {
            if !needed {
                return Err(format!("a changeset was built without field {:?}", leave_out));
            }
            let got = crate::rd::cs_of(&x);
            let mut want = c.clone();
            if !has(6) {
                want.closed = None;
            }
            if !has(7) {
                want.uid = None;
            }
            if !has(8) {
                want.user = None;
            }
            let mut tags: Vec<(String, String)> = want.tags.iter().cloned().collect::<std::collections::HashMap<_, _>>().into_iter().collect();
            tags.sort();
            want.tags = tags;
            if got != want {
                return Err(format!("built: {:?} instead of {:?}", got, want));
            }
            cx.count("built", 1);
        }
        Err(e) => {
            if needed {
                return Err(format!("a changeset with all it needs was not built: {}", e));
            }
            cx.count("refused", 1);
        }
    }
    cx.seen_of(&(format!("{:?}", c), leave_out));
    cx.evals(1);
    Ok(())
}
