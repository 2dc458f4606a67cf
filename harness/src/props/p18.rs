//! P18: derived views of objects. P19: conversions to owned objects.

use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::Enc;
use crate::runner::*;
use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::OSMReader;
use serde_json::json;

pub fn views() -> Prop {
    Prop {
        id: "P18",
        level: "exploration",
        rule: "Random objects of every kind and representation (built, read from PBF, and after random edits), with every derived view recomputed from the observed fields by the harness and compared; JSON is parsed back. Type names over all three kinds and random other texts. Distinct by object; non-trivial: it has tags, nodes or members.",
        assumptions: &["where a key is there twice, lookup and JSON may give either of its values"],
        legs: vec![
            leg("objects", 72000, 700000, objects),
            leg("ways", 32000, 300000, ways),
            leg("edited", 20000, 200000, edited),
            leg("from PBF", 12000, 100000, from_pbf),
            leg("type names", 320, 2000, type_names),
        ],
        required: &["objects", "tags", "closed ways", "areas", "closed ways which are no areas", "type names"],
        probes: vec![],
    }
}

pub fn conversions() -> Prop {
    Prop {
        id: "P19",
        level: "exploration",
        rule: "Random Rc and Arc objects of every kind (made by setters, edited, or read from PBF), alone and as any-objects, are converted to their String counterparts and compared with the model in every field. Distinct by object; non-trivial: it has tags, nodes or members.",
        assumptions: &["keys of the object's tags are distinct"],
        legs: vec![
            leg("built", 120000, 1000000, conv_built),
            leg("edited", 24000, 200000, conv_edited),
            leg("from PBF", 16000, 150000, conv_pbf),
        ],
        required: &["converted", "converted from PBF"],
        probes: vec![],
    }
}

fn bad<T>(m: &MObj, what: String) -> Result<T, String> {
    Err(format!("{} {}: {}; object {}", m.kind.name(), m.id, what, short(m)))
}

/// All that every object has
fn base<O: OSMObjBase>(o: &O, m: &MObj, absent: &[String]) -> Result<(), String> {
    let n = m.tags.len();
    if o.num_tags() != n || o.tags().len() != n || o.tags().count() != n {
        return bad(m, format!("{} tags counted as {}, {} and {}", n, o.num_tags(), o.tags().len(), o.tags().count()));
    }
    let mut it = o.tags();
    for left in (0..n).rev() {
        it.next();
        if it.len() != left || it.size_hint() != (left, Some(left)) {
            return bad(m, format!("tags(): {} left and {} reported", left, it.len()));
        }
    }
    if it.next().is_some() {
        return bad(m, "tags() goes on after the last".into());
    }
    if o.tagged() != (n > 0) || o.untagged() != (n == 0) {
        return bad(m, format!("tagged() {}, untagged() {}", o.tagged(), o.untagged()));
    }
    for (k, _) in &m.tags {
        let got = o.tag(k);
        if !o.has_tag(k) || !m.tags.iter().any(|t| t.0 == *k && Some(t.1.as_str()) == got) {
            return bad(m, format!("has_tag({:?}) {}, tag() {:?}", k, o.has_tag(k), got));
        }
    }
    for k in absent {
        if !m.tags.iter().any(|t| t.0 == *k) && (o.has_tag(k) || o.tag(k).is_some()) {
            return bad(m, format!("has_tag({:?}) {}, tag() {:?}, but it is not there", k, o.has_tag(k), o.tag(k)));
        }
    }
    let j = o.tags_json_string();
    let v: serde_json::Value = match serde_json::from_str(&j) {
        Ok(v) => v,
        Err(e) => return bad(m, format!("JSON {}: {}", short(&j), e)),
    };
    let map = match v.as_object() {
        Some(x) => x,
        None => return bad(m, format!("JSON {}", short(&j))),
    };
    for (k, _) in &m.tags {
        let got = map.get(k).and_then(|v| v.as_str());
        if !m.tags.iter().any(|t| t.0 == *k && Some(t.1.as_str()) == got) {
            return bad(m, format!("JSON of tag {:?} is {:?}", k, got));
        }
    }
    for k in map.keys() {
        if !m.tags.iter().any(|t| t.0 == *k) {
            return bad(m, format!("JSON has {:?}", k));
        }
    }
    if o.object_type() != m.kind.osm() {
        return bad(m, format!("object_type() {:?}", o.object_type()));
    }
    Ok(())
}

fn node<N: Node>(o: &N, m: &MObj, absent: &[String]) -> Result<(), String> {
    base(o, m, absent)?;
    if o.has_lat_lon() != m.latlon.is_some() {
        return bad(m, format!("has_lat_lon() {}", o.has_lat_lon()));
    }
    let want = m.latlon.map(|(a, b)| (a as f64, b as f64));
    let ok = match (want, o.lat_lon_f64()) {
        (None, None) => true,
        (Some((a, b)), Some((c, d))) => (c * 1e7 - a).abs() < 1e-4 && (d * 1e7 - b).abs() < 1e-4,
        _ => false,
    };
    if !ok {
        return bad(m, format!("lat_lon_f64() {:?}", o.lat_lon_f64()));
    }
    Ok(())
}

fn way<W: Way>(cx: &mut Cx, o: &W, m: &MObj, absent: &[String]) -> Result<(), String> {
    base(o, m, absent)?;
    let n = m.nodes.len();
    if o.num_nodes() != n || o.nodes() != &m.nodes[..] || o.nids() != &m.nodes[..] {
        return bad(m, format!("{} nodes, num_nodes() {}, nids() {}", n, o.num_nodes(), short(&o.nids())));
    }
    for i in 0..n + 3 {
        if o.node(i) != m.nodes.get(i).copied() {
            return bad(m, format!("node({}) {:?}", i, o.node(i)));
        }
    }
    if o.node(usize::MAX).is_some() {
        return bad(m, "node(usize::MAX) is there".into());
    }
    let closed = n > 0 && m.nodes[0] == m.nodes[n - 1];
    if o.is_closed() != closed {
        return bad(m, format!("is_closed() {}", o.is_closed()));
    }
    // with the key twice, the tag is whichever lookup gives
    let area = closed && o.tag("area") != Some("no");
    if o.is_area() != area {
        return bad(m, format!("is_area() {}", o.is_area()));
    }
    cx.count("closed ways", closed as u64);
    cx.count("areas", area as u64);
    cx.count("closed ways which are no areas", (closed && !area) as u64);
    Ok(())
}

fn relation<R: Relation>(o: &R, m: &MObj, absent: &[String]) -> Result<(), String> {
    base(o, m, absent)?;
    let mut it = o.members();
    for left in (0..m.members.len()).rev() {
        if it.len() != left + 1 {
            return bad(m, format!("members(): {} left and {} reported", left + 1, it.len()));
        }
        it.next();
    }
    if it.len() != 0 || it.next().is_some() {
        return bad(m, "members() goes on after the last".into());
    }
    Ok(())
}

pub(super) fn any<O: OSMObj>(cx: &mut Cx, mut o: O, m: &MObj, absent: &[String]) -> Result<(), String> {
    base(&o, m, absent)?;
    let k = m.kind;
    let is = [o.is_node(), o.is_way(), o.is_relation()];
    let as_ = [o.as_node().is_some(), o.as_way().is_some(), o.as_relation().is_some()];
    let as_mut = [o.as_node_mut().is_some(), o.as_way_mut().is_some(), o.as_relation_mut().is_some()];
    let into = [
        o.clone().into_node().is_some(),
        o.clone().into_way().is_some(),
        o.clone().into_relation().is_some(),
    ];
    let want = [k == Kind::Node, k == Kind::Way, k == Kind::Rel];
    if is != want || as_ != want || as_mut != want || into != want {
        return bad(m, format!("is {:?}, as {:?}, as_mut {:?}, into {:?}", is, as_, as_mut, into));
    }
    match k {
        Kind::Node => {
            node(o.as_node().unwrap(), m, absent)?;
            let x = o.into_node().unwrap();
            if let Some(d) = m.diff(&observe_node(&x)) {
                return bad(m, format!("into_node(): {}", d));
            }
        }
        Kind::Way => {
            way(cx, o.as_way().unwrap(), m, absent)?;
            let x = o.into_way().unwrap();
            if let Some(d) = m.diff(&observe_way(&x)) {
                return bad(m, format!("into_way(): {}", d));
            }
        }
        Kind::Rel => {
            relation(o.as_relation().unwrap(), m, absent)?;
            let x = o.into_relation().unwrap();
            if let Some(d) = m.diff(&observe_relation(&x)) {
                return bad(m, format!("into_relation(): {}", d));
            }
        }
    }
    Ok(())
}

fn check(cx: &mut Cx, o: AnyObj, m: &MObj) -> Result<(), String> {
    let mut absent: Vec<String> = vec!["".into(), "area".into(), "nope".into()];
    for (k, _) in m.tags.iter().take(4) {
        absent.push(format!("{} ", k));
        absent.push(k.to_uppercase());
        let mut x = k.clone();
        x.pop();
        absent.push(x);
    }
    cx.count("objects", 1);
    cx.count("tags", m.tags.len() as u64);
    if !m.trivial() {
        cx.seen_of(m);
    }
    cx.sample(|| json!({"object": short(m)}));
    cx.evals(1);
    must("derived views", || match o {
        AnyObj::S(o) => any(cx, o, m, &absent),
        AnyObj::R(o) => any(cx, o, m, &absent),
        AnyObj::A(o) => any(cx, o, m, &absent),
    })?
}

fn random_repr(cx: &mut Cx) -> Repr {
    *cx.rng.pick(&[Repr::S, Repr::R, Repr::A])
}

fn objects(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::any();
    cfg.dup_keys = cx.rng.chance(1, 4);
    let m = gen::object(&mut cx.rng, &cfg);
    let r = random_repr(cx);
    check(cx, AnyObj::build(&m, r), &m)
}

fn ways(cx: &mut Cx) -> Result<(), String> {
    let mut m = MObj::new(Kind::Way, cx.rng.range(-9, 9));
    let n = *cx.rng.pick(&[0usize, 1, 1, 2, 2, 3, 4, 5, 9, 40]);
    m.nodes = (0..n).map(|_| cx.rng.range(-2, 2)).collect();
    if n > 1 && cx.rng.bool() {
        m.nodes[n - 1] = m.nodes[0];
    }
    let others = ["building", "highway", "Area", "area ", "natural", "areax"];
    for _ in 0..cx.rng.below(3) {
        let k = cx.rng.pick(&others).to_string();
        if !m.tags.iter().any(|t| t.0 == k) {
            m.tags.push((k, "no".into()));
        }
    }
    if cx.rng.bool() {
        let v = cx.rng.pick(&["no", "yes", "", "No", "no ", "highway", "NO", "0", "nope", "false"]).to_string();
        let at = cx.rng.below(m.tags.len() + 1);
        m.tags.insert(at, ("area".into(), v));
    }
    let r = random_repr(cx);
    check(cx, AnyObj::build(&m, r), &m)
}

fn edited(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::any();
    cfg.dup_keys = false;
    cfg.big = false;
    let mut m = gen::object(&mut cx.rng, &cfg);
    let r = random_repr(cx);
    let mut o = AnyObj::build(&m, r);
    for _ in 0..cx.rng.range(1, 8) {
        super::p17::random_edit(&mut cx.rng, &mut o, &mut m);
        check(cx, o.clone(), &m)?;
    }
    Ok(())
}

fn from_pbf(cx: &mut Cx) -> Result<(), String> {
    let objs = crate::pbfw::gen_objects(&mut cx.rng, 6, false);
    let f = Enc::new(&mut cx.rng, 0).write(&objs);
    cx.evals(0);
    let a: Vec<ArcOSMObj> = must("reading", || {
        osmio::arcpbf::PBFReader::new(&f.bytes[..]).objects().collect()
    })?;
    let s: Vec<StringOSMObj> = must("reading", || {
        osmio::stringpbf::PBFReader::new(&f.bytes[..]).objects().collect()
    })?;
    if a.len() != f.objs.len() || s.len() != f.objs.len() {
        return Err(format!("{} and {} objects read of {}", a.len(), s.len(), f.objs.len()));
    }
    for ((a, s), m) in a.into_iter().zip(s).zip(&f.objs) {
        check(cx, AnyObj::A(a), m)?;
        check(cx, AnyObj::S(s), m)?;
    }
    Ok(())
}

fn type_names(cx: &mut Cx) -> Result<(), String> {
    for k in [Kind::Node, Kind::Way, Kind::Rel] {
        let t = k.osm();
        let c = t.name_short();
        let l = t.name_long().to_string();
        let e = |m: String| Err(format!("type {}: {}", k.name(), m));
        if l != k.name() || c != k.name().chars().next().unwrap() {
            return e(format!("names {:?} {:?}", c, l));
        }
        if format!("{}", t) != l || format!("{:?}", t) != c.to_string() {
            return e(format!("displays as {} {:?}", t, t));
        }
        if OSMObjectType::try_from(c) != Ok(t)
            || c.to_string().parse::<OSMObjectType>() != Ok(t)
            || l.parse::<OSMObjectType>() != Ok(t)
        {
            return e("does not convert back".into());
        }
        let j = serde_json::to_string(&t).map_err(|e| e.to_string())?;
        if serde_json::from_str::<OSMObjectType>(&j).map_err(|e| e.to_string())? != t {
            return e(format!("JSON {}", j));
        }
    }
    for _ in 0..50 {
        let s = gen::string(&mut cx.rng, gen::Chars::Any);
        if !["n", "w", "r", "node", "way", "relation", "rel"].contains(&s.as_str())
            && s.chars().any(|c| !c.is_ascii_alphabetic())
            && s.parse::<OSMObjectType>().is_ok()
        {
            return Err(format!("{:?} is taken for a type", s));
        }
        let c = gen::xchar(&mut cx.rng, gen::Chars::Any);
        if !c.is_ascii_alphabetic() && OSMObjectType::try_from(c).is_ok() {
            return Err(format!("{:?} is taken for a type", c));
        }
        cx.seen_of(&(s, c));
    }
    cx.count("type names", 3);
    cx.evals(53);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn same<T>(cx: &mut Cx, m: &MObj, what: &str, look: impl Fn(&T) -> MObj, f: impl FnOnce() -> T) -> Result<(), String> {
    let o = must(what, f)?;
    let got = must("getters", || look(&o))?;
    cx.count("converted", 1);
    cx.evals(1);
    match m.diff(&got) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}; object {}", what, d, short(m))),
    }
}

fn convert(cx: &mut Cx, o: AnyObj, m: &MObj) -> Result<(), String> {
    cx.evals(0);
    if !m.trivial() {
        cx.seen_of(&(m, o.repr()));
    }
    cx.sample(|| json!({"object": short(m)}));
    macro_rules! go {
        ($o:expr, $n:expr) => {{
            let o = $o;
            match m.kind {
                Kind::Node => {
                    let x = o.clone().into_node().ok_or("into_node() gives nothing")?;
                    same(cx, m, concat!($n, " node"), |o: &StringNode| observe_node(o), || x.into())?;
                }
                Kind::Way => {
                    let x = o.clone().into_way().ok_or("into_way() gives nothing")?;
                    same(cx, m, concat!($n, " way"), |o: &StringWay| observe_way(o), || x.into())?;
                }
                Kind::Rel => {
                    let x = o.clone().into_relation().ok_or("into_relation() gives nothing")?;
                    same(cx, m, concat!($n, " relation"), |o: &StringRelation| observe_relation(o), || x.into())?;
                }
            }
            same(cx, m, concat!($n, " any-object"), |o: &StringOSMObj| observe(o), || o.into())
        }};
    }
    match o {
        AnyObj::R(o) => go!(o, "Rc"),
        AnyObj::A(o) => go!(o, "Arc"),
        AnyObj::S(o) => {
            // a kind as any-object
            match m.kind {
                Kind::Node => {
                    let x = o.into_node().ok_or("into_node() gives nothing")?;
                    same(cx, m, "String node", |o: &StringOSMObj| observe(o), || x.into())
                }
                Kind::Way => {
                    let x = o.into_way().ok_or("into_way() gives nothing")?;
                    same(cx, m, "String way", |o: &StringOSMObj| observe(o), || x.into())
                }
                Kind::Rel => {
                    let x = o.into_relation().ok_or("into_relation() gives nothing")?;
                    same(cx, m, "String relation", |o: &StringOSMObj| observe(o), || x.into())
                }
            }
        }
    }
}

fn conv_built(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::any();
    cfg.dup_keys = false;
    let m = if cx.rng.chance(1, 10) {
        MObj::new(*cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]), 1)
    } else {
        gen::object(&mut cx.rng, &cfg)
    };
    let r = *cx.rng.pick(&[Repr::R, Repr::A, Repr::R, Repr::A, Repr::S]);
    convert(cx, AnyObj::build(&m, r), &m)
}

fn conv_edited(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::any();
    cfg.dup_keys = false;
    cfg.big = false;
    let mut m = gen::object(&mut cx.rng, &cfg);
    let r = *cx.rng.pick(&[Repr::R, Repr::A]);
    let mut o = AnyObj::build(&m, r);
    for _ in 0..cx.rng.range(1, 8) {
        super::p17::random_edit(&mut cx.rng, &mut o, &mut m);
    }
    convert(cx, o, &m)
}

fn conv_pbf(cx: &mut Cx) -> Result<(), String> {
    let objs = crate::pbfw::gen_objects(&mut cx.rng, 8, true);
    let f = Enc::new(&mut cx.rng, 0).write(&objs);
    cx.evals(0);
    let a: Vec<ArcOSMObj> = must("reading", || {
        osmio::arcpbf::PBFReader::new(&f.bytes[..]).objects().collect()
    })?;
    if a.len() != f.objs.len() {
        return Err(format!("{} objects read of {}", a.len(), f.objs.len()));
    }
    for (a, m) in a.into_iter().zip(&f.objs) {
        convert(cx, AnyObj::A(a), m)?;
        cx.count("converted from PBF", 1);
    }
    Ok(())
}
