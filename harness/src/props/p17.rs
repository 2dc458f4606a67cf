//! P17: objects as fields and an ordered tag map.

use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::Enc;
use crate::rng::Rng;
use crate::runner::*;
use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::{Lat, Lon, OSMReader};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "P17",
        level: "exploration",
        rule: "Random sequences of edits (every setter, tags set and unset, metadata stripped, clones made, edited and dropped) on every kind and representation, direct and inside the any-object types, run against the reference model; after each edit the edited object, and at intervals every clone, is compared in all fields. Objects which share one string table come from the Arc PBF reader. Distinct by start object and edits; non-trivial: at least one edit.",
        assumptions: &["keys of the object's tags are distinct to begin with"],
        legs: vec![
            leg("direct", 72000, 700000, direct),
            leg("any object", 40000, 400000, any_object),
            leg("shared strings", 9600, 80000, shared),
            leg("many tags", 480, 3000, many_tags),
        ],
        required: &["edits", "clones", "tags replaced", "tags removed", "objects from PBF"],
        probes: vec![],
    }
}

#[derive(Clone, Debug, Hash)]
pub enum Edit {
    Id(i64),
    Version(Option<u32>),
    Deleted(bool),
    Changeset(Option<u32>),
    Ts(Option<Ts>),
    Uid(Option<u32>),
    User(Option<String>),
    Tag(String, String),
    Untag(String),
    Strip,
    LatLon(Option<(i32, i32)>),
    UnsetLatLon,
    Nodes(Vec<i64>),
    Members(Vec<(Kind, i64, String)>),
}

pub fn make(rng: &mut Rng, m: &MObj) -> Edit {
    let cfg = Cfg::any();
    let key = |rng: &mut Rng| -> String {
        if !m.tags.is_empty() && rng.chance(2, 3) {
            m.tags[rng.below(m.tags.len())].0.clone()
        } else if rng.bool() {
            rng.pick(&["a", "b", "c", "", "A", "a ", "highway"]).to_string()
        } else {
            gen::string(rng, cfg.chars)
        }
    };
    let special = rng.chance(1, 5);
    if special {
        match m.kind {
            Kind::Node if rng.chance(1, 4) => return Edit::UnsetLatLon,
            Kind::Node => {
                return Edit::LatLon(if rng.chance(1, 4) {
                    None
                } else {
                    Some((gen::coord(rng), gen::coord(rng)))
                })
            }
            Kind::Way => {
                let n = gen::count(rng, false);
                return Edit::Nodes((0..n).map(|_| gen::i64_edge(rng, i64::MAX)).collect());
            }
            Kind::Rel => {
                let mut x = gen::object_of(rng, &Cfg { big: false, ..cfg }, Kind::Rel);
                return Edit::Members(std::mem::take(&mut x.members));
            }
        }
    }
    match rng.below(14) {
        0 => Edit::Id(gen::i64_edge(rng, i64::MAX)),
        1 => Edit::Version(rng.bool().then(|| gen::u32_edge(rng, false))),
        2 => Edit::Deleted(rng.bool()),
        3 => Edit::Changeset(rng.bool().then(|| gen::u32_edge(rng, false))),
        4 => Edit::Ts(rng.bool().then(|| gen::timestamp(rng, &cfg))),
        5 => Edit::Uid(rng.bool().then(|| gen::u32_edge(rng, false))),
        6 => Edit::User(rng.bool().then(|| gen::string(rng, cfg.chars))),
        7 => Edit::Strip,
        8 | 9 => Edit::Untag(key(rng)),
        _ => {
            let k = key(rng);
            Edit::Tag(k, gen::string(rng, cfg.chars))
        }
    }
}

pub fn apply_model(m: &mut MObj, e: &Edit) {
    match e.clone() {
        Edit::Id(x) => m.id = x,
        Edit::Version(x) => m.version = x,
        Edit::Deleted(x) => m.deleted = x,
        Edit::Changeset(x) => m.changeset = x,
        Edit::Ts(x) => m.ts = x,
        Edit::Uid(x) => m.uid = x,
        Edit::User(x) => m.user = x,
        Edit::Tag(k, v) => match m.tags.iter_mut().find(|t| t.0 == k) {
            Some(t) => t.1 = v,
            None => m.tags.push((k, v)),
        },
        Edit::Untag(k) => m.tags.retain(|t| t.0 != k),
        Edit::Strip => {
            m.uid = None;
            m.user = None;
            m.changeset = None;
        }
        Edit::LatLon(x) => m.latlon = x,
        Edit::UnsetLatLon => m.latlon = None,
        Edit::Nodes(x) => m.nodes = x,
        Edit::Members(x) => m.members = x,
    }
}

/// False if it is for one kind only
fn apply_base<O: OSMObjBase>(o: &mut O, e: &Edit) -> bool {
    match e {
        Edit::Id(x) => o.set_id(*x),
        Edit::Version(x) => o.set_version(*x),
        Edit::Deleted(x) => o.set_deleted(*x),
        Edit::Changeset(x) => o.set_changeset_id(*x),
        Edit::Ts(x) => o.set_timestamp(x.as_ref().map(|t| t.to_osm())),
        Edit::Uid(x) => o.set_uid(*x),
        Edit::User(x) => o.set_user(x.as_deref()),
        Edit::Tag(k, v) => o.set_tag(k, v.as_str()),
        Edit::Untag(k) => o.unset_tag(k),
        Edit::Strip => o.strip_metadata(),
        _ => return false,
    }
    true
}

fn apply_node<N: Node>(o: &mut N, e: &Edit) {
    if !apply_base(o, e) {
        match e {
            Edit::LatLon(x) => {
                o.set_lat_lon_direct(x.map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b))))
            }
            Edit::UnsetLatLon => o.unset_lat_lon(),
            _ => unreachable!(),
        }
    }
}
fn apply_way<W: Way>(o: &mut W, e: &Edit) {
    if !apply_base(o, e) {
        match e {
            Edit::Nodes(x) => o.set_nodes(x.iter().copied()),
            _ => unreachable!(),
        }
    }
}
fn apply_rel<R: Relation>(o: &mut R, e: &Edit) {
    if !apply_base(o, e) {
        match e {
            Edit::Members(x) => o.set_members(x.iter().map(|(k, i, r)| (k.osm(), *i, r.as_str()))),
            _ => unreachable!(),
        }
    }
}
/// Through the any-object type, or through the kind inside
fn apply_any<O: OSMObj>(o: &mut O, e: &Edit, inside: bool) {
    if !inside && apply_base(o, e) {
        return;
    }
    if let Some(n) = o.as_node_mut() {
        apply_node(n, e);
    } else if let Some(w) = o.as_way_mut() {
        apply_way(w, e);
    } else if let Some(r) = o.as_relation_mut() {
        apply_rel(r, e);
    } else {
        panic!("the object is of no kind");
    }
}

pub fn apply_any_obj(o: &mut AnyObj, e: &Edit) {
    match o {
        AnyObj::S(o) => apply_any(o, e, false),
        AnyObj::R(o) => apply_any(o, e, false),
        AnyObj::A(o) => apply_any(o, e, false),
    }
}

/// A random edit of an object, made on both
pub fn random_edit(rng: &mut Rng, o: &mut AnyObj, m: &mut MObj) {
    let e = make(rng, m);
    apply_any_obj(o, &e);
    apply_model(m, &e);
}

struct Family<T> {
    /// the objects alive, with what each should be
    all: Vec<(T, MObj)>,
    log: Vec<String>,
}

fn check<T>(what: &str, log: &[String], o: &T, m: &MObj, look: &impl Fn(&T) -> MObj) -> Result<(), String> {
    let got = must("getters", || look(o))?;
    match m.diff(&got) {
        None => Ok(()),
        Some(d) => {
            let n = log.len();
            Err(format!("{}: {}; the last edits: {:?}", what, d, &log[n.saturating_sub(8)..]))
        }
    }
}

/// Edits and clones
fn run<T: Clone + PartialEq>(
    cx: &mut Cx,
    name: &str,
    start: Vec<(T, MObj)>,
    look: impl Fn(&T) -> MObj,
    apply: impl Fn(&mut Rng, &mut T, &Edit),
) -> Result<(), String> {
    let mut f = Family { all: start, log: vec![] };
    for (o, m) in &f.all {
        check(&format!("{} at first", name), &f.log, o, m, &look)?;
    }
    let mut h = vec![];
    let n = *cx.rng.pick(&[3usize, 12, 40]);
    for step in 0..n {
        if cx.rng.chance(1, 9) && f.all.len() < 6 {
            let i = cx.rng.below(f.all.len());
            let c = must("clone", || f.all[i].0.clone())?;
            if !must("eq", || c == f.all[i].0)? {
                return Err(format!("{}: a clone is not equal to its original", name));
            }
            f.log.push(format!("clone {} as {}", i, f.all.len()));
            let m = f.all[i].1.clone();
            f.all.push((c, m));
            cx.count("clones", 1);
            continue;
        }
        if cx.rng.chance(1, 30) && f.all.len() > 1 {
            let i = cx.rng.below(f.all.len());
            f.log.push(format!("drop {}", i));
            f.all.swap_remove(i);
            continue;
        }
        let i = cx.rng.below(f.all.len());
        let (o, m) = &mut f.all[i];
        let e = make(&mut cx.rng, m);
        match &e {
            Edit::Tag(k, _) => {
                let c = m.tags.iter().any(|t| t.0 == *k);
                cx.count(if c { "tags replaced" } else { "tags added" }, 1)
            }
            Edit::Untag(k) => cx.count("tags removed", m.tags.iter().any(|t| t.0 == *k) as u64),
            _ => {}
        }
        f.log.push(short(&format!("{}: {:?}", i, e)));
        h.push(e.clone());
        apply_model(m, &e);
        must("edit", || apply(&mut cx.rng, o, &e))
            .map_err(|x| format!("{}: {} at {:?}", name, x, f.log.last()))?;
        check(&format!("{} after edit {}", name, step), &f.log, o, m, &look)?;
        cx.count("edits", 1);
        if cx.rng.chance(1, 4) {
            for (j, (o, m)) in f.all.iter().enumerate() {
                if j != i {
                    check(&format!("{} #{} after edit {} of #{}", name, j, step, i), &f.log, o, m, &look)?;
                }
            }
        }
    }
    for (j, (o, m)) in f.all.iter().enumerate() {
        check(&format!("{} #{} at last", name, j), &f.log, o, m, &look)?;
    }
    if !h.is_empty() {
        cx.seen_of(&(name, h));
    }
    cx.sample(|| json!({"type": name, "edits": f.log}));
    cx.evals(n as u64);
    Ok(())
}

fn start(cx: &mut Cx, kind: Kind) -> MObj {
    let mut cfg = Cfg::any();
    cfg.big = false;
    cfg.dup_keys = false;
    if cx.rng.chance(1, 3) {
        let mut m = MObj::new(kind, gen::i64_edge(&mut cx.rng, i64::MAX));
        m.deleted = cx.rng.bool();
        m
    } else {
        gen::object_of(&mut cx.rng, &cfg, kind)
    }
}

fn direct(cx: &mut Cx) -> Result<(), String> {
    let kind = [Kind::Node, Kind::Way, Kind::Rel][cx.idx as usize % 3];
    let m = start(cx, kind);
    let r = [Repr::S, Repr::R, Repr::A][cx.idx as usize / 3 % 3];
    macro_rules! go {
        ($o:expr) => {
            match kind {
                Kind::Node => {
                    let o = $o.into_node().ok_or("into_node() gives nothing")?;
                    run(cx, &format!("{:?} node", r), vec![(o, m)], observe_node, |_, o, e| apply_node(o, e))
                }
                Kind::Way => {
                    let o = $o.into_way().ok_or("into_way() gives nothing")?;
                    run(cx, &format!("{:?} way", r), vec![(o, m)], observe_way, |_, o, e| apply_way(o, e))
                }
                Kind::Rel => {
                    let o = $o.into_relation().ok_or("into_relation() gives nothing")?;
                    run(cx, &format!("{:?} relation", r), vec![(o, m)], observe_relation, |_, o, e| apply_rel(o, e))
                }
            }
        };
    }
    match AnyObj::build(&m, r) {
        AnyObj::S(o) => go!(o),
        AnyObj::R(o) => go!(o),
        AnyObj::A(o) => go!(o),
    }
}

fn any_object(cx: &mut Cx) -> Result<(), String> {
    let kind = [Kind::Node, Kind::Way, Kind::Rel][cx.idx as usize % 3];
    let m = start(cx, kind);
    let r = [Repr::S, Repr::R, Repr::A][cx.idx as usize / 3 % 3];
    let name = format!("{:?} any-object", r);
    match AnyObj::build(&m, r) {
        AnyObj::S(o) => run(cx, &name, vec![(o, m)], observe, |rng, o, e| apply_any(o, e, rng.bool())),
        AnyObj::R(o) => run(cx, &name, vec![(o, m)], observe, |rng, o, e| apply_any(o, e, rng.bool())),
        AnyObj::A(o) => run(cx, &name, vec![(o, m)], observe, |rng, o, e| apply_any(o, e, rng.bool())),
    }
}

/// The objects of one block share its strings
fn shared(cx: &mut Cx) -> Result<(), String> {
    let objs = crate::pbfw::gen_objects(&mut cx.rng, 6, true);
    let f = Enc::new(&mut cx.rng, 0).write(&objs);
    if f.objs.is_empty() {
        return Ok(());
    }
    cx.count("objects from PBF", f.objs.len() as u64);
    if cx.rng.chance(3, 4) {
        let got: Vec<ArcOSMObj> = must("reading", || {
            osmio::arcpbf::PBFReader::new(&f.bytes[..]).objects().collect()
        })?;
        if got.len() != f.objs.len() {
            return Err(format!("{} objects read of {}", got.len(), f.objs.len()));
        }
        let s = got.into_iter().zip(f.objs).collect();
        run(cx, "Arc objects from PBF", s, observe, |rng, o, e| apply_any(o, e, rng.bool()))
    } else {
        let got: Vec<StringOSMObj> = must("reading", || {
            osmio::stringpbf::PBFReader::new(&f.bytes[..]).objects().collect()
        })?;
        if got.len() != f.objs.len() {
            return Err(format!("{} objects read of {}", got.len(), f.objs.len()));
        }
        let s = got.into_iter().zip(f.objs).collect();
        run(cx, "objects from PBF", s, observe, |rng, o, e| apply_any(o, e, rng.bool()))
    }
}

/// More tags, nodes and members than any inline storage has room for
fn many_tags(cx: &mut Cx) -> Result<(), String> {
    let kind = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let mut m = MObj::new(kind, 1);
    let r = *cx.rng.pick(&[Repr::S, Repr::R, Repr::A]);
    let mut o = AnyObj::build(&m, r);
    let n = cx.rng.range(50, 300);
    let mut log = vec![];
    for i in 0..n * 3 {
        let k = format!("key{}", cx.rng.below(n as usize));
        let e = if i > n && cx.rng.chance(1, 3) {
            Edit::Untag(k)
        } else {
            Edit::Tag(k, i.to_string())
        };
        must("edit", || apply_any_obj(&mut o, &e))?;
        apply_model(&mut m, &e);
        log.push(format!("{:?}", e));
        if i % 16 == 0 {
            check("many tags", &log, &o, &m, &|o: &AnyObj| o.observe())?;
        }
        cx.count("edits", 1);
    }
    check("many tags", &log, &o, &m, &|o: &AnyObj| o.observe())?;
    cx.seen_of(&log);
    cx.evals(n as u64 * 3);
    Ok(())
}
