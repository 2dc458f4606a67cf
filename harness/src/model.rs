//! The reference model: what an OSM object is, independent of the representations of osmio.

use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::{Lat, Lon, OSMObj, TimestampFormat};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Node,
    Way,
    Rel,
}

impl Kind {
    pub fn osm(self) -> OSMObjectType {
        match self {
            Kind::Node => OSMObjectType::Node,
            Kind::Way => OSMObjectType::Way,
            Kind::Rel => OSMObjectType::Relation,
        }
    }
    pub fn of(t: OSMObjectType) -> Kind {
        match t {
            OSMObjectType::Node => Kind::Node,
            OSMObjectType::Way => Kind::Way,
            OSMObjectType::Relation => Kind::Rel,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Node => "node",
            Kind::Way => "way",
            Kind::Rel => "relation",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Ts {
    Epoch(i64),
    Iso(String),
}

impl Ts {
    pub fn instant(&self) -> Option<i64> {
        match self {
            Ts::Epoch(t) => Some(*t),
            Ts::Iso(s) => crate::time::parse_rfc3339(s),
        }
    }
    pub fn to_osm(&self) -> TimestampFormat {
        match self {
            Ts::Epoch(t) => TimestampFormat::EpochNumber(*t),
            Ts::Iso(s) => TimestampFormat::ISOString(s.clone()),
        }
    }
    pub fn of(t: &TimestampFormat) -> Ts {
        match t {
            TimestampFormat::EpochNumber(t) => Ts::Epoch(*t),
            TimestampFormat::ISOString(s) => Ts::Iso(s.clone()),
        }
    }
    /// The same timestamp: the same instant, or the same text if it is no valid timestamp
    pub fn same(&self, other: &Ts) -> bool {
        match (self.instant(), other.instant()) {
            (Some(a), Some(b)) => a == b,
            (None, None) => self == other,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct MObj {
    pub kind: Kind,
    pub id: i64,
    pub version: Option<u32>,
    pub deleted: bool,
    pub changeset: Option<u32>,
    pub ts: Option<Ts>,
    pub uid: Option<u32>,
    pub user: Option<String>,
    pub tags: Vec<(String, String)>,
    pub latlon: Option<(i32, i32)>,
    pub nodes: Vec<i64>,
    pub members: Vec<(Kind, i64, String)>,
}

impl MObj {
    pub fn new(kind: Kind, id: i64) -> MObj {
        MObj {
            kind,
            id,
            version: None,
            deleted: false,
            changeset: None,
            ts: None,
            uid: None,
            user: None,
            tags: vec![],
            latlon: None,
            nodes: vec![],
            members: vec![],
        }
    }
    /// What is different between the expected `self` and the observed `got`
    pub fn diff(&self, got: &MObj) -> Option<String> {
        macro_rules! cmp {
            ($($f:ident),*) => { $(
                if self.$f != got.$f {
                    return Some(format!("{} {}: {} should be {} but is {}", self.kind.name(), self.id,
                        stringify!($f), short(&self.$f), short(&got.$f)));
                }
            )* };
        }
        cmp!(kind, id, version, deleted, changeset, uid, user, tags, latlon, nodes, members);
        let ts_same = match (&self.ts, &got.ts) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        };
        if !ts_same {
            return Some(format!(
                "{} {}: timestamp should be {:?} but is {:?}",
                self.kind.name(),
                self.id,
                self.ts,
                got.ts
            ));
        }
        None
    }
    pub fn trivial(&self) -> bool {
        self.tags.is_empty() && self.nodes.is_empty() && self.members.is_empty()
    }
}

pub fn short(x: &impl std::fmt::Debug) -> String {
    let s = format!("{:?}", x);
    if s.len() > 400 {
        let mut i = 400;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}… ({} bytes)", &s[..i], s.len())
    } else {
        s
    }
}

/// Compare a whole stream
pub fn diff_list(expected: &[MObj], got: &[MObj]) -> Option<String> {
    for (i, (e, g)) in expected.iter().zip(got).enumerate() {
        if let Some(d) = e.diff(g) {
            return Some(format!("object #{} of {}: {}", i, expected.len(), d));
        }
    }
    if expected.len() != got.len() {
        return Some(format!(
            "{} objects expected but {} returned",
            expected.len(),
            got.len()
        ));
    }
    None
}

/// `got` must be an unchanged prefix
pub fn diff_prefix(expected: &[MObj], got: &[MObj]) -> Option<String> {
    if got.len() > expected.len() {
        return Some(format!(
            "{} objects returned, but there are only {}",
            got.len(),
            expected.len()
        ));
    }
    diff_list(&expected[..got.len()], got)
}

// ---------------------------------------------------------------------------------------------
// observing objects of osmio

fn observe_base(o: &impl OSMObjBase) -> MObj {
    MObj {
        kind: Kind::of(o.object_type()),
        id: o.id(),
        version: o.version(),
        deleted: o.deleted(),
        changeset: o.changeset_id(),
        ts: o.timestamp().as_ref().map(Ts::of),
        uid: o.uid(),
        user: o.user().map(|s| s.to_string()),
        tags: o
            .tags()
            .map(|(k, v)| (k.to_string(), v.to_string()))
            .collect(),
        latlon: None,
        nodes: vec![],
        members: vec![],
    }
}

pub fn observe_node(o: &impl Node) -> MObj {
    let mut m = observe_base(o);
    m.latlon = o.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    m
}
pub fn observe_way(o: &impl Way) -> MObj {
    let mut m = observe_base(o);
    m.nodes = o.nodes().to_vec();
    m
}
pub fn observe_relation(o: &impl Relation) -> MObj {
    let mut m = observe_base(o);
    m.members = o
        .members()
        .map(|(t, i, r)| (Kind::of(t), i, r.to_string()))
        .collect();
    m
}
pub fn observe<O: OSMObj>(o: &O) -> MObj {
    let mut m = observe_base(o);
    if let Some(n) = o.as_node() {
        m.latlon = n.lat_lon().map(|(a, b)| (a.inner(), b.inner()));
    }
    if let Some(w) = o.as_way() {
        m.nodes = w.nodes().to_vec();
    }
    if let Some(r) = o.as_relation() {
        m.members = r
            .members()
            .map(|(t, i, r)| (Kind::of(t), i, r.to_string()))
            .collect();
    }
    m
}

// ---------------------------------------------------------------------------------------------
// building objects of osmio with the public API

fn fill_base(o: &mut impl OSMObjBase, m: &MObj) {
    o.set_version(m.version);
    o.set_deleted(m.deleted);
    o.set_changeset_id(m.changeset);
    o.set_timestamp(m.ts.as_ref().map(|t| t.to_osm()));
    o.set_uid(m.uid);
    o.set_user(m.user.as_deref());
}

pub fn latlon(m: &MObj) -> Option<(Lat, Lon)> {
    m.latlon
        .map(|(a, b)| (Lat::from_inner(a), Lon::from_inner(b)))
}

/// Through the builders, which is the only way to have a key twice
pub fn build_string(m: &MObj) -> StringOSMObj {
    let tags = m
        .tags
        .iter()
        .map(|(k, v)| (k.as_str().into(), v.as_str().into()))
        .collect();
    match m.kind {
        Kind::Node => {
            let mut n = StringNodeBuilder::default()
                ._id(m.id)
                ._tags(tags)
                .build()
                .unwrap();
            fill_base(&mut n, m);
            n.set_lat_lon_direct(latlon(m));
            StringOSMObj::Node(n)
        }
        Kind::Way => {
            let mut w = StringWayBuilder::default()
                ._id(m.id)
                ._tags(tags)
                .build()
                .unwrap();
            fill_base(&mut w, m);
            w.set_nodes(m.nodes.iter().copied());
            StringOSMObj::Way(w)
        }
        Kind::Rel => {
            let mut r = StringRelationBuilder::default()
                ._id(m.id)
                ._tags(tags)
                .build()
                .unwrap();
            fill_base(&mut r, m);
            r.set_members(m.members.iter().map(|(k, i, r)| (k.osm(), *i, r.clone())));
            StringOSMObj::Relation(r)
        }
    }
}

fn fill_tags(o: &mut impl OSMObjBase, m: &MObj) {
    for (k, v) in &m.tags {
        o.set_tag(k, v.clone());
    }
}

macro_rules! build_shared {
    ($f:ident, $obj:ident, $node:ident, $way:ident, $rel:ident) => {
        /// With the setters, so keys must be distinct
        #[cfg(osmio_verif)]
        pub fn $f(m: &MObj) -> Option<$obj> {
            Some(match m.kind {
                Kind::Node => {
                    let mut n = $node::verif_empty(m.id);
                    fill_base(&mut n, m);
                    fill_tags(&mut n, m);
                    n.set_lat_lon_direct(latlon(m));
                    $obj::Node(n)
                }
                Kind::Way => {
                    let mut w = $way::verif_empty(m.id);
                    fill_base(&mut w, m);
                    fill_tags(&mut w, m);
                    w.set_nodes(m.nodes.iter().copied());
                    $obj::Way(w)
                }
                Kind::Rel => {
                    let mut r = $rel::verif_empty(m.id);
                    fill_base(&mut r, m);
                    fill_tags(&mut r, m);
                    r.set_members(m.members.iter().map(|(k, i, r)| (k.osm(), *i, r.clone())));
                    $obj::Relation(r)
                }
            })
        }
        #[cfg(not(osmio_verif))]
        pub fn $f(_m: &MObj) -> Option<$obj> {
            None
        }
    };
}

build_shared!(build_rc, RcOSMObj, RcNode, RcWay, RcRelation);
build_shared!(build_arc, ArcOSMObj, ArcNode, ArcWay, ArcRelation);
