use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rng::Rng;
use osmio::obj_types::*;
use osmio::OSMWriter;
use std::io::Write;

/// An object in any of the representations
#[derive(Clone)]
pub enum AnyObj {
    S(StringOSMObj),
    R(RcOSMObj),
    A(ArcOSMObj),
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Repr {
    S,
    R,
    A,
}

impl AnyObj {
    /// In this representation if that can be had, else the String one
    pub fn build(m: &MObj, r: Repr) -> AnyObj {
        let mut keys: Vec<&str> = m.tags.iter().map(|t| t.0.as_str()).collect();
        keys.sort();
        keys.dedup();
        let distinct = keys.len() == m.tags.len();
        match r {
            Repr::R if distinct => {
                if let Some(o) = build_rc(m) {
                    return AnyObj::R(o);
                }
            }
            Repr::A if distinct => {
                if let Some(o) = build_arc(m) {
                    return AnyObj::A(o);
                }
            }
            _ => {}
        }
        AnyObj::S(build_string(m))
    }
    pub fn repr(&self) -> Repr {
        match self {
            AnyObj::S(_) => Repr::S,
            AnyObj::R(_) => Repr::R,
            AnyObj::A(_) => Repr::A,
        }
    }
    pub fn observe(&self) -> MObj {
        match self {
            AnyObj::S(o) => observe(o),
            AnyObj::R(o) => observe(o),
            AnyObj::A(o) => observe(o),
        }
    }
}

pub fn write_any<W: Write, T: OSMWriter<W>>(
    w: &mut T,
    o: &AnyObj,
) -> Result<(), osmio::OSMWriteError> {
    match o {
        AnyObj::S(o) => w.write_obj(o),
        AnyObj::R(o) => w.write_obj(o),
        AnyObj::A(o) => w.write_obj(o),
    }
}

pub fn build_all(rng: &mut Rng, objs: &[MObj]) -> Vec<AnyObj> {
    let style = rng.below(3);
    objs.iter()
        .map(|m| {
            let r = match style {
                0 => Repr::S,
                _ => *rng.pick(&[Repr::S, Repr::R, Repr::A]),
            };
            AnyObj::build(m, r)
        })
        .collect()
}

/// Objects as they go into XML
pub fn xml_objects(rng: &mut Rng, max: usize) -> Vec<MObj> {
    let mut cfg = Cfg::xml();
    cfg.dup_keys = rng.bool();
    gen::objects(rng, &cfg, max)
}

pub fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Note what is in these objects
pub fn count_objects(cx: &mut crate::runner::Cx, objs: &[MObj]) {
    cx.count("objects", objs.len() as u64);
    for o in objs {
        cx.count(&format!("{}s", o.kind.name()), 1);
        cx.count("tags", o.tags.len() as u64);
        cx.count("node references", o.nodes.len() as u64);
        cx.count("members", o.members.len() as u64);
        cx.count("deleted", o.deleted as u64);
        cx.count(
            "nodes without location",
            (o.kind == Kind::Node && o.latlon.is_none()) as u64,
        );
        cx.count("objects without version", o.version.is_none() as u64);
    }
}

pub fn finish_forget<T>(w: T) {
    std::mem::forget(w);
}
