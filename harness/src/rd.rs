//! Drives the readers, and records what they return and how they end.

use crate::model::*;
use crate::runner::{guard, Caught};
use crate::xmlw::MCs;
use osmio::changesets::{Changeset, ChangesetReader};
use osmio::prelude::*;
use std::io::Read;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rk {
    Xml,
    Osc,
    Pbf,
    Arc,
    Pos,
    Cs,
}

pub const PBFS: [Rk; 3] = [Rk::Pbf, Rk::Arc, Rk::Pos];
pub const XMLS: [Rk; 2] = [Rk::Xml, Rk::Osc];

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Obj(MObj),
    Pos(i64, i32, i32),
    Cs(MCs),
    Tags(u64, Vec<(String, String)>),
}

#[derive(Debug)]
pub enum Stop {
    /// None: the end of the stream
    End,
    /// an error was returned
    Error(String),
    Failed(Caught),
    /// more items than there could be
    Cap,
}

impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Stop::End => write!(f, "end of stream"),
            Stop::Error(e) => write!(f, "error {}", e),
            Stop::Failed(c) => write!(f, "{}", c),
            Stop::Cap => write!(f, "never ends"),
        }
    }
}

#[derive(Debug)]
pub struct Out {
    pub items: Vec<Item>,
    pub stop: Stop,
}

impl Out {
    pub fn objs(&self) -> Vec<MObj> {
        self.items
            .iter()
            .map(|i| match i {
                Item::Obj(o) => o.clone(),
                _ => unreachable!(),
            })
            .collect()
    }
}

pub fn collect<T>(cap: usize, mut next: impl FnMut() -> Option<Result<T, String>>) -> (Vec<T>, Stop) {
    let mut v = vec![];
    loop {
        match guard(&mut next) {
            Ok(None) => return (v, Stop::End),
            Ok(Some(Ok(x))) => v.push(x),
            Ok(Some(Err(e))) => return (v, Stop::Error(e)),
            Err(c) => return (v, Stop::Failed(c)),
        }
        if v.len() > cap {
            return (v, Stop::Cap);
        }
    }
}

/// All the objects of a reader, with `next()`
pub fn drain<R: OSMReader>(r: &mut R, cap: usize) -> Out {
    let (v, stop) = collect(cap, || r.next().map(|o| Ok(observe(&o))));
    Out {
        items: v.into_iter().map(Item::Obj).collect(),
        stop,
    }
}

pub fn cs_of(c: &Changeset) -> MCs {
    let mut tags: Vec<(String, String)> = c
        .tags
        .iter()
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect();
    tags.sort();
    MCs {
        id: c.id,
        created: c.created.to_iso_string(),
        closed: c.closed.as_ref().map(|t| t.to_iso_string()),
        open: c.open,
        uid: c.uid,
        user: c.user.clone(),
        num_changes: c.num_changes,
        comments_count: c.comments_count,
        tags,
    }
}

pub fn read<S: Read>(kind: Rk, src: S, cap: usize) -> Out {
    match kind {
        Rk::Xml => match guard(|| osmio::xml::XMLReader::new(src)) {
            Ok(mut r) => drain(&mut r, cap),
            Err(c) => failed(c),
        },
        Rk::Osc => match guard(|| osmio::osc::OSCReader::new(src)) {
            Ok(mut r) => drain(&mut r, cap),
            Err(c) => failed(c),
        },
        Rk::Pbf => match guard(|| osmio::stringpbf::PBFReader::new(src)) {
            Ok(mut r) => drain(&mut r, cap),
            Err(c) => failed(c),
        },
        Rk::Arc => match guard(|| osmio::arcpbf::PBFReader::new(src)) {
            Ok(mut r) => drain(&mut r, cap),
            Err(c) => failed(c),
        },
        Rk::Pos => match guard(|| osmio::stringpbf::PBFNodePositionReader::from_reader(src)) {
            Ok(r) => drain_pos(r, cap),
            Err(c) => failed(c),
        },
        Rk::Cs => match guard(|| ChangesetReader::from_reader(src)) {
            Ok(r) => drain_cs(r, cap),
            Err(c) => failed(c),
        },
    }
}

fn failed(c: Caught) -> Out {
    Out {
        items: vec![],
        stop: Stop::Failed(c),
    }
}

pub fn drain_pos<S: Read>(
    mut r: osmio::stringpbf::PBFNodePositionReader<S>,
    cap: usize,
) -> Out {
    let (items, stop) = collect(cap, || {
        r.next()
            .map(|(id, (lat, lon))| Ok(Item::Pos(id, lat.inner(), lon.inner())))
    });
    Out { items, stop }
}

pub fn drain_cs<S: Read>(mut r: ChangesetReader<S>, cap: usize) -> Out {
    let (items, stop) = collect(cap, || {
        r.next().map(|x| match x {
            Ok(c) => Ok(Item::Cs(cs_of(&c))),
            Err(e) => Err(e.to_string()),
        })
    });
    Out { items, stop }
}

/// An iterator of the changeset tag reader
pub fn drain_tags(
    mut r: impl Iterator<Item = anyhow_free::Tagged>,
    cap: usize,
) -> Out {
    let (items, stop) = collect(cap, || {
        r.next().map(|x| match x {
            Ok((id, t)) => Ok(Item::Tags(id, t)),
            Err(e) => Err(e),
        })
    });
    Out { items, stop }
}

pub mod anyhow_free {
    /// What the changeset tag reader returns, with the error as text
    pub type Tagged = Result<(u64, Vec<(String, String)>), String>;
}

/// The tag reader can only be made from the name of a bzip2 file
pub fn read_tags_file(path: &std::path::Path, cap: usize) -> Result<Out, String> {
    let name = path.to_str().unwrap().to_string();
    match guard(|| osmio::changesets::ChangesetTagReader::from_filename(&name)) {
        Ok(Ok(r)) => Ok(drain_tags(r.map(|x| x.map_err(|e| e.to_string())), cap)),
        Ok(Err(e)) => Err(e.to_string()),
        Err(c) => Ok(failed(c)),
    }
}

pub fn expect_items(expected: &[Item], got: &Out) -> Result<(), String> {
    prefix_items(expected, &got.items)?;
    if got.items.len() < expected.len() {
        return Err(format!(
            "{} of {} items returned, then {}",
            got.items.len(),
            expected.len(),
            got.stop
        ));
    }
    match &got.stop {
        Stop::End => Ok(()),
        s => Err(format!("after all {} items: {}", expected.len(), s)),
    }
}

/// `got` is an unchanged beginning of `expected`
pub fn prefix_items(expected: &[Item], got: &[Item]) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        let e = match expected.get(i) {
            Some(e) => e,
            None => {
                return Err(format!(
                    "item #{} returned but there are only {}: {}",
                    i,
                    expected.len(),
                    short(g)
                ))
            }
        };
        let d = match (e, g) {
            (Item::Obj(a), Item::Obj(b)) => a.diff(b),
            (a, b) if a == b => None,
            (a, b) => Some(format!("should be {} but is {}", short(a), short(b))),
        };
        if let Some(d) = d {
            return Err(format!("item #{} of {}: {}", i, expected.len(), d));
        }
    }
    Ok(())
}

pub fn objs(v: &[MObj]) -> Vec<Item> {
    v.iter().cloned().map(Item::Obj).collect()
}
pub fn positions(v: &[(i64, i32, i32)]) -> Vec<Item> {
    v.iter().map(|p| Item::Pos(p.0, p.1, p.2)).collect()
}
pub fn changesets(v: &[MCs]) -> Vec<Item> {
    v.iter()
        .cloned()
        .map(|mut c| {
            c.tags.sort();
            Item::Cs(c)
        })
        .collect()
}
pub fn tagged(v: &[MCs]) -> Vec<Item> {
    v.iter()
        .filter(|c| !c.tags.is_empty())
        .map(|c| Item::Tags(c.id as u64, c.tags.clone()))
        .collect()
}

/// What this reader should return for a PBF file
pub fn pbf_items(kind: Rk, f: &crate::pbfw::PbfFile) -> Vec<Item> {
    match kind {
        Rk::Pos => positions(&f.positions()),
        _ => objs(&f.objs),
    }
}
