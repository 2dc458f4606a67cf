//! P23: by name, compressed, or from memory.

use super::p20::bz2_streams;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::{self, Enc};
use crate::rd::{self, Item, Out, Rk, Stop};
use crate::rng::Rng;
use crate::runner::*;
use crate::xmlw::{self, W};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use osmio::stringpbf::PBFNodePositionReader;
use osmio::{osc::OSCReader, xml::XMLReader, OSMReader};
use serde_json::json;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "P23",
        level: "exploration",
        rule: "Documents of known content are written to files of all kinds of names (spaces, other scripts, no or misleading suffixes, through links), uncompressed or as one or several bzip2 streams, opened through every by-name entry point and compared with the model and with a read from memory; afterwards the file, its metadata and its directory are as before. Missing files must be errors and stay missing. Files are replaced or removed after they are opened, cut off, or not read to the end: what comes is the file as it was opened, and when the reader is gone the process has no handle to it. Distinct by hash of file and entry point; non-trivial: the file has items.",
        assumptions: &[],
        legs: vec![
            leg("pbf", 5000, 200_000, pbf),
            leg("xml", 5000, 200_000, xml),
            leg("changesets", 3500, 100_000, changesets),
            leg("streams", 5000, 100_000, streams),
            leg("large", 60, 800, large),
            leg("missing", 1500, 20_000, missing),
            leg("handles", 4000, 60_000, handles),
        ],
        required: &[
            "read_pbf",
            "pbf::PBFReader::from_filename",
            "arcpbf::PBFReader::from_filename",
            "PBFNodePositionReader::from_filename",
            "xml::from_filename_bz2",
            "read_xml",
            "xml::from_filename_uncompressed",
            "ChangesetReader::from_filename",
            "ChangesetTagReader::from_filename",
            "several streams",
            "missing files",
            "readers dropped early",
            "files replaced while they are read",
            "damaged files",
            "handles looked at",
            "through a link",
        ],
        probes: vec![],
    }
}

/// What can be seen of a file
fn print(p: &Path) -> String {
    let m = std::fs::metadata(p).unwrap();
    let b = std::fs::read(p).unwrap();
    let mut names: Vec<_> = std::fs::read_dir(p.parent().unwrap())
        .unwrap()
        .map(|e| e.unwrap().file_name())
        .collect();
    names.sort();
    format!(
        "{} bytes, contents {:016x}, inode {}, mode {:o}, modified {}.{:09}, links {}, directory {:?}",
        m.len(),
        crate::rng::hash_bytes(&b),
        m.ino(),
        m.mode(),
        m.mtime(),
        m.mtime_nsec(),
        m.nlink(),
        names
    )
}

const NAMES: &[&str] = &[
    "a.osm.pbf", "a.osm", "a.osm.bz2", "a", "with space.osm", "ünïcode-日本.pbf", "a.OSM.BZ2", ".hidden", "x.bz2.osm", "a'b\"c.osm.bz2", "100%.pbf", "-dash", "end.bz2 ", " start.pbf", "line\nend\n", "~", "$HOME", "*?[a].osm",
    "a:b", "back\\slash", "%20", "tab\t", "..a..", "a.", "e\u{301}\u{feff}.pbf", "\u{200b}",
    "a-name-which-is-as-long-as-a-name-can-be-in-this-file-system-01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567.pbf",
];

fn dir(cx: &Cx) -> PathBuf {
    let d = cx.tmp.join("d");
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// A file of this content, in a directory of its own, read-only; the path may go through a link
fn put(cx: &mut Cx, data: &[u8]) -> (PathBuf, PathBuf) {
    let d = dir(cx);
    for e in std::fs::read_dir(&d).unwrap() {
        std::fs::remove_file(e.unwrap().path()).unwrap();
    }
    let p = d.join(cx.rng.pick(NAMES));
    std::fs::write(&p, data).unwrap();
    std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o400)).unwrap();
    if cx.rng.chance(1, 4) {
        cx.count("through a link", 1);
        let l = d.join("link.osm");
        std::os::unix::fs::symlink(&p, &l).unwrap();
        return (l, p);
    }
    if cx.rng.chance(1, 5) {
        // another way to say where it is, through the directory above a linked one
        let z = cx.tmp.join("z");
        let _ = std::fs::create_dir(&z);
        let _ = std::os::unix::fs::symlink(&d, z.join("ln"));
        let name = p.file_name().unwrap();
        let q = match cx.rng.below(3) {
            0 => z.join("ln/../d").join(name),
            1 => z.join("ln/./..//d").join(name),
            _ => d.join("../z/ln").join(name),
        };
        cx.count("through links and ..", 1);
        return (q, p);
    }
    (p.clone(), p)
}

fn drain<R: OSMReader, E: std::fmt::Display>(r: Result<Result<R, E>, Caught>, cap: usize) -> Out {
    match r {
        Ok(Ok(mut r)) => rd::drain(&mut r, cap),
        Ok(Err(e)) => Out {
            items: vec![],
            stop: Stop::Error(e.to_string()),
        },
        Err(c) => Out {
            items: vec![],
            stop: Stop::Failed(c),
        },
    }
}

/// Paths come in all types which can be one
fn xml_bz2(rng: &mut Rng, p: &Path, cap: usize) -> (&'static str, Out) {
    if rng.bool() {
        ("xml::from_filename_bz2", drain(guard(|| osmio::xml::from_filename_bz2(p)), cap))
    } else {
        let s = p.to_str().unwrap();
        ("read_xml", drain(guard(|| osmio::read_xml(s)), cap))
    }
}

fn pbf_by_name(which: usize, p: &Path, cap: usize) -> (&'static str, Rk, Out) {
    match which {
        0 => ("read_pbf", Rk::Pbf, drain(guard(|| osmio::read_pbf(p.to_str().unwrap())), cap)),
        1 => (
            "pbf::PBFReader::from_filename",
            Rk::Pbf,
            drain(guard(|| osmio::pbf::PBFReader::from_filename(p.to_path_buf())), cap),
        ),
        2 => (
            "arcpbf::PBFReader::from_filename",
            Rk::Arc,
            drain(guard(|| osmio::arcpbf::PBFReader::from_filename(p)), cap),
        ),
        _ => (
            "PBFNodePositionReader::from_filename",
            Rk::Pos,
            match guard(|| PBFNodePositionReader::from_filename(p.as_os_str())) {
                Ok(Ok(r)) => rd::drain_pos(r, cap),
                Ok(Err(e)) => Out {
                    items: vec![],
                    stop: Stop::Error(e.to_string()),
                },
                Err(c) => Out {
                    items: vec![],
                    stop: Stop::Failed(c),
                },
            },
        ),
    }
}

fn judge(
    cx: &mut Cx,
    entry: &'static str,
    data: &[u8],
    (path, real): (&Path, &Path),
    before: &str,
    want: &[Item],
    got: Out,
) -> Result<(), String> {
    cx.count(entry, 1);
    cx.count("items", want.len() as u64);
    if !want.is_empty() {
        cx.seen(crate::rng::hash_bytes(data) ^ crate::rng::hash_bytes(entry.as_bytes()));
    }
    cx.sample(|| json!({"entry point": entry, "name": format!("{:?}", path.file_name().unwrap()), "bytes": data.len(), "items": want.len(), "file": before}));
    rd::expect_items(want, &got).map_err(|e| format!("{} of {:?}: {}", entry, path, e))?;
    let after = print(real);
    if before != after {
        return Err(format!("{}: the file was {} and is {}", entry, before, after));
    }
    Ok(())
}

fn pbf_with(cx: &mut Cx, objs: &[MObj]) -> Result<(), String> {
    let f = Enc::new(&mut cx.rng, 1).write(objs);
    let (p, real) = put(cx, &f.bytes);
    let before = print(&real);
    let cap = f.objs.len() + 10;
    for which in 0..4 {
        let (entry, kind, got) = pbf_by_name(which, &p, cap);
        let want = rd::pbf_items(kind, &f);
        judge(cx, entry, &f.bytes, (&p, &real), &before, &want, got)?;
        let mem = rd::read(kind, &f.bytes[..], cap);
        rd::expect_items(&want, &mem).map_err(|e| format!("{:?} from memory: {}", kind, e))?;
    }
    cx.evals(4);
    Ok(())
}

fn pbf(cx: &mut Cx) -> Result<(), String> {
    let objs = pbfw::gen_objects(&mut cx.rng, 20, false);
    pbf_with(cx, &objs)
}

fn xml_with(cx: &mut Cx, objs: &[MObj]) -> Result<(), String> {
    let fancy = cx.rng.below(3);
    let mut w = W::new(&mut cx.rng, fancy);
    w.osm(objs);
    let doc = w.out.into_bytes();
    let want = rd::objs(objs);
    let cap = want.len() + 10;

    let (p, real) = put(cx, &doc);
    let before = print(&real);
    let entry = "xml::from_filename_uncompressed";
    let got = drain(guard(|| osmio::xml::from_filename_uncompressed(&p)), cap);
    judge(cx, entry, &doc, (&p, &real), &before, &want, got)?;

    let z = bz2_streams(cx, &doc);
    let (p, real) = put(cx, &z);
    let before = print(&real);
    let (entry, got) = xml_bz2(&mut cx.rng, &p, cap);
    judge(cx, entry, &z, (&p, &real), &before, &want, got)?;

    let mem = rd::read(Rk::Xml, &doc[..], cap);
    rd::expect_items(&want, &mem).map_err(|e| format!("from memory: {}", e))?;
    cx.evals(2);
    Ok(())
}

fn xml(cx: &mut Cx) -> Result<(), String> {
    let objs = gen::objects(&mut cx.rng, &Cfg::xml(), 10);
    xml_with(cx, &objs)
}

fn changesets_with(cx: &mut Cx, cs: &[xmlw::MCs]) -> Result<(), String> {
    let fancy = cx.rng.below(3);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(cs);
    let doc = w.out.into_bytes();
    let z = bz2_streams(cx, &doc);
    let (p, real) = put(cx, &z);
    let before = print(&real);
    let name = p.to_str().unwrap();

    let want = rd::changesets(cs);
    let cap = want.len() + 10;
    let got = match must("from_filename", || ChangesetReader::from_filename(name))? {
        Ok(r) => rd::drain_cs(r, cap),
        Err(e) => return Err(format!("ChangesetReader::from_filename: {}", e)),
    };
    judge(cx, "ChangesetReader::from_filename", &z, (&p, &real), &before, &want, got)?;
    let mem = rd::read(Rk::Cs, &doc[..], cap);
    rd::expect_items(&want, &mem).map_err(|e| format!("from memory: {}", e))?;

    let want = rd::tagged(cs);
    let got = rd::read_tags_file(&p, cap)?;
    judge(cx, "ChangesetTagReader::from_filename", &z, (&p, &real), &before, &want, got)?;
    cx.evals(2);
    Ok(())
}

fn changesets(cx: &mut Cx) -> Result<(), String> {
    let cs = xmlw::gen_changesets(&mut cx.rng, 20);
    changesets_with(cx, &cs)
}

/// Readers on top of a bzip2 stream
fn streams(cx: &mut Cx) -> Result<(), String> {
    let objs = gen::objects(&mut cx.rng, &Cfg::xml(), 10);
    let osc = cx.rng.bool();
    let mut w = W::new(&mut cx.rng, 1);
    let want = if osc {
        rd::objs(&w.osc(&objs))
    } else {
        w.osm(&objs);
        rd::objs(&objs)
    };
    let doc = w.out.into_bytes();
    let z = bz2_streams(cx, &doc);
    let dec = bzip2::read::MultiBzDecoder::new(&z[..]);
    let cap = want.len() + 10;
    let got = if osc {
        drain(guard(|| Ok::<_, String>(OSCReader::new(dec))), cap)
    } else {
        drain(guard(|| Ok::<_, String>(XMLReader::new(dec))), cap)
    };
    cx.count("decoders", 1);
    if !want.is_empty() {
        cx.seen(crate::rng::hash_bytes(&z));
    }
    rd::expect_items(&want, &got).map_err(|e| format!("osc {} through bzip2: {}", osc, e))
}

/// More than any buffer on the way holds
fn large(cx: &mut Cx) -> Result<(), String> {
    let n = cx.rng.range(300, 3000) as usize;
    match cx.rng.below(3) {
        0 => {
            let mut cfg = Cfg::pbf();
            cfg.big = false;
            let objs = gen::small_objects(&mut cx.rng, &cfg, n);
            pbf_with(cx, &objs)
        }
        1 => {
            let mut cfg = Cfg::xml();
            cfg.big = false;
            let objs = gen::small_objects(&mut cx.rng, &cfg, n);
            xml_with(cx, &objs)
        }
        _ => {
            let cs: Vec<_> = (0..n / 4)
                .map(|i| xmlw::gen_changeset(&mut cx.rng, i as u32 + 1))
                .collect();
            changesets_with(cx, &cs)
        }
    }
}

fn missing(cx: &mut Cx) -> Result<(), String> {
    let d = dir(cx);
    for e in std::fs::read_dir(&d).unwrap() {
        std::fs::remove_file(e.unwrap().path()).unwrap();
    }
    std::fs::write(d.join("other"), b"x").unwrap();
    let p = match cx.rng.below(5) {
        0 => d.join("no such directory").join(cx.rng.pick(NAMES)),
        1 => d.join("other").join(cx.rng.pick(NAMES)), // below a file
        2 => {
            std::os::unix::fs::symlink(d.join("nowhere"), d.join("dangling")).unwrap();
            d.join("dangling")
        }
        3 => PathBuf::new(),
        _ => d.join(cx.rng.pick(NAMES)),
    };
    let s = p.to_str().unwrap();
    let names = |d: &Path| {
        let mut v: Vec<_> = std::fs::read_dir(d)
            .unwrap()
            .map(|e| e.unwrap().file_name())
            .collect();
        v.sort();
        v
    };
    let before = names(&d);
    let all: Vec<(&str, Box<dyn Fn() -> Option<String> + '_>)> = vec![
        ("read_pbf", Box::new(|| osmio::read_pbf(&p).err().map(|e| e.to_string()))),
        ("pbf::PBFReader", Box::new(|| osmio::pbf::PBFReader::from_filename(&p).err().map(|e| e.to_string()))),
        ("arcpbf::PBFReader", Box::new(|| osmio::arcpbf::PBFReader::from_filename(&p).err().map(|e| e.to_string()))),
        ("PBFNodePositionReader", Box::new(|| PBFNodePositionReader::from_filename(&p).err().map(|e| e.to_string()))),
        ("xml::from_filename_bz2", Box::new(|| osmio::xml::from_filename_bz2(&p).err().map(|e| e.to_string()))),
        ("xml::from_filename_uncompressed", Box::new(|| osmio::xml::from_filename_uncompressed(&p).err().map(|e| e.to_string()))),
        ("read_xml", Box::new(|| osmio::read_xml(&p).err().map(|e| e.to_string()))),
        ("ChangesetReader", Box::new(|| ChangesetReader::from_filename(s).err().map(|e| e.to_string()))),
        ("ChangesetTagReader", Box::new(|| ChangesetTagReader::from_filename(s).err().map(|e| e.to_string()))),
    ];
    for (what, f) in &all {
        match guard(f) {
            Ok(Some(_)) => {}
            Ok(None) => return Err(format!("{} of the missing file {:?} is not an error", what, p)),
            Err(c) => return Err(format!("{} of the missing file {:?}: {}", what, p, c)),
        }
    }
    cx.count("missing files", all.len() as u64);
    cx.evals(all.len() as u64);
    if names(&d) != before {
        return Err(format!("opening {:?} left {:?}", p, names(&d)));
    }
    Ok(())
}

/// How many handles of this process are of this file
fn open_handles(ino: u64, dev: u64) -> usize {
    let Ok(d) = std::fs::read_dir("/proc/self/fd") else { return 0 };
    d.flatten()
        .filter(|e| std::fs::metadata(e.path()).is_ok_and(|m| m.ino() == ino && m.dev() == dev))
        .count()
}

/// The file is gone or another one while it is read; the reader is gone before the end
fn handles(cx: &mut Cx) -> Result<(), String> {
    let which = cx.rng.below(9);
    let n = *cx.rng.pick(&[3usize, 12, 12, 200]);
    let fancy = cx.rng.below(2);
    let (mut data, want) = match which {
        0..=3 => {
            let objs = if n == 200 {
                gen::small_objects(&mut cx.rng, &Cfg { big: false, ..Cfg::pbf() }, n)
            } else {
                pbfw::gen_objects(&mut cx.rng, n, false)
            };
            let f = Enc::new(&mut cx.rng, 1).write(&objs);
            let k = [Rk::Pbf, Rk::Pbf, Rk::Arc, Rk::Pos][which];
            let want = rd::pbf_items(k, &f);
            (f.bytes, want)
        }
        4..=6 => {
            let objs = gen::small_objects(&mut cx.rng, &Cfg { big: false, ..Cfg::xml() }, n);
            let mut w = W::new(&mut cx.rng, fancy);
            w.osm(&objs);
            let doc = w.out.into_bytes();
            (if which == 4 { doc } else { bz2_streams(cx, &doc) }, rd::objs(&objs))
        }
        _ => {
            let cs = xmlw::gen_changesets(&mut cx.rng, n);
            let mut w = W::new(&mut cx.rng, fancy);
            w.changesets(&cs);
            let doc = w.out.into_bytes();
            (bz2_streams(cx, &doc), if which == 7 { rd::changesets(&cs) } else { rd::tagged(&cs) })
        }
    };
    let cut = cx.rng.chance(1, 3) && !data.is_empty();
    if cut {
        data.truncate(cx.rng.below(data.len()));
    }
    let (p, real) = put(cx, &data);
    // one of our own, so that no other file becomes this inode
    let mine = std::fs::File::open(&real).unwrap();
    let m = mine.metadata().unwrap();
    let early = cx.rng.chance(1, 3);
    let cap = if early { cx.rng.below(want.len() + 1) } else { want.len() + 10 };
    let replaced = cx.rng.below(3);
    let d = dir(cx);
    let act = || match replaced {
        0 => std::fs::remove_file(&real).unwrap(),
        1 => {
            std::fs::write(d.join("new"), b"something else").unwrap();
            std::fs::rename(d.join("new"), &real).unwrap();
        }
        _ => {}
    };
    let name = p.to_str().unwrap();
    macro_rules! go {
        ($open:expr, $drain:expr) => {{
            let r = guard(|| $open);
            act();
            match r {
                Ok(Ok(r)) => $drain(r),
                Ok(Err(e)) => return Err(format!("a file which is there: {}", e)),
                Err(c) => return Err(format!("opening a file: {}", c)),
            }
        }};
    }
    let (entry, got): (&str, Out) = match which {
        0 => ("read_pbf", go!(osmio::read_pbf(&p), |mut r| rd::drain(&mut r, cap))),
        1 => ("pbf::PBFReader", go!(osmio::pbf::PBFReader::from_filename(&p), |mut r| rd::drain(&mut r, cap))),
        2 => ("arcpbf::PBFReader", go!(osmio::arcpbf::PBFReader::from_filename(&p), |mut r| rd::drain(&mut r, cap))),
        3 => ("PBFNodePositionReader", go!(PBFNodePositionReader::from_filename(&p), |r| rd::drain_pos(r, cap))),
        4 => ("xml::from_filename_uncompressed", go!(osmio::xml::from_filename_uncompressed(&p), |mut r| rd::drain(&mut r, cap))),
        5 => ("xml::from_filename_bz2", go!(osmio::xml::from_filename_bz2(&p), |mut r| rd::drain(&mut r, cap))),
        6 => ("read_xml", go!(osmio::read_xml(&p), |mut r| rd::drain(&mut r, cap))),
        7 => ("ChangesetReader", go!(ChangesetReader::from_filename(name), |r| rd::drain_cs(r, cap))),
        _ => (
            "ChangesetTagReader",
            go!(ChangesetTagReader::from_filename(name), |r: ChangesetTagReader<_>| rd::drain_tags(
                r.map(|x| x.map_err(|e| e.to_string())),
                cap
            )),
        ),
    };
    let left = open_handles(m.ino(), m.dev()).saturating_sub(1);
    drop(mine);
    let how = format!("{} of a file{} (file {}, {} items asked for)", entry, if cut { " cut off" } else { "" }, ["removed", "replaced", "there"][replaced], cap);
    if left != 0 {
        return Err(format!("{}: the reader is gone, {} handles to the file are open", how, left));
    }
    match (cut, early) {
        (false, false) => rd::expect_items(&want, &got),
        _ => rd::prefix_items(&want, &got.items),
    }
    .map_err(|e| format!("{}: {}", how, e))?;
    if early && !cut && got.items.len() < want.len().min(cap + 1) {
        return Err(format!("{}: only {} of {} items, then {}", how, got.items.len(), want.len(), got.stop));
    }
    cx.count("handles looked at", 1);
    cx.count("readers dropped early", early as u64);
    cx.count("files replaced while they are read", (replaced < 2) as u64);
    cx.count("damaged files", cut as u64);
    cx.evals(1);
    cx.seen(crate::rng::hash_bytes(&data) ^ which as u64);
    Ok(())
}
