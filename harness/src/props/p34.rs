//! P34: the work is in proportion to the amount of data.

use super::util::*;
use crate::model::*;
use crate::pbfw::{bytes_field, deltas, int_field, varint, zigzag};
use crate::runner::*;
use osmio::changesets::ChangesetReader;
use osmio::obj_types::*;
use osmio::prelude::*;
use osmio::OSMWriter;
use serde_json::json;
use std::fmt::Write as _;
use std::hint::black_box;

/// How many times as much there is
const FACTOR: usize = 16;
/// Linear work takes FACTOR times as long, quadratic work FACTOR * FACTOR
const LIMIT: f64 = 64.0;
const ATTEMPTS: usize = 6;

pub fn prop() -> Prop {
    Prop {
        id: "P34",
        level: "exploration",
        rule: "For each thing of which there can be more in the data (objects, blocks, groups, tags, references, members, characters of a value, comments, unknown parts, ...), each reader, writer and accessor, and a random number n of it: the CPU time of the thread for n and for 8 n of it. Distinct by what and n; all are non-trivial.",
        assumptions: &[
            "work in proportion takes less than 64 times as long for 16 times as much, in at least one of 6 attempts, also with the effects of caches; work in proportion to the square takes 256 times as long",
        ],
        legs: vec![
            leg("osm xml", 62, 600, |cx| one(cx, "osm")),
            leg("osc", 66, 600, |cx| one(cx, "osc")),
            leg("pbf", 90, 900, |cx| one(cx, "pbf")),
            leg("changesets", 34, 340, |cx| one(cx, "cs")),
            leg("writers", 60, 600, |cx| one(cx, "w")),
            leg("objects", 60, 600, |cx| one(cx, "o")),
        ],
        required: &["measured", "in proportion"],
        probes: vec![],
    }
}

/// Does the work, and returns how much it has done of what was expected
type Work = Box<dyn FnMut() -> Result<(), String>>;

struct Dim {
    name: String,
    base: usize,
    make: Box<dyn Fn(usize) -> Work>,
}

fn dim(v: &mut Vec<Dim>, name: impl Into<String>, base: usize, make: impl Fn(usize) -> Work + 'static) {
    v.push(Dim {
        name: name.into(),
        base,
        make: Box::new(make),
    });
}

fn now() -> f64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    assert!(unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) } == 0);
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// Seconds for doing it once, the least of several times
fn time(w: &mut Work, times: usize, least: f64) -> Result<f64, String> {
    let mut best = f64::INFINITY;
    for _ in 0..times {
        let (start, mut n) = (now(), 0);
        let t = loop {
            w()?;
            n += 1;
            let t = now() - start;
            if t >= least {
                break t / n as f64;
            }
        };
        best = best.min(t);
    }
    Ok(best)
}

fn one(cx: &mut Cx, which: &str) -> Result<(), String> {
    let dims = match which {
        "osm" | "osc" => xml_dims(which == "osc"),
        "pbf" => pbf_dims(),
        "cs" => cs_dims(&cx.tmp),
        "w" => writer_dims(),
        _ => object_dims(),
    };
    // don't measure how the system hands out memory
    static SETTLED: std::sync::Once = std::sync::Once::new();
    SETTLED.call_once(|| unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
    });
    // every one of them in turn
    let d = &dims[cx.idx as usize % dims.len()];
    let base = d.base * 2 / 3;
    let n = base + cx.rng.below(base / 4 + 1);
    cx.seen_of(&(which, &d.name, n));
    let mut small = (d.make)(n);
    let (mut ratios, mut slow) = (vec![], false);
    // so much slower than anything should be that it would take too long to see all of it
    for n in [n, n * 4] {
        let mut some = (d.make)(n);
        let start = now();
        must(&d.name, || some())??;
        if now() - start < 0.2 {
            continue;
        }
        let mut less = (d.make)(n / 4);
        for _ in 0..2 {
            let a = must(&d.name, || time(&mut less, 2, 0.0005))??;
            let b = must(&d.name, || time(&mut some, 1, 0.0))??;
            ratios.push(b / a);
        }
        if ratios.iter().all(|r| *r > 9.0) {
            cx.count("measured", 1);
            return Err(format!(
                "{}: 4 times as much ({} instead of {}) takes {} times as long",
                d.name,
                n,
                n / 4,
                ratios.iter().map(|r| format!("{:.0}", r)).collect::<Vec<_>>().join(", ")
            ));
        }
        ratios.clear();
    }
    let mut large = (d.make)(n * FACTOR);
    for _ in 0..ATTEMPTS {
        let a = must(&d.name, || time(&mut small, 4, 0.0005))??;
        let b = must(&d.name, || time(&mut large, if ratios.is_empty() { 1 } else { 2 }, 0.0))??;
        ratios.push(b / a);
        slow = b > 1.0;
        if b / a < LIMIT || (slow && ratios.len() == 2) {
            break;
        }
    }
    cx.count("measured", 1);
    // is it really the amount, and not that it no longer fits into some cache?
    if ratios.last().unwrap() >= &LIMIT && !slow {
        let mut larger = (d.make)(n * FACTOR * 2);
        let mut twice = f64::INFINITY;
        for _ in 0..3 {
            let a = must(&d.name, || time(&mut large, 2, 0.0))??;
            let b = must(&d.name, || time(&mut larger, 1, 0.0))??;
            twice = twice.min(b / a);
        }
        if twice < 2.8 {
            cx.count("only caches", 1);
            ratios.push(twice * FACTOR as f64);
        }
    }
    let last = *ratios.last().unwrap();
    if let Ok(f) = std::env::var("P34_SHOW") {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
        let _ = f.write_all(format!("{:6.2} {} {} ({})\n", last, which, d.name, n).as_bytes());
    }
    cx.sample(|| json!({"of": d.name, "numbers": [n, n * FACTOR], "times as long": last}));
    if last < LIMIT {
        cx.count("in proportion", 1);
        let r = match last {
            r if r < 8.0 => "less than 8 times as long",
            r if r < 32.0 => "8 to 32 times as long",
            _ => "32 to 64 times as long",
        };
        cx.count(r, 1);
        return Ok(());
    }
    Err(format!(
        "{}: {} times as much ({} instead of {}) takes {} times as long",
        d.name,
        FACTOR,
        n * FACTOR,
        n,
        ratios.iter().map(|r| format!("{:.0}", r)).collect::<Vec<_>>().join(", ")
    ))
}

fn wanted(n: usize, got: usize) -> Result<(), String> {
    if n == got {
        Ok(())
    } else {
        Err(format!("{} of {} read", got, n))
    }
}

// ------------------------------------------------------------------------------------- XML

/// `n` of it, separately
fn rep(n: usize, f: impl Fn(usize, &mut String)) -> String {
    let mut s = String::new();
    for i in 0..n {
        f(i, &mut s);
    }
    s
}

const META: &str = "version=\"2\" timestamp=\"2020-01-02T03:04:05Z\" changeset=\"5\" uid=\"6\" user=\"someone\"";

/// Bytes, one at a time
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() || b.is_empty() {
            return Ok(0);
        }
        b[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}

enum Either<'a> {
    All(&'a [u8]),
    Slow(Slow<'a>),
}
impl std::io::Read for Either<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Either::All(x) => x.read(b),
            Either::Slow(x) => x.read(b),
        }
    }
}

fn count_all<R: OSMReader>(mut r: R) -> usize {
    let mut n = 0;
    while let Some(o) = r.next() {
        black_box(&o);
        n += 1;
    }
    n
}

#[derive(Clone, Copy)]
enum How {
    All,
    Slow,
    Nodes,
    Relations,
}

fn xml_work(osc: bool, how: How, doc: String, want: usize) -> Work {
    Box::new(move || {
        let d = doc.as_bytes();
        let n = match (osc, how) {
            (false, How::All) => count_all(osmio::xml::XMLReader::new(d)),
            (true, How::All) => count_all(osmio::osc::OSCReader::new(d)),
            (false, How::Slow) => count_all(osmio::xml::XMLReader::new(Slow(d))),
            (true, How::Slow) => count_all(osmio::osc::OSCReader::new(Slow(d))),
            (false, How::Nodes) => osmio::xml::XMLReader::new(d).nodes().map(|o| { black_box(&o); }).count(),
            (true, How::Nodes) => osmio::osc::OSCReader::new(d).nodes().map(|o| { black_box(&o); }).count(),
            (false, How::Relations) => osmio::xml::XMLReader::new(d).relations().map(|o| { black_box(&o); }).count(),
            (true, How::Relations) => osmio::osc::OSCReader::new(d).relations().map(|o| { black_box(&o); }).count(),
        };
        wanted(want, n)
    })
}

fn xml_doc(osc: bool, body: &str) -> String {
    if osc {
        format!("<?xml version='1.0' encoding='UTF-8'?>\n<osmChange version=\"0.6\">\n<modify>\n{}</modify>\n</osmChange>\n", body)
    } else {
        format!("<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\">\n{}</osm>\n", body)
    }
}

fn xml_dims(osc: bool) -> Vec<Dim> {
    let mut v = vec![];
    let f = if osc { "osc" } else { "osm" };
    // (what, n, the document's content with i of it, how many objects)
    type Body = fn(usize) -> String;
    type Want = fn(usize) -> usize;
    let node = |i: usize, s: &mut String| {
        let _ = writeln!(s, "<node id=\"{}\" {} lat=\"1.5\" lon=\"2.5\"/>", i, META);
    };
    let _ = node;
    fn nodes(n: usize) -> String {
        rep(n, |i, s| {
            let _ = writeln!(s, "<node id=\"{}\" {} lat=\"1.5\" lon=\"2.5\"/>", i, META);
        })
    }
    fn ways(n: usize) -> String {
        rep(n, |i, s| {
            let _ = writeln!(s, "<way id=\"{}\" {}><nd ref=\"{}\"/><nd ref=\"4\"/><tag k=\"highway\" v=\"road {}\"/></way>", i, META, i, i);
        })
    }
    fn rels(n: usize) -> String {
        rep(n, |i, s| {
            let _ = writeln!(s, "<relation id=\"{}\" {}><member type=\"way\" ref=\"{}\" role=\"outer {}\"/><tag k=\"type\" v=\"x\"/></relation>", i, META, i, i);
        })
    }
    fn within(el: &str, inner: String) -> String {
        format!("<{} id=\"1\" {}>{}</{}>\n", el, META, inner, el)
    }
    let list: Vec<(&str, usize, How, Body, Want)> = vec![
        ("nodes", 2000, How::All, nodes, |n| n),
        ("ways", 1500, How::All, ways, |n| n),
        ("relations", 1500, How::All, rels, |n| n),
        ("nodes among nodes, with nodes()", 2000, How::Nodes, nodes, |n| n),
        ("ways among which are no nodes, with nodes()", 1500, How::Nodes, ways, |_| 0),
        ("nodes among which are no relations, with relations()", 2000, How::Relations, nodes, |_| 0),
        ("nodes, delivered byte by byte", 1000, How::Slow, nodes, |n| n),
        ("tags of a node", 6000, How::All, |n| within("node", rep(n, |i, s| { let _ = write!(s, "<tag k=\"key{}\" v=\"value\"/>", i); })), |_| 1),
        ("tags of a way", 6000, How::All, |n| within("way", rep(n, |i, s| { let _ = write!(s, "<tag k=\"key{}\" v=\"value\"/>", i); })), |_| 1),
        ("tags of a relation", 6000, How::All, |n| within("relation", rep(n, |i, s| { let _ = write!(s, "<tag k=\"key{}\" v=\"value\"/>", i); })), |_| 1),
        ("references of a way", 8000, How::All, |n| within("way", rep(n, |i, s| { let _ = write!(s, "<nd ref=\"{}\"/>", i); })), |_| 1),
        ("members of a relation", 6000, How::All, |n| within("relation", rep(n, |i, s| { let _ = write!(s, "<member type=\"node\" ref=\"{}\" role=\"r{}\"/>", i, i); })), |_| 1),
        ("characters of a value", 60000, How::All, |n| within("node", format!("<tag k=\"k\" v=\"{}\"/>", "x".repeat(n))), |_| 1),
        ("characters of a key", 60000, How::All, |n| within("way", format!("<tag k=\"{}\" v=\"v\"/>", "k".repeat(n))), |_| 1),
        ("characters of a role", 60000, How::All, |n| within("relation", format!("<member type=\"way\" ref=\"1\" role=\"{}\"/>", "r".repeat(n))), |_| 1),
        ("characters of a user name", 60000, How::All, |n| format!("<node id=\"1\" user=\"{}\"/>", "u".repeat(n)), |_| 1),
        ("escaped characters of a value", 15000, How::All, |n| within("node", format!("<tag k=\"k\" v=\"{}\"/>", "&amp;&#x263a;".repeat(n))), |_| 1),
        ("comments between objects", 8000, How::All, |n| rep(n, |_, s| s.push_str("<!-- c -->")) + &nodes(1), |_| 1),
        ("comments in an object", 8000, How::All, |n| within("way", rep(n, |_, s| s.push_str("<!-- c -->"))), |_| 1),
        ("characters of a comment", 60000, How::All, |n| format!("<!--{}-->{}", "c".repeat(n), nodes(1)), |_| 1),
        ("characters of white space", 60000, How::All, |n| format!("{}{}", " \n".repeat(n), nodes(1)), |_| 1),
        ("characters of text in an object", 60000, How::All, |n| within("way", "t".repeat(n)), |_| 1),
        ("instructions", 4000, How::All, |n| rep(n, |_, s| s.push_str("<?do it?>")) + &nodes(1), |_| 1),
        ("unknown elements between objects", 8000, How::All, |n| rep(n, |_, s| s.push_str("<bounds a=\"1\"/>")) + &nodes(1), |_| 1),
        ("unknown elements in an object", 8000, How::All, |n| within("relation", rep(n, |_, s| s.push_str("<what a=\"1\"/>"))), |_| 1),
        ("unknown elements in an unknown element in an object", 3000, How::All, |n| within("way", format!("<what>{}</what>", rep(n, |_, s| s.push_str("<tag k=\"a\" v=\"b\"/><nd ref=\"3\"/>")))), |_| 1),
        ("bad references of a way", 8000, How::All, |n| within("way", rep(n, |_, s| s.push_str("<nd ref=\"x\"/>"))), |_| 1),
        ("objects after each other and unknown elements", 1500, How::All, |n| rep(n, |i, s| { let _ = write!(s, "<note/><node id=\"{}\"/>", i); }), |n| n),
    ];
    for (what, base, how, body, want) in list {
        // some of these are damage, at which a reader may stop
        let strict = !what.starts_with("bad");
        dim(&mut v, format!("{}: {}", f, what), base, move |n| {
            let mut w = xml_work(osc, how, xml_doc(osc, &body(n)), want(n));
            if strict {
                w
            } else {
                Box::new(move || {
                    let _ = guard(&mut w);
                    Ok(())
                })
            }
        });
    }
    if osc {
        let list: Vec<(&str, Body, Want)> = vec![
            ("osc: actions with an object", |n| rep(n, |i, s| { let _ = writeln!(s, "<{}><node id=\"{}\"/></{}>", ["create", "modify", "delete"][i % 3], i, ["create", "modify", "delete"][i % 3]); }), |n| n),
            ("osc: actions without objects", |n| rep(n, |_, s| s.push_str("<create></create><delete/>")), |_| 0),
        ];
        for (what, body, want) in list {
            dim(&mut v, what, 2000, move |n| {
                let doc = format!("<osmChange version=\"0.6\">{}</osmChange>", body(n));
                xml_work(true, How::All, doc, want(n))
            });
        }
    }
    v
}

// ------------------------------------------------------------------------------------- PBF

fn varints(v: impl IntoIterator<Item = u64>) -> Vec<u8> {
    let mut o = vec![];
    for x in v {
        varint(&mut o, x);
    }
    o
}
fn packed(o: &mut Vec<u8>, field: u32, v: impl IntoIterator<Item = u64>) {
    bytes_field(o, field, &varints(v));
}

fn blob(out: &mut Vec<u8>, kind: &str, content: &[u8], zlib: bool) {
    let mut b = vec![];
    if zlib {
        bytes_field(&mut b, 3, &crate::pbfw::zlib(content, 1));
        int_field(&mut b, 2, content.len() as u64);
    } else {
        bytes_field(&mut b, 1, content);
    }
    let mut h = vec![];
    bytes_field(&mut h, 1, kind.as_bytes());
    int_field(&mut h, 3, b.len() as u64);
    out.extend((h.len() as u32).to_be_bytes());
    out.extend(h);
    out.extend(b);
}

fn header() -> Vec<u8> {
    let mut b = vec![];
    bytes_field(&mut b, 4, b"OsmSchema-V0.6");
    bytes_field(&mut b, 4, b"DenseNodes");
    let mut out = vec![];
    blob(&mut out, "OSMHeader", &b, true);
    out
}

/// A block of these groups
fn block(strings: &[String], groups: &[Vec<u8>]) -> Vec<u8> {
    let mut t = vec![];
    bytes_field(&mut t, 1, b"");
    for s in strings {
        bytes_field(&mut t, 1, s.as_bytes());
    }
    let mut b = vec![];
    bytes_field(&mut b, 1, &t);
    for g in groups {
        bytes_field(&mut b, 2, g);
    }
    b
}

fn info(user: u64) -> Vec<u8> {
    let mut b = vec![];
    int_field(&mut b, 1, 3);
    int_field(&mut b, 2, 1_500_000_000);
    int_field(&mut b, 3, 77);
    int_field(&mut b, 4, 8);
    int_field(&mut b, 5, user);
    b
}

/// (kind of group field, tags per object, references or members per object)
fn object(field: u32, id: i64, tags: usize, refs: usize, own: u64) -> Vec<u8> {
    let mut b = vec![];
    int_field(&mut b, 1, if field == 1 { zigzag(id) } else { id as u64 });
    if tags > 0 {
        packed(&mut b, 2, (0..tags as u64).map(|i| own + i));
        packed(&mut b, 3, (0..tags as u64).map(|_| 1));
    }
    bytes_field(&mut b, 4, &info(1));
    match field {
        1 => {
            int_field(&mut b, 8, zigzag(15_000_000));
            int_field(&mut b, 9, zigzag(25_000_000));
        }
        3 => {
            if refs > 0 {
                packed(&mut b, 8, deltas(&(0..refs as i64).map(|i| 1000 + i * 3).collect::<Vec<_>>()));
            }
        }
        _ => {
            if refs > 0 {
                packed(&mut b, 8, (0..refs as u64).map(|i| own + i));
                packed(&mut b, 9, deltas(&(0..refs as i64).map(|i| 1000 + i * 3).collect::<Vec<_>>()));
                packed(&mut b, 10, (0..refs as u64).map(|i| i % 3));
            }
        }
    }
    b
}

fn group(field: u32, objs: impl IntoIterator<Item = Vec<u8>>) -> Vec<u8> {
    let mut g = vec![];
    for o in objs {
        bytes_field(&mut g, field, &o);
    }
    g
}

fn dense_group(n: usize, tags: usize, meta: bool, own: bool) -> Vec<u8> {
    let mut d = vec![];
    packed(&mut d, 1, deltas(&(0..n as i64).map(|i| 10 + i * 2).collect::<Vec<_>>()));
    if meta {
        let mut i = vec![];
        packed(&mut i, 1, (0..n).map(|_| 2));
        packed(&mut i, 2, deltas(&(0..n as i64).map(|i| 1_500_000_000 + i).collect::<Vec<_>>()));
        packed(&mut i, 3, deltas(&(0..n as i64).map(|i| 1 + i).collect::<Vec<_>>()));
        packed(&mut i, 4, deltas(&(0..n as i64).map(|i| 1 + i % 7).collect::<Vec<_>>()));
        packed(&mut i, 5, deltas(&(0..n as i64).map(|i| if own { 1 + i } else { 1 + i % 2 }).collect::<Vec<_>>()));
        bytes_field(&mut d, 5, &i);
    }
    packed(&mut d, 8, deltas(&(0..n as i64).map(|i| 1_000_000 + i).collect::<Vec<_>>()));
    packed(&mut d, 9, deltas(&(0..n as i64).map(|i| 2_000_000 - i).collect::<Vec<_>>()));
    if tags > 0 {
        let mut kv = vec![];
        for i in 0..n as u64 {
            for t in 0..tags as u64 {
                kv.push(if own { 1 + i * tags as u64 + t } else { 1 + t });
                kv.push(2);
            }
            kv.push(0);
        }
        packed(&mut d, 10, kv);
    }
    let mut g = vec![];
    bytes_field(&mut g, 2, &d);
    g
}

fn names(n: usize) -> Vec<String> {
    (0..n.max(2)).map(|i| format!("string {}", i)).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum By {
    Owned,
    Arc,
    Pos,
    OwnedWays,
    ArcRelations,
    OwnedSlow,
    PosSlow,
    ArcSlow,
}

fn pbf_work(by: By, file: Vec<u8>, want: usize) -> Work {
    Box::new(move || {
        let d = &file[..];
        let n = match by {
            By::Owned => count_all(osmio::stringpbf::PBFReader::new(d)),
            By::Arc => count_all(osmio::arcpbf::PBFReader::new(d)),
            By::OwnedSlow => count_all(osmio::stringpbf::PBFReader::new(Slow(d))),
            By::ArcSlow => count_all(osmio::arcpbf::PBFReader::new(Slow(d))),
            By::PosSlow => osmio::stringpbf::PBFNodePositionReader::from_reader(Slow(d)).map(|o| { black_box(o); }).count(),
            By::Pos => osmio::stringpbf::PBFNodePositionReader::from_reader(d).map(|o| { black_box(o); }).count(),
            By::OwnedWays => osmio::stringpbf::PBFReader::new(d).ways().map(|o| { black_box(&o); }).count(),
            By::ArcRelations => osmio::arcpbf::PBFReader::new(d).relations().map(|o| { black_box(&o); }).count(),
        };
        wanted(want, n)
    })
}

fn pbf_dims() -> Vec<Dim> {
    let mut v = vec![];
    /// (the file, objects, nodes)
    type File = fn(usize) -> (Vec<u8>, usize, usize);
    fn file(blocks: &[Vec<u8>]) -> Vec<u8> {
        let mut f = header();
        for b in blocks {
            blob(&mut f, "OSMData", b, true);
        }
        f
    }
    let list: Vec<(&str, usize, File)> = vec![
        ("plain nodes in a block", 2500, |n| (file(&[block(&names(2), &[group(1, (0..n).map(|i| object(1, i as i64, 1, 0, 1)))])]), n, n)),
        ("dense nodes in a block", 4000, |n| (file(&[block(&names(3), &[dense_group(n, 1, true, false)])]), n, n)),
        ("dense nodes without metadata in a block", 6000, |n| (file(&[block(&names(3), &[dense_group(n, 0, false, false)])]), n, n)),
        ("dense nodes with users and keys of their own", 3000, |n| (file(&[block(&names(n + 2), &[dense_group(n, 1, true, true)])]), n, n)),
        ("ways in a block", 2500, |n| (file(&[block(&names(4), &[group(3, (0..n).map(|i| object(3, i as i64, 2, 3, 1)))])]), n, 0)),
        ("relations in a block", 2500, |n| (file(&[block(&names(4), &[group(4, (0..n).map(|i| object(4, i as i64, 1, 2, 1)))])]), n, 0)),
        ("ways with keys of their own", 2500, |n| (file(&[block(&names(n + 2), &[group(3, (0..n).map(|i| object(3, i as i64, 1, 3, 1 + i as u64)))])]), n, 0)),
        ("relations with roles of their own", 2500, |n| (file(&[block(&names(n + 2), &[group(4, (0..n).map(|i| object(4, i as i64, 1, 1, 1 + i as u64)))])]), n, 0)),
        ("tags of a plain node", 3000, |n| (file(&[block(&names(n + 1), &[group(1, [object(1, 5, n, 0, 1)])])]), 1, 1)),
        ("tags of a dense node", 3000, |n| (file(&[block(&names(n + 1), &[dense_group(1, n, true, true)])]), 1, 1)),
        ("tags of a way", 3000, |n| (file(&[block(&names(n + 1), &[group(3, [object(3, 5, n, 2, 1)])])]), 1, 0)),
        ("tags of a relation", 3000, |n| (file(&[block(&names(n + 1), &[group(4, [object(4, 5, n, 1, 1)])])]), 1, 0)),
        ("references of a way", 8000, |n| (file(&[block(&names(2), &[group(3, [object(3, 5, 1, n, 1)])])]), 1, 0)),
        ("members of a relation", 5000, |n| (file(&[block(&names(n + 1), &[group(4, [object(4, 5, 1, n, 1)])])]), 1, 0)),
        ("blocks", 300, |n| (file(&(0..n).map(|i| block(&names(3), &[group(3, [object(3, i as i64, 2, 3, 1)])])).collect::<Vec<_>>()), n, 0)),
        ("blocks of dense nodes", 300, |n| (file(&(0..n).map(|_| block(&names(3), &[dense_group(2, 1, true, false)])).collect::<Vec<_>>()), 2 * n, 2 * n)),
        ("blocks without objects", 300, |n| (file(&(0..n).map(|_| block(&names(3), &[])).collect::<Vec<_>>()), 0, 0)),
        ("groups of a way", 2500, |n| (file(&[block(&names(3), &(0..n).map(|i| group(3, [object(3, i as i64, 1, 2, 1)])).collect::<Vec<_>>())]), n, 0)),
        ("groups of a way with strings of their own", 2500, |n| (file(&[block(&names(n + 2), &(0..n).map(|i| group(3, [object(3, i as i64, 1, 2, 1 + i as u64)])).collect::<Vec<_>>())]), n, 0)),
        ("groups of a dense node with strings of their own", 1500, |n| (file(&[block(&names(n + 2), &(0..n).map(|_| dense_group(1, 1, true, false)).collect::<Vec<_>>())]), n, n)),
        ("groups of a dense node", 1500, |n| (file(&[block(&names(3), &(0..n).map(|_| dense_group(1, 1, true, false)).collect::<Vec<_>>())]), n, n)),
        ("groups without objects", 5000, |n| (file(&[block(&names(3), &(0..n).map(|_| vec![]).collect::<Vec<_>>())]), 0, 0)),
        ("unused strings", 8000, |n| (file(&[block(&names(n), &[group(1, [object(1, 5, 1, 0, 1)])])]), 1, 1)),
        ("characters of a string", 100000, |n| (file(&[block(&["x".repeat(n), "y".into()], &[group(4, [object(4, 5, 1, 1, 1)])])]), 1, 0)),
        ("other blobs", 300, |n| {
            let mut f = header();
            for _ in 0..n {
                blob(&mut f, "OSMOther", b"whatever it is", false);
            }
            f.extend(&file(&[block(&names(2), &[group(1, [object(1, 5, 1, 0, 1)])])])[header().len()..]);
            (f, 1, 1)
        }),
        ("bytes of another blob", 100000, |n| {
            let mut f = header();
            blob(&mut f, "OSMOther", &vec![b'x'; n], false);
            f.extend(&file(&[block(&names(2), &[group(1, [object(1, 5, 1, 0, 1)])])])[header().len()..]);
            (f, 1, 1)
        }),
        ("nodes in uncompressed blocks", 300, |n| {
            let mut f = header();
            for _ in 0..n {
                blob(&mut f, "OSMData", &block(&names(3), &[dense_group(5, 1, true, false)]), false);
            }
            (f, 5 * n, 5 * n)
        }),
    ];
    for (what, base, make) in list {
        for (name, by) in [("pbf", By::Owned), ("shared-string pbf", By::Arc), ("positions", By::Pos)] {
            dim(&mut v, format!("{}: {}", name, what), base, move |n| {
                let (f, objs, nodes) = make(n);
                pbf_work(by, f, if by == By::Pos { nodes } else { objs })
            });
        }
    }
    fn many(n: usize) -> Vec<u8> {
        let mut f = header();
        for i in 0..n {
            blob(&mut f, "OSMData", &block(&names(3), &[dense_group(20, 1, true, false)]), true);
            blob(&mut f, "OSMData", &block(&names(3), &[group(3, [object(3, i as i64, 2, 3, 1)])]), true);
        }
        f
    }
    for (name, by) in [
        ("pbf: blocks, with ways()", By::OwnedWays),
        ("shared-string pbf: blocks, with relations()", By::ArcRelations),
        ("pbf: blocks, delivered byte by byte", By::OwnedSlow),
        ("shared-string pbf: blocks, delivered byte by byte", By::ArcSlow),
    ] {
        dim(&mut v, name, 100, move |n| {
            let want = match by {
                By::OwnedWays => n,
                By::ArcRelations => 0,
                _ => 21 * n,
            };
            pbf_work(by, many(n), want)
        });
    }
    for (name, by) in [
        ("pbf: bytes of a block, delivered byte by byte", By::OwnedSlow),
        ("shared-string pbf: bytes of a block, delivered byte by byte", By::ArcSlow),
        ("positions: bytes of a block, delivered byte by byte", By::PosSlow),
    ] {
        dim(&mut v, name, 5000, move |n| {
            let mut f = header();
            blob(&mut f, "OSMData", &block(&["x".repeat(n), "y".into()], &[dense_group(1, 1, true, false)]), false);
            pbf_work(by, f, 1)
        });
    }
    v
}

// ------------------------------------------------------------------------------- changesets

const CS: &str = "created_at=\"2020-01-02T03:04:05Z\" open=\"false\" num_changes=\"1\" comments_count=\"0\"";

fn cs_dims(tmp: &std::path::Path) -> Vec<Dim> {
    let mut v = vec![];
    /// (content, changesets, those with tags)
    type Doc = fn(usize) -> (String, usize, usize);
    fn within(s: String) -> String {
        format!("<changeset id=\"1\" {}>{}</changeset>", CS, s)
    }
    let list: Vec<(&str, usize, Doc)> = vec![
        ("changesets without tags", 2500, |n| (rep(n, |i, s| { let _ = writeln!(s, "<changeset id=\"{}\" {}/>", i, CS); }), n, 0)),
        ("changesets with tags", 2500, |n| (rep(n, |i, s| { let _ = writeln!(s, "<changeset id=\"{}\" {}><tag k=\"comment\" v=\"no {}\"/></changeset>", i, CS, i); }), n, n)),
        ("changesets with discussions but no tags", 2000, |n| (rep(n, |i, s| { let _ = writeln!(s, "<changeset id=\"{}\" {}><discussion><comment><text>x</text></comment></discussion></changeset>", i, CS); }), n, 0)),
        ("tags of a changeset", 8000, |n| (within(rep(n, |i, s| { let _ = write!(s, "<tag k=\"key {}\" v=\"value\"/>", i); })), 1, 1)),
        ("comments of a changeset", 3000, |n| (within("<tag k=\"a\" v=\"b\"/>".to_string() + "<discussion>" + &rep(n, |_, s| s.push_str("<comment uid=\"1\"><text>text</text></comment>")) + "</discussion>"), 1, 1)),
        ("characters of a value", 100000, |n| (within(format!("<tag k=\"k\" v=\"{}\"/>", "v".repeat(n))), 1, 1)),
        ("characters of a user name", 100000, |n| (format!("<changeset id=\"1\" {} user=\"{}\"><tag k=\"a\" v=\"b\"/></changeset>", CS, "u".repeat(n)), 1, 1)),
        ("escaped characters of a value", 30000, |n| (within(format!("<tag k=\"k\" v=\"{}\"/>", "&amp;&#x263a;".repeat(n))), 1, 1)),
        ("characters of text", 100000, |n| (within(format!("<tag k=\"k\" v=\"v\"/><discussion><comment><text>{}</text></comment></discussion>", "t".repeat(n))), 1, 1)),
        ("other elements", 5000, |n| (rep(n, |_, s| s.push_str("<other/>")), 0, 0)),
        ("white space and comments", 5000, |n| (rep(n, |_, s| s.push_str(" \n<!-- x -->")), 0, 0)),
    ];
    for (what, base, make) in list {
        for slow in [false, true] {
        let how = if slow { ", byte by byte" } else { "" };
        dim(&mut v, format!("changesets: {}{}", what, how), if slow { base / 2 } else { base }, move |n| {
            let (doc, all, _) = make(n);
            let doc = format!("<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\">{}</osm>\n", doc);
            Box::new(move || {
                let mut got = 0;
                let d = doc.as_bytes();
                for c in ChangesetReader::from_reader(if slow { Either::Slow(Slow(d)) } else { Either::All(d) }) {
                    black_box(&c.map_err(|e| e.to_string())?);
                    got += 1;
                }
                wanted(all, got)
            })
        });
        }
        let tmp = tmp.to_path_buf();
        dim(&mut v, format!("changeset tags: {}", what), base, move |n| {
            let (doc, _, tagged) = make(n);
            let doc = format!("<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\">{}</osm>\n", doc);
            let path = tmp.join(format!("{}.osm.bz2", n));
            let mut e = bzip2::write::BzEncoder::new(std::fs::File::create(&path).unwrap(), bzip2::Compression::new(1));
            std::io::Write::write_all(&mut e, doc.as_bytes()).unwrap();
            e.finish().unwrap();
            let name = path.to_str().unwrap().to_string();
            Box::new(move || {
                let r = osmio::changesets::ChangesetTagReader::from_filename(&name).map_err(|e| e.to_string())?;
                let mut got = 0;
                for c in r {
                    black_box(&c.map_err(|e| e.to_string())?);
                    got += 1;
                }
                wanted(tagged, got)
            })
        });
    }
    v
}

// ----------------------------------------------------------------------------------- writers

fn plain(kind: Kind, id: i64) -> MObj {
    let mut m = MObj::new(kind, id);
    m.version = Some(1 + (id % 5) as u32);
    m.changeset = Some(77);
    m.uid = Some(8);
    m.user = Some("someone".into());
    m.ts = Some(Ts::Epoch(1_500_000_000));
    m.latlon = (kind == Kind::Node).then_some((15_000_000, 25_000_000));
    m
}

fn many_tags(kind: Kind, n: usize) -> MObj {
    let mut m = plain(kind, 1);
    m.tags = (0..n).map(|i| (format!("key {}", i), "value".to_string())).collect();
    m
}
fn many_nodes(n: usize) -> MObj {
    let mut m = plain(Kind::Way, 1);
    m.nodes = (0..n as i64).collect();
    m
}
fn many_members(n: usize) -> MObj {
    let mut m = plain(Kind::Rel, 1);
    m.members = (0..n as i64).map(|i| (Kind::Way, i, format!("role {}", i))).collect();
    m
}

fn write_all<W: OSMWriter<std::io::Sink>>(objs: &[StringOSMObj]) -> Result<(), String> {
    let mut w = W::new(std::io::sink());
    for o in objs {
        w.write_obj(o).map_err(|e| e.to_string())?;
    }
    w.close().map_err(|e| e.to_string())?;
    black_box(&w);
    Ok(())
}

fn writer_dims() -> Vec<Dim> {
    let mut v = vec![];
    type Objs = fn(usize) -> Vec<MObj>;
    fn with(mut m: MObj, f: impl Fn(&mut MObj)) -> Vec<MObj> {
        f(&mut m);
        vec![m]
    }
    let list: Vec<(&str, usize, Objs)> = vec![
        ("nodes", 2500, |n| (0..n as i64).map(|i| plain(Kind::Node, i)).collect()),
        ("ways", 2500, |n| (0..n as i64).map(|i| { let mut m = plain(Kind::Way, i); m.nodes = vec![i, 2, 3]; m }).collect()),
        ("relations", 2500, |n| (0..n as i64).map(|i| { let mut m = plain(Kind::Rel, i); m.members = vec![(Kind::Node, i, format!("role {}", i))]; m }).collect()),
        ("nodes with a tag and user of their own", 2000, |n| (0..n as i64).map(|i| { let mut m = plain(Kind::Node, i); m.tags = vec![(format!("key {}", i), format!("value {}", i))]; m.user = Some(format!("user {}", i)); m }).collect()),
        ("objects of changing kind and state", 2000, |n| (0..n as i64).map(|i| { let mut m = plain([Kind::Node, Kind::Way, Kind::Rel][i as usize % 3], i); m.deleted = i % 5 == 0; m }).collect()),
        ("tags of a node", 4000, |n| vec![many_tags(Kind::Node, n)]),
        ("tags of a way", 4000, |n| vec![many_tags(Kind::Way, n)]),
        ("tags of a relation", 4000, |n| vec![many_tags(Kind::Rel, n)]),
        ("references of a way", 8000, |n| vec![many_nodes(n)]),
        ("members of a relation", 5000, |n| vec![many_members(n)]),
        ("characters of a value", 100000, |n| with(plain(Kind::Node, 1), |m| m.tags = vec![("k".into(), "v".repeat(n))])),
        ("escaped characters of a value", 50000, |n| with(plain(Kind::Way, 1), |m| m.tags = vec![("k".into(), "<&\"\n".repeat(n))])),
        ("characters of a role", 100000, |n| with(plain(Kind::Rel, 1), |m| m.members = vec![(Kind::Way, 1, "é".repeat(n))])),
        ("characters of a user name", 100000, |n| with(plain(Kind::Node, 1), |m| m.user = Some("u".repeat(n)))),
    ];
    for (what, base, objs) in list {
        let build = move |n: usize| -> Vec<StringOSMObj> { objs(n).iter().map(quick_string).collect() };
        dim(&mut v, format!("writing xml: {}", what), base, move |n| {
            let o = build(n);
            Box::new(move || write_all::<osmio::xml::XMLWriter<std::io::Sink>>(&o))
        });
        dim(&mut v, format!("writing osc: {}", what), base, move |n| {
            let o = build(n);
            Box::new(move || write_all::<osmio::osc::OSCWriter<std::io::Sink>>(&o))
        });
    }
    dim(&mut v, "writing xml: nodes, with from_iter()", 2500, |n| {
        let o: Vec<StringOSMObj> = (0..n as i64).map(|i| quick_string(&plain(Kind::Node, i))).collect();
        Box::new(move || {
            black_box(osmio::xml::XMLWriter::from_iter(std::io::sink(), o.iter().cloned()));
            Ok(())
        })
    });
    v
}

/// Without set_tag(), which looks for the key in all tags there are
fn quick_string(m: &MObj) -> StringOSMObj {
    if m.tags.len() < 10 {
        return build_string(m);
    }
    // an XML document which says the same
    let mut tags = String::new();
    for (k, v) in &m.tags {
        let _ = write!(tags, "<tag k=\"{}\" v=\"{}\"/>", k, v);
    }
    let el = m.kind.name();
    let doc = format!("<osm><{} id=\"{}\" {} lat=\"1.5\" lon=\"2.5\">{}</{}></osm>", el, m.id, META, tags, el);
    osmio::xml::XMLReader::new(doc.as_bytes()).next().unwrap()
}

// ----------------------------------------------------------------------------------- objects

fn object_dims() -> Vec<Dim> {
    let mut v = vec![];
    fn of<O: OSMObj + 'static>(v: &mut Vec<Dim>, repr: &str, make: fn(&str, usize) -> O) {
        type Do<O> = fn(&O) -> usize;
        let list: Vec<(&str, &str, usize, Do<O>)> = vec![
            ("tags", "iterating over", 4000, |o| o.tags().map(|(k, v)| k.len() + v.len()).sum()),
            ("tags", "as JSON:", 4000, |o| o.tags_json_string().len()),
            ("tags", "cloning", 8000, |o| o.clone().id() as usize),
            ("tags", "comparing", 8000, |o| (o == &o.clone()) as usize),
            ("tags", "looking for a key in", 4000, |o| o.tag("no such key").is_some() as usize + o.has_tag("nor this") as usize),
            ("tags", "showing", 3000, |o| format!("{:?}", o).len()),
            ("tags", "changing one of", 8000, |o| { let mut o = o.clone(); o.set_tag("another", "x"); o.unset_tag("another"); o.num_tags() }),
            ("nodes", "iterating over", 4000, |o| o.as_way().unwrap().nodes().iter().map(|n| *n as usize).sum()),
            ("nodes", "one by one", 4000, |o| { let w = o.as_way().unwrap(); (0..w.num_nodes()).filter_map(|i| w.node(i)).count() + w.is_closed() as usize }),
            ("nodes", "setting", 4000, |o| { let mut w = o.clone().into_way().unwrap(); let n = w.nodes().to_vec(); w.set_nodes(n); w.num_nodes() }),
            ("nodes", "cloning", 4000, |o| o.clone().id() as usize),
            ("nodes", "comparing", 4000, |o| (o == &o.clone()) as usize),
            ("nodes", "showing", 5000, |o| format!("{:?}", o).len()),
            ("members", "iterating over", 4000, |o| o.as_relation().unwrap().members().map(|(_, id, r)| id as usize + r.len()).sum()),
            ("members", "setting", 5000, |o| { let mut r = o.clone().into_relation().unwrap(); let m: Vec<_> = o.as_relation().unwrap().members().map(|(t, i, r)| (t, i, r.to_string())).collect(); r.set_members(m); r.members().count() }),
            ("members", "cloning", 8000, |o| o.clone().id() as usize),
            ("members", "comparing", 8000, |o| (o == &o.clone()) as usize),
            ("members", "showing", 3000, |o| format!("{:?}", o).len()),
        ];
        for (what, how, base, f) in list {
            dim(v, format!("{} object: {} {}", repr, how, what), base, move |n| {
                let o = make(what, n);
                Box::new(move || {
                    black_box(f(&o));
                    Ok(())
                })
            });
        }
    }
    fn model(what: &str, n: usize) -> MObj {
        match what {
            "tags" => many_tags(Kind::Node, n),
            "nodes" => many_nodes(n),
            _ => many_members(n),
        }
    }
    fn shared(what: &str, n: usize) -> ArcOSMObj {
        let mut f = header();
        let g = match what {
            "tags" => group(1, [object(1, 1, n, 0, 1)]),
            "nodes" => group(3, [object(3, 1, 1, n, 1)]),
            _ => group(4, [object(4, 1, 1, n, 1)]),
        };
        let s = names(if what == "nodes" { 3 } else { n + 1 });
        blob(&mut f, "OSMData", &block(&s, &[g]), true);
        let o = osmio::arcpbf::PBFReader::new(&f[..]).next().unwrap();
        o
    }
    of(&mut v, "owned", |what, n| quick_string(&model(what, n)));
    of(&mut v, "shared", shared);
    // which can only be made one tag after the other
    if build_rc(&plain(Kind::Node, 1)).is_some() {
        let from = v.len();
        of(&mut v, "counted", |what, n| build_rc(&model(what, n)).unwrap());
        let rest = v.split_off(from);
        v.extend(rest.into_iter().filter(|d| !d.name.ends_with("tags")));
    }
    v
}
