//! P25: the PBF speed tool and the OSC debug tool.

use super::tool;
use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::pbfw::{self, Enc};
use crate::runner::*;
use crate::xmlw::W;
use serde_json::json;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "P25",
        level: "exploration",
        rule: "The real binaries run on files of known content: the count which the speed tool reports is compared with the number of objects encoded, the ids and kinds which the debug tool prints (on either output) with the changes of the file in order; cut-off, undecodable, unreadable and missing files must end in a failure. One evaluation is one run of a binary. Distinct by hash of input; non-trivial: the input holds objects, or is broken.",
        assumptions: &["cut exactly between two blocks, a PBF file is a complete shorter one (P11)"],
        legs: vec![
            leg("speed", 900, 20_000, speed),
            leg("speed many", 1, 3, speed_many),
            leg("speed broken", 800, 20_000, speed_broken),
            leg("debug", 800, 20_000, debug),
            leg("debug broken", 800, 20_000, debug_broken),
            leg("missing", 100, 1000, missing),
        ],
        required: &["objects counted", "objects printed", "failures", "cut between blocks", "missing files"],
        probes: vec![],
    }
}

fn put(cx: &mut Cx, name: &str, data: &[u8]) -> PathBuf {
    super::p20::file(cx, name, data)
}

/// The number in "Processed 1,234 objects in …", the last there is
fn reported(out: &str) -> Option<u64> {
    let line = out.lines().rev().find(|l| l.contains("Processed"))?;
    let after = line.split("Processed").nth(1)?;
    let word = after.split_whitespace().next()?;
    let digits: String = word.chars().filter(|c| c.is_ascii_digit()).collect();
    digits.parse().ok()
}

fn run_speed(p: &Path) -> Result<tool::Ran, String> {
    tool::run("osmio-pbf-read-speed", &[p.as_os_str()])
}

fn expect_count(cx: &mut Cx, r: &tool::Ran, n: u64) -> Result<(), String> {
    if !r.status.success() {
        return Err(format!("speed tool on a valid file of {} objects: {}", n, r.ending()));
    }
    if reported(&r.stdout) != Some(n) {
        return Err(format!(
            "speed tool reports {:?} for {} objects: {}",
            reported(&r.stdout),
            n,
            short(&r.stdout)
        ));
    }
    cx.count("objects counted", n);
    Ok(())
}

fn pbf_file(cx: &mut Cx) -> pbfw::PbfFile {
    let objs = match cx.rng.below(4) {
        0 => {
            let mut cfg = Cfg::pbf();
            cfg.big = false;
            let n = cx.rng.range(900, 2500) as usize;
            gen::small_objects(&mut cx.rng, &cfg, n)
        }
        _ => pbfw::gen_objects(&mut cx.rng, 60, false),
    };
    Enc::new(&mut cx.rng, 1).write(&objs)
}

fn speed(cx: &mut Cx) -> Result<(), String> {
    let f = pbf_file(cx);
    let p = put(cx, "in.osm.pbf", &f.bytes);
    let r = run_speed(&p)?;
    if !f.objs.is_empty() {
        cx.seen(crate::rng::hash_bytes(&f.bytes));
    }
    cx.sample(|| json!({"tool": "speed", "bytes": f.bytes.len(), "objects": f.objs.len(), "stdout": r.stdout}));
    expect_count(cx, &r, f.objs.len() as u64)
}

/// More than a million, where the tool reports on the way
fn speed_many(cx: &mut Cx) -> Result<(), String> {
    let mut objs = vec![];
    let n = 8000;
    for i in 0..n {
        let mut m = MObj::new(Kind::Node, i + 1);
        m.latlon = Some((i as i32 * 10, i as i32));
        objs.push(m);
    }
    let f = Enc::new(&mut cx.rng, 0).write(&objs);
    // the blocks after the header, again and again
    let head = f
        .blobs
        .iter()
        .find(|b| b.n > 0)
        .map(|b| b.start)
        .unwrap();
    let times = 1_000_000 / n as usize + 3;
    let mut bytes = f.bytes[..head].to_vec();
    for _ in 0..times {
        bytes.extend(&f.bytes[head..]);
    }
    let p = put(cx, "many.osm.pbf", &bytes);
    let r = run_speed(&p)?;
    std::fs::remove_file(&p).unwrap();
    cx.seen(crate::rng::hash_bytes(&bytes));
    cx.count("progress lines", r.stdout.lines().filter(|l| l.contains("so far")).count() as u64);
    cx.sample(|| json!({"tool": "speed", "bytes": bytes.len(), "objects": n as usize * times, "stdout": r.stdout}));
    expect_count(cx, &r, (n as usize * times) as u64)
}

fn failure(cx: &mut Cx, what: &str, r: tool::Ran) -> Result<(), String> {
    if !r.failed() {
        return Err(format!("{}: {}", what, r.ending()));
    }
    cx.count("failures", 1);
    Ok(())
}

fn speed_broken(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::pbf();
    cfg.big = false;
    let n = cx.rng.range(1, 30) as usize;
    let objs = gen::small_objects(&mut cx.rng, &cfg, n);
    let f = Enc::new(&mut cx.rng, 1).write(&objs);
    let at = if cx.rng.chance(1, 4) && !f.blobs.is_empty() {
        cx.rng.pick(&f.blobs).start
    } else {
        cx.rng.below(f.bytes.len())
    };
    let p = put(cx, "cut.osm.pbf", &f.bytes[..at]);
    let r = run_speed(&p)?;
    cx.seen(crate::rng::hash_bytes(&f.bytes[..at]));
    cx.sample(|| json!({"tool": "speed", "bytes": f.bytes.len(), "cut at": at, "boundary": f.is_boundary(at), "ending": r.ending()}));
    if f.is_boundary(at) {
        cx.count("cut between blocks", 1);
        return expect_count(cx, &r, f.objs_before(at) as u64);
    }
    failure(cx, &format!("speed tool on {} of {} bytes", at, f.bytes.len()), r)
}

const WORDS: &[&str] = &["node", "way", "relation"];

fn changes(cx: &mut Cx, max: usize) -> (String, Vec<MObj>, usize) {
    let n = cx.rng.below(max + 1);
    let mut objs = vec![];
    let mut ids: Vec<i64> = vec![];
    for i in 0..n {
        let mut m = gen::object(&mut cx.rng, &Cfg { big: false, ..Cfg::xml() });
        // an id which nothing else can be mistaken for
        m.id = loop {
            let id = cx.rng.range(100_000_000_000_000, 999_999_999_999_999);
            if !ids.contains(&id) {
                break id;
            }
        };
        ids.push(m.id);
        if cx.rng.chance(1, 5) {
            m.id = -m.id;
        }
        // strings without words and long numbers
        for (j, t) in m.tags.iter_mut().enumerate() {
            *t = (format!("k{}-{}", i, j), format!("v\"'{}<\n", j));
        }
        m.user = m.user.map(|_| format!("u {}", i));
        for x in m.nodes.iter_mut() {
            *x %= 1_000_000_000;
        }
        for x in m.members.iter_mut() {
            x.1 %= 1_000_000_000;
            x.2 = format!("r{}", i);
        }
        if let Some(Ts::Iso(_)) = m.ts {
            m.ts = Some(Ts::Epoch(i as i64 * 1000));
        }
        objs.push(m);
    }
    let fancy = cx.rng.below(2);
    let mut w = W::new(&mut cx.rng, fancy);
    let said = w.osc(&objs);
    let end = w.root_end;
    (w.out, said, end)
}

fn run_debug(p: &Path) -> Result<tool::Ran, String> {
    tool::run("osmio-osc-debug", &[p.as_os_str()])
}

/// (kind, id) of each object printed: the long numbers, and the last word for a kind before each
fn printed(out: &str) -> Vec<(Option<Kind>, i64)> {
    let mut v = vec![];
    let b = out.as_bytes();
    let mut from = 0;
    let mut i = 0;
    while i < b.len() {
        if !b[i].is_ascii_digit() {
            i += 1;
            continue;
        }
        let start = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i - start != 15 {
            continue;
        }
        let mut id: i64 = out[start..i].parse().unwrap();
        if start > 0 && b[start - 1] == b'-' {
            id = -id;
        }
        let before = out[from..start].to_lowercase();
        let kind = WORDS
            .iter()
            .filter_map(|w| before.rfind(w).map(|p| (p, *w)))
            .max()
            .map(|(_, w)| match w {
                "node" => Kind::Node,
                "way" => Kind::Way,
                _ => Kind::Rel,
            });
        v.push((kind, id));
        from = i;
    }
    v
}

fn debug(cx: &mut Cx) -> Result<(), String> {
    let (doc, said, _) = changes(cx, 40);
    let p = put(cx, "in.osc", doc.as_bytes());
    let r = run_debug(&p)?;
    if !said.is_empty() {
        cx.seen(crate::rng::hash_bytes(doc.as_bytes()));
    }
    cx.sample(|| json!({"tool": "debug", "document": doc, "objects": said.len(), "printed": r.stderr.len() + r.stdout.len()}));
    if !r.status.success() {
        return Err(format!("debug tool on {} changes: {}", said.len(), r.ending()));
    }
    let want: Vec<_> = said.iter().map(|o| (Some(o.kind), o.id)).collect();
    let both = format!("{}\n{}", r.stdout, r.stderr);
    let got = printed(&both);
    if got != want {
        let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "debug tool prints {} objects of {}, from #{} on {:?} instead of {:?}",
            got.len(),
            want.len(),
            at,
            got.get(at),
            want.get(at)
        ));
    }
    cx.count("objects printed", got.len() as u64);
    Ok(())
}

fn debug_broken(cx: &mut Cx) -> Result<(), String> {
    let (doc, said, root_end) = changes(cx, 8);
    let bytes = doc.as_bytes();
    let at = cx.rng.below(root_end);
    let p = put(cx, "cut.osc", &bytes[..at]);
    let r = run_debug(&p)?;
    cx.seen(crate::rng::hash_bytes(&bytes[..at]));
    // nothing is printed that is not there
    let want: Vec<_> = said.iter().map(|o| (Some(o.kind), o.id)).collect();
    let got = printed(&format!("{}\n{}", r.stdout, r.stderr));
    if !want.starts_with(&got) {
        return Err(format!(
            "debug tool on {} of {} bytes prints {:?}; there are {:?}",
            at,
            bytes.len(),
            got,
            want
        ));
    }
    cx.sample(|| json!({"tool": "debug", "cut at": at, "document": text(bytes), "ending": r.ending()}));
    failure(cx, &format!("debug tool on {} of {} bytes", at, bytes.len()), r)
}

fn missing(cx: &mut Cx) -> Result<(), String> {
    let p = cx.tmp.join("not there");
    let d = cx.tmp.join("directory");
    std::fs::create_dir_all(&d).unwrap();
    // valid input where nobody asked to read it
    let f = pbf_file(cx);
    let pbf = put(cx, "stdin.osm.pbf", &f.bytes);
    let (doc, _, _) = changes(cx, 10);
    let osc = put(cx, "stdin.osc", doc.as_bytes());
    for (name, p) in [
        ("osmio-pbf-read-speed", &p),
        ("osmio-osc-debug", &p),
        ("osmio-pbf-read-speed", &d),
        ("osmio-osc-debug", &d),
    ] {
        let limits = tool::Limits {
            stdin: Some(if name.contains("pbf") { pbf.clone() } else { osc.clone() }),
            ..Default::default()
        };
        let r = tool::start(name, &[p.as_os_str()], limits).wait(tool::MAX)?;
        cx.count("missing files", 1);
        failure(cx, &format!("{} on {:?}", name, p), r)?;
    }
    if p.exists() {
        return Err(format!("{:?} was created", p));
    }
    cx.evals(4);
    cx.seen(1);
    Ok(())
}
