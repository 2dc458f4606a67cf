//! P10: the same bytes in every way a source can deliver them.

use super::util::*;
use crate::faults::{Chunk, Src};
use crate::gen::Cfg;
use crate::pbfw::{self, Enc};
use crate::rd::{self, Item, Rk};
use crate::runner::*;
use crate::xmlw::{self, W};
use osmio::OSMReader;
use serde_json::json;
use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "P10",
        level: "exploration",
        rule: "Valid inputs of every reader are delivered at once, in fixed and random pieces from one byte up, and with interrupted reads (for the changeset tag reader, which opens a file, through a named pipe), and must give the known items; the reader is asked for its source before, during and after and must hand back that very source. Distinct by hash of input and schedule; non-trivial: at least one item.",
        assumptions: &["sources follow the contract of Read", "the tag reader offers no place for interrupted reads"],
        legs: vec![
            leg("xml", 5400, 40000, |cx| case(cx, Rk::Xml)),
            leg("osc", 5400, 40000, |cx| case(cx, Rk::Osc)),
            leg("pbf", 7200, 60000, |cx| case(cx, Rk::Pbf)),
            leg("arc", 7200, 60000, |cx| case(cx, Rk::Arc)),
            leg("pos", 7200, 60000, |cx| case(cx, Rk::Pos)),
            leg("cs", 5400, 40000, |cx| case(cx, Rk::Cs)),
            leg("cs bz2", 900, 6000, cs_bz2),
            leg("tags pipe", 900, 6000, tags_pipe),
            leg("handed back", 9000, 60000, handed_back),
        ],
        required: &["interrupted reads", "reads", "sources handed back", "one byte at a time"],
        probes: vec![],
    }
}

fn input(cx: &mut Cx, kind: Rk) -> (Vec<u8>, Vec<Item>) {
    match kind {
        Rk::Xml | Rk::Osc => {
            let objs = crate::gen::objects(&mut cx.rng, &Cfg::xml(), 8);
            let mut w = W::new(&mut cx.rng, 1);
            let said = if kind == Rk::Xml {
                w.osm(&objs);
                objs
            } else {
                w.osc(&objs)
            };
            (w.out.into_bytes(), rd::objs(&said))
        }
        Rk::Cs => {
            let cs = xmlw::gen_changesets(&mut cx.rng, 8);
            let mut w = W::new(&mut cx.rng, 1);
            w.changesets(&cs);
            (w.out.into_bytes(), rd::changesets(&cs))
        }
        _ => {
            let objs = pbfw::gen_objects(&mut cx.rng, 12, false);
            let f = Enc::new(&mut cx.rng, 1).write(&objs);
            let items = rd::pbf_items(kind, &f);
            (f.bytes, items)
        }
    }
}

fn schedule(cx: &mut Cx, src: Src) -> (Src, String) {
    let chunk = match cx.rng.below(6) {
        0 => Chunk::Fixed(1),
        1 => Chunk::Fixed(1 + cx.rng.below(7)),
        2 => Chunk::Random(3),
        3 => Chunk::Random(40),
        4 => Chunk::Random(3000),
        _ => Chunk::All,
    };
    if matches!(chunk, Chunk::Fixed(1)) {
        cx.count("one byte at a time", 1);
    }
    let interrupt = *cx.rng.pick(&[0, 2, 3, 10, 50]);
    let name = format!("{:?}, interrupt 1/{}", chunk, interrupt);
    let seed = cx.rng.u64();
    (src.chunks(chunk, interrupt, seed), name)
}

fn note(cx: &mut Cx, st: &crate::faults::SrcStats) {
    cx.count("reads", st.reads.load(SeqCst));
    cx.count("interrupted reads", st.interrupts.load(SeqCst));
    cx.count("bytes", st.delivered.load(SeqCst));
}

fn case(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let (bytes, want) = input(cx, kind);
    let data = Arc::new(bytes);
    let whole = rd::read(kind, &data[..], want.len() + 10);
    rd::expect_items(&want, &whole).map_err(|e| format!("all at once: {}", e))?;
    for _ in 0..3 {
        let (src, name) = schedule(cx, Src::new(&data));
        let st = src.stats.clone();
        let got = rd::read(kind, src, want.len() + 10);
        note(cx, &st);
        rd::expect_items(&want, &got)
            .map_err(|e| format!("{:?} delivered as {}: {}", kind, name, e))?;
        if !want.is_empty() {
            cx.seen(crate::rng::hash_bytes(&data) ^ crate::rng::hash_bytes(name.as_bytes()));
        }
        cx.sample(|| json!({"reader": format!("{:?}", kind), "bytes": data.len(), "items": want.len(),
            "schedule": name, "reads": st.reads.load(SeqCst), "interrupted": st.interrupts.load(SeqCst)}));
    }
    cx.evals(4);
    Ok(())
}

pub fn bz2(data: &[u8]) -> Vec<u8> {
    let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

fn cs_bz2(cx: &mut Cx) -> Result<(), String> {
    let (bytes, want) = input(cx, Rk::Cs);
    let z = Arc::new(bz2(&bytes));
    let (src, name) = schedule(cx, Src::new(&z));
    let st = src.stats.clone();
    let got = must("from_bz2_reader", || {
        osmio::changesets::ChangesetReader::from_bz2_reader(src)
    })?;
    let got = rd::drain_cs(got, want.len() + 10);
    note(cx, &st);
    cx.seen(crate::rng::hash_bytes(&z) ^ crate::rng::hash_bytes(name.as_bytes()));
    rd::expect_items(&want, &got).map_err(|e| format!("bzip2 delivered as {}: {}", name, e))
}

/// Through a named pipe: the writer decides how much there is at a time
fn tags_pipe(cx: &mut Cx) -> Result<(), String> {
    let cs = xmlw::gen_changesets(&mut cx.rng, 8);
    let mut w = W::new(&mut cx.rng, 1);
    w.changesets(&cs);
    let want = rd::tagged(&cs);
    let z = bz2(w.out.as_bytes());
    let path = cx.tmp.join("pipe");
    let _ = std::fs::remove_file(&path);
    let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
        panic!("no named pipe");
    }
    // read and write, so neither side has to wait for the other to open it
    let fd = unsafe { libc::open(c.as_ptr(), libc::O_RDWR | libc::O_NONBLOCK) };
    assert!(fd >= 0);
    let mut pieces = vec![];
    let mut at = 0;
    let size = *cx.rng.pick(&[1usize, 5, 60, 4000]);
    while at < z.len() {
        let n = (1 + cx.rng.below(size)).min(z.len() - at);
        pieces.push(z[at..at + n].to_vec());
        at += n;
    }
    let slow = cx.rng.chance(1, 4);
    let reader = std::sync::atomic::AtomicBool::new(false);
    let over = std::sync::atomic::AtomicBool::new(false);
    let name = path.to_str().unwrap().to_string();
    let n_pieces = pieces.len();
    let got = std::thread::scope(|s| {
        s.spawn(|| {
            while !reader.load(SeqCst) && !over.load(SeqCst) {
                std::thread::yield_now();
            }
            'all: for p in &pieces {
                let mut p = &p[..];
                while !p.is_empty() {
                    if over.load(SeqCst) {
                        break 'all;
                    }
                    let n = unsafe { libc::write(fd, p.as_ptr() as *const _, p.len()) };
                    if n > 0 {
                        p = &p[n as usize..];
                    } else {
                        std::thread::yield_now();
                    }
                }
                if slow {
                    std::thread::yield_now();
                }
            }
            unsafe { libc::close(fd) };
        });
        let r = guard(|| osmio::changesets::ChangesetTagReader::from_filename(&name));
        reader.store(true, SeqCst);
        let r = match r {
            Ok(Ok(r)) => Ok(rd::drain_tags(
                r.map(|x| x.map_err(|e| e.to_string())),
                want.len() + 10,
            )),
            Ok(Err(e)) => Err(e.to_string()),
            Err(c) => Err(c.to_string()),
        };
        over.store(true, SeqCst);
        r
    });
    let _ = std::fs::remove_file(&path);
    cx.count("pieces through a pipe", n_pieces as u64);
    cx.seen(crate::rng::hash_bytes(&z));
    let got = got.map_err(|e| format!("cannot open a named pipe: {}", e))?;
    rd::expect_items(&want, &got).map_err(|e| format!("tags in {} pieces: {}", n_pieces, e))
}

fn handed_back(cx: &mut Cx) -> Result<(), String> {
    let kind = *cx.rng.pick(&[Rk::Xml, Rk::Osc, Rk::Pbf, Rk::Arc, Rk::Cs]);
    let (bytes, want) = input(cx, kind);
    let data = Arc::new(bytes);
    let mut src = Src::new(&data);
    src.tag = cx.rng.u64();
    let tag = src.tag;
    let st = src.stats.clone();
    let steps = cx.rng.below(want.len() + 3);
    fn go<R: OSMReader<R = Src>>(mut r: R, steps: usize, tag: u64, want: &[Item]) -> Result<Src, String> {
        let mut n = 0;
        for i in 0..=steps {
            let inner = r.inner();
            if inner.tag != tag {
                return Err("inner() is another source".into());
            }
            if inner.pos == 0 && n > 0 {
                return Err("inner() has not been read from".into());
            }
            if i < steps {
                match r.next() {
                    Some(o) => {
                        if let Item::Obj(m) = &want[n] {
                            if let Some(d) = m.diff(&crate::model::observe(&o)) {
                                return Err(d);
                            }
                        }
                        n += 1;
                    }
                    None if n == want.len() => {}
                    None => return Err(format!("ended after {} of {}", n, want.len())),
                }
            }
        }
        Ok(r.into_inner())
    }
    let back = must("handing back the source", || match kind {
        Rk::Xml => go(osmio::xml::XMLReader::new(src), steps, tag, &want),
        Rk::Osc => go(osmio::osc::OSCReader::new(src), steps, tag, &want),
        Rk::Pbf => go(osmio::stringpbf::PBFReader::new(src), steps, tag, &want),
        Rk::Arc => go(osmio::arcpbf::PBFReader::new(src), steps, tag, &want),
        _ => {
            let mut r = osmio::changesets::ChangesetReader::from_reader(src);
            for _ in 0..steps {
                if r.get_ref().tag != tag {
                    return Err("get_ref() is another source".to_string());
                }
                let _ = r.next();
            }
            Ok(r.into_inner())
        }
    })?
    .map_err(|e| format!("{:?}: {}", kind, e))?;
    if back.tag != tag || !Arc::ptr_eq(&back.stats, &st) {
        return Err(format!("{:?}: into_inner() gives another source", kind));
    }
    if back.pos as u64 != st.delivered.load(SeqCst) {
        return Err(format!("{:?}: the source was changed", kind));
    }
    cx.count("sources handed back", 1);
    cx.seen(crate::rng::hash_bytes(&data) ^ steps as u64);
    note(cx, &st);
    let _ = text;
    Ok(())
}
