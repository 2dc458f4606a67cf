//! P14: failing sinks.

use super::util::*;
use crate::faults::{Chunk, Fail, Sink, ERROR_KINDS};
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rd::Rk;
use crate::runner::*;
use osmio::osc::OSCWriter;
use osmio::xml::XMLWriter;
use osmio::{OSMWriteError, OSMWriter};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn prop() -> Prop {
    Prop {
        id: "P14",
        level: "fault_enumeration",
        rule: "A random sequence of operations (a header, objects, close or not, drop) runs on a healthy sink as reference and then once for every byte position of the reference document and each way of failing there (error, accepts nothing, one failure then healthy), whole or partial or interrupted writes, and again while the thread is unwinding. Distinct by (document, position, mode); non-trivial: the failure was reached.",
        assumptions: &[
            "at most one header, as several have no fixed order",
            "documents up to about 1500 bytes are failed at every byte, larger ones at sampled positions",
        ],
        legs: vec![
            leg("every byte", 480, 4000, every_byte),
            leg("large", 320, 2000, large),
            leg("healthy but slow", 20000, 150000, slow),
            leg("unwinding", 3200, 20000, unwinding),
        ],
        required: &["failures hit", "failed in write_obj", "failed in close", "failed in drop", "dropped while unwinding"],
        probes: vec![],
    }
}

#[derive(Clone, Debug)]
enum Op {
    Header(String, String),
    Write(usize),
    Close,
}

struct Plan {
    kind: Rk,
    ops: Vec<Op>,
    objs: Vec<AnyObj>,
    /// what a healthy sink has after each operation, the drop being the last
    lens: Vec<usize>,
    doc: Vec<u8>,
}

fn op<W: OSMWriter<Sink>>(w: &mut W, o: &Op, objs: &[AnyObj]) -> Result<(), OSMWriteError> {
    match o {
        Op::Header(k, v) => w.set_header((k, v)),
        Op::Write(n) => write_any(w, &objs[*n]),
        Op::Close => w.close(),
    }
}

/// With the reference run
fn plan(cx: &mut Cx, max: usize, big: bool) -> Result<Plan, String> {
    let kind = *cx.rng.pick(&[Rk::Xml, Rk::Osc]);
    let mut cfg = Cfg::xml();
    cfg.big = big;
    let n = cx.rng.below(max + 1);
    let models = if big {
        (0..n).map(|_| gen::object(&mut cx.rng, &cfg)).collect()
    } else {
        gen::small_objects(&mut cx.rng, &cfg, n)
    };
    let objs = build_all(&mut cx.rng, &models);
    let mut ops = vec![];
    if kind == Rk::Xml && cx.rng.bool() {
        ops.push(Op::Header(
            "copyright".into(),
            gen::string(&mut cx.rng, gen::Chars::Xml),
        ));
    }
    ops.extend((0..n).map(Op::Write));
    let how = cx.rng.below(3);
    if how > 0 {
        ops.push(Op::Close);
    }
    if how == 2 {
        ops.push(Op::Close);
    }
    fn reference<W: OSMWriter<Sink>>(ops: &[Op], objs: &[AnyObj]) -> Result<(Vec<usize>, Vec<u8>), String> {
        let sink = Sink::new();
        let mut lens = vec![];
        let mut w = W::new(sink.clone());
        for o in ops {
            let _ = op(&mut w, o, objs);
            lens.push(sink.len());
        }
        drop(w);
        lens.push(sink.len());
        Ok((lens, sink.data()))
    }
    let (lens, doc) = must("writing to a healthy sink", || match kind {
        Rk::Xml => reference::<XMLWriter<Sink>>(&ops, &objs),
        _ => reference::<OSCWriter<Sink>>(&ops, &objs),
    })??;
    Ok(Plan {
        kind,
        ops,
        objs,
        lens,
        doc,
    })
}

fn drive(cx: &mut Cx, p: &Plan, sink: Sink) -> Result<(), String> {
    match p.kind {
        Rk::Xml => drive_as::<XMLWriter<Sink>>(cx, p, sink),
        _ => drive_as::<OSCWriter<Sink>>(cx, p, sink),
    }
}

fn drive_as<W: OSMWriter<Sink>>(cx: &mut Cx, p: &Plan, sink: Sink) -> Result<(), String> {
    let what = |i: usize, m: String| -> String {
        let o = p.ops.get(i).map_or("drop".to_string(), |o| match o {
            Op::Header(..) => "set_header".into(),
            Op::Write(n) => format!("write_obj of object {}", n),
            Op::Close => "close".into(),
        });
        format!(
            "{:?} writer, {:?} {:?}, {} (operation {} of {}): {}; document: {}",
            p.kind,
            sink.fail,
            sink.chunk,
            o,
            i,
            p.ops.len(),
            m,
            short(&text(&p.doc))
        )
    };
    let mut w = must("new", || W::new(sink.clone()))?;
    let mut failed = false;
    for (i, o) in p.ops.iter().enumerate() {
        let before = sink.len();
        let r = must("", || op(&mut w, o, &p.objs)).map_err(|e| what(i, e))?;
        let hit = sink.take_hit();
        if hit {
            cx.count("failures hit", 1);
            cx.count(
                match o {
                    Op::Header(..) => "failed in set_header",
                    Op::Write(_) => "failed in write_obj",
                    Op::Close => "failed in close",
                },
                1,
            );
            if r.is_ok() {
                return Err(what(i, "the sink failed but the call reports success".into()));
            }
            // and what the sink said, if this is the first failure
            let kind = match sink.fail {
                Fail::At(_, k) | Fail::Once(_, k) => k,
                _ => std::io::ErrorKind::WriteZero,
            };
            let said = match &r {
                Err(OSMWriteError::XMLWriteIOError(e)) | Err(OSMWriteError::OPLWrite(e)) => e.kind() == kind,
                _ => false,
            };
            if !failed && !said {
                return Err(what(i, format!("the sink failed with {:?}, the call with {:?}", kind, r)));
            }
            cx.count("errors of the sink handed on", said as u64);
        }
        if !failed {
            let data = sink.data();
            if !p.doc.starts_with(&data) {
                return Err(what(
                    i,
                    format!("the sink has {}, which is no prefix of the document", short(&text(&data))),
                ));
            }
            if !hit {
                // as if the sink were healthy
                if data.len() != p.lens[i] {
                    return Err(what(
                        i,
                        format!(
                            "{} bytes were handed over, {} before, {} to a healthy sink",
                            data.len(),
                            before,
                            p.lens[i]
                        ),
                    ));
                }
            }
        }
        if hit {
            failed = true;
        }
        if failed {
            must("is_open", || w.is_open()).map_err(|e| what(i, e))?;
        }
    }
    must("drop", || drop(w)).map_err(|e| what(p.ops.len(), e))?;
    if sink.take_hit() && !failed {
        cx.count("failures hit", 1);
        cx.count("failed in drop", 1);
        failed = true;
        let data = sink.data();
        if !p.doc.starts_with(&data) && !matches!(sink.fail, Fail::Once(..)) {
            return Err(what(p.ops.len(), "the sink has no prefix of the document".into()));
        }
    }
    if !failed && sink.data() != p.doc {
        return Err(what(p.ops.len(), format!("the document is {}", short(&text(&sink.data())))));
    }
    Ok(())
}

fn fails(cx: &mut Cx, at: usize) -> Fail {
    let kind = *cx.rng.pick(ERROR_KINDS);
    match cx.rng.below(3) {
        0 => Fail::At(at, kind),
        1 => Fail::Full(at),
        _ => Fail::Once(at, kind),
    }
}

fn with_chunks(cx: &mut Cx, sink: Sink) -> Sink {
    match cx.rng.below(4) {
        0 => sink.chunks(Chunk::Random(1 + cx.rng.below(12)), 3, cx.rng.u64()),
        1 => sink.chunks(Chunk::Fixed(1), 0, 1),
        2 => sink.chunks(Chunk::All, 2, cx.rng.u64()),
        _ => sink,
    }
}

fn every_byte(cx: &mut Cx) -> Result<(), String> {
    let mut p = plan(cx, 3, false)?;
    while p.doc.len() > 1500 {
        p = plan(cx, 2, false)?;
    }
    let h = crate::rng::hash_bytes(&p.doc);
    cx.sample(|| json!({"operations": p.ops.len(), "document": text(&p.doc), "positions": p.doc.len() + 1}));
    let mut n = 0;
    for at in 0..=p.doc.len() {
        for mode in 0..3u64 {
            let kind = ERROR_KINDS[(at + mode as usize) % ERROR_KINDS.len()];
            let f = match mode {
                0 => Fail::At(at, kind),
                1 => Fail::Full(at),
                _ => Fail::Once(at, kind),
            };
            let sink = Sink::new().fail(f);
            let sink = if at % 3 == 0 { with_chunks(cx, sink) } else { sink };
            drive(cx, &p, sink)?;
            n += 1;
            if at < p.doc.len() {
                cx.seen_of(&(h, at, mode));
            }
        }
    }
    cx.count("positions", p.doc.len() as u64 + 1);
    cx.evals(n);
    Ok(())
}

fn large(cx: &mut Cx) -> Result<(), String> {
    let p = plan(cx, 40, true)?;
    let h = crate::rng::hash_bytes(&p.doc);
    let n = 60;
    for _ in 0..n {
        let at = cx.rng.below(p.doc.len() + 1);
        let f = fails(cx, at);
        let sink = Sink::new().fail(f);
        let sink = with_chunks(cx, sink);
        drive(cx, &p, sink)?;
        cx.seen_of(&(h, at));
    }
    cx.evals(n);
    Ok(())
}

/// Partial and interrupted writes change nothing
fn slow(cx: &mut Cx) -> Result<(), String> {
    let p = plan(cx, 6, false)?;
    for n in [1, 2, 3 + cx.rng.below(20)] {
        let i = *cx.rng.pick(&[0usize, 2, 5]);
        let s = cx.rng.u64();
        let c = if cx.rng.bool() { Chunk::Fixed(n) } else { Chunk::Random(n) };
        drive(cx, &p, Sink::new().chunks(c, i, s))?;
    }
    cx.count("slow sinks", 3);
    cx.seen(crate::rng::hash_bytes(&p.doc));
    cx.evals(3);
    Ok(())
}

/// Dropping a writer while the thread unwinds, which must not panic again as that aborts
fn unwinding(cx: &mut Cx) -> Result<(), String> {
    struct Deliberate;
    let p = plan(cx, 3, false)?;
    let until = cx.rng.below(p.ops.len() + 1);
    fn go<W: OSMWriter<Sink>>(p: &Plan, until: usize, sink: Sink) {
        let mut w = W::new(sink);
        for o in &p.ops[..until] {
            let _ = op(&mut w, o, &p.objs);
        }
        std::panic::resume_unwind(Box::new(Deliberate));
    }
    for _ in 0..20 {
        let at = cx.rng.below(p.doc.len() + 1);
        let f = fails(cx, at);
        let sink = with_chunks(cx, Sink::new().fail(f));
        let r = catch_unwind(AssertUnwindSafe(|| match p.kind {
            Rk::Xml => go::<XMLWriter<Sink>>(&p, until, sink.clone()),
            _ => go::<OSCWriter<Sink>>(&p, until, sink.clone()),
        }));
        match r {
            Err(e) if e.is::<Deliberate>() => {}
            Err(_) => {
                return Err(format!(
                    "{:?} writer, {:?}: a call panicked; document: {}",
                    p.kind,
                    f,
                    short(&text(&p.doc))
                ))
            }
            Ok(()) => unreachable!(),
        }
        cx.count("dropped while unwinding", 1);
        cx.seen_of(&(crate::rng::hash_bytes(&p.doc), at, until));
    }
    cx.evals(20);
    Ok(())
}
