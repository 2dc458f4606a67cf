//! P13: the life cycle of the writers.

use super::p03::check_document;
use super::util::*;
use crate::faults::{Chunk, Sink};
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rd::Rk;
use crate::runner::*;
use osmio::osc::OSCWriter;
use osmio::xml::XMLWriter;
use osmio::{OSMWriteError, OSMWriter};
use serde_json::json;
use std::io::Write;

pub const KEY: &str = "xml-close-then-drop";
/// What the known finding adds each time, and nothing else
const EXTRA: &[u8] = b"\n</osm>";

pub fn prop() -> Prop {
    Prop {
        id: "P13",
        level: "exploration",
        rule: "Random sequences of set_header, write_obj, close, is_open and a final drop or forget on each writer, and on a minimal writer of a format without headers, with the sink's bytes observed after every call, are checked online against the life-cycle automaton; whatever completes is parsed by an independent XML parser. All sequences up to length 5 over the operations are enumerated in the leg 'enumerated'. Distinct by operation sequence and document; non-trivial: at least one operation before the drop.",
        assumptions: &[
            "the sink accepts everything (failing sinks are P14)",
            "known finding xml-close-then-drop: each further completion of a closed XMLWriter may append exactly one extra closing tag",
        ],
        legs: vec![
            leg("enumerated", 2 * ENUMERATED, 2 * ENUMERATED, enumerated),
            leg("random", 72000, 600000, random),
            leg("from_iter", 24000, 150000, from_iter),
            leg("without headers", 2400, 20000, without_headers),
        ],
        required: &["closed explicitly", "completed by drop", "refused objects", "refused headers", "completed empty"],
        probes: vec![(KEY, probe)],
    }
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Header(String, String),
    Write(usize),
    Close,
}

#[derive(PartialEq, Clone, Copy)]
enum St {
    Initial,
    Writing,
    Closed,
}

fn drive<W: OSMWriter<Sink>>(
    cx: &mut Cx,
    kind: Rk,
    ops: &[Op],
    objs: &[AnyObj],
    models: &[MObj],
    forget: bool,
) -> Result<(), String> {
    let mut sink = Sink::new();
    if cx.rng.chance(1, 6) {
        sink = sink.chunks(Chunk::Random(7), 4, cx.rng.u64());
    }
    let mut w = must("new", || W::new(sink.clone()))?;
    let mut st = St::Initial;
    let mut headers: Vec<(String, String)> = vec![];
    let mut written: Vec<MObj> = vec![];
    let mut done: Vec<u8> = vec![];
    let mut i = 0;
    let fail = |i: usize, m: String| -> Result<(), String> {
        Err(format!("{:?} writer, operation {} of {:?}: {}", kind, i, ops, m))
    };
    for op in ops {
        let before = sink.data();
        match op {
            Op::Header(k, v) => {
                let r = must("set_header", || w.set_header((k, v)))?;
                let accept = kind == Rk::Xml && st == St::Initial;
                if r.is_ok() != accept {
                    return fail(i, format!("set_header returned {:?}", r.err()));
                }
                if accept {
                    headers.retain(|h| h.0 != *k);
                    headers.push((k.clone(), v.clone()));
                    cx.count("accepted headers", 1);
                } else {
                    cx.count("refused headers", 1);
                    let right = match (kind, st) {
                        (Rk::Osc, _) => matches!(r, Err(OSMWriteError::FormatDoesntSupportHeaders)),
                        (_, St::Closed) => matches!(r, Err(OSMWriteError::AlreadyClosed)),
                        _ => matches!(r, Err(OSMWriteError::AlreadyStarted)),
                    };
                    if !right {
                        return fail(i, format!("set_header returned {:?}", r.err()));
                    }
                    if sink.data() != before {
                        return fail(i, "a refused header changed the output".into());
                    }
                }
            }
            Op::Write(n) => {
                let o = &objs[*n];
                let r = must("write_obj", || write_any(&mut w, o))?;
                if st == St::Closed {
                    cx.count("refused objects", 1);
                    if !matches!(r, Err(OSMWriteError::AlreadyClosed)) {
                        return fail(i, format!("an object for a closed writer: {:?}", r));
                    }
                    if sink.data() != before {
                        return fail(i, "a refused object changed the output".into());
                    }
                } else {
                    if let Err(e) = r {
                        return fail(i, format!("write_obj returned {}", e));
                    }
                    written.push(models[*n].clone());
                    st = St::Writing;
                }
            }
            Op::Close => {
                let r = must("close", || w.close())?;
                if st == St::Closed {
                    cx.count("closed again", 1);
                    let now = sink.data();
                    if now != before && !(kind == Rk::Xml && now == [&before, EXTRA].concat()) {
                        return fail(i, format!("closing again changed the output to {}", short(&text(&now))));
                    }
                    if now != before {
                        cx.count("known finding seen", 1);
                    }
                } else {
                    if let Err(e) = r {
                        return fail(i, format!("close returned {}", e));
                    }
                    st = St::Closed;
                    done = sink.data();
                    cx.count("closed explicitly", 1);
                    if let Err(e) = check_document(kind, &done, &written, &headers) {
                        return fail(i, format!("document after close: {}: {}", e, short(&text(&done))));
                    }
                }
            }
        }
        let open = must("is_open", || w.is_open())?;
        if open != (st != St::Closed) {
            return fail(i, format!("is_open() returned {}", open));
        }
        i += 1;
    }
    cx.count("operations", ops.len() as u64);
    let before = sink.data();
    if forget && st == St::Closed {
        std::mem::forget(w);
    } else {
        must("drop", || drop(w))?;
        let now = sink.data();
        if st == St::Closed {
            cx.count("dropped closed", 1);
            if now != before && !(kind == Rk::Xml && now == [&before, EXTRA].concat()) {
                return fail(i, format!("dropping a closed writer changed the output to {}", short(&text(&now))));
            }
        } else {
            cx.count("completed by drop", 1);
            if st == St::Initial {
                cx.count("completed empty", 1);
            }
            done = now;
            if let Err(e) = check_document(kind, &done, &written, &headers) {
                return fail(i, format!("document after drop: {}: {}", e, short(&text(&done))));
            }
        }
    }
    if !ops.is_empty() {
        cx.seen_of(&(kind == Rk::Xml, ops, &done));
    }
    cx.sample(|| json!({"operations": format!("{:?}", ops), "document": text(&done)}));
    Ok(())
}

fn either(
    cx: &mut Cx,
    xml: bool,
    ops: &[Op],
    objs: &[AnyObj],
    models: &[MObj],
    forget: bool,
) -> Result<(), String> {
    if xml {
        drive::<XMLWriter<Sink>>(cx, Rk::Xml, ops, objs, models, forget)
    } else {
        drive::<OSCWriter<Sink>>(cx, Rk::Osc, ops, objs, models, forget)
    }
}

// 3 operations, sequences of length 0 to 5
const ENUMERATED: u64 = 1 + 3 + 9 + 27 + 81 + 243;

fn enumerated(cx: &mut Cx) -> Result<(), String> {
    let xml = cx.idx < ENUMERATED;
    let mut n = cx.idx % ENUMERATED;
    let mut len = 0;
    let mut size = 1;
    while n >= size {
        n -= size;
        size *= 3;
        len += 1;
    }
    let mut models = vec![];
    let mut ops = vec![];
    for i in 0..len {
        ops.push(match n % 3 {
            0 => Op::Header(
                (*cx.rng.pick(&["upload", "copyright", "version", "generator"])).to_string(),
                gen::string(&mut cx.rng, gen::Chars::Xml),
            ),
            1 => {
                let k = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
                models.push(MObj::new(k, i));
                Op::Write(models.len() - 1)
            }
            _ => Op::Close,
        });
        n /= 3;
    }
    let objs = build_all(&mut cx.rng, &models);
    either(cx, xml, &ops, &objs, &models, false)?;
    either(cx, xml, &ops, &objs, &models, true)?;
    cx.evals(2);
    Ok(())
}

fn random(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::xml();
    cfg.big = false;
    let n = cx.rng.below(5);
    let models: Vec<MObj> = (0..n).map(|_| gen::object(&mut cx.rng, &cfg)).collect();
    let objs = build_all(&mut cx.rng, &models);
    let mut ops = vec![];
    let bound = *cx.rng.pick(&[4usize, 10, 30]);
    for _ in 0..cx.rng.below(bound) {
        ops.push(match cx.rng.below(10) {
            0..=2 => {
                let k = *cx.rng.pick(&["a", "copyright", "license", "version", "generator", "timestamp"]);
                Op::Header(k.to_string(), gen::string(&mut cx.rng, gen::Chars::Xml))
            }
            3 => Op::Close,
            _ if n > 0 => Op::Write(cx.rng.below(n)),
            _ => Op::Close,
        });
    }
    if cx.rng.bool() {
        // headers are of use only at the beginning
        let (mut h, o): (Vec<Op>, Vec<Op>) = ops.into_iter().partition(|o| matches!(o, Op::Header(..)));
        h.extend(o);
        ops = h;
    }
    let xml = cx.rng.bool();
    let forget = cx.rng.chance(1, 4);
    either(cx, xml, &ops, &objs, &models, forget)
}

fn from_iter(cx: &mut Cx) -> Result<(), String> {
    fn go<W: OSMWriter<Sink>>(cx: &mut Cx, kind: Rk) -> Result<(), String> {
        let mut cfg = Cfg::xml();
        cfg.big = false;
        let models = gen::objects(&mut cx.rng, &cfg, 6);
        let objs: Vec<_> = models.iter().map(build_string).collect();
        let sink = Sink::new();
        let mut w = must("from_iter", || W::from_iter(sink.clone(), objs.into_iter()))?;
        let done = sink.data();
        check_document(kind, &done, &models, &[])
            .map_err(|e| format!("{:?} from_iter: {}: {}", kind, e, short(&text(&done))))?;
        if must("is_open", || w.is_open())? {
            return Err("from_iter returned a writer which is open".into());
        }
        let r = must("write_obj", || w.write_obj(&build_string(&MObj::new(Kind::Node, 1))))?;
        let h = must("set_header", || w.set_header(("a", "b")))?;
        if !matches!(r, Err(OSMWriteError::AlreadyClosed)) || h.is_ok() {
            return Err(format!("an object and a header for a closed writer: {:?}, {:?}", r, h));
        }
        if sink.data() != done {
            return Err("refused operations changed the output".into());
        }
        must("drop", || drop(w))?;
        let now = sink.data();
        if now != done && !(kind == Rk::Xml && now == [&done, EXTRA].concat()) {
            return Err(format!("dropping it changed the output to {}", short(&text(&now))));
        }
        cx.count("from_iter", 1);
        cx.seen(crate::rng::hash_bytes(&done));
        Ok(())
    }
    if cx.rng.bool() {
        go::<XMLWriter<Sink>>(cx, Rk::Xml)
    } else {
        go::<OSCWriter<Sink>>(cx, Rk::Osc)
    }
}

/// A format which has no headers and relies on what the trait does
struct Plain<W: Write> {
    w: W,
    open: bool,
}

impl<W: Write> OSMWriter<W> for Plain<W> {
    fn new(w: W) -> Self {
        Plain { w, open: true }
    }
    fn close(&mut self) -> Result<(), OSMWriteError> {
        self.open = false;
        Ok(())
    }
    fn is_open(&self) -> bool {
        self.open
    }
    fn write_obj(&mut self, o: &impl osmio::OSMObj) -> Result<(), OSMWriteError> {
        writeln!(self.w, "{}", o.id())?;
        Ok(())
    }
    fn into_inner(self) -> W {
        self.w
    }
}

fn without_headers(cx: &mut Cx) -> Result<(), String> {
    let k = gen::string(&mut cx.rng, gen::Chars::Any);
    let v = gen::string(&mut cx.rng, gen::Chars::Any);
    fn check<W: OSMWriter<Sink>>(cx: &mut Cx, w: &mut W, sink: &Sink, k: &str, v: &str) -> Result<(), String> {
        let before = sink.data();
        let r = must("set_header", || w.set_header((k, v)))?;
        cx.count("refused headers", 1);
        if !matches!(r, Err(OSMWriteError::FormatDoesntSupportHeaders)) {
            return Err(format!("a header for a format without headers: {:?}", r));
        }
        if sink.data() != before {
            return Err("a refused header changed the output".into());
        }
        Ok(())
    }
    let o = build_string(&MObj::new(Kind::Way, 4));
    let sink = Sink::new();
    let mut w = Plain::new(sink.clone());
    check(cx, &mut w, &sink, &k, &v)?;
    w.write_obj(&o).map_err(|e| e.to_string())?;
    check(cx, &mut w, &sink, &k, &v)?;
    // and from_iter writes all and closes
    let n = cx.rng.below(5);
    let sink = Sink::new();
    let w = must("from_iter", || {
        Plain::from_iter(
            sink.clone(),
            (0..n).map(|i| build_string(&MObj::new(Kind::Rel, i as i64))),
        )
    })?;
    let want: String = (0..n).map(|i| format!("{}\n", i)).collect();
    if w.is_open() || sink.data() != want.as_bytes() {
        return Err(format!("from_iter: open {}, output {:?}", w.is_open(), text(&sink.data())));
    }
    cx.seen_of(&(k, v, n));
    Ok(())
}

/// Close, and drop: is the closing tag there twice?
fn probe() -> Probe {
    let sink = Sink::new();
    let mut w = XMLWriter::new(sink.clone());
    let _ = w.close();
    let once = sink.data();
    drop(w);
    let now = sink.data();
    if now == once {
        Probe::Absent
    } else {
        Probe::Present(format!(
            "XMLWriter::new(sink), close(), drop: the drop appends {:?} to the closed document",
            text(&now[once.len()..])
        ))
    }
}
