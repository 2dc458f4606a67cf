//! P11: every cut and every I/O error.

use super::util::*;
use crate::faults::{Chunk, End, Src, ERROR_KINDS};
use crate::gen::Cfg;
use crate::pbfw::{self, Enc, PbfFile};
use crate::rd::{self, Item, Rk, Stop};
use crate::runner::*;
use crate::xmlw::W;
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "P11",
        level: "fault_enumeration",
        rule: "For random documents, every position from 0 to the length is a cut (end of file there) and an I/O error (for ever, and once and then end of file; the kinds of error take turns); what is returned must be an unchanged prefix of the document's items, followed by a failure unless the input up to there is complete. One evaluation is one position of one document in one mode. Distinct by hash of document, position and mode; non-trivial: the document has items.",
        assumptions: &[
            "an interrupted read is not a failure (P10)",
            "an XML document is complete when its root element is closed",
        ],
        legs: vec![
            leg("xml", 100, 1500, |cx| xml(cx, Rk::Xml)),
            leg("osc", 100, 1500, |cx| xml(cx, Rk::Osc)),
            leg("pbf", 180, 3000, |cx| pbf(cx, Rk::Pbf)),
            leg("arc", 180, 3000, |cx| pbf(cx, Rk::Arc)),
            leg("pos", 180, 3000, |cx| pbf(cx, Rk::Pos)),
            leg("big xml", 12, 60, |cx| big(cx, true)),
            leg("big pbf", 12, 60, |cx| big(cx, false)),
            leg("bz2 xml", 16, 200, bz2_xml),
        ],
        required: &[
            "cuts",
            "errors delivered",
            "ended at a block boundary",
            "failures",
        ],
        probes: vec![],
    }
}

const MODES: usize = 3;

/// `complete(at)`: if the input up to there is complete, how many items it holds
fn at(
    cx: &mut Cx,
    kind: Rk,
    data: &Arc<Vec<u8>>,
    want: &[Item],
    at: usize,
    mode: usize,
    complete: &dyn Fn(usize) -> Option<usize>,
) -> Result<(), String> {
    let ek = ERROR_KINDS[(at + cx.idx as usize) % ERROR_KINDS.len()];
    let end = match mode {
        0 => End::Eof,
        1 => End::Error(ek),
        _ => End::ErrorThenEof(ek),
    };
    let mut src = Src::new(data).cut(at, end);
    if (at + mode) % 5 == 4 {
        src = src.chunks(Chunk::Random(50), 0, at as u64);
    }
    let st = src.stats.clone();
    let out = rd::read(kind, src, want.len() + 10);
    let failed = st.errors.load(SeqCst) > 0;
    cx.count(if mode == 0 { "cuts" } else { "errors" }, 1);
    cx.count("errors delivered", failed as u64);
    cx.count("items before the fault", out.items.len() as u64);
    let r = (|| {
        rd::prefix_items(want, &out.items)?;
        match &out.stop {
            Stop::End => {
                if failed {
                    return Err("the I/O error was taken for the end".to_string());
                }
                match complete(at) {
                    None => Err("a cut-off input looks complete".to_string()),
                    Some(n) if n != out.items.len() => Err(format!(
                        "ended normally after {} of {} items",
                        out.items.len(),
                        n
                    )),
                    Some(_) => {
                        if at < data.len() {
                            cx.count("ended at a block boundary", 1);
                        }
                        Ok(())
                    }
                }
            }
            Stop::Error(_) | Stop::Failed(Caught::Panic { .. }) => {
                if mode == 0 && at == data.len() {
                    return Err(format!("the whole input fails: {}", out.stop));
                }
                cx.count("failures", 1);
                Ok(())
            }
            s => Err(s.to_string()),
        }
    })();
    r.map_err(|e| {
        format!(
            "{:?}, {} bytes, {:?} at byte {}: {}",
            kind,
            data.len(),
            end,
            at,
            e
        )
    })
}

fn sweep(
    cx: &mut Cx,
    kind: Rk,
    data: Vec<u8>,
    want: Vec<Item>,
    positions: Vec<usize>,
    complete: &dyn Fn(usize) -> Option<usize>,
) -> Result<(), String> {
    let data = Arc::new(data);
    let h = crate::rng::hash_bytes(&data);
    let mut n = 0;
    for p in positions {
        for mode in 0..MODES {
            at(cx, kind, &data, &want, p, mode, complete)?;
            n += 1;
            if !want.is_empty() {
                cx.seen(h ^ ((p * MODES + mode) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
            }
        }
    }
    cx.evals(n);
    cx.sample(|| json!({"reader": format!("{:?}", kind), "bytes": data.len(), "items": want.len(), "faults": n,
        "input": if data.starts_with(b"<") { text(&data) } else { hex(&data[..data.len().min(300)]) }}));
    Ok(())
}

fn doc(cx: &mut Cx, kind: Rk, n: usize) -> (Vec<u8>, Vec<Item>, usize) {
    let mut cfg = Cfg::xml();
    cfg.big = false;
    let objs = crate::gen::small_objects(&mut cx.rng, &cfg, n);
    let fancy = cx.rng.below(2);
    let mut w = W::new(&mut cx.rng, fancy);
    let said = if kind == Rk::Xml {
        w.osm(&objs);
        objs
    } else {
        w.osc(&objs)
    };
    let root_end = w.root_end;
    let bytes = w.out.into_bytes();
    (bytes, rd::objs(&said), root_end)
}

fn xml(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let n = cx.rng.range(0, 4) as usize;
    let (bytes, want, root_end) = doc(cx, kind, n);
    let n = want.len();
    let positions = (0..=bytes.len()).collect();
    sweep(cx, kind, bytes, want, positions, &|at| {
        if at >= root_end {
            Some(n)
        } else {
            None
        }
    })
}

fn pbf_sweep(cx: &mut Cx, kind: Rk, f: PbfFile, positions: Vec<usize>) -> Result<(), String> {
    let want = rd::pbf_items(kind, &f);
    let bytes = f.bytes.clone();
    sweep(cx, kind, bytes, want, positions, &|at| {
        if f.is_boundary(at) {
            let n = f.objs_before(at);
            Some(if kind == Rk::Pos {
                f.objs[..n]
                    .iter()
                    .filter(|o| o.kind == crate::model::Kind::Node)
                    .count()
            } else {
                n
            })
        } else {
            None
        }
    })
}

fn pbf(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let mut cfg = Cfg::pbf();
    cfg.big = false;
    let n = cx.rng.range(0, 8) as usize;
    let objs = crate::gen::small_objects(&mut cx.rng, &cfg, n);
    let f = Enc::new(&mut cx.rng, 1).write(&objs);
    let positions = (0..=f.bytes.len()).collect();
    pbf_sweep(cx, kind, f, positions)
}

/// More than the readers' buffers hold, at chosen positions
fn big(cx: &mut Cx, is_xml: bool) -> Result<(), String> {
    let mut positions = vec![];
    if is_xml {
        let kind = *cx.rng.pick(&rd::XMLS);
        let (bytes, want, root_end) = doc(cx, kind, 120);
        for b in (0..=bytes.len()).step_by(8192) {
            for d in [-1i64, 0, 1] {
                let p = b as i64 + d;
                if p >= 0 && p as usize <= bytes.len() {
                    positions.push(p as usize);
                }
            }
        }
        for _ in 0..20 {
            positions.push(cx.rng.below(bytes.len()));
        }
        let n = want.len();
        sweep(cx, kind, bytes, want, positions, &|at| {
            if at >= root_end {
                Some(n)
            } else {
                None
            }
        })
    } else {
        let kind = *cx.rng.pick(&rd::PBFS);
        let mut cfg = Cfg::pbf();
        cfg.big = false;
        let objs = crate::gen::small_objects(&mut cx.rng, &cfg, 800);
        let f = Enc::new(&mut cx.rng, 1).write(&objs);
        for b in &f.blobs {
            for p in [b.start, b.start + 1, b.start + 3, b.start + 4, b.start + 6] {
                if p < f.bytes.len() {
                    positions.push(p);
                }
            }
        }
        cx.rng.shuffle(&mut positions);
        positions.truncate(60);
        for _ in 0..20 {
            positions.push(cx.rng.below(f.bytes.len()));
        }
        positions.push(f.bytes.len());
        pbf_sweep(cx, kind, f, positions)
    }
}

/// Cut inside the compressed bytes
fn bz2_xml(cx: &mut Cx) -> Result<(), String> {
    let (bytes, want, root_end) = doc(cx, Rk::Xml, 3);
    let _ = root_end;
    let z = Arc::new(super::p10::bz2(&bytes));
    let total = z.len();
    let mut n = 0;
    for p in (0..=total).step_by(1 + cx.rng.below(7)).chain([total]) {
        for mode in 0..2 {
            let end = if mode == 0 {
                End::Eof
            } else {
                End::Error(std::io::ErrorKind::Other)
            };
            let src = Src::new(&z).cut(p, end);
            let out = rd::read(
                Rk::Xml,
                bzip2::read::MultiBzDecoder::new(src),
                want.len() + 10,
            );
            n += 1;
            rd::prefix_items(&want, &out.items)
                .map_err(|e| format!("bzip2 cut at {}: {}", p, e))?;
            let complete = p == total && mode == 0;
            match out.stop {
                Stop::End if out.items.len() == want.len() => {}
                Stop::End => return Err(format!("bzip2 cut at {} of {} looks complete", p, total)),
                Stop::Failed(Caught::Panic { .. }) | Stop::Error(_) if !complete => {
                    cx.count("failures", 1)
                }
                s => return Err(format!("bzip2 cut at {} of {}: {}", p, total, s)),
            }
        }
    }
    cx.count("cuts", n);
    cx.evals(n);
    Ok(())
}
