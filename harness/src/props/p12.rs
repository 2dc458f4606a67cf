//! P12: hostile input.

use super::util::*;
use crate::faults::{Chunk, Src};
use crate::gen::Cfg;
use crate::model::*;
use crate::pbfw::{self, Content, Enc};
use crate::rd::{self, Item, Rk, Stop};
use crate::rng::Rng;
use crate::runner::*;
use crate::xmlw::W;
use osmio::prelude::*;
use osmio::OSMReader;
use serde_json::json;
use std::io::Read;

pub fn prop() -> Prop {
    Prop {
        id: "P12",
        level: "exploration",
        rule: "Random bytes, valid files changed in random and in aimed ways, and inputs made to be deep, long or huge in what they claim, go to every XML, OSC and PBF reader under a watch for CPU time, reads after the end, items without end, stack overflow, abort and the size of allocations; files with one undecodable block, or one object without a usable id, among good ones must fail exactly there. Distinct by hash of input; non-trivial: the input is not empty.",
        assumptions: &[
            "a panic which unwinds is an ordinary failure which the caller can contain",
            "at most 40 s of CPU time and no single allocation over 128 MiB + 4096 times the input's size",
        ],
        legs: vec![
            leg("random", 15000, 200000, random),
            leg("xml changed", 30000, 300000, xml_changed),
            leg("pbf changed", 42000, 400000, pbf_changed),
            leg("bad block", 36000, 300000, bad_block),
            leg("no id", 12000, 100000, no_id),
            leg("made", MADE as u64 * 2, MADE as u64 * 8, made),
        ],
        required: &["panics contained", "ended", "bad blocks", "objects without a valid id", "objects before the failure"],
        probes: vec![],
    }
}

const ALL: [Rk; 5] = [Rk::Xml, Rk::Osc, Rk::Pbf, Rk::Arc, Rk::Pos];

/// Read it, and go on after the failure
fn run(cx: &mut Cx, kind: Rk, data: &[u8]) -> Result<rd::Out, String> {
    let cap = match kind {
        Rk::Xml | Rk::Osc => data.len() + 10,
        _ => data.len() * 2000 + 1000,
    };
    let mut src = Src::of(data);
    if cx.rng.chance(1, 8) {
        src = src.chunks(Chunk::Random(100), 0, 3);
    }
    crate::alloc::take_largest();
    let out = match kind {
        Rk::Xml => again(guard(|| osmio::xml::XMLReader::new(src)), cap),
        Rk::Osc => again(guard(|| osmio::osc::OSCReader::new(src)), cap),
        Rk::Pbf => again(guard(|| osmio::stringpbf::PBFReader::new(src)), cap),
        Rk::Arc => again(guard(|| osmio::arcpbf::PBFReader::new(src)), cap),
        _ => {
            let mut out = rd::read(kind, src, cap);
            // positions only: no need to keep them
            out.items.truncate(1000);
            out
        }
    };
    let largest = crate::alloc::take_largest();
    match &out.stop {
        Stop::End => cx.count("ended", 1),
        Stop::Failed(Caught::Panic { .. }) => {
            cx.count("panics contained", 1);
        }
        s => return Err(format!("{:?}: {}", kind, s)),
    }
    cx.count("items", out.items.len() as u64);
    if largest > (128 << 20) + data.len() * 4096 {
        return Err(format!(
            "{:?}: {} bytes of input make it allocate {} at once",
            kind,
            data.len(),
            largest
        ));
    }
    Ok(out)
}

fn again<R: OSMReader>(r: Result<R, Caught>, cap: usize) -> rd::Out {
    let mut r = match r {
        Ok(r) => r,
        Err(c) => {
            return rd::Out {
                items: vec![],
                stop: Stop::Failed(c),
            }
        }
    };
    let out = rd::drain(&mut r, cap);
    if let Stop::Failed(Caught::Panic { .. }) = &out.stop {
        // a caller may try again, that must not be worse
        for _ in 0..5 {
            if let Err(c @ Caught::Runaway(_)) = guard(|| r.next().is_some()) {
                return rd::Out {
                    items: out.items,
                    stop: Stop::Failed(c),
                };
            }
        }
    }
    out
}

fn all(cx: &mut Cx, kinds: &[Rk], data: &[u8], what: &str) -> Result<(), String> {
    if !data.is_empty() {
        cx.seen(crate::rng::hash_bytes(data));
    }
    cx.sample(|| json!({"what": what, "bytes": data.len(), "input": if data.starts_with(b"<") { text(data) } else { hex(&data[..data.len().min(300)]) }}));
    for k in kinds {
        run(cx, *k, data).map_err(|e| {
            format!(
                "{}: {}; input {}",
                what,
                e,
                if matches!(k, Rk::Xml | Rk::Osc) {
                    short(&text(data))
                } else {
                    hex(&data[..data.len().min(200)])
                }
            )
        })?;
    }
    cx.evals(kinds.len() as u64);
    Ok(())
}

fn random(cx: &mut Cx) -> Result<(), String> {
    let n = *cx.rng.pick(&[0usize, 1, 2, 3, 4, 5, 8, 20, 100, 3000]);
    let mut data = cx.rng.bytes(n);
    match cx.rng.below(4) {
        0 => {
            // a plausible length first
            if data.len() > 4 {
                data[..3].fill(0);
            }
        }
        1 => {
            let soup = [
                "<", ">", "/", "node", "way", "relation", "osm", "id", "=", "\"", "'", " ", "1", "&", ";", "#", "x",
                "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "tag", "k", "v", "delete", "\u{0}", "é", "<!DOCTYPE", "[",
            ];
            data = (0..n)
                .flat_map(|_| cx.rng.pick(&soup).bytes().collect::<Vec<u8>>())
                .collect();
        }
        _ => {}
    }
    all(cx, &ALL, &data, "random bytes")
}

/// Random changes
fn change(rng: &mut Rng, data: &mut Vec<u8>, snippets: &[&[u8]]) {
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 3, 8]) {
        if data.is_empty() {
            return;
        }
        let at = rng.below(data.len());
        let max = *rng.pick(&[2usize, 20, 400]);
        let n = (1 + rng.below(max)).min(data.len() - at);
        match rng.below(9) {
            0 => data[at] ^= 1 << rng.below(8),
            1 => data[at] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, b'<', b'&', b'"']),
            2 => {
                data.drain(at..at + n);
            }
            3 => {
                let x = data[at..at + n].to_vec();
                let to = rng.below(data.len());
                data.splice(to..to, x);
            }
            4 => {
                let s = *rng.pick(snippets);
                data.splice(at..at, s.iter().copied());
            }
            5 => {
                let s = *rng.pick(snippets);
                let n = s.len().min(data.len() - at);
                data[at..at + n].copy_from_slice(&s[..n]);
            }
            6 => {
                let x = rng.bytes(n);
                data[at..at + n].copy_from_slice(&x);
            }
            7 => data.truncate(at),
            _ => data[at] = rng.u64() as u8,
        }
    }
}

fn xml_changed(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::xml();
    cfg.big = false;
    let n = cx.rng.below(4);
    let objs = crate::gen::small_objects(&mut cx.rng, &cfg, n);
    let osc = cx.rng.bool();
    let mut w = W::new(&mut cx.rng, 1);
    if osc {
        w.osc(&objs);
    } else {
        w.osm(&objs);
    }
    let mut data = w.out.into_bytes();
    let snippets: [&[u8]; 28] = [
        b"<node", b"<node/>", b"</node>", b"<way>", b"</way>", b"<relation id=\"", b"<node id=\"x\"/>",
        b"<node id=\"99999999999999999999\"/>", b"<delete>", b"</delete>", b"</osm>", b"</osmChange>", b"&#0;", b"&#xffff;", b"&foo;",
        b"]]>", b"<!DOCTYPE osm [<!ENTITY a \"b\">]>", b"<![CDATA[", b"<!--", b"--", b"\0", b"\xff\xfe", b"\xed\xa0\x80",
        b"<tag k=\"a\"/>", b"lat=\"NaN\"", b"xmlns:a=\"b\"", b"a:id=\"7\"", b"<?xml version=\"1.0\"?>",
    ];
    change(&mut cx.rng, &mut data, &snippets);
    all(cx, &rd::XMLS, &data, "changed XML")
}

fn pbf_changed(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::pbf();
    cfg.big = false;
    let n = cx.rng.below(12);
    let objs = crate::gen::small_objects(&mut cx.rng, &cfg, n);
    let snippets: [&[u8]; 10] = [
        &[0xff; 9],
        &[0xff, 0xff, 0xff, 0xff, 0x0f],
        &[0x80; 10],
        &[0, 0, 0, 0],
        &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
        &[0x7f, 0xff, 0xff, 0xff],
        b"OSMData",
        b"OSMHeader",
        &[0x0b, 0x0b, 0x0b, 0x0c],
        &[0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
    ];
    let mut data;
    if cx.rng.bool() {
        // changes inside a block, with all around it intact
        let mut groups: Vec<Vec<MObj>> = vec![];
        for o in objs {
            match groups.last_mut() {
                Some(g) if g[0].kind == o.kind => g.push(o),
                _ => groups.push(vec![o]),
            }
        }
        let mut e = Enc::new(&mut cx.rng, 1);
        let mut block = e.primitive_block(&mut groups);
        change(e.rng, &mut block, &snippets);
        let c = e.content();
        e.blob("OSMData", &block, &c, vec![]);
        data = e.file.bytes;
    } else {
        let f = Enc::new(&mut cx.rng, 1).write(&objs);
        data = f.bytes;
        change(&mut cx.rng, &mut data, &snippets);
    }
    all(cx, &rd::PBFS, &data, "changed PBF")
}

/// Good blocks, one which cannot be decoded, and good blocks again
fn bad_block(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::pbf();
    cfg.big = false;
    let before = cx.rng.below(3);
    let mut e = Enc::new(&mut cx.rng, 1);
    e.header();
    let mut block = |e: &mut Enc| {
        let n = 1 + e.rng.below(4);
        let k = *e.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
        let g: Vec<MObj> = (0..n)
            .map(|_| crate::gen::object_of(e.rng, &cfg, k))
            .collect();
        vec![g]
    };
    for _ in 0..before {
        let g = block(&mut e);
        e.data_block(g);
    }
    let good = e.file.objs.clone();
    let mut g = block(&mut e);
    let raw = e.primitive_block(&mut g);
    let z = pbfw::zlib(&raw, 6);
    let what;
    let content = match e.rng.below(11) {
        0 => {
            what = "LZMA";
            Content::Other(4, e.rng.bytes(30))
        }
        1 => {
            what = "obsolete bzip2";
            Content::Other(5, super::p10::bz2(&raw))
        }
        2 => {
            what = "LZ4";
            Content::Other(6, e.rng.bytes(30))
        }
        3 => {
            what = "ZSTD";
            Content::Other(7, e.rng.bytes(30))
        }
        4 => {
            what = "nothing";
            Content::Nothing
        }
        5 => {
            what = "zlib cut off";
            let n = e.rng.below(z.len());
            Content::Other(3, z[..n].to_vec())
        }
        6 => {
            what = "zlib with wrong checksum";
            let mut z = z;
            let n = z.len();
            z[n - 1 - e.rng.below(4)] ^= 1 << e.rng.below(8);
            Content::Other(3, z)
        }
        7 => {
            what = "zlib of garbage";
            Content::Other(3, pbfw::zlib(&garbage(e.rng), 6))
        }
        8 => {
            what = "garbage as zlib";
            let mut x = e.rng.bytes(40);
            x[0] = 0xff; // no compression method
            Content::Other(3, x)
        }
        9 => {
            what = "block cut off";
            // inside the last field, which is a string or message of known length
            let mut x = raw.clone();
            // one more field which is longer than what follows: a group, a group with ways,
            // or the string table
            let tail: &[u8] = e.rng.pick(&[
                &[0x12, 0x20][..],
                &[0x12, 0x20, 0x1a, 0x02, 0x08, 0x05],
                &[0x12, 0x04, 0x1a, 0x09, 0x08, 0x05],
                &[0x0a, 0x09, 0x0a, 0x01, b'x'],
                &[0x12, 0x05, 1, 2, 3],
            ]);
            x.extend(tail);
            Content::Other(1, x)
        }
        _ => {
            what = "garbage uncompressed";
            Content::Other(1, garbage(e.rng))
        }
    };
    e.blob("OSMData", &raw, &content, vec![]);
    for _ in 0..1 + e.rng.below(2) {
        let g = block(&mut e);
        e.data_block(g);
    }
    let f = e.file;
    cx.count("bad blocks", 1);
    cx.count(&format!("bad block: {}", what), 1);
    cx.count("objects before the failure", good.len() as u64);
    cx.seen(crate::rng::hash_bytes(&f.bytes));
    cx.sample(|| json!({"bad block": what, "objects before": good.len(), "input": hex(&f.bytes[..f.bytes.len().min(300)])}));
    let data = &f.bytes[..];
    let check = |name: &str, want: Vec<Item>, out: rd::Out| -> Result<(), String> {
        let r = rd::prefix_items(&want, &out.items).and_then(|_| {
            if out.items.len() < want.len() {
                return Err(format!(
                    "only {} of the {} items before it",
                    out.items.len(),
                    want.len()
                ));
            }
            match &out.stop {
                Stop::Failed(Caught::Panic { .. }) | Stop::Error(_) => Ok(()),
                Stop::End => Err("skipped as if it were empty".to_string()),
                s => Err(s.to_string()),
            }
        });
        r.map_err(|e| format!("{}, block with {} after {} objects: {}; file {}", name, what, good.len(), e, hex(&data[..data.len().min(300)])))
    };
    let pos = rd::positions(
        &pbfw::PbfFile {
            objs: good.clone(),
            ..Default::default()
        }
        .positions(),
    );
    check("node positions", pos, rd::read(Rk::Pos, data, 1000))?;
    for kind in [Rk::Pbf, Rk::Arc] {
        check(&format!("{:?}", kind), rd::objs(&good), rd::read(kind, data, 1000))?;
    }
    // asking for one kind only is no reason to skip it
    let k = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let want: Vec<MObj> = good.iter().filter(|o| o.kind == k).cloned().collect();
    fn typed(mut r: osmio::stringpbf::PBFReader<impl Read>, k: Kind) -> rd::Out {
        let (v, stop) = match k {
            Kind::Node => {
                let mut i = r.nodes();
                rd::collect(1000, || i.next().map(|o| Ok(observe_node(&o))))
            }
            Kind::Way => {
                let mut i = r.ways();
                rd::collect(1000, || i.next().map(|o| Ok(observe_way(&o))))
            }
            Kind::Rel => {
                let mut i = r.relations();
                rd::collect(1000, || i.next().map(|o| Ok(observe_relation(&o))))
            }
        };
        rd::Out {
            items: rd::objs(&v),
            stop,
        }
    }
    check(
        &format!("only {}s", k.name()),
        rd::objs(&want),
        typed(osmio::stringpbf::PBFReader::new(data), k),
    )?;
    cx.evals(4);
    Ok(())
}

/// Good objects, one whose id is missing or no id, and good objects again
fn no_id(cx: &mut Cx) -> Result<(), String> {
    let mut cfg = Cfg::xml();
    cfg.big = false;
    let n = 1 + cx.rng.below(6);
    let objs = crate::gen::small_objects(&mut cx.rng, &cfg, n);
    let at = cx.rng.below(objs.len());
    let id = match cx.rng.below(4) {
        0 => None,
        1 => Some(
            cx.rng
                .pick(&["", " ", "x", "-", "1.5", "0x10", "1e3", "1,2", "NaN", "n1", "1-", "--1", "\u{661}", "\u{ff11}", "1\u{0301}"])
                .to_string(),
        ),
        // too large for an id
        2 => Some(
            cx.rng
                .pick(&["9223372036854775808", "-9223372036854775809", "18446744073709551616", "99999999999999999999999"])
                .to_string(),
        ),
        _ => {
            let s = crate::gen::string(&mut cx.rng, crate::gen::Chars::Xml);
            Some(format!("{}x", s))
        }
    };
    let osc = cx.rng.bool();
    let fancy = cx.rng.below(2);
    let mut w = W::new(&mut cx.rng, fancy);
    w.bad_id = Some((at, id.clone()));
    let said = if osc {
        w.osc(&objs)
    } else {
        w.osm(&objs);
        objs
    };
    let data = w.out.into_bytes();
    let kind = if osc { Rk::Osc } else { Rk::Xml };
    cx.count("objects without a valid id", 1);
    cx.count("objects before the failure", at as u64);
    cx.seen(crate::rng::hash_bytes(&data));
    cx.sample(|| json!({"id": id, "objects before": at, "input": text(&data)}));
    let want = rd::objs(&said[..at]);
    let out = rd::read(kind, &data[..], said.len() + 10);
    let r = rd::prefix_items(&want, &out.items).and_then(|_| match &out.stop {
        _ if out.items.len() < want.len() => Err(format!("only {} of the {} objects before it", out.items.len(), want.len())),
        Stop::Failed(Caught::Panic { .. }) | Stop::Error(_) => Ok(()),
        Stop::End => Err("taken for the end of the file".to_string()),
        s => Err(s.to_string()),
    });
    r.map_err(|e| format!("{:?}, object with the id {:?} after {} objects: {}; document {}", kind, id, at, e, short(&text(&data))))
}

/// No protocol buffer message starts like this
fn garbage(rng: &mut Rng) -> Vec<u8> {
    let mut x = match rng.below(3) {
        0 => vec![0xff; 11],       // a number without end
        1 => vec![0x0f, 1, 2, 3],  // wire type 7
        _ => vec![0x0a, 0xff, 0xff, 0xff, 0x7f], // longer than what there is
    };
    let n = rng.below(40);
    x.extend(rng.bytes(n));
    x
}

const MADE: usize = 24;

fn frame(kind: &str, blob: &[u8]) -> Vec<u8> {
    let mut h = vec![];
    pbfw::bytes_field(&mut h, 1, kind.as_bytes());
    pbfw::int_field(&mut h, 3, blob.len() as u64);
    let mut out = (h.len() as u32).to_be_bytes().to_vec();
    out.extend(h);
    out.extend(blob);
    out
}

fn raw_blob(block: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    pbfw::bytes_field(&mut b, 1, block);
    frame("OSMData", &b)
}

fn zlib_blob(block: &[u8], raw_size: u64) -> Vec<u8> {
    let mut b = vec![];
    pbfw::int_field(&mut b, 2, raw_size);
    pbfw::bytes_field(&mut b, 3, &pbfw::zlib(block, 6));
    frame("OSMData", &b)
}

/// Deep, long, or claiming to be huge
fn made(cx: &mut Cx) -> Result<(), String> {
    let which = cx.idx as usize % MADE;
    let n = *cx.rng.pick(&[1000usize, 20_000, 100_000]);
    let n = if cx.idx < MADE as u64 { 100_000 } else { n };
    let (what, data): (&str, Vec<u8>) = match which {
        0 => ("open groups in a header", {
            let mut h = vec![];
            pbfw::bytes_field(&mut h, 1, b"OSMData");
            h.extend(vec![0x0b; n]); // start of group 1
            let mut out = (h.len() as u32).to_be_bytes().to_vec();
            out.extend(h);
            out
        }),
        1 => ("open groups in a block", raw_blob(&vec![0x0b; n])),
        2 => ("groups in groups in a block", {
            let mut b = vec![0xab; n];
            for x in b.iter_mut().skip(1).step_by(2) {
                *x = 0x01;
            }
            let mut e = b.clone();
            for x in e.iter_mut().step_by(2) {
                *x += 1;
            }
            b.extend(e);
            raw_blob(&b)
        }),
        3 => ("messages in messages", {
            let mut m = vec![];
            for _ in 0..300 {
                let mut o = vec![];
                pbfw::bytes_field(&mut o, 2, &m);
                m = o;
            }
            raw_blob(&m)
        }),
        4 => ("elements in elements", {
            // xml-rs takes time quadratic in the depth
            let n = n.min(2500);
            let mut d = b"<osm>".to_vec();
            d.extend(b"<a>".repeat(n));
            d.extend(b"</a>".repeat(n));
            d.extend(b"</osm>");
            d
        }),
        5 => ("elements which are never closed", {
            let mut d = b"<osm>".to_vec();
            d.extend(b"<node id='1'><way id='2'><x>".repeat(n.min(800)));
            d
        }),
        6 => ("entities in entities", {
            let mut d = "<?xml version=\"1.0\"?><!DOCTYPE osm [<!ENTITY a0 \"0123456789\">".to_string();
            for i in 1..30 {
                d += &format!("<!ENTITY a{} \"&a{};&a{};&a{};&a{};\">", i, i - 1, i - 1, i - 1, i - 1);
            }
            d += "]><osm><node id=\"1\" user=\"&a29;\">&a29;</node></osm>";
            d.into_bytes()
        }),
        7 => ("an entity in itself", b"<!DOCTYPE osm [<!ENTITY a \"&b;\"><!ENTITY b \"&a;\">]><osm><node id=\"1\" user=\"&a;\"/></osm>".to_vec()),
        8 => ("a very long attribute", {
            let mut d = b"<osm><node id=\"1\" user=\"".to_vec();
            d.extend(b"x".repeat(n));
            d
        }),
        9 => ("very many attributes", {
            let mut d = "<osm><node ".to_string();
            for i in 0..n.min(20_000) {
                d += &format!("a{}='{}' ", i, i);
            }
            d += "/></osm>";
            d.into_bytes()
        }),
        10 => ("a comment without end", {
            let mut d = b"<osm><!-- ".to_vec();
            d.extend(b"- ".repeat(n));
            d
        }),
        11 => ("a header of 4 GB", vec![0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4]),
        12 => ("a blob of 2 GB", {
            let mut h = vec![];
            pbfw::bytes_field(&mut h, 1, b"OSMData");
            pbfw::int_field(&mut h, 3, i32::MAX as u64);
            let mut out = (h.len() as u32).to_be_bytes().to_vec();
            out.extend(h);
            out.extend([1, 2, 3]);
            out
        }),
        13 => ("a blob of negative size", {
            let mut h = vec![];
            pbfw::bytes_field(&mut h, 1, b"OSMData");
            pbfw::int_field(&mut h, 3, -1i64 as u64);
            let mut out = (h.len() as u32).to_be_bytes().to_vec();
            out.extend(h);
            out.extend([1, 2, 3]);
            out
        }),
        14 => ("a block which claims to unpack to 2 GB", zlib_blob(&[], i32::MAX as u64)),
        15 => ("a block which claims to unpack to less than nothing", zlib_blob(&[], -5i64 as u64)),
        16 => ("very many empty blocks", {
            let b = raw_blob(&[0x0a, 0x00]);
            b.repeat((n / 20).max(10))
        }),
        17 => ("very many other blobs", frame("X", b"").repeat((n / 10).max(10))),
        18 => ("a string of 2 GB in a block", {
            let mut b = vec![0x0a];
            pbfw::varint(&mut b, i32::MAX as u64);
            b.extend([0x0a, 1, 2, 3]);
            raw_blob(&b)
        }),
        19 => ("granularity and offsets at their limits", {
            let mut d = vec![];
            pbfw::bytes_field(&mut d, 1, &[2]);
            pbfw::bytes_field(&mut d, 8, &[0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1]);
            pbfw::bytes_field(&mut d, 9, &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1]);
            let mut g = vec![];
            pbfw::bytes_field(&mut g, 2, &d);
            let mut b = vec![];
            pbfw::bytes_field(&mut b, 1, &[0x0a, 0x00]);
            pbfw::bytes_field(&mut b, 2, &g);
            pbfw::int_field(&mut b, 17, i32::MAX as u64);
            pbfw::int_field(&mut b, 19, i64::MAX as u64);
            pbfw::int_field(&mut b, 20, i64::MIN as u64);
            raw_blob(&b)
        }),
        20 => ("no string table", {
            let mut w = vec![];
            pbfw::int_field(&mut w, 1, 1);
            pbfw::bytes_field(&mut w, 2, &[1]);
            pbfw::bytes_field(&mut w, 3, &[0xff, 0xff, 0xff, 0xff, 0x0f]);
            let mut g = vec![];
            pbfw::bytes_field(&mut g, 3, &w);
            let mut b = vec![];
            pbfw::bytes_field(&mut b, 2, &g);
            raw_blob(&b)
        }),
        21 => ("spaces without end", {
            let mut d = b"<osm>".to_vec();
            d.extend(b" \n".repeat(n));
            d
        }),
        22 => ("UTF-16", {
            let mut d = vec![0xff, 0xfe];
            for c in "<osm><node id='1'/></osm>".encode_utf16() {
                d.extend(c.to_le_bytes());
            }
            d
        }),
        _ => ("a dense block that unpacks to much", {
            let mut d = vec![];
            pbfw::bytes_field(&mut d, 1, &vec![2; n]);
            pbfw::bytes_field(&mut d, 8, &vec![0; n]);
            pbfw::bytes_field(&mut d, 9, &vec![0; n]);
            let mut g = vec![];
            pbfw::bytes_field(&mut g, 2, &d);
            let mut b = vec![];
            pbfw::bytes_field(&mut b, 1, &[0x0a, 0x00]);
            pbfw::bytes_field(&mut b, 2, &g);
            let n = b.len() as u64;
            zlib_blob(&b, n)
        }),
    };
    cx.count(&format!("made: {}", what), 1);
    all(cx, &ALL, &data, what)
}
