//! P22: damaged changeset dumps.

use super::p20::file;
use super::util::*;
use crate::faults::{Chunk, End, Src, ERROR_KINDS};
use crate::model::*;
use crate::rd::{self, Item, Out, Rk, Stop};
use crate::rng::Rng;
use crate::runner::*;
use crate::xmlw::{self, MCs, W};
use osmio::changesets::{ChangesetReader, ChangesetTagReader};
use serde_json::json;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub fn prop() -> Prop {
    Prop {
        id: "P22",
        level: "fault_enumeration",
        rule: "For random dumps every byte position is a cut, an I/O error and (through bzip2) a cut or damage of the compressed stream, for both changeset readers; what comes before the first error must be an unchanged prefix, and the end is silent only outside a changeset and after everything before it was returned. Values are made unusable one by one. Random and mutated bytes go to both readers under a watch for panics, hangs, items without end and big allocations. One evaluation is one reading. Distinct by hash of input, position and mode; non-trivial: the dump has changesets, the hostile input is not empty.",
        assumptions: &[
            "a changeset begins with the < of its start tag and ends with the > of its end tag or self-closing tag",
            "what follows the first error comes to an end without a panic; if the dump is well-formed but for a value, all other changesets are returned, and right, there too",
        ],
        legs: vec![
            leg("full: cut and failing", 160, 5000, full_sweep),
            leg("full: bzip2", 80, 2500, full_bz2),
            leg("tags: cut", 40, 1500, tags_cut),
            leg("tags: damaged bzip2", 45, 1500, tags_bz2),
            leg("damaged values", 12_000, 400_000, values),
            leg("hostile", 20_000, 800_000, hostile),
            leg("hostile file", 4000, 150_000, hostile_file),
        ],
        required: &[
            "cuts",
            "errors delivered",
            "failures",
            "silent ends between changesets",
            "cuts inside a changeset",
            "changesets before the fault",
            "hostile: errors",
            "hostile: ends",
            "damaged changesets",
            "changesets after an error",
        ],
        probes: vec![],
    }
}

struct Doc {
    bytes: Arc<Vec<u8>>,
    want: Vec<Item>,
    /// of the changesets in `want`
    ends: Vec<usize>,
    /// of all changesets
    spans: Vec<(usize, usize)>,
    h: u64,
}

fn doc(cx: &mut Cx, tags: bool, max: i64) -> Doc {
    let n = cx.rng.range(0, max);
    let mut cs: Vec<MCs> = vec![];
    for i in 0..n {
        let mut c = xmlw::gen_changeset(&mut cx.rng, i as u32 * 3 + 1);
        c.tags.truncate(3);
        cs.push(c);
    }
    let fancy = cx.rng.below(3);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let spans = w.spans.clone();
    let bytes = w.out.into_bytes();
    let (want, ends) = if tags {
        (
            rd::tagged(&cs),
            cs.iter()
                .zip(&spans)
                .filter(|(c, _)| !c.tags.is_empty())
                .map(|(_, s)| s.1)
                .collect(),
        )
    } else {
        (rd::changesets(&cs), spans.iter().map(|s| s.1).collect())
    };
    let h = crate::rng::hash_bytes(&bytes) ^ tags as u64;
    Doc {
        bytes: Arc::new(bytes),
        want,
        ends,
        spans,
        h,
    }
}

impl Doc {
    /// `at` bytes of it were delivered, then `failed` (an error) or the end
    fn judge(&self, cx: &mut Cx, out: &Out, at: usize, failed: bool) -> Result<(), String> {
        rd::prefix_items(&self.want, &out.items)?;
        cx.count("changesets before the fault", out.items.len() as u64);
        let inside = self.spans.iter().any(|s| s.0 < at && at < s.1);
        cx.count("cuts inside a changeset", inside as u64);
        let done = self.ends.iter().filter(|e| **e <= at).count();
        if out.items.len() > done {
            return Err(format!(
                "{} changesets returned, of which only {} were complete",
                out.items.len(),
                done
            ));
        }
        match &out.stop {
            Stop::End if failed => Err("the failure was taken for the end".to_string()),
            Stop::End if inside => Err("a silent end in the middle of a changeset".to_string()),
            Stop::End if out.items.len() < done => Err(format!(
                "a silent end after {} of {} complete changesets",
                out.items.len(),
                done
            )),
            Stop::End => {
                cx.count("silent ends between changesets", (at < self.bytes.len()) as u64);
                Ok(())
            }
            Stop::Error(_) if at == self.bytes.len() && !failed => {
                Err(format!("the whole dump fails: {}", out.stop))
            }
            Stop::Error(_) => {
                cx.count("failures", 1);
                Ok(())
            }
            s => Err(s.to_string()),
        }
    }
    fn note(&self, cx: &mut Cx, n: u64) {
        cx.evals(n);
        if !self.want.is_empty() {
            for i in 0..n {
                cx.seen(self.h ^ (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
            }
        }
        let (b, w) = (self.bytes.clone(), self.want.len());
        cx.sample(|| json!({"dump": text(&b), "items": w, "faults": n}));
    }
}

/// Every position; of long dumps some
fn positions(cx: &mut Cx, len: usize) -> Vec<usize> {
    let max = 2500;
    if len < max {
        return (0..=len).collect();
    }
    cx.count("dumps of which only some positions were tried", 1);
    let mut v: Vec<usize> = (0..max).map(|_| cx.rng.below(len)).collect();
    v.push(len);
    v
}

/// A caller who skips errors comes to an end too, without a panic
fn go_on(cap: usize, mut next: impl FnMut() -> bool) -> Option<Stop> {
    for _ in 0..cap + 100 {
        match guard(&mut next) {
            Ok(true) => {}
            Ok(false) => return None,
            Err(c) => return Some(Stop::Failed(c)),
        }
    }
    Some(Stop::Cap)
}

fn full(r: ChangesetReader<impl std::io::Read>, cap: usize) -> Out {
    let mut r = r;
    let (items, stop) = rd::collect(cap, || {
        r.next().map(|x| match x {
            Ok(c) => Ok(Item::Cs(rd::cs_of(&c))),
            Err(e) => Err(e.to_string()),
        })
    });
    let mut out = Out { items, stop };
    if let Stop::Error(_) = out.stop {
        if let Some(s) = go_on(cap, || r.next().is_some()) {
            out.stop = s;
        }
    }
    out
}

fn tags_of(path: &std::path::Path, cap: usize) -> Out {
    let name = path.to_str().unwrap();
    let mut r = match guard(|| ChangesetTagReader::from_filename(name)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => {
            return Out {
                items: vec![],
                stop: Stop::Error(e.to_string()),
            }
        }
        Err(c) => {
            return Out {
                items: vec![],
                stop: Stop::Failed(c),
            }
        }
    };
    let (items, stop) = rd::collect(cap, || {
        r.next().map(|x| match x {
            Ok((id, t)) => Ok(Item::Tags(id, t)),
            Err(e) => Err(e.to_string()),
        })
    });
    let mut out = Out { items, stop };
    if let Stop::Error(_) = out.stop {
        if let Some(s) = go_on(cap, || r.next().is_some()) {
            out.stop = s;
        }
    }
    out
}

fn full_sweep(cx: &mut Cx) -> Result<(), String> {
    let d = doc(cx, false, 4);
    let mut n = 0;
    for at in positions(cx, d.bytes.len()) {
        for mode in 0..3 {
            let ek = ERROR_KINDS[(at + cx.idx as usize) % ERROR_KINDS.len()];
            let end = [End::Eof, End::Error(ek), End::ErrorThenEof(ek)][mode];
            let mut src = Src::new(&d.bytes).cut(at, end);
            if (at + mode) % 5 == 4 {
                src = src.chunks(Chunk::Random(50), 4, at as u64);
            }
            let st = src.stats.clone();
            let out = match guard(|| ChangesetReader::from_reader(src)) {
                Ok(r) => full(r, d.bytes.len() + 10),
                Err(c) => return Err(format!("new: {}", c)),
            };
            let failed = st.errors.load(SeqCst) > 0;
            cx.count(if mode == 0 { "cuts" } else { "errors" }, 1);
            cx.count("errors delivered", failed as u64);
            n += 1;
            d.judge(cx, &out, at, failed).map_err(|e| {
                format!("{:?} at byte {} of {}: {}; dump {}", end, at, d.bytes.len(), e, short(&text(&d.bytes)))
            })?;
        }
    }
    d.note(cx, n);
    Ok(())
}

fn full_bz2(cx: &mut Cx) -> Result<(), String> {
    let d = doc(cx, false, 5);
    let z = Arc::new(super::p20::bz2_streams(cx, &d.bytes));
    let mut n = 0;
    for at in positions(cx, z.len()) {
        for mode in 0..2 {
            if mode == 0 && at < z.len() && at % 2 == 1 && !cx.thorough {
                continue;
            }
            let ek = ERROR_KINDS[(at + cx.idx as usize) % ERROR_KINDS.len()];
            let end = [End::Eof, End::Error(ek)][mode];
            let src = Src::new(&z).cut(at, end);
            let st = src.stats.clone();
            let out = match guard(|| ChangesetReader::from_bz2_reader(src)) {
                Ok(r) => full(r, d.bytes.len() + 10),
                Err(c) => return Err(format!("new: {}", c)),
            };
            let failed = st.errors.load(SeqCst) > 0;
            n += 1;
            cx.count("errors delivered", failed as u64);
            rd::prefix_items(&d.want, &out.items)
                .and_then(|_| match &out.stop {
                    Stop::End if failed => Err("the I/O error was taken for the end".to_string()),
                    // between streams it may end there, and then what holds for cut dumps holds
                    Stop::End if at == z.len() && out.items.len() < d.want.len() => {
                        Err(format!("only {} of {}", out.items.len(), d.want.len()))
                    }
                    Stop::End if at < z.len() && !stream_end(&z, at) => {
                        Err("a cut-off bzip2 stream looks complete".to_string())
                    }
                    Stop::Error(e) if at == z.len() && !failed => Err(format!("fails: {}", e)),
                    Stop::End => Ok(()),
                    Stop::Error(_) => {
                        cx.count("failures", 1);
                        Ok(())
                    }
                    s => Err(s.to_string()),
                })
                .map_err(|e| format!("bzip2: {:?} at byte {} of {}: {}", end, at, z.len(), e))?;
        }
    }
    d.note(cx, n);
    Ok(())
}

/// A bzip2 stream ends here and the next begins
fn stream_end(z: &[u8], at: usize) -> bool {
    at == 0 || z[at..].starts_with(b"BZh")
}

/// The tag reader only reads bzip2 files: what is cut off is compressed
fn tags_cut(cx: &mut Cx) -> Result<(), String> {
    let d = doc(cx, true, 3);
    let mut n = 0;
    for at in positions(cx, d.bytes.len()) {
        let z = super::p10::bz2(&d.bytes[..at]);
        let p = file(cx, "cut.osm.bz2", &z);
        let out = tags_of(&p, d.bytes.len() + 10);
        cx.count("cuts", 1);
        n += 1;
        d.judge(cx, &out, at, false).map_err(|e| {
            format!("cut at byte {} of {}: {}; dump {}", at, d.bytes.len(), e, short(&text(&d.bytes)))
        })?;
        // the same, and then a source which fails: a second, damaged stream
        if at < d.bytes.len() && (at % 3 == (cx.idx % 3) as usize || cx.thorough) {
            let mut z = z;
            let mut bad = super::p10::bz2(&d.bytes[at..]);
            let i = cx.rng.range(4, 13) as usize;
            bad[i] ^= 0x55; // block magic or checksum
            z.extend(&bad);
            let p = file(cx, "bad.osm.bz2", &z);
            let out = tags_of(&p, d.bytes.len() + 10);
            cx.count("errors delivered", 1);
            n += 1;
            // with a wrong checksum the contents may come first
            rd::prefix_items(&d.want, &out.items)
                .and_then(|_| match &out.stop {
                    Stop::Error(_) => {
                        cx.count("failures", 1);
                        Ok(())
                    }
                    s => Err(s.to_string()),
                })
                .map_err(|e| {
                    format!("damaged from byte {} of {} on (flip {}): {}", at, d.bytes.len(), i, e)
                })?;
        }
    }
    d.note(cx, n);
    Ok(())
}

fn tags_bz2(cx: &mut Cx) -> Result<(), String> {
    let d = doc(cx, true, 4);
    let z = super::p20::bz2_streams(cx, &d.bytes);
    let mut n = 0;
    for at in positions(cx, z.len()) {
        let p = file(cx, "cut.osm.bz2", &z[..at]);
        let out = tags_of(&p, d.bytes.len() + 10);
        cx.count("cuts", 1);
        n += 1;
        rd::prefix_items(&d.want, &out.items)
            .and_then(|_| match &out.stop {
                Stop::End if at == z.len() && out.items.len() < d.want.len() => {
                    Err(format!("only {} of {}", out.items.len(), d.want.len()))
                }
                Stop::End if at < z.len() && !stream_end(&z, at) => {
                    Err("a cut-off bzip2 file looks complete".to_string())
                }
                Stop::Error(e) if at == z.len() => Err(format!("fails: {}", e)),
                Stop::End => Ok(()),
                Stop::Error(_) => {
                    cx.count("failures", 1);
                    Ok(())
                }
                s => Err(s.to_string()),
            })
            .map_err(|e| format!("file cut at {} of {}: {}", at, z.len(), e))?;
    }
    // a file which cannot be read
    let dir = cx.tmp.clone();
    let out = tags_of(&dir, 10);
    cx.count("errors delivered", 1);
    if !matches!(out.stop, Stop::Error(_)) {
        return Err(format!("reading a directory: {}", out.stop));
    }
    d.note(cx, n);
    Ok(())
}

const NUMBERS: &[&str] = &["x", "1.5", "1,000", "0x10", "1e3", "--1", "99999999999999999999999", "18446744073709551616", "NaN", "\u{664}", "1_0"];
const UNSIGNED: &[&str] = &["", "-1", "-", "None"];
const BOOLS: &[&str] = &["", "yes", "no", "maybe", "null", "truefalse", "2", "tru", "f"];

/// How one changeset is damaged; the text says so
fn damaged(rng: &mut Rng, c: &MCs, tags: bool) -> (String, String) {
    let mut a: Vec<(&str, String)> = vec![
        ("id", c.id.to_string()),
        ("created_at", c.created.clone()),
        ("open", c.open.to_string()),
        ("num_changes", c.num_changes.to_string()),
        ("comments_count", c.comments_count.to_string()),
    ];
    if let Some(u) = &c.user {
        a.push(("user", u.clone()));
    }
    if let Some(u) = &c.uid {
        a.push(("uid", u.to_string()));
    }
    if let Some(u) = &c.closed {
        a.push(("closed_at", u.clone()));
    }
    let mut t: Vec<Vec<(&str, String)>> = c
        .tags
        .iter()
        .map(|(k, v)| vec![("k", k.clone()), ("v", v.clone())])
        .collect();
    let set = |a: &mut Vec<(&str, String)>, name: &'static str, v: &str| match a.iter_mut().find(|x| x.0 == name) {
        Some(x) => x.1 = v.to_string(),
        None => a.push((name, v.to_string())),
    };
    let at = rng.below(t.len() + 1);
    let what;
    match rng.below(if tags { 4 } else { 8 }) {
        0 => {
            let values = if rng.bool() { NUMBERS } else { UNSIGNED };
            let v = *rng.pick(values);
            what = format!("id is {:?}", v);
            set(&mut a, "id", v);
        }
        1 => {
            let name = if tags { "id" } else { *rng.pick(&["id", "created_at", "open", "num_changes", "comments_count"]) };
            what = format!("no {}", name);
            a.retain(|x| x.0 != name);
        }
        2 => {
            let name = *rng.pick(&["k", "v"]);
            what = format!("a tag which has only {}", name);
            t.insert(at, vec![(name, "alone".to_string())]);
            if rng.chance(1, 4) {
                t[at].clear();
            }
        }
        3 => {
            if rng.bool() {
                what = "id is there twice".to_string();
                a.push(("id", (c.id + 1).to_string()));
            } else {
                what = "k is there twice".to_string();
                t.insert(at, vec![("k", "a".into()), ("v", "c".into()), ("k", "b".into())]);
            }
        }
        4 => {
            let v = *rng.pick(BOOLS);
            what = format!("open is {:?}", v);
            set(&mut a, "open", v);
        }
        5 => {
            let v = *rng.pick(NUMBERS);
            what = format!("uid is {:?}", v);
            set(&mut a, "uid", v);
        }
        _ => {
            let name = *rng.pick(&["num_changes", "comments_count"]);
            let values = if rng.bool() { NUMBERS } else { UNSIGNED };
            let v = *rng.pick(values);
            what = format!("{} is {:?}", name, v);
            set(&mut a, name, v);
        }
    }
    if rng.bool() {
        // "id" there twice stays so in any order
        rng.shuffle(&mut a);
    }
    let esc = |s: &str| s.chars().map(|c| format!("&#{};", c as u32)).collect::<String>();
    let attrs = |v: &[(&str, String)]| {
        v.iter()
            .map(|(k, v)| format!(" {}=\"{}\"", k, esc(v)))
            .collect::<String>()
    };
    let mut out = format!("<changeset{}", attrs(&a));
    if t.is_empty() && !tags && rng.bool() {
        out.push_str("/>");
    } else {
        out.push('>');
        for x in &t {
            out.push_str(&format!("<tag{}/>", attrs(x)));
        }
        out.push_str("</changeset>");
    }
    (out, what)
}

/// Some changesets have a value which is none, or lack something: the others are right, and there is
/// an error where the first of those is
fn values(cx: &mut Cx) -> Result<(), String> {
    let tags = cx.idx % 4 == 3;
    let n = cx.rng.range(1, 7) as usize;
    let mut cs: Vec<MCs> = vec![];
    for i in 0..n {
        let mut c = xmlw::gen_changeset(&mut cx.rng, i as u32 * 3 + 1);
        c.tags.truncate(3);
        cs.push(c);
    }
    let fancy = cx.rng.below(3);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let spans = w.spans.clone();
    let mut bytes = w.out.into_bytes();
    let mut bad: Vec<usize> = vec![cx.rng.below(n)];
    if cx.rng.chance(1, 3) {
        bad.push(cx.rng.below(n));
    }
    bad.sort();
    bad.dedup();
    let mut whats = vec![];
    for &i in bad.iter().rev() {
        let (text, what) = damaged(&mut cx.rng, &cs[i], tags);
        bytes.splice(spans[i].0..spans[i].1, text.into_bytes());
        whats.insert(0, format!("in changeset {} {}", cs[i].id, what));
    }
    let items = |v: &[MCs]| if tags { rd::tagged(v) } else { rd::changesets(v) };
    let before = items(&cs[..bad[0]]);
    let after = items(&cs[bad[0] + 1..]);
    // (or it has the other of its two ids)
    let is_bad = |i: &Item| match i {
        Item::Cs(c) => bad.iter().any(|b| c.id >= cs[*b].id && c.id - cs[*b].id <= 1),
        Item::Tags(id, _) => bad.iter().any(|b| *id >= cs[*b].id as u64 && *id - cs[*b].id as u64 <= 1),
        _ => false,
    };
    let cap = bytes.len() + 10;
    let mut next: Box<dyn FnMut() -> Option<Result<Item, String>>> = if tags {
        let p = file(cx, "values.osm.bz2", &super::p10::bz2(&bytes));
        let mut r = must("from_filename", || ChangesetTagReader::from_filename(p.to_str().unwrap()))?.map_err(|e| e.to_string())?;
        Box::new(move || r.next().map(|x| x.map(|(id, t)| Item::Tags(id, t)).map_err(|e| e.to_string())))
    } else {
        let mut r = ChangesetReader::from_reader(Src::of(&bytes));
        Box::new(move || r.next().map(|x| x.map(|c| Item::Cs(rd::cs_of(&c))).map_err(|e| e.to_string())))
    };
    let res = (|| {
        let (got, stop) = rd::collect(cap, &mut next);
        rd::prefix_items(&before, &got)?;
        match stop {
            Stop::Error(_) if got.len() == before.len() => {}
            Stop::Error(e) => return Err(format!("{} of {} before the error {}", got.len(), before.len(), e)),
            s => return Err(format!("no error, but {} after {} of {}", s, got.len(), before.len())),
        }
        cx.count("damaged changesets", bad.len() as u64);
        // the caller goes on
        let mut after = after.iter().filter(|i| !is_bad(i));
        for _ in 0..cap {
            let i = match guard(&mut next).map_err(|c| format!("after the error: {}", c))? {
                None => {
                    return match after.next() {
                        None => Ok(()),
                        Some(a) => Err(format!("after the error: {} is lost", short(a))),
                    }
                }
                Some(Err(_)) => continue,
                Some(Ok(i)) => i,
            };
            if is_bad(&i) {
                continue;
            }
            cx.count("changesets after an error", 1);
            let want = after.next();
            if want.is_none_or(|a| format!("{:?}", a) != format!("{:?}", i)) {
                return Err(format!("after the error: {}, should be {}", short(&i), short(&want)));
            }
        }
        Err("after the error: there is no end".to_string())
    })();
    cx.seen(crate::rng::hash_bytes(&bytes));
    cx.sample(|| json!({"dump": text(&bytes), "damage": whats}));
    res.map_err(|e: String| {
        format!("{} ({} reader): {}; dump {}", whats.join(", "), if tags { "tag" } else { "full" }, e, short(&text(&bytes)))
    })
}

const SOUP: &[&str] = &[
    "<changeset", "</changeset>", "<changeset ", "id=\"1\"", " id='2'", " id=\"\"", " id=\"-1\"",
    " id=\"4294967296\"", " id=\"99999999999999999999999\"", " id=\"x\"", " open=\"true\"", " open=\"maybe\"",
    " open=\"\"", " created_at=\"2020-01-01T00:00:00Z\"", " created_at=\"\"", " created_at=\"bogus\"",
    " closed_at=\"\u{e9}\"", " num_changes=\"1\"", " num_changes=\"-1\"", " comments_count=\"0\"",
    " comments_count=\"1e3\"", " user=\"&unknown;\"", " user=\"&#0;\"", " user=\"&#xD800;\"", " user=\"&#xFFFFFFFFFFF;\"",
    " user=\"&\"", " user=\"<\"", " uid=\"9223372036854775808\"", " uid=\"\"", ">", "/>", "<tag", " k=\"a\"", " v=\"b\"",
    " k", " k=", " k=b", "<tag k=\"a\"/>", "<tag v=\"a\"/>", "<tag/>", "</tag>", "<osm>", "</osm>", "<?xml version=\"1.0\"?>",
    "<?xml version=\"1.1\"?>", "<?xml encoding=\"UTF-16\"?>", "<!DOCTYPE osm [<!ENTITY a \"b\"><!ENTITY c \"&a;&a;\">]>", "&a;", "&c;",
    "<!--", "-->", "<![CDATA[", "]]>", "<!", "<", "&", "\"", "'", "\u{feff}", "\u{0}", "<?", "?>", "--", "<discussion>", "</discussion>",
    "<comment>", "</comment>", "<text>", "</text>", " ", "\n", "<a:changeset", " a:id=\"7\"", " xmlns:a=\"b\"", "</a:changeset>", " id=\"5\" id=\"6\"",
];

fn hostile_bytes(cx: &mut Cx) -> Vec<u8> {
    let mut data: Vec<u8>;
    match cx.rng.below(5) {
        0 => {
            let n = *cx.rng.pick(&[0usize, 1, 2, 5, 30, 300, 9000]);
            data = cx.rng.bytes(n);
        }
        1 => {
            let n = cx.rng.below(60);
            data = vec![];
            for _ in 0..n {
                data.extend(cx.rng.pick(SOUP).as_bytes());
            }
        }
        2 => {
            // a good start tag with a bad neighbour
            let bad = *cx.rng.pick(SOUP);
            let bad2 = *cx.rng.pick(SOUP);
            let mut s = String::from("<osm><changeset id=\"1\" created_at=\"2020-01-01T00:00:00Z\" open=\"false\" num_changes=\"1\" comments_count=\"0\"");
            s.push_str(bad);
            s.push_str("><tag k=\"a\" v=\"b\"");
            s.push_str(bad2);
            s.push_str("/></changeset></osm>");
            data = s.into_bytes();
        }
        _ => {
            let d = doc(cx, false, 6);
            data = d.bytes.to_vec();
            let n = 1 + cx.rng.below(4);
            for _ in 0..n {
                mutate(&mut cx.rng, &mut data);
            }
        }
    }
    data
}

fn mutate(rng: &mut Rng, data: &mut Vec<u8>) {
    if data.is_empty() {
        return;
    }
    let at = rng.below(data.len());
    match rng.below(7) {
        0 => data[at] = rng.below(256) as u8,
        1 => data[at] ^= 1 << rng.below(8),
        2 => {
            let to = (at + 1 + rng.below(40)).min(data.len());
            data.drain(at..to);
        }
        3 => {
            let s = *rng.pick(SOUP);
            data.splice(at..at, s.bytes());
        }
        4 => {
            let to = (at + 1 + rng.below(200)).min(data.len());
            let part = data[at..to].to_vec();
            let to = rng.below(data.len());
            data.splice(to..to, part);
        }
        5 => data.truncate(at),
        _ => {
            let n = rng.below(5);
            let b = rng.bytes(n);
            data.splice(at..at, b);
        }
    }
}

fn note_hostile(cx: &mut Cx, data: &[u8], out: &Out, largest: usize, size: usize) -> Result<(), String> {
    if !data.is_empty() {
        cx.seen(crate::rng::hash_bytes(data));
    }
    match &out.stop {
        Stop::End => cx.count("hostile: ends", 1),
        Stop::Error(_) => cx.count("hostile: errors", 1),
        s => return Err(s.to_string()),
    }
    cx.count("hostile: changesets", out.items.len() as u64);
    if largest > (16 << 20) + size * 64 {
        return Err(format!("{} bytes of input make it allocate {}", size, largest));
    }
    Ok(())
}

fn hostile(cx: &mut Cx) -> Result<(), String> {
    let data = hostile_bytes(cx);
    cx.sample(|| json!({"input": text(&data)}));
    crate::alloc::take_largest();
    let cap = data.len() + 10;
    let out = match guard(|| ChangesetReader::from_reader(Src::of(&data))) {
        Ok(r) => full(r, cap),
        Err(c) => return Err(format!("new: {}", c)),
    };
    let largest = crate::alloc::take_largest();
    note_hostile(cx, &data, &out, largest, data.len()).map_err(|e| format!("{}; input {}", e, short(&text(&data))))
}

/// Both readers by name; the compressed bytes are hostile, or what they hold
fn hostile_file(cx: &mut Cx) -> Result<(), String> {
    let data = hostile_bytes(cx);
    let mut z = super::p20::bz2_streams(cx, &data);
    match cx.rng.below(4) {
        0 => {
            for _ in 0..1 + cx.rng.below(3) {
                mutate(&mut cx.rng, &mut z);
            }
        }
        1 => z.extend(b"trailing"),
        _ => {}
    }
    let p = file(cx, "hostile.osm.bz2", &z);
    cx.sample(|| json!({"uncompressed": text(&data), "compressed bytes": z.len()}));
    let cap = data.len() + z.len() * 1000 + 10;
    crate::alloc::take_largest();
    let out = tags_of(&p, cap);
    let largest = crate::alloc::take_largest();
    note_hostile(cx, &z, &out, largest, data.len() + z.len()).map_err(|e| format!("tag reader: {}; input {}", e, short(&text(&data))))?;
    let out = match guard(|| ChangesetReader::from_filename(p.to_str().unwrap())) {
        Ok(Ok(r)) => full(r, cap),
        Ok(Err(e)) => return Err(format!("from_filename: {}", e)),
        Err(c) => return Err(format!("from_filename: {}", c)),
    };
    let largest = crate::alloc::take_largest();
    note_hostile(cx, &z, &out, largest, data.len() + z.len()).map_err(|e| format!("full reader: {}; input {}", e, short(&text(&data))))?;
    cx.evals(2);
    Ok(())
}
