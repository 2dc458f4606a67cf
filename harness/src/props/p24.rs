//! P24: the SQLite export of changeset tags.

use super::p20::{bz2_streams, file};
use super::tool::{self, Limits, Ran, MAX};
use crate::model::*;
use crate::runner::*;
use crate::xmlw::{self, MCs, W};
use rusqlite::types::ValueRef;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::time::Duration;

pub fn prop() -> Prop {
    Prop {
        id: "P24",
        level: "exploration",
        rule: "The real binary exports dumps of known content; the database is opened with SQLite itself, checked for integrity and compared row by row with the model. Dumps which are malformed at a random place, cut off at a random byte or repeat an id, output limited in size, and a tool killed in the middle (the input comes through a pipe which stops there) or at a random time must leave no partial set of rows; files that exist must be left as they are. One evaluation is one run of the binary. Distinct by hash of dump and fault; non-trivial: tagged changesets, or a fault.",
        assumptions: &[
            "ids up to 2^63-1, which is what SQLite can hold",
            "a crash is one of the process, not of the operating system",
        ],
        legs: vec![
            leg("valid", 700, 15_000, valid),
            leg("large", 4, 60, large),
            leg("very large", 1, 6, very_large),
            leg("large failure", 6, 60, large_failure),
            leg("existing", 200, 3000, existing),
            leg("malformed", 500, 10_000, malformed),
            leg("cut", 500, 10_000, cut),
            leg("repeated id", 250, 5000, repeated),
            leg("full disk", 200, 4000, full_disk),
            leg("killed in the middle", 60, 1000, killed),
            leg("killed large", 4, 60, killed_large),
            leg("killed at some time", 60, 1500, killed_any),
            leg("no dump", 20, 200, no_dump),
        ],
        required: &["rows", "refused", "failures", "killed", "failed for lack of space", "tags in rows"],
        probes: vec![],
    }
}

const TOOL: &str = "osmio-changeset-tags-to-sqlite";

type Rows = Vec<(i64, Vec<(String, String)>)>;

fn want(cs: &[MCs]) -> Rows {
    let mut v: Rows = cs
        .iter()
        .filter(|c| !c.tags.is_empty())
        .map(|c| (c.id as i64, c.tags.clone()))
        .collect();
    v.sort();
    v
}

/// None: no such table, or no database
fn rows(db: &Path) -> Result<Option<Rows>, String> {
    if !db.exists() {
        return Ok(None);
    }
    let e = |e: rusqlite::Error| format!("database: {}", e);
    let c = rusqlite::Connection::open(db).map_err(e)?;
    let ok: String = c
        .query_row("PRAGMA integrity_check", [], |r| r.get(0))
        .map_err(e)?;
    if ok != "ok" {
        return Err(format!("database: integrity check says {}", ok));
    }
    let n: i64 = c
        .query_row(
            "SELECT count(*) FROM sqlite_master WHERE type='table' AND name='changeset_tags'",
            [],
            |r| r.get(0),
        )
        .map_err(e)?;
    if n == 0 {
        return Ok(None);
    }
    let mut st = c
        .prepare("SELECT id, other_tags FROM changeset_tags ORDER BY id")
        .map_err(e)?;
    let mut q = st.query([]).map_err(e)?;
    let mut v = vec![];
    while let Some(r) = q.next().map_err(e)? {
        let id: i64 = r.get(0).map_err(e)?;
        let json = match r.get_ref(1).map_err(e)? {
            ValueRef::Blob(b) | ValueRef::Text(b) => b.to_vec(),
            x => return Err(format!("tags of {} are {:?}", id, x)),
        };
        let tags: Vec<(String, String)> = serde_json::from_slice(&json)
            .map_err(|e| format!("tags of {}: {}: {:?}", id, e, String::from_utf8_lossy(&json)))?;
        v.push((id, tags));
    }
    Ok(Some(v))
}

fn differ(want: &Rows, got: &Rows) -> Option<String> {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if g == w => {}
            g => return Some(format!("row {} should be {} but is {}", i, short(w), short(&g))),
        }
    }
    if got.len() > want.len() {
        return Some(format!("{} rows, but should be {}", got.len(), want.len()));
    }
    None
}

/// A directory of its own for the database
fn db_dir(cx: &Cx) -> PathBuf {
    let d = cx.tmp.join("db");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn run(dump: &Path, db: &Path, limits: Limits) -> Result<Ran, String> {
    tool::start(TOOL, &[dump.as_os_str(), db.as_os_str()], limits).wait(MAX)
}

fn reported(out: &str) -> Option<u64> {
    let l = out.lines().find(|l| l.starts_with("Inserted"))?;
    let digits: String = l
        .chars()
        .skip_while(|c| !c.is_ascii_digit())
        .take_while(|c| c.is_ascii_digit() || *c == ',')
        .filter(|c| c.is_ascii_digit())
        .collect();
    digits.parse().ok()
}

fn check_complete(cx: &mut Cx, cs: &[MCs], db: &Path, r: &Ran) -> Result<(), String> {
    let want = want(cs);
    if !r.status.success() {
        return Err(format!("a valid dump of {} changesets: {}", cs.len(), r.ending()));
    }
    let got = rows(db)?.ok_or("there is no table changeset_tags")?;
    if let Some(d) = differ(&want, &got) {
        return Err(d);
    }
    if reported(&r.stdout) != Some(want.len() as u64) {
        return Err(format!(
            "{} rows, but it reports {:?}",
            want.len(),
            r.stdout.lines().next()
        ));
    }
    cx.count("rows", want.len() as u64);
    cx.count("tags in rows", want.iter().map(|r| r.1.len() as u64).sum());
    let left: Vec<_> = std::fs::read_dir(db.parent().unwrap())
        .unwrap()
        .map(|e| e.unwrap().file_name())
        .collect();
    if left.len() != 1 {
        return Err(format!("these files are left: {:?}", left));
    }
    Ok(())
}

/// After a failure: no rows at all
fn check_nothing(cx: &mut Cx, what: &str, db: &Path, r: &Ran) -> Result<(), String> {
    if !r.failed() {
        return Err(format!("{}: {}", what, r.ending()));
    }
    cx.count("failures", 1);
    none_left(what, db)
}

fn none_left(what: &str, db: &Path) -> Result<(), String> {
    match rows(db)? {
        Some(v) if !v.is_empty() => Err(format!("{}: {} rows are left", what, v.len())),
        _ => Ok(()),
    }
}

fn dump(cx: &mut Cx, max: usize) -> (Vec<u8>, Vec<MCs>, Vec<(usize, usize)>) {
    let cs = xmlw::gen_changesets(&mut cx.rng, max);
    let fancy = cx.rng.below(3);
    let mut w = W::new(&mut cx.rng, fancy);
    w.changesets(&cs);
    let spans = w.spans.clone();
    (w.out.into_bytes(), cs, spans)
}

fn seen(cx: &mut Cx, data: &[u8], fault: u64) {
    cx.seen(crate::rng::hash_bytes(data) ^ fault.wrapping_mul(0x9E37_79B9_7F4A_7C15));
}

fn valid(cx: &mut Cx) -> Result<(), String> {
    let (doc, cs, _) = dump(cx, 40);
    let z = bz2_streams(cx, &doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let name = *cx.rng.pick(&["out.sqlite", "a b.db", "ünï", "x'y\"z"]);
    let db = db_dir(cx).join(name);
    let r = run(&p, &db, Limits::default())?;
    let n = want(&cs).len();
    if n > 0 {
        seen(cx, &doc, 0);
    }
    cx.sample(|| json!({"changesets": cs.len(), "rows": n, "stdout": r.stdout, "dump": super::util::text(&doc)}));
    check_complete(cx, &cs, &db, &r)
}

/// More than SQLite keeps in memory
fn many(cx: &mut Cx, n: usize) -> (Vec<u8>, Vec<MCs>, Vec<(usize, usize)>) {
    let mut cs = vec![];
    for i in 0..n {
        let mut c = xmlw::gen_changeset(&mut cx.rng, i as u32 * 5 + 1);
        c.tags.truncate(3);
        c.tags.push((format!("big{}", i), "x".repeat(600)));
        cs.push(c);
    }
    let mut w = W::new(&mut cx.rng, 0);
    w.changesets(&cs);
    let spans = w.spans.clone();
    (w.out.into_bytes(), cs, spans)
}

fn large(cx: &mut Cx) -> Result<(), String> {
    let (doc, cs, _) = many(cx, 9000);
    let z = bz2_streams(cx, &doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&p, &db, Limits::default())?;
    seen(cx, &doc, 0);
    cx.sample(|| json!({"changesets": cs.len(), "database bytes": std::fs::metadata(&db).map_or(0, |m| m.len())}));
    check_complete(cx, &cs, &db, &r)
}

/// Many more changesets than any batch would hold: the failure is in the last of them
fn large_failure(cx: &mut Cx) -> Result<(), String> {
    let n = *cx.rng.pick(&[10_001usize, 20_000, 33_000, 66_000]);
    let mut s = String::from("<osm>");
    for i in 0..n {
        s.push_str(&format!("<changeset id=\"{}\"><tag k=\"k\" v=\"{}\"/></changeset>\n", i + 5, i));
    }
    let (what, z) = match cx.idx % 3 {
        0 => {
            let id = 5 + cx.rng.below(n);
            s.push_str(&format!("<changeset id=\"{}\"><tag k=\"k\" v=\"again\"/></changeset></osm>", id));
            (format!("id {} repeated", id), super::p10::bz2(s.as_bytes()))
        }
        1 => {
            s.push_str("<changeset id=\"x\"><tag k=\"k\" v=\"\"/></changeset></osm>");
            ("an id which is no number".to_string(), super::p10::bz2(s.as_bytes()))
        }
        _ => {
            let at = s.len() - 20;
            s.truncate(at);
            ("cut".to_string(), super::p10::bz2(s.as_bytes()))
        }
    };
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&p, &db, Limits::default())?;
    seen(cx, s.as_bytes(), 4);
    cx.count("failures after many rows", 1);
    cx.sample(|| json!({"changesets": n, "failure": what, "ending": r.ending()}));
    check_nothing(cx, &format!("{} after {} changesets", what, n), &db, &r)
}

/// So many that the tool reports on the way
fn very_large(cx: &mut Cx) -> Result<(), String> {
    let n = 70_000 + cx.rng.below(1000);
    let mut cs = vec![];
    for i in 0..n {
        let mut c = xmlw::gen_changeset(&mut cx.rng, i as u32 * 3 + 1);
        c.tags.truncate(1);
        c.user = None;
        cs.push(c);
    }
    let mut w = W::new(&mut cx.rng, 0);
    w.changesets(&cs);
    let doc = w.out;
    let z = bz2_streams(cx, doc.as_bytes());
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&p, &db, Limits::default())?;
    seen(cx, doc.as_bytes(), 0);
    check_complete(cx, &cs, &db, &r)
}

fn existing(cx: &mut Cx) -> Result<(), String> {
    let (doc, cs, _) = dump(cx, 10);
    let z = bz2_streams(cx, &doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let d = db_dir(cx);
    let db = d.join("out.sqlite");
    let what = cx.rng.below(6);
    match what {
        0 => std::fs::write(&db, b"").unwrap(),
        1 => {
            let b = cx.rng.bytes(300);
            std::fs::write(&db, b).unwrap()
        }
        2 => {
            // what an earlier run made
            let r = run(&p, &db, Limits::default())?;
            check_complete(cx, &cs, &db, &r)?;
        }
        3 => {
            let c = rusqlite::Connection::open(&db).unwrap();
            c.execute_batch("CREATE TABLE t (a); INSERT INTO t VALUES (1);").unwrap();
        }
        4 => {
            std::fs::write(d.join("target"), b"target").unwrap();
            std::os::unix::fs::symlink(d.join("target"), &db).unwrap();
        }
        _ => std::fs::create_dir(&db).unwrap(),
    }
    let print = || {
        let m = std::fs::metadata(&db).unwrap();
        let names: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().file_name()).collect();
        (
            std::fs::read(&db).ok(),
            m.modified().unwrap(),
            m.permissions(),
            names.len(),
        )
    };
    let before = print();
    let r = run(&p, &db, Limits::default())?;
    seen(cx, &doc, 100 + what as u64);
    cx.sample(|| json!({"what exists": what, "ending": r.ending()}));
    cx.evals(1);
    if !r.failed() {
        return Err(format!("existing file {}: {}", what, r.ending()));
    }
    if before != print() {
        return Err(format!("the existing file {} was changed", what));
    }
    cx.count("refused", 1);
    Ok(())
}

/// One definite error somewhere in the dump
fn malformed(cx: &mut Cx) -> Result<(), String> {
    let (mut doc, cs, spans) = dump(cx, 20);
    if cs.is_empty() {
        return Ok(());
    }
    let i = cx.rng.below(cs.len());
    let at = if cx.rng.bool() { spans[i].0 } else { spans[i].1 };
    let bad = *cx.rng.pick(&[
        "<changeset id=\"x\"><tag k=\"a\" v=\"b\"/></changeset>",
        "<changeset id=\"-5\"><tag k=\"a\" v=\"b\"/></changeset>",
        "<changeset id=\"99999999999999999999999\"><tag k=\"a\" v=\"b\"/></changeset>",
        "<changeset><tag k=\"a\" v=\"b\"/></changeset>",
        "<changeset id=\"\"><tag k=\"a\" v=\"b\"/></changeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\"/></changeset>",
        "<changeset id=\"4000000001\"><tag v=\"a\"/></changeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\" v=\"&nope;\"/></changeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\" v=\"&#xD800;\"/></changeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\" v=\"b\"/></chngeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\" v=\"b\"></changeset>",
        "</changeset>",
        "</nothing>",
        "<changeset id=\"4000000001\"><tag k=\"a\" v=b/></changeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\" k=\"c\" v=\"b\"/></changeset>",
        "<changeset id=\"4000000001\"><tag k=\"a\" v=\"b\"/></changeset",
    ]);
    doc.splice(at..at, bad.bytes());
    let z = bz2_streams(cx, &doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&p, &db, Limits::default())?;
    seen(cx, &doc, 1);
    cx.sample(|| json!({"malformed": bad, "at": at, "ending": r.ending()}));
    check_nothing(cx, &format!("{} at {} of {}", bad, at, doc.len()), &db, &r)
}

/// Cut inside the compressed file, or (compressed again) inside a changeset
fn cut(cx: &mut Cx) -> Result<(), String> {
    let (doc, cs, spans) = dump(cx, 20);
    if cs.is_empty() {
        return Ok(());
    }
    let z;
    let what;
    if cx.rng.bool() {
        let all = super::p10::bz2(&doc);
        let at = 1 + cx.rng.below(all.len() - 1);
        what = format!("the first {} of {} compressed bytes", at, all.len());
        z = all[..at].to_vec();
    } else {
        let s = *cx.rng.pick(&spans);
        let at = cx.rng.range(s.0 as i64 + 1, s.1 as i64 - 1) as usize;
        what = format!("cut at {} of {}, inside a changeset", at, doc.len());
        z = bz2_streams(cx, &doc[..at]);
    }
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&p, &db, Limits::default())?;
    seen(cx, &z, 2);
    cx.sample(|| json!({"cut": what, "ending": r.ending()}));
    check_nothing(cx, &what, &db, &r)
}

fn repeated(cx: &mut Cx) -> Result<(), String> {
    let (_, mut cs, _) = dump(cx, 20);
    cs.retain(|c| !c.tags.is_empty());
    if cs.is_empty() {
        return Ok(());
    }
    let mut again = cx.rng.pick(&cs).clone();
    if cx.rng.bool() {
        again.tags = vec![("other".to_string(), "tags".to_string())];
    }
    let at = cx.rng.below(cs.len() + 1);
    cs.insert(at, again);
    let mut w = W::new(&mut cx.rng, 1);
    w.changesets(&cs);
    let doc = w.out.into_bytes();
    let z = bz2_streams(cx, &doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&p, &db, Limits::default())?;
    seen(cx, &doc, 3);
    cx.sample(|| json!({"changesets": cs.len(), "repeated": cs[at].id, "ending": r.ending()}));
    check_nothing(cx, &format!("id {} repeated", cs[at].id), &db, &r)
}

/// No file may grow beyond a limit: writing fails somewhere
fn full_disk(cx: &mut Cx) -> Result<(), String> {
    let n = cx.rng.range(1, 400) as usize;
    let (doc, cs, _) = many(cx, n);
    let z = super::p10::bz2(&doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let limit = match cx.rng.below(3) {
        0 => cx.rng.range(0, 20_000),
        1 => cx.rng.range(0, n as i64 * 900),
        _ => cx.rng.range(0, 100) * 4096,
    } as u64;
    let r = run(&p, &db, Limits { file_size: Some(limit), ..Limits::default() })?;
    seen(cx, &doc, 1000 + limit);
    cx.sample(|| json!({"changesets": n, "limit": limit, "ending": r.ending()}));
    if r.status.success() {
        return check_complete(cx, &cs, &db, &r);
    }
    cx.count("failed for lack of space", 1);
    check_nothing(cx, &format!("no file over {} bytes", limit), &db, &r)
}

struct Fifo {
    path: PathBuf,
    fd: i32,
}

impl Fifo {
    fn new(cx: &Cx) -> Fifo {
        let path = cx.tmp.join("fifo");
        let _ = std::fs::remove_file(&path);
        let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
        assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
        let fd = unsafe { libc::open(c.as_ptr(), libc::O_RDWR | libc::O_NONBLOCK | libc::O_CLOEXEC) };
        assert!(fd >= 0);
        Fifo { path, fd }
    }
    /// All written, and all read by the tool; false if it does not read any more
    fn feed(&self, data: &[u8], child: &mut std::process::Child) -> bool {
        let mut at = 0;
        let start = std::time::Instant::now();
        loop {
            if at < data.len() {
                let n = unsafe {
                    libc::write(self.fd, data[at..].as_ptr() as *const libc::c_void, data.len() - at)
                };
                if n > 0 {
                    at += n as usize;
                    continue;
                }
            }
            let mut left: libc::c_int = 0;
            unsafe { libc::ioctl(self.fd, libc::FIONREAD, &mut left) };
            if at == data.len() && left == 0 {
                return true;
            }
            if child.try_wait().unwrap().is_some() || start.elapsed() > MAX {
                return false;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}

impl Drop for Fifo {
    fn drop(&mut self) {
        unsafe { libc::close(self.fd) };
        let _ = std::fs::remove_file(&self.path);
    }
}

fn killed_with(cx: &mut Cx, n: usize) -> Result<(), String> {
    let (doc, _, spans) = many(cx, n);
    // it comes through a pipe, and stops after that many changesets
    let k = cx.rng.range(1, n as i64 - 1) as usize;
    let at = spans[k - 1].1;
    let part = super::p10::bz2(&doc[..at]);
    let fifo = Fifo::new(cx);
    let db = db_dir(cx).join("out.sqlite");
    let mut t = tool::start(TOOL, &[fifo.path.as_os_str(), db.as_os_str()], Limits::default());
    if !fifo.feed(&part, &mut t.child) {
        let r = t.wait(Duration::ZERO);
        return Err(match r {
            Ok(r) => format!("ended early: {}", r.ending()),
            Err(e) => e,
        });
    }
    std::thread::sleep(Duration::from_millis(if n > 1000 { 1500 } else { 30 }));
    t.child.kill().unwrap();
    let r = t.wait(MAX)?;
    let size = std::fs::metadata(&db).map_or(0, |m| m.len());
    seen(cx, &doc, k as u64 * 1000);
    cx.count("killed", r.status.code().is_none() as u64);
    cx.count("killed with data in the file", (size > 100_000) as u64);
    cx.sample(|| json!({"changesets": n, "delivered before the kill": k, "ending": r.ending(), "database bytes": size}));
    none_left(&format!("killed after {} of {} changesets", k, n), &db)
}

fn killed(cx: &mut Cx) -> Result<(), String> {
    let n = cx.rng.range(3, 300) as usize;
    killed_with(cx, n)
}

fn killed_large(cx: &mut Cx) -> Result<(), String> {
    killed_with(cx, 9000)
}

fn killed_any(cx: &mut Cx) -> Result<(), String> {
    let n = cx.rng.range(1, 800) as usize;
    let (doc, cs, _) = many(cx, n);
    let z = super::p10::bz2(&doc);
    let p = file(cx, "dump.osm.bz2", &z);
    let db = db_dir(cx).join("out.sqlite");
    let mut t = tool::start(TOOL, &[p.as_os_str(), db.as_os_str()], Limits::default());
    let us = cx.rng.range(0, 60_000) as u64;
    std::thread::sleep(Duration::from_micros(us));
    let _ = t.child.kill();
    let r = t.wait(MAX)?;
    seen(cx, &doc, us);
    if r.status.code().is_some() {
        cx.count("was already done", 1);
        return check_complete(cx, &cs, &db, &r);
    }
    cx.count("killed", 1);
    match rows(&db)? {
        None => Ok(()),
        Some(v) if v.is_empty() => Ok(()),
        Some(v) => {
            cx.count("killed after the commit", 1);
            match differ(&want(&cs), &v) {
                Some(d) => Err(format!("killed after {} us: {}", us, d)),
                None => Ok(()),
            }
        }
    }
}

fn no_dump(cx: &mut Cx) -> Result<(), String> {
    let db = db_dir(cx).join("out.sqlite");
    let p = cx.tmp.join("not there.osm.bz2");
    // what is not asked for is there
    let (doc, _, _) = dump(cx, 10);
    let stdin = file(cx, "stdin", &super::p10::bz2(&doc));
    let r = run(&p, &db, Limits { stdin: Some(stdin), ..Limits::default() })?;
    check_nothing(cx, "no dump", &db, &r)?;
    let empty = file(cx, "garbage.osm.bz2", b"this is not bzip2");
    let db = db_dir(cx).join("out.sqlite");
    let r = run(&empty, &db, Limits::default())?;
    cx.evals(2);
    check_nothing(cx, "a dump which is not compressed", &db, &r)
}
