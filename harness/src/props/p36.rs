//! P36: only the data count.

use super::tool;
use super::util::*;
use crate::gen::{self, Cfg};
use crate::pbfw::{self, Enc};
use crate::rd::{self, Rk, Stop};
use crate::rng::{hash_bytes, Rng};
use crate::runner::*;
use crate::xmlw::{self, W};
use osmio::osc::OSCWriter;
use osmio::prelude::*;
use osmio::xml::XMLWriter;
use osmio::{Lat, Lon, OSMWriter, TimestampFormat};
use serde_json::json;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn prop() -> Prop {
    Prop {
        id: "P36",
        level: "exploration",
        rule: "Processes with different surroundings (time zone, locale, working directory, home, variables, closed standard streams, stack size, number of file handles, a shifted clock, other work done before in the same process) read, write and convert the same generated data, valid and damaged, and print a hash of each result: the bytes written, the objects read and how reading ended, texts and numbers converted to. The same for what the command-line tools print and the database they make. All must print the same; one evaluation is one result in one process. Distinct by data and surroundings.",
        assumptions: &["the clock is shifted for whoever asks the C library (left out where there is no C compiler)"],
        legs: vec![
            leg("library", 240, 4000, library),
            leg("tools", 240, 4000, tools),
            leg("again", 80, 2000, again),
        ],
        required: &["results compared", "processes", "tools run", "results which came again", "surroundings with a time zone"],
        probes: vec![],
    }
}

// ---- the process which only does the work ----

struct Results(Vec<(String, u64)>);

impl Results {
    fn note(&mut self, what: &str, bytes: &[u8]) {
        self.0.push((what.to_string(), hash_bytes(bytes)));
    }
    fn debug(&mut self, what: &str, x: &impl std::fmt::Debug) {
        self.note(what, format!("{:?}", x).as_bytes());
    }
    /// What f gives, or that it panics
    fn of<T: std::fmt::Debug>(&mut self, what: &str, f: impl FnOnce() -> T) {
        match guard(f) {
            Ok(x) => self.debug(what, &x),
            Err(_) => self.note(what, b"panic"),
        }
    }
}

fn ending(s: &Stop) -> &'static str {
    match s {
        Stop::End => "end",
        Stop::Error(_) => "error",
        Stop::Failed(_) => "failed",
        Stop::Cap => "cap",
    }
}

fn damage(rng: &mut Rng, data: &[u8]) -> Vec<u8> {
    let mut d = data.to_vec();
    if d.is_empty() {
        return d;
    }
    for _ in 0..1 + rng.below(3) {
        let at = rng.below(d.len());
        match rng.below(3) {
            0 => d.truncate(at.max(1)),
            1 => d[at] ^= 1 << rng.below(8),
            _ => {
                let to = (at + 1 + rng.below(30)).min(d.len());
                d.drain(at..to);
                if d.is_empty() {
                    d.push(b' ');
                }
            }
        }
    }
    d
}

const TIMES: &[&str] = &[
    "2020-01-01T00:00:00", "2020-01-01 00:00:00", "2020-01-01", "2020-07-01T12:00:00Z", "2020-07-01T12:00:00+05:45", "2020-03-29T02:30:00",
    "1969-12-31T23:59:59Z", "2020-07-01T12:00:00 EST", "2020-07-01T12:00:00-00:00", "", "now", "1593604800", "2020-07-01T12:00:00z", "today",
    "Wed, 01 Jul 2020 12:00:00 GMT", "2020-07-01T12:00:00.999999999-03:30", "12:00", "2020-11-01T01:30:00-05:00", "2099-01-01T00:00:00Z",
];

/// All the work for one seed
fn work(seed: u64, dir: &Path) -> Vec<(String, u64)> {
    let mut out = Results(vec![]);
    let rng = &mut Rng::new(seed);
    // writing
    for osc in [false, true] {
        let objs = xml_objects(rng, 12);
        let built = build_all(rng, &objs);
        let header = rng.bool().then(|| gen::string(rng, gen::Chars::Xml));
        out.of(if osc { "written as OSC" } else { "written as XML" }, || {
            let mut v: Vec<u8> = vec![];
            if osc {
                let mut w = OSCWriter::new(&mut v);
                for o in &built {
                    write_any(&mut w, o).map_err(|e| e.to_string())?;
                }
                w.close().map_err(|e| e.to_string())?;
            } else {
                let mut w = XMLWriter::new(&mut v);
                if let Some(h) = &header {
                    w.set_header(("note", h.as_str())).map_err(|e| e.to_string())?;
                }
                for o in &built {
                    write_any(&mut w, o).map_err(|e| e.to_string())?;
                }
                w.close().map_err(|e| e.to_string())?;
            }
            Ok::<_, String>(v)
        });
        for o in &built {
            out.of("JSON of tags", || match o {
                AnyObj::S(o) => o.tags_json_string(),
                AnyObj::R(o) => o.tags_json_string(),
                AnyObj::A(o) => o.tags_json_string(),
            });
        }
    }
    // reading
    let objs = xml_objects(rng, 12);
    let fancy = rng.below(4);
    let mut w = W::new(rng, fancy);
    w.osm(&objs);
    let osm = w.out.into_bytes();
    let mut w = W::new(rng, fancy);
    w.osc(&objs);
    let osc = w.out.into_bytes();
    let objs = pbfw::gen_objects(rng, 12, true);
    let pbf = Enc::new(rng, 1).write(&objs).bytes;
    let cs = xmlw::gen_changesets(rng, 8);
    let mut w = W::new(rng, fancy);
    w.changesets(&cs);
    let cs = w.out.into_bytes();
    for (rk, data) in [(Rk::Xml, &osm), (Rk::Osc, &osc), (Rk::Pbf, &pbf), (Rk::Arc, &pbf), (Rk::Pos, &pbf), (Rk::Cs, &cs)] {
        for d in [data.clone(), damage(rng, data), damage(rng, data)] {
            let r = rd::read(rk, &d[..], d.len() + 10);
            out.debug(&format!("read by the {:?} reader", rk), &(r.items, ending(&r.stop)));
        }
    }
    let p = dir.join(format!("in-{}.bz2", seed));
    for d in [cs.clone(), damage(rng, &cs)] {
        let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
        e.write_all(&d).unwrap();
        std::fs::write(&p, e.finish().unwrap()).unwrap();
        match rd::read_tags_file(&p, d.len()) {
            Ok(r) => out.debug("read by the tag reader", &(r.items, ending(&r.stop))),
            Err(_) => out.note("read by the tag reader", b"not opened"),
        }
    }
    let _ = std::fs::remove_file(&p);
    // converting
    let cfg = Cfg::any();
    let mut stamps = vec![];
    for i in 0..20 {
        let t = match i % 4 {
            0 => TimestampFormat::EpochNumber(gen::epoch(rng, (-62_167_219_200, 253_402_300_799))),
            1 => TimestampFormat::ISOString((*rng.pick(TIMES)).to_string()),
            2 => {
                let t = gen::epoch(rng, (-62_000_000_000, 253_000_000_000));
                TimestampFormat::ISOString(gen::iso_with_offset(rng, t))
            }
            _ => gen::timestamp(rng, &cfg).to_osm(),
        };
        out.of("timestamp as a number", || t.to_epoch_number());
        out.of("timestamp as text", || t.to_iso_string());
        out.of("timestamp as text", || t.to_string());
        out.of("timestamp parsed", || t.to_string().parse::<TimestampFormat>().map_err(|_| ()));
        stamps.push(t);
    }
    for a in &stamps {
        out.of("timestamps compared", || {
            stamps.iter().map(|b| (a == b, a.partial_cmp(b))).collect::<Vec<_>>()
        });
    }
    for _ in 0..20 {
        let (a, b) = (Lat::from_inner(gen::coord(rng)), Lon::from_inner(gen::coord(rng)));
        out.of("coordinates as text", || (a.to_string(), format!("{:?}", b), serde_json::to_string(&(a, b)).map_err(|_| ())));
        let s = if rng.bool() {
            a.to_string()
        } else {
            rng.pick(&["1,5", "1.5", "1 000", "１.5", "1e1", "-0", "1.000.000", "١", "0,1", "12'30"]).to_string()
        };
        out.of("coordinates parsed", || s.parse::<Lat>().map(|x| x.inner()).map_err(|_| ()));
    }
    out.0
}

/// `harness P36 --digest DIR SEED…`: what the results are
pub fn digest(args: &[String]) {
    install_panic_hook();
    let dir = PathBuf::from(&args[0]);
    let mut text = String::new();
    for s in &args[1..] {
        let seed: u64 = s.parse().unwrap();
        for (i, (what, h)) in work(seed, &dir).into_iter().enumerate() {
            text += &format!("{}\t{}\t{:016x}\t{}\n", seed, i, h, what);
        }
    }
    text += "done\n";
    // its standard streams may be closed
    std::fs::write(dir.join("digest"), text).unwrap();
}

// ---- different surroundings ----

#[derive(Debug, Clone)]
struct Around {
    env: Vec<(String, String)>,
    cwd: PathBuf,
    closed: Vec<i32>,
    handles: Option<u64>,
    stack: Option<u64>,
    umask: Option<u32>,
}

fn plain(tmp: &Path) -> Around {
    Around {
        env: vec![("TZ".into(), "UTC".into()), ("LC_ALL".into(), "C".into())],
        cwd: tmp.to_path_buf(),
        closed: vec![],
        handles: None,
        stack: None,
        umask: None,
    }
}

const ZONES: &[&str] = &[
    "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/Berlin", "Africa/Monrovia", "XYZ-5:45",
    "Australia/Lord_Howe", "", "nonsense", "America/New_York",
];

fn other(rng: &mut Rng, tmp: &Path, shim: &Option<PathBuf>) -> Around {
    let mut a = plain(tmp);
    a.env.clear();
    let mut put = |k: &str, v: &str| a.env.push((k.to_string(), v.to_string()));
    if !rng.chance(1, 8) {
        put("TZ", rng.pick(ZONES));
    }
    for k in ["LC_ALL", "LANG", "LC_NUMERIC", "LC_COLLATE", "LANGUAGE"] {
        if rng.bool() {
            put(k, rng.pick(&["tr_TR.UTF-8", "de_DE.UTF-8", "C", "POSIX", "ar_EG", "xx", "C.UTF-8", "hi_IN"]));
        }
    }
    for k in ["HOME", "USER", "TMPDIR", "XDG_CONFIG_HOME", "PWD", "HOSTNAME", "TERM", "COLUMNS"] {
        if rng.chance(1, 3) {
            put(k, rng.pick(&["", "/", "/nonexistent", "root", "x y", "1"]));
        }
    }
    for k in [
        "RUST_BACKTRACE", "RUST_LOG", "RUST_LIB_BACKTRACE", "DEBUG", "OSMIO_DEBUG", "CARGO_PKG_VERSION", "SOURCE_DATE_EPOCH", "CI", "NO_COLOR",
        "RAYON_NUM_THREADS", "RUST_MIN_STACK", "TEST", "VERBOSE",
    ] {
        if rng.chance(1, 4) {
            put(k, if k == "RUST_MIN_STACK" { "4000000" } else { rng.pick(&["1", "0", "full", "debug", "trace", "9.9.9"]) });
        }
    }
    if let (Some(s), true) = (shim, rng.bool()) {
        put("LD_PRELOAD", s.to_str().unwrap());
        put("SHIM_SHIFT", rng.pick(&["1000000000", "-1700000000", "3000000000", "43200", "15552000"]));
    }
    if rng.bool() {
        a.cwd = PathBuf::from(*rng.pick(&["/", "/usr", "/proc/self"]));
    }
    for fd in 0..3 {
        if rng.chance(1, 6) {
            a.closed.push(fd);
        }
    }
    if rng.chance(1, 3) {
        a.handles = Some(rng.range(20, 60) as u64);
    }
    if rng.chance(1, 3) {
        a.stack = Some(*rng.pick(&[4 << 20, 32 << 20]));
    }
    if rng.chance(1, 3) {
        a.umask = Some(*rng.pick(&[0, 0o077, 0o027]));
    }
    a
}

struct Done {
    code: Option<i32>,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
}

fn run(program: &Path, args: &[&std::ffi::OsStr], a: &Around) -> Result<Done, String> {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(program);
    c.args(args).env_clear().envs(a.env.iter().map(|(k, v)| (k, v))).current_dir(&a.cwd);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let b = a.clone();
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let set = |what, n: u64| {
                let mut l: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(what, &mut l);
                l.rlim_cur = n.min(l.rlim_max);
                libc::setrlimit(what, &l);
            };
            if let Some(n) = b.handles {
                set(libc::RLIMIT_NOFILE, n);
            }
            if let Some(n) = b.stack {
                set(libc::RLIMIT_STACK, n);
            }
            if let Some(m) = b.umask {
                libc::umask(m as libc::mode_t);
            }
            for fd in &b.closed {
                libc::close(*fd);
            }
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap_or_else(|e| panic!("cannot start {:?}: {}", program, e));
    fn gather(mut r: impl Read + Send + 'static) -> std::thread::JoinHandle<Vec<u8>> {
        std::thread::spawn(move || {
            let mut v = vec![];
            let _ = r.read_to_end(&mut v);
            v
        })
    }
    let out = gather(child.stdout.take().unwrap());
    let err = gather(child.stderr.take().unwrap());
    let started = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if started.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("{:?} does not end within a minute in {:?}", program, a));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    Ok(Done {
        code: status.code(),
        stdout: out.join().unwrap(),
        stderr: err.join().unwrap(),
    })
}

/// Something which makes it another time
fn shim(tmp: &Path) -> Option<PathBuf> {
    let c = tmp.join("shim.c");
    let so = tmp.join("shim.so");
    std::fs::write(
        &c,
        "#define _GNU_SOURCE\n#include <time.h>\n#include <stdlib.h>\n#include <sys/time.h>\n#include <sys/syscall.h>\n#include <unistd.h>\n\
         static long shift(void){const char*s=getenv(\"SHIM_SHIFT\");return s?atol(s):0;}\n\
         int clock_gettime(clockid_t c,struct timespec*t){int r=syscall(SYS_clock_gettime,c,t);if(!r&&(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE))t->tv_sec+=shift();return r;}\n\
         int gettimeofday(struct timeval*restrict t,void*restrict z){struct timespec s;clock_gettime(CLOCK_REALTIME,&s);t->tv_sec=s.tv_sec;t->tv_usec=s.tv_nsec/1000;return 0;}\n\
         time_t time(time_t*p){struct timespec s;clock_gettime(CLOCK_REALTIME,&s);if(p)*p=s.tv_sec;return s.tv_sec;}\n",
    )
    .ok()?;
    let ok = Command::new("cc")
        .args(["-shared", "-fPIC", "-O1", "-o"])
        .arg(&so)
        .arg(&c)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .is_ok_and(|s| s.success());
    ok.then_some(so)
}

/// Made once for each thread
fn the_shim(cx: &Cx) -> Option<PathBuf> {
    thread_local! {
        static SHIM: std::cell::RefCell<Option<Option<PathBuf>>> = const { std::cell::RefCell::new(None) };
    }
    SHIM.with(|s| s.borrow_mut().get_or_insert_with(|| shim(&cx.tmp)).clone()).filter(|p| p.exists())
}

type Lines = std::collections::BTreeMap<(u64, u64), (String, String)>;

fn ask(dir: &Path, seeds: &[u64], a: &Around) -> Result<Option<Lines>, String> {
    let exe = std::env::current_exe().unwrap();
    let mut args: Vec<std::ffi::OsString> = vec!["P36".into(), "--digest".into(), dir.into()];
    args.extend(seeds.iter().map(|s| s.to_string().into()));
    let args: Vec<&std::ffi::OsStr> = args.iter().map(|s| s.as_os_str()).collect();
    let _ = std::fs::remove_file(dir.join("digest"));
    let done = run(&exe, &args, a)?;
    let Ok(text) = std::fs::read_to_string(dir.join("digest")) else {
        if done.code.is_some() && done.stderr.len() > 1 {
            eprintln!("{}", String::from_utf8_lossy(&done.stderr).lines().next().unwrap_or(""));
        }
        return Ok(None);
    };
    if done.code != Some(0) || !text.ends_with("done\n") {
        return Ok(None);
    }
    let mut l = Lines::new();
    for line in text.lines() {
        let f: Vec<&str> = line.splitn(4, '\t').collect();
        if f.len() == 4 {
            l.insert((f[0].parse().unwrap(), f[1].parse().unwrap()), (f[2].to_string(), f[3].to_string()));
        }
    }
    Ok(Some(l))
}

fn library(cx: &mut Cx) -> Result<(), String> {
    let dir = cx.tmp.join("digest.d");
    std::fs::create_dir_all(&dir).unwrap();
    let shim = the_shim(cx);
    let seeds: Vec<u64> = (0..4).map(|_| cx.rng.u64() >> 1).collect();
    let base = ask(&dir, &seeds, &plain(&cx.tmp))?;
    for k in 0..4 {
        let a = other(&mut cx.rng, &cx.tmp, &shim);
        let mut order = seeds.clone();
        match k {
            0 => {}
            1 => order.reverse(),
            2 => {
                // with other work before it
                cx.rng.shuffle(&mut order);
                order.insert(0, cx.rng.u64() >> 1);
            }
            _ => order.truncate(1),
        }
        let got = ask(&dir, &order, &a)?;
        cx.count("processes", 1);
        cx.count("surroundings with a time zone", a.env.iter().any(|e| e.0 == "TZ" && e.1 != "") as u64);
        cx.count("surroundings with a shifted clock", a.env.iter().any(|e| e.0 == "SHIM_SHIFT") as u64);
        match (&base, &got) {
            (Some(b), Some(g)) => {
                for s in order.iter().filter(|s| seeds.contains(s)) {
                    let of = |l: &Lines| -> Vec<_> { l.range((*s, 0)..=(*s, u64::MAX)).map(|(k, v)| (k.1, v.clone())).collect() };
                    let (b, g) = (of(b), of(g));
                    cx.count("results compared", g.len() as u64);
                    cx.evals(g.len() as u64);
                    cx.seen_of(&(s, format!("{:?}", a)));
                    if b != g {
                        let d = b.iter().zip(&g).find(|(x, y)| x != y);
                        return Err(format!(
                            "data of seed {}: result {:?} is not the same in {:?} (seeds {:?})",
                            s,
                            d.map(|(x, _)| (x.0, &x.1 .1)),
                            a,
                            order
                        ));
                    }
                }
            }
            (None, None) => cx.count("processes which fail anywhere", 1),
            (x, _) => {
                return Err(format!(
                    "seeds {:?}: the process {} with plain surroundings, and {} in {:?}",
                    order,
                    if x.is_some() { "ends well" } else { "fails" },
                    if x.is_some() { "fails" } else { "ends well" },
                    a
                ))
            }
        }
        cx.sample(|| json!({"surroundings": format!("{:?}", a), "results": got.map(|g| g.len())}));
    }
    Ok(())
}

/// In one process, with a lot of other work in between
fn again(cx: &mut Cx) -> Result<(), String> {
    let dir = cx.tmp.clone();
    let seed = cx.rng.u64() >> 1;
    let first = work(seed, &dir);
    let n = 1 + cx.rng.below(if cx.thorough { 200 } else { 60 });
    for i in 1..=n {
        let other = cx.rng.u64() >> 1;
        if i < n {
            work(other, &dir);
            if cx.rng.chance(15, 16) {
                continue;
            }
        }
        let then = work(seed, &dir);
        if first != then {
            let d = first.iter().zip(&then).position(|(x, y)| x != y);
            return Err(format!(
                "data of seed {}: result {:?} is not the same when it is done again after the work for {} other seeds",
                seed,
                d.map(|i| (i, &first[i].0)),
                i
            ));
        }
        cx.count("results which came again", then.len() as u64);
        cx.evals(then.len() as u64);
    }
    cx.seen(seed);
    Ok(())
}

/// Without what is about the time it took
fn steady(tool: &str, text: &[u8]) -> String {
    let text = String::from_utf8_lossy(text).to_string();
    match tool {
        "osmio-pbf-read-speed" => text
            .lines()
            .filter(|l| l.contains("Processed") && !l.contains("so far"))
            .map(|l| l.split(" in ").next().unwrap().to_string())
            .collect(),
        // where in the source the object is printed is the same in all of them
        _ => text.lines().filter(|l| !l.contains("eta:")).map(|l| format!("{}\n", l)).collect(),
    }
}

fn tools(cx: &mut Cx) -> Result<(), String> {
    let shim = the_shim(cx);
    let rng = &mut cx.rng;
    let tool = *rng.pick(&["osmio-osc-debug", "osmio-pbf-read-speed", "osmio-changeset-tags-to-sqlite"]);
    let (name, data) = match tool {
        "osmio-osc-debug" => {
            let objs = xml_objects(rng, 10);
            let mut w = W::new(rng, 1);
            w.osc(&objs);
            ("in.osc", w.out.into_bytes())
        }
        "osmio-pbf-read-speed" => {
            let objs = pbfw::gen_objects(rng, 40, false);
            ("in.pbf", Enc::new(rng, 1).write(&objs).bytes)
        }
        _ => {
            let mut cs = xmlw::gen_changesets(rng, 30);
            for (i, c) in cs.iter_mut().enumerate() {
                c.id = i as u32 + 1;
            }
            let mut w = W::new(rng, 1);
            w.changesets(&cs);
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
            e.write_all(w.out.as_bytes()).unwrap();
            ("in.bz2", e.finish().unwrap())
        }
    };
    let broken = rng.chance(1, 4);
    let data = if broken { damage(rng, &data) } else { data };
    let input = cx.tmp.join(name);
    std::fs::write(&input, &data).unwrap();
    let db = cx.tmp.join("out.sqlite");
    let mut first: Option<(Option<i32>, String, Vec<u8>)> = None;
    for k in 0..4 {
        let mut a = match k {
            0 => plain(&cx.tmp),
            _ => other(&mut cx.rng, &cx.tmp, &shim),
        };
        // what a tool prints is to be seen, and SQLite has use for handles, and where the temporary files are
        a.closed.clear();
        a.handles = a.handles.map(|h| h.max(40));
        a.env.retain(|e| e.0 != "TMPDIR");
        let _ = std::fs::remove_file(&db);
        let mut args = vec![input.as_os_str()];
        if tool.ends_with("sqlite") {
            args.push(db.as_os_str());
        }
        let done = run(&tool::bin(tool), &args, &a)?;
        let out = match tool {
            "osmio-osc-debug" if done.code == Some(0) => [&done.stdout[..], &done.stderr[..]].concat(),
            // a panic's message is not the same with a backtrace
            "osmio-osc-debug" => done.stdout.clone(),
            _ => done.stdout.clone(),
        };
        let made = std::fs::read(&db).unwrap_or_default();
        let all = (done.code, steady(tool, &out), made);
        cx.count("tools run", 1);
        cx.evals(1);
        cx.count("surroundings with a time zone", a.env.iter().any(|e| e.0 == "TZ" && e.1 != "") as u64);
        cx.seen_of(&(hash_bytes(&data), format!("{:?}", a)));
        match &first {
            None => first = Some(all),
            Some(f) if *f == all => {}
            Some(f) => {
                return Err(format!(
                    "{}: ends with {:?} and {:?}, prints {} and {}, makes databases of {} and {} bytes; the second in {:?}",
                    tool,
                    f.0,
                    all.0,
                    crate::model::short(&f.1),
                    crate::model::short(&all.1),
                    f.2.len(),
                    all.2.len(),
                    a
                ))
            }
        }
        cx.sample(|| json!({"tool": tool, "surroundings": format!("{:?}", a)}));
    }
    cx.count("broken inputs of tools", broken as u64);
    let _ = std::fs::remove_file(&db);
    Ok(())
}
