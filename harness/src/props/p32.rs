//! P32: PBF data which contradict themselves.

use super::util::*;
use crate::gen::Cfg;
use crate::model::*;
use crate::pbfw::{bytes_field, deltas, int_field, varint, zigzag, Enc};
use crate::rd::{self, Item, Rk, Stop};
use crate::rng::Rng;
use crate::runner::*;
use osmio::OSMReader;
use serde_json::json;
use std::io::Read;

pub fn prop() -> Prop {
    Prop {
        id: "P32",
        level: "exploration",
        rule: "PBF files with one object, or one array of a dense group, whose parts contradict each other (arrays of other lengths, indexes outside the string table, strings which are not UTF-8, missing ids and coordinates, coordinates which don't fit, unknown kinds of members), among good objects, groups and blocks; the same file without the damage is read first, and must be read as all it says. Distinct by hash of the file; non-trivial: damaged.",
        assumptions: &[
            "a panic which unwinds is an ordinary failure which the caller can contain",
            "a node position reader need not notice damage to what it doesn't read",
        ],
        legs: vec![
            leg("plain nodes", 5000, 90000, |cx| one(cx, Form::Plain)),
            leg("dense nodes", 12000, 180000, |cx| one(cx, Form::Dense)),
            leg("ways", 5000, 90000, |cx| one(cx, Form::Way)),
            leg("relations", 10000, 180000, |cx| one(cx, Form::Rel)),
        ],
        required: &["damaged files", "undamaged files", "good objects before the damage", "good objects in the damaged block"],
        probes: vec![],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Plain,
    Dense,
    Way,
    Rel,
}
impl Form {
    fn kind(self) -> Kind {
        match self {
            Form::Plain | Form::Dense => Kind::Node,
            Form::Way => Kind::Way,
            Form::Rel => Kind::Rel,
        }
    }
}

/// The damage which is to be done
struct Damage {
    /// to this object of the group
    at: usize,
    /// which of the ways to do it; None: no damage
    which: Option<usize>,
    what: String,
    /// everything before this object may be returned
    until: usize,
    /// the node position reader has to notice it
    pos: bool,
}

fn varints(v: &[u64]) -> Vec<u8> {
    let mut o = vec![];
    for x in v {
        varint(&mut o, *x);
    }
    o
}
fn packed(o: &mut Vec<u8>, field: u32, v: &[u64]) {
    if !v.is_empty() {
        bytes_field(o, field, &varints(v));
    }
}

/// Every string is there once for each use, so that damage to one is damage to one object
struct Strings(Vec<Vec<u8>>);
impl Strings {
    fn id(&mut self, s: &str) -> u64 {
        self.0.push(s.as_bytes().to_vec());
        self.0.len() as u64 - 1
    }
}

/// Other than it should be
fn other_length(rng: &mut Rng, v: &mut Vec<u64>, name: &str) -> (String, bool) {
    match rng.below(4) {
        0 if v.len() > 1 => {
            v.pop();
            (format!("one {} too few", name), true)
        }
        1 if v.len() > 2 => {
            let n = 1 + rng.below(v.len() - 1);
            v.truncate(n);
            (format!("{} of which some are missing", name), true)
        }
        2 => {
            let n = 2 + rng.below(5);
            for _ in 0..n {
                v.push(rng.below(2) as u64);
            }
            (format!("several {} too many", name), false)
        }
        _ => {
            v.push(rng.below(2) as u64);
            (format!("one {} too many", name), false)
        }
    }
}

const NOT_UTF8: [&[u8]; 8] = [
    b"\xff",
    b"abc\x80",
    b"\xc3",
    b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80",
    b"\xc0\xaf",
    b"caf\xe9",
    b"\xe2\x82 and more",
];

/// An index which isn't in the table: beyond it by little or by much
fn no_index(rng: &mut Rng, table: usize, max: u64) -> u64 {
    match rng.below(5) {
        0 | 1 => table as u64,
        2 => table as u64 + 1 + rng.below(300) as u64,
        3 => max,
        _ => (table as u64 + rng.u64() % (max - table as u64)).min(max),
    }
}

/// A raw coordinate which doesn't fit into an i32 in units of 1e-7 degrees; granularity is 100
fn no_coord(rng: &mut Rng) -> i64 {
    let m = match rng.below(4) {
        0 => i32::MAX as i64 + 1,
        1 => i32::MAX as i64 + 1 + rng.below(1_000_000) as i64,
        // the same in the low 32 bits
        2 => (1i64 << 32) * (1 + rng.below(1000) as i64) + rng.range(-900_000_000, 900_000_000),
        _ => 1i64 << (32 + rng.below(22)),
    };
    if rng.bool() {
        m
    } else {
        -m - 1
    }
}

fn info(o: &MObj, st: &mut Strings, bad_user: Option<u64>) -> Vec<u8> {
    let mut m = vec![];
    if let Some(v) = o.version {
        int_field(&mut m, 1, v as u64);
    }
    if let Some(t) = &o.ts {
        int_field(&mut m, 2, t.instant().unwrap() as u64);
    }
    if let Some(v) = o.changeset {
        int_field(&mut m, 3, v as u64);
    }
    if let Some(v) = o.uid {
        int_field(&mut m, 4, v as u64);
    }
    if let Some(s) = &o.user {
        let id = st.id(s);
        int_field(&mut m, 5, bad_user.unwrap_or(id));
    }
    int_field(&mut m, 6, !o.deleted as u64);
    m
}

/// One object as a message, damaged or not
fn message(rng: &mut Rng, form: Form, o: &MObj, st: &mut Strings, mut d: Option<&mut Damage>) -> Vec<u8> {
    let first = st.0.len();
    let mut keys: Vec<u64> = o.tags.iter().map(|t| st.id(&t.0)).collect();
    let mut vals: Vec<u64> = o.tags.iter().map(|t| st.id(&t.1)).collect();
    let mut roles: Vec<u64> = o.members.iter().map(|m| st.id(&m.2)).collect();
    let mut types: Vec<u64> = o
        .members
        .iter()
        .map(|m| match m.0 {
            Kind::Node => 0,
            Kind::Way => 1,
            Kind::Rel => 2,
        })
        .collect();
    let mut ids: Vec<u64> = deltas(&o.members.iter().map(|m| m.1).collect::<Vec<_>>());
    let (mut lat, mut lon) = match o.latlon {
        Some((a, b)) => (Some(a as i64), Some(b as i64)),
        None => (None, None),
    };
    let mut id = true;
    let mut info_there = true;
    let mut bad_user = None;
    // what follows has at most one more string, the user
    let table = st.0.len() + 100_000;
    if let Some(d) = d.as_deref_mut() {
        if let Some(which) = d.which {
            let mut w = which;
            loop {
                d.what = match w {
                    0 => other_length(rng, &mut keys, "keys").0,
                    1 => other_length(rng, &mut vals, "values").0,
                    2 if !keys.is_empty() => {
                        let v = if rng.bool() { &mut keys } else { &mut vals };
                        let i = rng.below(v.len());
                        v[i] = no_index(rng, table, u32::MAX as u64);
                        "a tag which is not in the string table".into()
                    }
                    3 if st.0.len() > first => {
                        let i = first + rng.below(st.0.len() - first);
                        st.0[i] = rng.pick(&NOT_UTF8).to_vec();
                        "a string which is not UTF-8".into()
                    }
                    4 => {
                        id = false;
                        d.pos = form == Form::Plain;
                        "no id".into()
                    }
                    5 if o.user.is_some() => {
                        bad_user = Some(no_index(rng, table, u32::MAX as u64));
                        "a user who is not in the string table".into()
                    }
                    6 if form == Form::Plain => {
                        d.pos = true;
                        let v = if rng.bool() { &mut lat } else { &mut lon };
                        if rng.bool() {
                            *v = None;
                            "a missing coordinate".into()
                        } else {
                            *v = Some(no_coord(rng));
                            "a coordinate which doesn't fit".into()
                        }
                    }
                    7 if form == Form::Rel => other_length(rng, &mut roles, "roles").0,
                    8 if form == Form::Rel => other_length(rng, &mut ids, "member ids").0,
                    9 if form == Form::Rel => other_length(rng, &mut types, "member types").0,
                    10 if !roles.is_empty() => {
                        let i = rng.below(roles.len());
                        roles[i] = if rng.chance(1, 3) {
                            // negative, as int32
                            -(1 + rng.below(1000) as i64) as u64
                        } else {
                            no_index(rng, table, i32::MAX as u64)
                        };
                        "a role which is not in the string table".into()
                    }
                    11 if !types.is_empty() => {
                        let i = rng.below(types.len());
                        types[i] = *rng.pick(&[3u64, 4, 100, i32::MAX as u64, -1i64 as u64]);
                        "an unknown kind of member".into()
                    }
                    12 if !roles.is_empty() => {
                        // one of the three isn't there at all
                        let (v, name) = *rng.pick(&[(0, "roles"), (1, "member ids"), (2, "member types")]);
                        [&mut roles, &mut ids, &mut types][v].clear();
                        format!("no {}", name)
                    }
                    13 if !keys.is_empty() => {
                        if rng.bool() {
                            keys.clear();
                            "no keys".into()
                        } else {
                            vals.clear();
                            "no values".into()
                        }
                    }
                    _ => {
                        w = rng.below(14);
                        continue;
                    }
                };
                break;
            }
            d.until = d.at;
        }
    }
    let mut m = vec![];
    if id {
        int_field(&mut m, 1, if form == Form::Plain { zigzag(o.id) } else { o.id as u64 });
    }
    packed(&mut m, 2, &keys);
    packed(&mut m, 3, &vals);
    if o.version.is_none() && o.user.is_none() && !o.deleted && rng.bool() && bad_user.is_none() {
        info_there = o.ts.is_some() || o.changeset.is_some() || o.uid.is_some();
    }
    if info_there {
        let i = info(o, st, bad_user);
        bytes_field(&mut m, 4, &i);
    }
    match form {
        Form::Plain => {
            if let Some(v) = lat {
                int_field(&mut m, 8, zigzag(v));
            }
            if let Some(v) = lon {
                int_field(&mut m, 9, zigzag(v));
            }
        }
        Form::Way => packed(&mut m, 8, &deltas(&o.nodes)),
        Form::Rel => {
            packed(&mut m, 8, &roles);
            packed(&mut m, 9, &ids);
            packed(&mut m, 10, &types);
        }
        Form::Dense => unreachable!(),
    }
    m
}

/// A dense group, damaged or not. The metadata columns are there for all the nodes or for none.
fn dense(rng: &mut Rng, objs: &mut [MObj], st: &mut Strings, d: Option<&mut Damage>) -> Vec<u8> {
    let n = objs.len();
    let first = st.0.len();
    let mut ids = deltas(&objs.iter().map(|o| o.id).collect::<Vec<_>>());
    let mut coord: Vec<[i64; 2]> = objs.iter().map(|o| o.latlon.unwrap()).map(|(a, b)| [a as i64, b as i64]).collect();
    let mut kv: Vec<Vec<u64>> = vec![];
    for o in objs.iter() {
        let mut v = vec![];
        for (k, x) in &o.tags {
            v.push(st.id(k));
            v.push(st.id(x));
        }
        v.push(0);
        kv.push(v);
    }
    let tagged = objs.iter().any(|o| !o.tags.is_empty());
    let has: Vec<bool> = (0..6).map(|_| rng.chance(2, 3)).collect();
    for o in objs.iter_mut() {
        o.version = if has[0] { o.version.or(Some(1)) } else { None };
        o.ts = if has[1] { o.ts.take().or(Some(Ts::Epoch(0))) } else { None };
        o.changeset = if has[2] { o.changeset.or(Some(0)) } else { None };
        o.uid = if has[3] { o.uid.or(Some(1)) } else { None };
        o.user = if has[4] { o.user.take().or(Some(String::new())) } else { None };
        if !has[5] {
            o.deleted = false;
        }
    }
    let mut cols: Vec<Vec<u64>> = vec![vec![]; 6];
    if has[0] {
        cols[0] = objs.iter().map(|o| o.version.unwrap() as u64).collect();
    }
    if has[1] {
        cols[1] = deltas(&objs.iter().map(|o| o.ts.as_ref().unwrap().instant().unwrap()).collect::<Vec<_>>());
    }
    if has[2] {
        cols[2] = deltas(&objs.iter().map(|o| o.changeset.unwrap() as i64).collect::<Vec<_>>());
    }
    if has[3] {
        cols[3] = deltas(&objs.iter().map(|o| o.uid.unwrap() as i64).collect::<Vec<_>>());
    }
    let mut sids: Vec<i64> = if has[4] {
        objs.iter().map(|o| st.id(o.user.as_ref().unwrap()) as i64).collect()
    } else {
        vec![]
    };
    if has[5] {
        cols[5] = objs.iter().map(|o| !o.deleted as u64).collect();
    }
    let table = st.0.len() + 100_000;
    let mut extra_kv = vec![];
    let mut cut_kv = 0;
    // (0 latitudes, 1 longitudes, 2.. metadata) whose length is changed
    let mut other: Option<usize> = None;
    let mut dd = d;
    if let Some(d) = dd.as_deref_mut() {
        if let Some(which) = d.which {
            let mut w = which;
            d.until = n;
            loop {
                d.what = match w {
                    0 | 1 => {
                        other = Some(w);
                        d.pos = true;
                        String::new()
                    }
                    2..=7 if has[w - 2] => {
                        other = Some(w);
                        String::new()
                    }
                    8 => {
                        let c = rng.below(2);
                        coord[d.at][c] = no_coord(rng);
                        d.until = d.at;
                        d.pos = true;
                        "a coordinate which doesn't fit".into()
                    }
                    9 if tagged => {
                        match rng.below(3) {
                            0 => extra_kv.push(0),
                            1 => {
                                extra_kv.push(0);
                                extra_kv.push(0);
                            }
                            _ => {
                                let (a, b) = (st.id("more"), st.id("tags"));
                                extra_kv.extend([a, b, 0]);
                            }
                        }
                        "tags for more nodes than there are".into()
                    }
                    10 if tagged => {
                        let len: usize = kv.iter().map(|v| v.len()).sum();
                        cut_kv = 1 + rng.below(len - 1);
                        // nodes whose tags are still there
                        let mut left = len - cut_kv;
                        d.until = kv
                            .iter()
                            .take_while(|v| {
                                let there = v.len() <= left;
                                left = left.saturating_sub(v.len());
                                there
                            })
                            .count();
                        "tags cut off".into()
                    }
                    11 if kv[d.at].len() > 1 => {
                        let i = rng.below(kv[d.at].len() - 1);
                        kv[d.at][i] = if rng.chance(1, 3) {
                            -(1 + rng.below(1000) as i64) as u64
                        } else {
                            no_index(rng, table, i32::MAX as u64)
                        };
                        d.until = d.at;
                        "a tag which is not in the string table".into()
                    }
                    12 if has[4] => {
                        sids[d.at] = if rng.chance(1, 3) {
                            -(1 + rng.below(1000) as i64)
                        } else {
                            no_index(rng, table, i32::MAX as u64 / 2) as i64
                        };
                        d.until = d.at;
                        "a user who is not in the string table".into()
                    }
                    13 if st.0.len() > first => {
                        let i = first + rng.below(st.0.len() - first);
                        st.0[i] = rng.pick(&NOT_UTF8).to_vec();
                        d.until = 0;
                        "a string which is not UTF-8".into()
                    }
                    14 => {
                        d.pos = true;
                        if n > 1 && rng.bool() {
                            ids.truncate(1 + rng.below(n - 1));
                            d.until = ids.len();
                            "ids too few".into()
                        } else {
                            ids.push(zigzag(1));
                            "ids too many".into()
                        }
                    }
                    15 if tagged => {
                        // a key without value: the 0 of its end would be the value, and the tags
                        // of the next node its own
                        let i = (0..n).filter(|i| kv[*i].len() > 1).last().unwrap();
                        let k = kv[i].len() - 2;
                        kv[i].remove(k);
                        // what then is read is another node's, or is one node short
                        d.until = i;
                        "a key without a value".into()
                    }
                    _ => {
                        w = rng.below(16);
                        continue;
                    }
                };
                break;
            }
        }
    }
    cols[4] = deltas(&sids);
    let mut lats = deltas(&coord.iter().map(|c| c[0]).collect::<Vec<_>>());
    let mut lons = deltas(&coord.iter().map(|c| c[1]).collect::<Vec<_>>());
    if let Some(i) = other {
        let (v, name) = match i {
            0 => (&mut lats, "latitudes"),
            1 => (&mut lons, "longitudes"),
            i => (
                &mut cols[i - 2],
                ["versions", "timestamps", "changesets", "uids", "users", "visible flags"][i - 2],
            ),
        };
        let (what, fewer) = other_length(rng, v, name);
        let d = dd.unwrap();
        d.what = what;
        if fewer {
            d.until = v.len();
        }
    }
    let mut m = vec![];
    packed(&mut m, 1, &ids);
    let mut di = vec![];
    for (i, c) in cols.iter().enumerate() {
        packed(&mut di, i as u32 + 1, c);
    }
    if !di.is_empty() {
        bytes_field(&mut m, 5, &di);
    }
    packed(&mut m, 8, &lats);
    packed(&mut m, 9, &lons);
    if tagged {
        let mut all: Vec<u64> = kv.into_iter().flatten().collect();
        all.truncate(all.len() - cut_kv);
        all.extend(extra_kv);
        packed(&mut m, 10, &all);
    }
    m
}

/// The bytes of a block of these groups, of which number `bad.0` is damaged
fn block(rng: &mut Rng, groups: &mut [(Form, Vec<MObj>)], mut bad: Option<(usize, &mut Damage)>) -> Vec<u8> {
    let mut st = Strings(vec![vec![]]);
    let mut gs = vec![];
    for (i, (form, objs)) in groups.iter_mut().enumerate() {
        let mut g = vec![];
        let mut d = match &mut bad {
            Some((n, d)) if *n == i => Some(&mut **d),
            _ => None,
        };
        if *form == Form::Dense {
            let x = dense(rng, objs, &mut st, d);
            bytes_field(&mut g, 2, &x);
        } else {
            for (n, o) in objs.iter().enumerate() {
                let dn = match &mut d {
                    Some(d) if d.at == n => Some(&mut **d),
                    _ => None,
                };
                let x = message(rng, *form, o, &mut st, dn);
                bytes_field(
                    &mut g,
                    match form {
                        Form::Plain => 1,
                        Form::Way => 3,
                        _ => 4,
                    },
                    &x,
                );
            }
        }
        gs.push(g);
    }
    let mut s = vec![];
    for x in &st.0 {
        bytes_field(&mut s, 1, x);
    }
    let mut b = vec![];
    bytes_field(&mut b, 1, &s);
    for g in &gs {
        bytes_field(&mut b, 2, g);
    }
    b
}

fn objects(rng: &mut Rng, form: Form) -> Vec<MObj> {
    let mut cfg = Cfg::pbf();
    cfg.big = false;
    cfg.dup_keys = false;
    cfg.max_id = 1 << 40;
    let n = *rng.pick(&[1usize, 2, 3, 3, 5, 9]);
    (0..n)
        .map(|_| {
            let mut o = crate::gen::object_of(rng, &cfg, form.kind());
            // what an i32, which uids are in the file, can hold
            o.uid = o.uid.map(|u| u.min(i32::MAX as u32));
            o.version = o.version.map(|u| u.min(i32::MAX as u32));
            if let Some(t) = &o.ts {
                o.ts = Some(Ts::Epoch(t.instant().unwrap()));
            }
            // 0 ends the tags of a dense node, every other string is there anew
            o
        })
        .collect()
}

fn one(cx: &mut Cx, form: Form) -> Result<(), String> {
    let forms = [Form::Plain, Form::Dense, Form::Way, Form::Rel];
    let (before, after) = (cx.rng.below(3), cx.rng.below(3));
    let (gbefore, gafter) = (cx.rng.below(2), cx.rng.below(2));
    let groups = |rng: &mut Rng, n: usize| -> Vec<(Form, Vec<MObj>)> {
        (0..n)
            .map(|_| {
                let f = *rng.pick(&forms);
                (f, objects(rng, f))
            })
            .collect()
    };
    let mut bad: Vec<(Form, Vec<MObj>)> = groups(&mut cx.rng, gbefore);
    bad.push((form, objects(&mut cx.rng, form)));
    bad.extend(groups(&mut cx.rng, gafter));
    let n = bad[gbefore].1.len();
    let damaged = !cx.rng.chance(1, 8);
    let mut d = Damage {
        at: cx.rng.below(n),
        which: if damaged { Some(cx.rng.below(16)) } else { None },
        what: "no damage".into(),
        until: n,
        pos: false,
    };
    let mut e = Enc::new(&mut cx.rng, 1);
    e.header();
    let mut add = |e: &mut Enc, mut g: Vec<(Form, Vec<MObj>)>, bad: Option<(usize, &mut Damage)>| {
        let raw = block(e.rng, &mut g, bad);
        let c = e.content();
        let objs = g.iter().flat_map(|g| g.1.iter().cloned()).collect();
        e.blob("OSMData", &raw, &c, objs);
        g
    };
    for _ in 0..before {
        let g = groups(e.rng, 1);
        add(&mut e, g, None);
    }
    let nbefore = e.file.objs.len();
    let bad = add(&mut e, bad, Some((gbefore, &mut d)));
    let upto = nbefore + bad[..gbefore].iter().map(|g| g.1.len()).sum::<usize>() + d.until;
    for _ in 0..after {
        let g = groups(e.rng, 1);
        add(&mut e, g, None);
    }
    let f = e.file;
    let data = &f.bytes[..];
    let all = rd::objs(&f.objs);
    let positions = rd::positions(&f.positions());
    let npos = |o: &[MObj]| o.iter().filter(|o| o.kind == Kind::Node).count();
    if !damaged {
        cx.count("undamaged files", 1);
        for kind in [Rk::Pbf, Rk::Arc, Rk::Pos] {
            let want = if kind == Rk::Pos { &positions } else { &all };
            rd::expect_items(want, &rd::read(kind, data, 10000))
                .map_err(|e| format!("{:?}, no damage: {}; file {}", kind, e, hex(&data[..data.len().min(300)])))?;
        }
        cx.evals(3);
        return Ok(());
    }
    cx.count("damaged files", 1);
    cx.count(&format!("{:?}: {}", form, d.what), 1);
    cx.count("good objects before the damage", nbefore as u64);
    cx.count("good objects in the damaged block", (upto - nbefore) as u64);
    cx.seen(crate::rng::hash_bytes(data));
    cx.sample(|| json!({"form": format!("{:?}", form), "damage": d.what, "objects before": nbefore, "input": hex(&data[..data.len().min(300)])}));
    // at least `least` items, at most those in `most`, and then a failure
    let check = |name: &str, least: usize, most: &[Item], out: rd::Out| -> Result<(), String> {
        let r = rd::prefix_items(most, &out.items).and_then(|_| {
            if out.items.len() < least {
                return Err(format!("only {} of the {} items of the blocks before it", out.items.len(), least));
            }
            match &out.stop {
                Stop::Failed(Caught::Panic { .. }) | Stop::Error(_) => Ok(()),
                Stop::End => Err(format!("no failure, but {} items", out.items.len())),
                s => Err(s.to_string()),
            }
        });
        r.map_err(|e| {
            format!(
                "{}: {:?} with {}, after {} objects: {}; file {}",
                name,
                form,
                d.what,
                upto,
                e,
                hex(&data[..data.len().min(300)])
            )
        })
    };
    for kind in [Rk::Pbf, Rk::Arc] {
        check(&format!("{:?}", kind), nbefore, &all[..upto], rd::read(kind, data, 10000))?;
    }
    if d.pos {
        check(
            "node positions",
            npos(&f.objs[..nbefore]),
            &positions[..npos(&f.objs[..upto])],
            rd::read(Rk::Pos, data, 10000),
        )?;
    } else {
        let out = rd::read(Rk::Pos, data, 10000);
        rd::prefix_items(&positions, &out.items).map_err(|e| format!("node positions, {:?} with {}: {}", form, d.what, e))?;
        match out.stop {
            Stop::End if out.items.len() < positions.len() => {
                return Err(format!("node positions, {:?} with {}: only {} of {}", form, d.what, out.items.len(), positions.len()))
            }
            Stop::End | Stop::Failed(Caught::Panic { .. }) => {}
            s => return Err(format!("node positions, {:?} with {}: {}", form, d.what, s)),
        }
    }
    // asking for this kind only
    let k = form.kind();
    let of = |o: &[MObj]| -> Vec<Item> { rd::objs(&o.iter().filter(|o| o.kind == k).cloned().collect::<Vec<_>>()) };
    check(
        &format!("only {}s", k.name()),
        of(&f.objs[..nbefore]).len(),
        &of(&f.objs[..upto]),
        typed(osmio::stringpbf::PBFReader::new(data), k),
    )?;
    cx.evals(4);
    Ok(())
}

/// Only the objects of this kind
pub fn typed(mut r: osmio::stringpbf::PBFReader<impl Read>, k: Kind) -> rd::Out {
    let (v, stop) = match k {
        Kind::Node => {
            let mut i = r.nodes();
            rd::collect(10000, || i.next().map(|o| Ok(observe_node(&o))))
        }
        Kind::Way => {
            let mut i = r.ways();
            rd::collect(10000, || i.next().map(|o| Ok(observe_way(&o))))
        }
        Kind::Rel => {
            let mut i = r.relations();
            rd::collect(10000, || i.next().map(|o| Ok(observe_relation(&o))))
        }
    };
    rd::Out {
        items: rd::objs(&v),
        stop,
    }
}
