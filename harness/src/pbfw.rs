//! Encodes OSM PBF files, in every layout the format allows. Independent of osmio (and of the
//! protobuf library it uses).

use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rng::Rng;
use std::io::Write;

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
pub fn key(out: &mut Vec<u8>, field: u32, wire: u32) {
    varint(out, ((field << 3) | wire) as u64);
}
pub fn bytes_field(out: &mut Vec<u8>, field: u32, b: &[u8]) {
    key(out, field, 2);
    varint(out, b.len() as u64);
    out.extend_from_slice(b);
}
pub fn int_field(out: &mut Vec<u8>, field: u32, v: u64) {
    key(out, field, 0);
    varint(out, v);
}

/// Where one blob (with its header) is in the file, and which objects it holds
#[derive(Clone, Debug)]
pub struct BlobAt {
    pub start: usize,
    pub end: usize,
    pub first: usize,
    pub n: usize,
    pub data: bool,
}

#[derive(Clone, Debug, Default)]
pub struct PbfFile {
    pub bytes: Vec<u8>,
    /// what the file says
    pub objs: Vec<MObj>,
    pub blobs: Vec<BlobAt>,
    pub used: Vec<&'static str>,
}

impl PbfFile {
    pub fn is_boundary(&self, at: usize) -> bool {
        at == 0 || self.blobs.iter().any(|b| b.end == at)
    }
    /// Objects in blobs which are wholly before this offset
    pub fn objs_before(&self, at: usize) -> usize {
        self.blobs
            .iter()
            .filter(|b| b.end <= at)
            .map(|b| b.n)
            .sum()
    }
    pub fn positions(&self) -> Vec<(i64, i32, i32)> {
        self.objs
            .iter()
            .filter(|o| o.kind == Kind::Node)
            .map(|o| (o.id, o.latlon.unwrap().0, o.latlon.unwrap().1))
            .collect()
    }
}

#[derive(Clone, Debug)]
pub enum Content {
    Raw,
    Zlib { level: u32, raw_size: bool },
    /// these bytes as this field of the blob
    Other(u32, Vec<u8>),
    Nothing,
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub struct Enc<'a> {
    pub rng: &'a mut Rng,
    /// 0 plain, 1.. varied
    pub fancy: usize,
    pub file: PbfFile,
}

/// One message under construction: its fields, so that they can be put in any order
struct Msg {
    parts: Vec<(u32, Vec<u8>)>,
}

impl Msg {
    fn new() -> Msg {
        Msg { parts: vec![] }
    }
    fn int(&mut self, field: u32, v: u64) {
        let mut o = vec![];
        int_field(&mut o, field, v);
        self.parts.push((field, o));
    }
    fn sint(&mut self, field: u32, v: i64) {
        self.int(field, zigzag(v));
    }
    fn bytes(&mut self, field: u32, b: &[u8]) {
        let mut o = vec![];
        bytes_field(&mut o, field, b);
        self.parts.push((field, o));
    }
    fn raw(&mut self, field: u32, b: Vec<u8>) {
        self.parts.push((field, b));
    }
}

struct Table {
    strings: Vec<String>,
    index: std::collections::HashMap<String, Vec<usize>>,
}

/// Settings of one primitive block
#[derive(Clone, Debug)]
struct Scale {
    granularity: Option<i32>,
    lat_offset: Option<i64>,
    lon_offset: Option<i64>,
    date_granularity: Option<i32>,
}

impl Scale {
    fn g(&self) -> i64 {
        self.granularity.unwrap_or(100) as i64
    }
    fn dg(&self) -> i64 {
        self.date_granularity.unwrap_or(1000) as i64
    }
    /// (raw value, exact value in units) nearest to `inner`
    fn coord(&self, inner: i32, offset: i64) -> Option<(i64, i32)> {
        let g = self.g();
        let raw0 = (inner as i64 * 100 - offset).div_euclid(g);
        for d in 0..100 {
            for raw in [raw0 + d, raw0 - d] {
                let nano = offset.checked_add(g.checked_mul(raw)?)?;
                if nano % 100 == 0 {
                    if let Ok(i) = i32::try_from(nano / 100) {
                        return Some((raw, i));
                    }
                }
            }
        }
        None
    }
    fn time(&self, t: i64) -> Option<(i64, i64)> {
        let dg = self.dg();
        let raw0 = (t * 1000).div_euclid(dg);
        for d in 0..1000 {
            for raw in [raw0 + d, raw0 - d] {
                let ms = raw.checked_mul(dg)?;
                if ms % 1000 == 0 {
                    return Some((raw, ms / 1000));
                }
            }
        }
        None
    }
}

impl<'a> Enc<'a> {
    pub fn new(rng: &'a mut Rng, fancy: usize) -> Enc<'a> {
        Enc {
            rng,
            fancy,
            file: PbfFile::default(),
        }
    }
    fn note(&mut self, what: &'static str) {
        if !self.file.used.contains(&what) {
            self.file.used.push(what);
        }
    }
    fn yes(&mut self, num: usize, den: usize) -> bool {
        self.fancy > 0 && self.rng.chance(num, den)
    }

    fn finish(&mut self, m: Msg) -> Vec<u8> {
        let mut parts = m.parts;
        if self.yes(1, 12) {
            self.note("fields in another order");
            // fields may come in any order, the values of one field keep theirs
            let mut fields: Vec<u32> = parts.iter().map(|p| p.0).collect();
            fields.dedup();
            fields.sort();
            fields.dedup();
            self.rng.shuffle(&mut fields);
            parts.sort_by_key(|p| fields.iter().position(|f| *f == p.0));
        }
        if self.yes(1, 12) {
            self.note("unknown fields");
            let mut o = vec![];
            let f = *self.rng.pick(&[99u32, 1000, 536_870_911]);
            match self.rng.below(4) {
                0 => int_field(&mut o, f, self.rng.u64()),
                1 => {
                    let n = self.rng.below(20);
                    let b = self.rng.bytes(n);
                    bytes_field(&mut o, f, &b)
                }
                2 => {
                    key(&mut o, f, 5);
                    o.extend(self.rng.bytes(4));
                }
                _ => {
                    key(&mut o, f, 1);
                    o.extend(self.rng.bytes(8));
                }
            }
            let at = self.rng.below(parts.len() + 1);
            parts.insert(at, (f, o));
        }
        parts.into_iter().flat_map(|p| p.1).collect()
    }

    /// A repeated scalar field
    fn repeated(&mut self, m: &mut Msg, field: u32, vals: &[u64]) {
        if vals.is_empty() {
            if self.yes(1, 20) {
                m.raw(field, {
                    let mut o = vec![];
                    bytes_field(&mut o, field, &[]);
                    o
                });
            }
            return;
        }
        match if self.fancy == 0 { 9 } else { self.rng.below(12) } {
            0 => {
                self.note("unpacked fields");
                let mut o = vec![];
                for v in vals {
                    int_field(&mut o, field, *v);
                }
                m.raw(field, o);
            }
            1 => {
                self.note("packed fields in several pieces");
                let mut o = vec![];
                let mut i = 0;
                while i < vals.len() {
                    let n = 1 + self.rng.below(vals.len() - i);
                    let mut b = vec![];
                    for v in &vals[i..i + n] {
                        varint(&mut b, *v);
                    }
                    bytes_field(&mut o, field, &b);
                    i += n;
                }
                m.raw(field, o);
            }
            _ => {
                let mut b = vec![];
                for v in vals {
                    varint(&mut b, *v);
                }
                m.bytes(field, &b);
            }
        }
    }

    fn table(&mut self, objs: &[MObj]) -> Table {
        let mut all: Vec<String> = vec![];
        for o in objs {
            all.extend(o.user.iter().cloned());
            for (k, v) in &o.tags {
                all.push(k.clone());
                all.push(v.clone());
            }
            all.extend(o.members.iter().map(|m| m.2.clone()));
        }
        if self.yes(1, 8) {
            self.note("string table with repeats and unused strings");
            for _ in 0..self.rng.below(5) {
                all.push(gen::string(self.rng, gen::Chars::Any));
            }
        } else {
            all.sort();
            all.dedup();
        }
        if self.yes(2, 3) {
            self.rng.shuffle(&mut all);
        }
        let mut strings = vec![String::new()];
        if self.yes(1, 40) {
            // indexes of more than one byte
            self.note("long string table");
            for i in 0..300 {
                strings.push(format!("unused {}", i));
            }
        }
        strings.extend(all);
        let mut index = std::collections::HashMap::<String, Vec<usize>>::new();
        for (i, s) in strings.iter().enumerate() {
            index.entry(s.clone()).or_default().push(i);
        }
        Table { strings, index }
    }
    fn sid(&mut self, t: &Table, s: &str, nonzero: bool) -> u64 {
        let c = &t.index[s];
        let c: Vec<usize> = c
            .iter()
            .copied()
            .filter(|i| !(nonzero && *i == 0))
            .collect();
        c[self.rng.below(c.len())] as u64
    }

    fn info(&mut self, o: &mut MObj, t: &Table, sc: &Scale) -> Option<Vec<u8>> {
        let mut m = Msg::new();
        if let Some(v) = o.version {
            m.int(1, v as u64);
        }
        if let Some(ts) = &o.ts {
            let (raw, exact) = sc.time(ts.instant().unwrap()).unwrap();
            o.ts = Some(Ts::Epoch(exact));
            m.int(2, raw as u64);
        }
        if let Some(v) = o.changeset {
            m.int(3, v as u64);
        }
        if let Some(v) = o.uid {
            m.int(4, v as u64);
        }
        if let Some(u) = &o.user {
            let s = self.sid(t, u, false);
            m.int(5, s);
        }
        if o.deleted {
            m.int(6, 0);
        } else if self.yes(1, 2) {
            m.int(6, 1);
        } else {
            self.note("no visible flag");
        }
        if m.parts.is_empty() {
            if !self.yes(1, 3) {
                self.note("no metadata");
                return None;
            }
            self.note("empty metadata");
        }
        Some(self.finish(m))
    }

    fn tag_ids(&mut self, o: &MObj, t: &Table) -> (Vec<u64>, Vec<u64>) {
        let k = o.tags.iter().map(|x| self.sid(t, &x.0, false)).collect();
        let v = o.tags.iter().map(|x| self.sid(t, &x.1, false)).collect();
        (k, v)
    }

    fn plain_node(&mut self, o: &mut MObj, t: &Table, sc: &Scale) -> Vec<u8> {
        let mut m = Msg::new();
        m.sint(1, o.id);
        let (k, v) = self.tag_ids(o, t);
        self.repeated(&mut m, 2, &k);
        self.repeated(&mut m, 3, &v);
        if let Some(i) = self.info(o, t, sc) {
            m.bytes(4, &i);
        }
        let (lat, lon) = o.latlon.unwrap();
        m.sint(8, sc.coord(lat, sc.lat_offset.unwrap_or(0)).unwrap().0);
        m.sint(9, sc.coord(lon, sc.lon_offset.unwrap_or(0)).unwrap().0);
        self.finish(m)
    }

    fn way(&mut self, o: &mut MObj, t: &Table, sc: &Scale) -> Vec<u8> {
        let mut m = Msg::new();
        m.int(1, o.id as u64);
        let (k, v) = self.tag_ids(o, t);
        self.repeated(&mut m, 2, &k);
        self.repeated(&mut m, 3, &v);
        if let Some(i) = self.info(o, t, sc) {
            m.bytes(4, &i);
        }
        let refs = deltas(&o.nodes);
        self.repeated(&mut m, 8, &refs);
        if !refs.is_empty() && self.yes(1, 8) {
            self.note("locations on ways");
            let x: Vec<u64> = refs.iter().map(|_| self.rng.u32() as u64).collect();
            self.repeated(&mut m, 9, &x);
            self.repeated(&mut m, 10, &x);
        }
        self.finish(m)
    }

    fn relation(&mut self, o: &mut MObj, t: &Table, sc: &Scale) -> Vec<u8> {
        let mut m = Msg::new();
        m.int(1, o.id as u64);
        let (k, v) = self.tag_ids(o, t);
        self.repeated(&mut m, 2, &k);
        self.repeated(&mut m, 3, &v);
        if let Some(i) = self.info(o, t, sc) {
            m.bytes(4, &i);
        }
        let roles: Vec<u64> = o
            .members
            .iter()
            .map(|x| self.sid(t, &x.2, false))
            .collect();
        self.repeated(&mut m, 8, &roles);
        let ids: Vec<i64> = o.members.iter().map(|x| x.1).collect();
        self.repeated(&mut m, 9, &deltas(&ids));
        let types: Vec<u64> = o
            .members
            .iter()
            .map(|x| match x.0 {
                Kind::Node => 0,
                Kind::Way => 1,
                Kind::Rel => 2,
            })
            .collect();
        self.repeated(&mut m, 10, &types);
        self.finish(m)
    }

    fn dense(&mut self, objs: &mut [MObj], t: &Table, sc: &Scale) -> Vec<u8> {
        let mut m = Msg::new();
        let ids: Vec<i64> = objs.iter().map(|o| o.id).collect();
        self.repeated(&mut m, 1, &deltas(&ids));

        // the metadata columns: each is there for all the nodes or for none
        let style = if self.fancy == 0 {
            0
        } else {
            self.rng.below(6)
        };
        let mut col = |rng: &mut Rng| match style {
            0..=2 => true,
            3 => false,
            _ => rng.bool(),
        };
        let mut d = Msg::new();
        let has_version = col(self.rng);
        for o in objs.iter_mut() {
            if has_version {
                if o.version.is_none() {
                    o.version = Some(gen::u32_edge(self.rng, true));
                }
            } else {
                o.version = None;
            }
        }
        if has_version {
            let v: Vec<u64> = objs.iter().map(|o| o.version.unwrap() as u64).collect();
            self.repeated(&mut d, 1, &v);
        }
        let has_ts = col(self.rng);
        let mut raws = vec![];
        for o in objs.iter_mut() {
            if has_ts {
                let t = match &o.ts {
                    Some(t) => t.instant().unwrap(),
                    None => {
                        // rounding must not lead out of the years 0000-9999
                        let (a, b) = Cfg::pbf().ts_range;
                        gen::epoch(self.rng, (a + 10_000_000, b - 10_000_000))
                    }
                };
                let (raw, exact) = sc.time(t).unwrap();
                o.ts = Some(Ts::Epoch(exact));
                raws.push(raw);
            } else {
                o.ts = None;
            }
        }
        self.repeated(&mut d, 2, &deltas(&raws));
        let has_cs = col(self.rng);
        for o in objs.iter_mut() {
            if has_cs {
                if o.changeset.is_none() {
                    o.changeset = Some(gen::u32_edge(self.rng, false));
                }
            } else {
                o.changeset = None;
            }
        }
        if has_cs {
            let v: Vec<i64> = objs.iter().map(|o| o.changeset.unwrap() as i64).collect();
            self.repeated(&mut d, 3, &deltas(&v));
        }
        let has_uid = col(self.rng);
        for o in objs.iter_mut() {
            if has_uid {
                if o.uid.is_none() {
                    o.uid = Some(gen::u32_edge(self.rng, true));
                }
            } else {
                o.uid = None;
            }
        }
        if has_uid {
            let v: Vec<i64> = objs.iter().map(|o| o.uid.unwrap() as i64).collect();
            self.repeated(&mut d, 4, &deltas(&v));
        }
        let has_user = col(self.rng);
        let mut sids = vec![];
        for o in objs.iter_mut() {
            if has_user {
                if o.user.is_none() {
                    // without a name: the empty string
                    o.user = Some(String::new());
                }
                sids.push(self.sid(t, o.user.as_ref().unwrap(), false) as i64);
            } else {
                o.user = None;
            }
        }
        self.repeated(&mut d, 5, &deltas(&sids));
        let any_deleted = objs.iter().any(|o| o.deleted);
        if any_deleted || self.yes(1, 3) {
            let v: Vec<u64> = objs.iter().map(|o| !o.deleted as u64).collect();
            self.repeated(&mut d, 6, &v);
        } else {
            self.note("no visible flags");
        }
        if !d.parts.is_empty() || self.yes(1, 3) {
            let d = self.finish(d);
            m.bytes(5, &d);
        } else {
            self.note("no dense metadata");
        }

        let lats: Vec<i64> = objs
            .iter()
            .map(|o| {
                sc.coord(o.latlon.unwrap().0, sc.lat_offset.unwrap_or(0))
                    .unwrap()
                    .0
            })
            .collect();
        let lons: Vec<i64> = objs
            .iter()
            .map(|o| {
                sc.coord(o.latlon.unwrap().1, sc.lon_offset.unwrap_or(0))
                    .unwrap()
                    .0
            })
            .collect();
        self.repeated(&mut m, 8, &deltas(&lats));
        self.repeated(&mut m, 9, &deltas(&lons));

        if objs.iter().any(|o| !o.tags.is_empty()) || self.yes(1, 2) {
            let mut kv = vec![];
            for o in objs.iter() {
                for (k, v) in &o.tags {
                    kv.push(self.sid(t, k, true));
                    kv.push(self.sid(t, v, false));
                }
                kv.push(0);
            }
            self.repeated(&mut m, 10, &kv);
        } else {
            self.note("no keys_vals");
        }
        self.finish(m)
    }

    fn scale(&mut self) -> Scale {
        if !self.yes(1, 2) {
            return Scale {
                granularity: if self.yes(1, 2) { Some(100) } else { None },
                lat_offset: if self.yes(1, 2) { Some(0) } else { None },
                lon_offset: None,
                date_granularity: if self.yes(1, 2) { Some(1000) } else { None },
            };
        }
        self.note("granularity and offsets");
        let mut off = |rng: &mut Rng| match rng.below(5) {
            0 => None,
            1 => Some(rng.range(-90_000_000_000, 90_000_000_000)),
            2 => Some(rng.range(-900_000, 900_000) * 100),
            3 => Some(rng.range(-300, 300)),
            _ => Some(rng.range(-180, 180) * 1_000_000_000),
        };
        Scale {
            lat_offset: off(self.rng),
            lon_offset: off(self.rng),
            granularity: match self.rng.below(4) {
                0 => None,
                1 => Some(*self.rng.pick(&[1, 10, 100, 1000, 10_000, 1_000_000])),
                _ => Some(*self.rng.pick(&[7, 30, 37, 99, 101, 150, 250, 999, 12_345])),
            },
            date_granularity: match self.rng.below(4) {
                0 => None,
                1 => Some(*self.rng.pick(&[1, 10, 100, 500, 1000])),
                _ => Some(*self.rng.pick(&[60_000, 3_600_000, 7, 1500, 86_400_000, 999])),
            },
        }
    }

    /// The bytes of a block of these groups. The objects are changed to what the block says.
    pub fn primitive_block(&mut self, groups: &mut [Vec<MObj>]) -> Vec<u8> {
        // strings which get made up later have to be in the table: none but ""
        let mut sc = self.scale();
        let all: Vec<&MObj> = groups.iter().flatten().collect();
        let fits = |sc: &Scale| {
            all.iter().all(|o| {
                o.latlon.is_none_or(|(a, b)| {
                    sc.coord(a, sc.lat_offset.unwrap_or(0)).is_some()
                        && sc.coord(b, sc.lon_offset.unwrap_or(0)).is_some()
                })
            })
        };
        if !fits(&sc) {
            sc = Scale {
                granularity: None,
                lat_offset: None,
                lon_offset: None,
                ..sc
            };
        }
        for o in groups.iter_mut().flatten() {
            if let Some((a, b)) = o.latlon {
                o.latlon = Some((
                    sc.coord(a, sc.lat_offset.unwrap_or(0)).unwrap().1,
                    sc.coord(b, sc.lon_offset.unwrap_or(0)).unwrap().1,
                ));
            }
        }
        let flat: Vec<MObj> = groups.iter().flatten().cloned().collect();
        let t = self.table(&flat);
        let mut m = Msg::new();
        let mut st = Msg::new();
        for s in &t.strings {
            st.bytes(1, s.as_bytes());
        }
        let st: Vec<u8> = st.parts.into_iter().flat_map(|p| p.1).collect();
        m.bytes(1, &st);
        for g in groups.iter_mut() {
            let mut gm = Msg::new();
            if g.is_empty() {
                match self.rng.below(4) {
                    0 => {
                        self.note("empty dense group");
                        gm.bytes(2, &[])
                    }
                    1 => {
                        self.note("group of changesets");
                        gm.bytes(5, &[8, 1])
                    }
                    _ => self.note("empty group"),
                }
            } else {
                match g[0].kind {
                    Kind::Node => {
                        if self.yes(1, 8) {
                            self.note("plain nodes");
                            for o in g.iter_mut() {
                                let b = self.plain_node(o, &t, &sc);
                                gm.bytes(1, &b);
                            }
                        } else {
                            let b = self.dense(g, &t, &sc);
                            gm.bytes(2, &b);
                        }
                    }
                    Kind::Way => {
                        for o in g.iter_mut() {
                            let b = self.way(o, &t, &sc);
                            gm.bytes(3, &b);
                        }
                    }
                    Kind::Rel => {
                        for o in g.iter_mut() {
                            let b = self.relation(o, &t, &sc);
                            gm.bytes(4, &b);
                        }
                    }
                }
            }
            let b = self.finish(gm);
            m.bytes(2, &b);
        }
        if let Some(v) = sc.granularity {
            m.int(17, v as u64);
        }
        if let Some(v) = sc.date_granularity {
            m.int(18, v as u64);
        }
        if let Some(v) = sc.lat_offset {
            m.int(19, v as u64);
        }
        if let Some(v) = sc.lon_offset {
            m.int(20, v as u64);
        }
        self.finish(m)
    }

    pub fn content(&mut self) -> Content {
        if self.fancy == 0 {
            return Content::Zlib {
                level: 6,
                raw_size: true,
            };
        }
        match self.rng.below(6) {
            0 | 1 => {
                self.note("uncompressed blobs");
                Content::Raw
            }
            x => {
                if x == 2 {
                    self.note("no raw_size");
                }
                Content::Zlib {
                    level: self.rng.below(10) as u32,
                    raw_size: x != 2,
                }
            }
        }
    }

    /// Append a blob with its header
    pub fn blob(&mut self, kind: &str, data: &[u8], content: &Content, objs: Vec<MObj>) {
        let mut b = Msg::new();
        match content {
            Content::Raw => {
                if self.yes(1, 4) {
                    b.int(2, data.len() as u64);
                }
                b.bytes(1, data);
            }
            Content::Zlib { level, raw_size } => {
                if *raw_size {
                    b.int(2, data.len() as u64);
                }
                b.bytes(3, &zlib(data, *level));
            }
            Content::Other(f, x) => {
                b.int(2, data.len() as u64);
                b.bytes(*f, x);
            }
            Content::Nothing => {}
        }
        let b = self.finish(b);
        let mut h = Msg::new();
        h.bytes(1, kind.as_bytes());
        if self.yes(1, 6) {
            self.note("index data");
            let n = self.rng.below(30);
            let x = self.rng.bytes(n);
            h.bytes(2, &x);
        }
        h.int(3, b.len() as u64);
        let h = self.finish(h);
        let start = self.file.bytes.len();
        self.file
            .bytes
            .extend_from_slice(&(h.len() as u32).to_be_bytes());
        self.file.bytes.extend_from_slice(&h);
        self.file.bytes.extend_from_slice(&b);
        self.file.blobs.push(BlobAt {
            start,
            end: self.file.bytes.len(),
            first: self.file.objs.len(),
            n: objs.len(),
            data: kind == "OSMData",
        });
        self.file.objs.extend(objs);
    }

    pub fn header(&mut self) {
        let mut m = Msg::new();
        m.bytes(4, b"OsmSchema-V0.6");
        m.bytes(4, b"DenseNodes");
        m.bytes(16, b"test");
        let b = self.finish(m);
        let c = self.content();
        self.blob("OSMHeader", &b, &c, vec![]);
    }

    fn other_blob(&mut self) {
        self.note("other blobs");
        let n = self.rng.below(60);
        let b = self.rng.bytes(n);
        let c = self.content();
        let t = *self.rng.pick(&["OSMIndex", "osmdata", "", "OSMData2", "X"]);
        self.blob(t, &b, &c, vec![]);
    }

    pub fn data_block(&mut self, mut groups: Vec<Vec<MObj>>) {
        let b = self.primitive_block(&mut groups);
        let c = self.content();
        self.blob("OSMData", &b, &c, groups.into_iter().flatten().collect());
    }

    /// The whole file
    pub fn write(mut self, objs: &[MObj]) -> PbfFile {
        if !self.yes(1, 10) {
            self.header();
        }
        let mut i = 0;
        while i < objs.len() || self.yes(1, 8) {
            if self.yes(1, 8) {
                self.other_blob();
            }
            // one block
            let mut groups: Vec<Vec<MObj>> = vec![];
            let ngroups = if self.fancy == 0 {
                3
            } else {
                *self.rng.pick(&[0usize, 1, 1, 1, 2, 3, 5])
            };
            if ngroups == 0 {
                self.note("block without groups");
            }
            for _ in 0..ngroups {
                let mut g: Vec<MObj> = vec![];
                if self.yes(1, 8) {
                    groups.push(g);
                    continue;
                }
                let max = match self.rng.below(3) {
                    0 => 1,
                    1 => 4,
                    _ => 8000,
                };
                while i < objs.len()
                    && g.len() < max
                    && g.first().is_none_or(|f| f.kind == objs[i].kind)
                {
                    g.push(objs[i].clone());
                    i += 1;
                }
                if g.is_empty() && self.fancy == 0 {
                    continue;
                }
                groups.push(g);
            }
            let kinds: Vec<Kind> = groups
                .iter()
                .filter_map(|g| g.first().map(|o| o.kind))
                .collect();
            if kinds.windows(2).any(|w| w[0] != w[1]) {
                self.note("blocks of several kinds");
            }
            self.data_block(groups);
        }
        if self.yes(1, 10) {
            self.other_blob();
        }
        self.file
    }
}

pub fn deltas(v: &[i64]) -> Vec<u64> {
    let mut last = 0i64;
    v.iter()
        .map(|x| {
            let d = x - last;
            last = *x;
            zigzag(d)
        })
        .collect()
}

/// Objects in an order and form PBF likes, more or less
pub fn gen_objects(rng: &mut Rng, max: usize, distinct_keys: bool) -> Vec<MObj> {
    let cfg = Cfg {
        dup_keys: !distinct_keys,
        ..Cfg::pbf()
    };
    let mut objs = gen::objects(rng, &cfg, max);
    if rng.chance(2, 3) {
        objs.sort_by_key(|o| o.kind as usize);
    }
    objs
}
