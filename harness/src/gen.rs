//! Generators of values and objects, weighted towards the edges.

use crate::model::*;
use crate::rng::Rng;
use crate::time::{MAX_EPOCH, MIN_EPOCH};

#[derive(Clone, Copy, PartialEq)]
pub enum Chars {
    /// every character XML 1.0 can represent
    Xml,
    /// any Unicode text
    Any,
}

#[derive(Clone)]
pub struct Cfg {
    pub chars: Chars,
    /// bound for ids and references
    pub max_id: i64,
    /// values have to fit in a signed 32-bit integer (PBF)
    pub signed32: bool,
    pub dup_keys: bool,
    /// only epoch timestamps
    pub epoch_only: bool,
    pub ts_range: (i64, i64),
    /// text which is no timestamp
    pub weird_ts: bool,
    /// nodes always have a location
    pub located: bool,
    pub big: bool,
}

impl Cfg {
    pub fn xml() -> Cfg {
        Cfg {
            chars: Chars::Xml,
            max_id: i64::MAX,
            signed32: false,
            dup_keys: true,
            epoch_only: false,
            ts_range: (MIN_EPOCH, MAX_EPOCH),
            weird_ts: true,
            located: false,
            big: true,
        }
    }
    pub fn pbf() -> Cfg {
        Cfg {
            chars: Chars::Any,
            max_id: 1 << 61,
            signed32: true,
            dup_keys: true,
            epoch_only: true,
            ts_range: (MIN_EPOCH, MAX_EPOCH),
            weird_ts: false,
            located: true,
            big: true,
        }
    }
    pub fn any() -> Cfg {
        Cfg {
            chars: Chars::Any,
            ..Cfg::xml()
        }
    }
}

pub fn xml_char_ok(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

const WORDS: &[&str] = &[
    "highway",
    "residential",
    "name",
    "area",
    "yes",
    "no",
    "building",
    "created_by",
    "outer",
    "inner",
    "source",
    "bing",
    "name:de",
    "Straße",
    "日本",
    "é",
    "🏠",
    "visible",
    "false",
    "id",
    "true",
];

const NASTY: &[&str] = &[
    "\"",
    "'",
    "<",
    ">",
    "&",
    "&amp;",
    "&lt;",
    "&quot;",
    "&#10;",
    "&#x41;",
    "&nope;",
    "&;",
    "]]>",
    "<![CDATA[x]]>",
    "<!--",
    "-->",
    "<?x?>",
    "\" visible=\"false",
    "' k='",
    "/><node id=\"1\"/>",
    "</osm>",
    "{}",
    "\\",
    "\\n",
    "\\u0041",
    "%00",
    "{\"a\":1}",
    "`",
    "\u{a0}",
    "\u{85}",
    "\u{2028}",
    "\u{feff}",
    "\u{200b}",
    "\u{301}",
    "\u{7f}",
    "\u{80}",
    "\u{10ffff}",
    "\u{fffd}",
    "\u{d7ff}",
    "\u{e000}",
    "\u{10000}",
];

pub fn xchar(rng: &mut Rng, chars: Chars) -> char {
    loop {
        let c = match rng.below(10) {
            0 | 1 | 2 => rng.range(0x20, 0x7e) as u32,
            3 => rng.range(0, 0x1f) as u32,
            4 => *rng.pick(&['&', '<', '>', '"', '\'', '\t', '\n', '\r', ' ', '=']) as u32,
            5 => rng.range(0x7f, 0x2ff) as u32,
            6 => rng.range(0x300, 0xffff) as u32,
            7 => rng.range(0x10000, 0x10ffff) as u32,
            8 => *rng.pick(&[
                0x7fu32, 0x80, 0x85, 0x9f, 0xa0, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x2028, 0xffff,
                0xfffe, 0x10000, 0x10ffff, 0x1ffff, 0x7ff, 0x800,
            ]),
            _ => rng.range('a' as i64, 'z' as i64) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            if chars == Chars::Any || xml_char_ok(c) {
                return c;
            }
        }
    }
}

pub fn string(rng: &mut Rng, chars: Chars) -> String {
    let mut s = String::new();
    match rng.below(14) {
        0 => {}
        1..=5 => s.push_str(rng.pick(WORDS)),
        6 => {
            // around the sizes where small-string types switch representation
            let n = *rng.pick(&[7usize, 8, 15, 16, 17, 21, 22, 23, 24, 25, 31, 32, 33, 63, 64]);
            while s.len() < n {
                s.push(rng.range('a' as i64, 'z' as i64) as u8 as char);
            }
            if rng.bool() {
                s.pop();
                s.push('é');
            }
        }
        7 => {
            // whitespace runs (small-string types special-case them)
            for _ in 0..rng.range(1, 3) {
                for _ in 0..rng.range(0, 34) {
                    s.push('\n');
                }
                for _ in 0..rng.range(0, 130) {
                    s.push(' ');
                }
            }
            if rng.bool() {
                s.insert(0, *rng.pick(&['\t', '\r', ' ', 'x', '\n']));
                s.push(*rng.pick(&['\t', '\r', ' ', 'x', '\n']));
            }
        }
        8 | 9 => {
            for _ in 0..rng.range(1, 4) {
                s.push_str(rng.pick(NASTY));
                if rng.bool() {
                    s.push_str(rng.pick(WORDS));
                }
            }
        }
        10 if rng.chance(1, 12) => {
            // long
            let n = rng.range(250, 9000);
            for _ in 0..n {
                s.push(xchar(rng, chars));
            }
        }
        10..=12 => {
            for _ in 0..rng.range(1, 12) {
                s.push(xchar(rng, chars));
            }
        }
        _ => s = rng.range(0, 9999).to_string(),
    }
    if chars == Chars::Xml {
        debug_assert!(s.chars().all(xml_char_ok), "{:?}", s);
    }
    s
}

pub fn i64_edge(rng: &mut Rng, max: i64) -> i64 {
    let v = match rng.below(12) {
        0..=3 => rng.range(1, 30),
        4 => rng.range(-30, 0),
        5 => rng.range(1, 1 << 34),
        6 => (1i64 << rng.range(0, 62)) + rng.range(-2, 2),
        7 => -(1i64 << rng.range(0, 62)) + rng.range(-2, 2),
        8 => *rng.pick(&[
            i64::MAX,
            i64::MIN,
            i64::MAX - 1,
            i64::MIN + 1,
            u32::MAX as i64,
            i32::MAX as i64,
            i32::MIN as i64,
            1 << 53,
        ]),
        9 => rng.u64() as i64,
        _ => rng.range(1, 13_000_000_000),
    };
    if v > max || v < -max {
        v % max
    } else {
        v
    }
}

pub fn u32_edge(rng: &mut Rng, signed: bool) -> u32 {
    let v = match rng.below(8) {
        0..=2 => rng.range(0, 30) as u32,
        3 => *rng.pick(&[0, 1, 255, 256, 65535, 65536, i32::MAX as u32 - 1, i32::MAX as u32]),
        4 => {
            if signed {
                i32::MAX as u32 - rng.below(2) as u32
            } else {
                *rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32])
            }
        }
        5 => rng.u32(),
        _ => rng.range(1, 200_000_000) as u32,
    };
    if signed {
        v & (i32::MAX as u32)
    } else {
        v
    }
}

pub fn coord(rng: &mut Rng) -> i32 {
    match rng.below(8) {
        0 => *rng.pick(&[
            0, 1, -1, 9, -9, 10, 99, 100, 9_999_999, 10_000_000, -10_000_000, 900_000_000,
            -900_000_000, 1_800_000_000, -1_800_000_000,
        ]),
        1 => *rng.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1]),
        2 => rng.u32() as i32,
        3 => rng.range(-1000, 1000) as i32,
        4 => rng.range(-180, 180) as i32 * 10_000_000,
        _ => rng.range(-1_800_000_000, 1_800_000_000) as i32,
    }
}

pub fn epoch(rng: &mut Rng, range: (i64, i64)) -> i64 {
    let v = match rng.below(10) {
        0..=3 => rng.range(1_100_000_000, 1_800_000_000),
        4 => *rng.pick(&[
            0,
            1,
            -1,
            i32::MAX as i64,
            i32::MAX as i64 + 1,
            i32::MIN as i64,
            i32::MIN as i64 - 1,
            u32::MAX as i64,
            u32::MAX as i64 + 1,
            951_782_399,
            951_782_400,
            4_107_542_399,
            4_107_542_400,
        ]),
        5 => *rng.pick(&[MIN_EPOCH, MAX_EPOCH, MIN_EPOCH + 1, MAX_EPOCH - 1]),
        6 => rng.range(MIN_EPOCH, MAX_EPOCH),
        7 => rng.range(-2_000_000_000, 0),
        8 => rng.range(2_000_000_000, 10_000_000_000),
        _ => rng.range(0, 2_000_000_000),
    };
    v.clamp(range.0, range.1)
}

pub fn timestamp(rng: &mut Rng, cfg: &Cfg) -> Ts {
    let t = epoch(rng, cfg.ts_range);
    if cfg.epoch_only {
        return Ts::Epoch(t);
    }
    match rng.below(6) {
        0..=2 => Ts::Epoch(t),
        3 | 4 => Ts::Iso(crate::time::iso_utc(t)),
        _ => {
            if cfg.weird_ts && rng.chance(1, 3) {
                Ts::Iso(string(rng, cfg.chars))
            } else {
                Ts::Iso(iso_with_offset(rng, t))
            }
        }
    }
}

/// Local time has to stay within years 0000-9999 too
pub fn iso_with_offset(rng: &mut Rng, t: i64) -> String {
    let off = match rng.below(4) {
        0 => 0,
        1 => rng.range(-14, 14) * 60,
        2 => *rng.pick(&[-1439, 1439, -1, 1, 330, -210, 345]),
        _ => rng.range(-1439, 1439),
    };
    let local = t + off * 60;
    if !(MIN_EPOCH..=MAX_EPOCH).contains(&local) {
        return crate::time::iso_utc(t);
    }
    crate::time::iso_offset(t, off)
}

pub fn count(rng: &mut Rng, big: bool) -> usize {
    match rng.below(20) {
        0..=4 => 0,
        5..=8 => 1,
        9..=12 => 2,
        13..=16 => rng.range(3, 8) as usize,
        17 => *rng.pick(&[4usize, 5, 6, 7, 8]), // around inline capacities
        18 => rng.range(8, 40) as usize,
        _ if big && rng.chance(1, 12) => rng.range(100, 2100) as usize,
        _ => 3,
    }
}

pub fn tags(rng: &mut Rng, cfg: &Cfg) -> Vec<(String, String)> {
    let n = count(rng, false);
    let mut t: Vec<(String, String)> = vec![];
    for _ in 0..n {
        let k = string(rng, cfg.chars);
        let v = string(rng, cfg.chars);
        if t.iter().any(|(x, _)| *x == k) && !(cfg.dup_keys && rng.chance(1, 3)) {
            continue;
        }
        t.push((k, v));
    }
    t
}

pub fn object_of(rng: &mut Rng, cfg: &Cfg, kind: Kind) -> MObj {
    let mut m = MObj::new(kind, i64_edge(rng, cfg.max_id));
    let style = rng.below(6); // 0: bare, 1: everything, others: mixed
    let mut has = |rng: &mut Rng| match style {
        0 => false,
        1 | 2 | 3 => true,
        _ => rng.bool(),
    };
    if has(rng) {
        m.version = Some(u32_edge(rng, cfg.signed32));
    }
    if has(rng) {
        m.changeset = Some(u32_edge(rng, false));
    }
    if has(rng) {
        m.ts = Some(timestamp(rng, cfg));
    }
    if has(rng) {
        m.uid = Some(u32_edge(rng, cfg.signed32));
    }
    if has(rng) {
        m.user = Some(string(rng, cfg.chars));
    }
    m.deleted = rng.chance(1, 4);
    m.tags = tags(rng, cfg);
    match kind {
        Kind::Node => {
            if cfg.located || !rng.chance(1, 4) {
                m.latlon = Some((coord(rng), coord(rng)));
            }
        }
        Kind::Way => {
            let n = count(rng, cfg.big);
            let consecutive = rng.bool();
            let mut last = i64_edge(rng, cfg.max_id / 2);
            for _ in 0..n {
                if consecutive {
                    last += rng.range(-5, 20);
                } else {
                    last = i64_edge(rng, cfg.max_id);
                }
                m.nodes.push(last);
            }
            if n > 1 && rng.chance(1, 3) {
                let f = m.nodes[0];
                *m.nodes.last_mut().unwrap() = f;
            }
        }
        Kind::Rel => {
            let n = count(rng, cfg.big);
            for _ in 0..n {
                m.members.push((
                    *rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]),
                    i64_edge(rng, cfg.max_id),
                    string(rng, cfg.chars),
                ));
            }
        }
    }
    m
}

pub fn object(rng: &mut Rng, cfg: &Cfg) -> MObj {
    let k = *rng.pick(&[Kind::Node, Kind::Node, Kind::Way, Kind::Rel]);
    object_of(rng, cfg, k)
}

pub fn objects(rng: &mut Rng, cfg: &Cfg, max: usize) -> Vec<MObj> {
    let n = match rng.below(8) {
        0 => rng.below(2),
        1..=5 => rng.range(1, 8) as usize,
        _ => rng.range(1, 30) as usize,
    }
    .min(max);
    (0..n).map(|_| object(rng, cfg)).collect()
}

/// Plain and small: for fault enumeration, where every byte is visited
pub fn small_objects(rng: &mut Rng, cfg: &Cfg, n: usize) -> Vec<MObj> {
    let mut cfg = cfg.clone();
    cfg.big = false;
    (0..n)
        .map(|_| {
            let mut m = object(rng, &cfg);
            m.tags.truncate(2);
            m.nodes.truncate(4);
            m.members.truncate(3);
            let cut = |s: &mut String| {
                while s.len() > 20 {
                    s.pop();
                }
            };
            for (k, v) in m.tags.iter_mut() {
                cut(k);
                cut(v);
            }
            if !cfg.dup_keys {
                let mut seen = vec![];
                m.tags.retain(|(k, _)| {
                    let new = !seen.contains(k);
                    seen.push(k.clone());
                    new
                });
            }
            m.members.iter_mut().for_each(|x| cut(&mut x.2));
            if let Some(u) = m.user.as_mut() {
                cut(u);
            }
            if let Some(Ts::Iso(s)) = m.ts.as_mut() {
                cut(s);
            }
            m
        })
        .collect()
}

/// Objects which are extreme in one dimension each: what fits in 8 or 16 bits at ordinary sizes
/// does not here. `which` picks the dimension.
pub const HUGE: usize = 12;

pub fn huge(rng: &mut Rng, cfg: &Cfg, which: usize) -> (&'static str, Vec<MObj>) {
    let mut cfg = cfg.clone();
    cfg.big = false;
    let full = |rng: &mut Rng, kind: Kind| loop {
        let mut m = object_of(rng, &cfg, kind);
        m.nodes.clear();
        m.members.clear();
        // repeated keys would make what is added hard to tell apart
        m.tags.clear();
        if m.version.is_some() && m.user.is_some() {
            return m;
        }
    };
    let kinds = [Kind::Node, Kind::Way, Kind::Rel];
    let long = |rng: &mut Rng, n: usize| {
        let mut s = String::new();
        let c = *rng.pick(&['a', 'é', '日', '🏠']);
        s.push_str(rng.pick(WORDS));
        while s.len() < n {
            s.push(c);
        }
        s.push_str("<end>");
        s
    };
    match which % HUGE {
        0 | 1 => {
            // more than 65536 strings, of all uses
            let mut v = vec![];
            let mut n = rng.below(1000);
            for i in 0..1500 {
                let mut m = full(rng, kinds[i * 3 / 1500]);
                m.user = Some(format!("user {}", i));
                for _ in 0..24 {
                    n += 1;
                    m.tags.push((format!("{:06}k", n), format!("v{}", n)));
                }
                if m.kind == Kind::Rel {
                    for _ in 0..3 {
                        n += 1;
                        m.members.push((*rng.pick(&kinds), n as i64, format!("{:06}r", n)));
                    }
                }
                v.push(m);
            }
            ("many strings", v)
        }
        2 => {
            let mut v = vec![full(rng, Kind::Way), full(rng, Kind::Way)];
            v[0].nodes = (0..70_000).map(|_| rng.range(-5, 1 << 34)).collect();
            v[1].nodes = vec![1, 2, 1];
            ("many node references", v)
        }
        3 => {
            let mut v = vec![full(rng, Kind::Rel), full(rng, Kind::Rel)];
            let roles: Vec<String> = (0..500).map(|i| format!("r{}", i)).collect();
            v[0].members = (0..70_000)
                .map(|_| {
                    (
                        *rng.pick(&kinds),
                        rng.range(-5, 1 << 34),
                        rng.pick(&roles).clone(),
                    )
                })
                .collect();
            v[1].members = vec![(Kind::Way, 1, String::new())];
            ("many members", v)
        }
        4..=6 => {
            let mut v = vec![];
            for k in kinds {
                for n in [255, 256, 257, 300, 3000] {
                    let mut m = full(rng, k);
                    m.tags = (0..n).map(|i| (format!("k{}", i), format!("v{}", i % 70))).collect();
                    v.push(m);
                    v.push(full(rng, k));
                }
            }
            ("many tags", v)
        }
        7..=9 => {
            let mut v = vec![];
            for k in kinds {
                let n = *rng.pick(&[4096usize, 32_768, 65_535, 65_536, 70_000, 300_000]);
                let mut m = full(rng, k);
                m.user = Some(long(rng, n));
                m.tags.push((long(rng, n + 1), "x".to_string()));
                m.tags.push(("y".to_string(), long(rng, n + 7)));
                if k == Kind::Rel {
                    m.members.push((Kind::Node, 1, long(rng, n - 9)));
                }
                v.push(m);
                v.push(full(rng, k));
            }
            ("long strings", v)
        }
        10 => {
            let mut v: Vec<MObj> = vec![];
            for i in 0..70_000i64 {
                let mut m = MObj::new(Kind::Node, i * 3 + 1);
                m.version = Some((i % 7) as u32);
                m.latlon = Some((rng.range(-9, 9) as i32 * 1000, i as i32));
                if i % 1000 == 0 {
                    m.tags.push(("n".to_string(), i.to_string()));
                }
                v.push(m);
            }
            ("many nodes", v)
        }
        _ => {
            let mut v: Vec<MObj> = vec![];
            for i in 0..3000 {
                let k = *rng.pick(&kinds);
                let mut m = full(rng, k);
                m.tags.push(("n".to_string(), i.to_string()));
                v.push(m);
            }
            ("many objects", v)
        }
    }
}
