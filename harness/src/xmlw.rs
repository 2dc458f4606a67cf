//! Encodes OSM XML, osmChange and changeset documents in many styles. Independent of osmio: the
//! data written is known, so readers can be judged against it.

use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rng::Rng;

/// Decisions of style. Every random choice comes from `rng`, and `fancy` = 0 gives the plain form.
pub struct W<'a> {
    pub rng: &'a mut Rng,
    pub out: String,
    /// 0 plain .. 3 everything
    pub fancy: usize,
    /// what was used
    pub used: Vec<&'static str>,
    nl: &'static str,
    /// where the root element is closed
    pub root_end: usize,
    /// where each changeset element is
    pub spans: Vec<(usize, usize)>,
    /// Objects written so far
    pub written: usize,
    /// The object with this number gets this id, or none
    pub bad_id: Option<(usize, Option<String>)>,
    /// The objects with these numbers get values which cannot be used...
    pub unusable: Vec<usize>,
    /// ... and this is what is left of them, and what was done
    pub left: Vec<(usize, MObj, Vec<String>)>,
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct MCs {
    pub id: u32,
    pub created: String,
    pub closed: Option<String>,
    pub open: bool,
    pub uid: Option<i64>,
    pub user: Option<String>,
    pub num_changes: u64,
    pub comments_count: u64,
    pub tags: Vec<(String, String)>,
}

/// Coordinate of `inner` units as decimal degrees, exactly
const ELEMENTS: &[&str] = &[
    "node", "way", "relation", "nd", "member", "tag", "create", "modify", "delete", "osm", "osmChange", "changeset", "comment",
    "discussion", "text",
];
const ATTRS: &[&str] = &[
    "id", "lat", "lon", "visible", "version", "user", "uid", "changeset", "timestamp", "k", "v", "ref", "type", "role", "created_at",
    "closed_at", "open", "num_changes", "comments_count",
];

/// A name which is almost one of these, but none of them
fn near(rng: &mut Rng, known: &[&str]) -> String {
    loop {
        let mut n = rng.pick(known).to_string();
        match rng.below(9) {
            0 => {
                n.remove(0);
            }
            1 => {
                n.pop();
            }
            2 => n.push(*rng.pick(&['s', '2', '_', '-', '.', 'd', 'é'])),
            3 => n.insert_str(0, rng.pick(&["x", "sub", "_", "the", "é"])),
            4 => n = n.to_uppercase(),
            5 => n = n[..1].to_uppercase() + &n[1..],
            6 => n = n.clone() + &n,
            7 => n = n.chars().rev().collect(),
            _ => {
                let m = *rng.pick(known);
                n += m;
            }
        }
        let first = n.chars().next();
        if first.is_some_and(|c| c.is_alphabetic() || c == '_') && !known.contains(&n.as_str()) && !n.to_lowercase().starts_with("xml") {
            return n;
        }
    }
}

pub fn decimal(inner: i32) -> String {
    let v = inner as i64;
    let a = v.abs();
    let mut s = format!("{}{}", if v < 0 { "-" } else { "" }, a / 10_000_000);
    let frac = a % 10_000_000;
    if frac != 0 {
        let f = format!("{:07}", frac);
        s.push('.');
        s.push_str(f.trim_end_matches('0'));
    }
    s
}

/// What cannot be read as the number, coordinate or name it should be, however generously: white
/// space around them, signs and the like are not among these.
const NO_U32: &[&str] = &[
    "", "x", "-", "-1", "1.5", "4294967296", "4294967297", "-4294967295", "18446744073709551617", "1e3", "0x10", "1 2", "1,000",
    "\u{663}", "NaN", "true", "1x", "x1", "1_000", "99999999999999999999999999",
];
const NO_ID: &[&str] = &[
    "", "x", "-", "1.5", "9223372036854775808", "-9223372036854775809", "18446744073709551617", "1e3", "0x10", "1 2", "1,000",
    "\u{663}", "NaN", "n1", "1x", "1_000", "--1", "99999999999999999999999999",
];
const NO_COORD: &[&str] = &[
    "", "x", "-", "NaN", "nan", "inf", "-inf", "infinity", "1e400", "-1e400", "214.7483648", "-214.7483649", "300", "1e9", "12,5",
    "1.2.3", "12\u{b0}", "0x1p3", "1 2", "--1", "12N", "12x", "4294967296", "null",
];
const NO_BOOL: &[&str] = &["", "x", "maybe", "truefalse", "nottrue", "falsey", "visible", "2", "null"];
const NO_TYPE: &[&str] = &[
    "", "x", "nodes", "area", "changeset", "nodeway", "relations", "null", "unknown", "nod", "wa", "noderef", "member", "-",
];

/// Children with unusable values, by their number among those of one kind
#[derive(Default)]
struct Spoiled {
    n: usize,
    nodes: std::collections::HashMap<usize, Option<String>>,
    members: std::collections::HashMap<usize, (&'static str, Option<String>)>,
    tags: std::collections::HashMap<usize, &'static str>,
}

impl<'a> W<'a> {
    pub fn new(rng: &'a mut Rng, fancy: usize) -> W<'a> {
        let nl = if fancy == 0 {
            "\n"
        } else {
            *rng.pick(&["\n", "\n", "\r\n", "", " ", "\r"])
        };
        W {
            rng,
            out: String::new(),
            root_end: usize::MAX,
            spans: vec![],
            written: 0,
            bad_id: None,
            unusable: vec![],
            left: vec![],
            fancy,
            used: vec![],
            nl,
        }
    }
    fn yes(&mut self, num: usize, den: usize) -> bool {
        self.fancy > 0 && self.rng.chance(num * self.fancy.min(3), den * 3)
    }
    fn note(&mut self, what: &'static str) {
        if !self.used.contains(&what) {
            self.used.push(what);
        }
    }
    pub fn nl(&mut self) {
        self.out.push_str(self.nl);
    }
    fn ws(&mut self) {
        if self.fancy == 0 {
            self.out.push(' ');
            return;
        }
        let w = *self
            .rng
            .pick(&[" ", " ", " ", "  ", "\n", "\t", "\r\n", " \n\t "]);
        self.out.push_str(w);
    }
    fn char_ref(&mut self, c: char) {
        let s = match self.rng.below(3) {
            0 => format!("&#{};", c as u32),
            1 => format!("&#x{:x};", c as u32),
            _ => format!("&#x{:04X};", c as u32),
        };
        self.note("character references");
        self.out.push_str(&s);
    }
    /// An attribute value whose decoded value is `v`
    pub fn value(&mut self, v: &str) {
        self.value_of(v, true)
    }
    fn value_of(&mut self, v: &str, refs: bool) {
        let q = if self.fancy > 0 && self.rng.chance(1, 3) {
            self.note("single quotes");
            '\''
        } else {
            '"'
        };
        self.out.push(q);
        let rate = if self.fancy > 0 && refs && self.rng.chance(1, 4) {
            3
        } else {
            0
        };
        for c in v.chars() {
            match c {
                '&' | '<' => {
                    if rate > 0 && self.rng.chance(1, 2) {
                        self.char_ref(c);
                    } else {
                        self.out.push_str(if c == '&' { "&amp;" } else { "&lt;" });
                    }
                }
                '"' | '\'' if c == q || self.rng.bool() => {
                    if rate > 0 && self.rng.bool() {
                        self.char_ref(c);
                    } else {
                        self.out
                            .push_str(if c == '"' { "&quot;" } else { "&apos;" });
                    }
                }
                '>' if self.rng.bool() => self.out.push_str("&gt;"),
                '\t' | '\n' | '\r' => self.char_ref(c),
                ' ' if self.fancy > 1 && self.rng.chance(1, 12) => {
                    // literal white space in a value is a space
                    let mut w = *self.rng.pick(&["\n", "\t", "\r\n", "\r"]);
                    if w == "\n" && self.out.ends_with('\r') {
                        w = "\t"; // or the two would be one line break
                    }
                    self.note("line breaks in values");
                    self.out.push_str(w);
                }
                c => {
                    if rate > 0 && self.rng.chance(1, rate) {
                        self.char_ref(c)
                    } else {
                        self.out.push(c)
                    }
                }
            }
        }
        self.out.push(q);
    }
    fn attr(&mut self, k: &str, v: &str) {
        self.ws();
        self.out.push_str(k);
        if self.yes(1, 10) {
            self.out.push_str(" = ");
        } else {
            self.out.push('=');
        }
        self.value(v);
    }
    pub fn attrs(&mut self, a: Vec<(&str, String)>) {
        let extra_name;
        let mut a: Vec<(&str, String)> = a;
        if self.yes(1, 5) {
            self.note("unknown attributes");
            let extra = *self.rng.pick(&[
                "action",
                "foo",
                "ID",
                "latitude",
                "uids",
                "data-x",
                "Version",
                "k2",
                "xlat",
                "closed",
                "created",
                "changes_count",
                "username",
                "kv",
            ]);
            let v = gen::string(self.rng, gen::Chars::Xml);
            a.push((extra, v));
        }
        if self.yes(1, 8) {
            self.note("unknown attributes");
            extra_name = near(self.rng, ATTRS);
            if a.iter().all(|x| x.0 != extra_name) {
                let v = match self.rng.below(3) {
                    0 => gen::string(self.rng, gen::Chars::Xml),
                    1 => "false".to_string(),
                    _ => self.rng.range(0, 200).to_string(),
                };
                a.push((&extra_name, v));
            }
        }
        if self.yes(1, 2) {
            self.note("attribute order");
            self.rng.shuffle(&mut a);
        }
        for (k, v) in a {
            self.attr(k, &v);
        }
        if self.yes(1, 3) {
            self.ws();
        }
    }
    /// Comments, processing instructions, text: between elements
    pub fn misc(&mut self, text_ok: bool) {
        if !self.yes(1, 8) {
            return;
        }
        match self.rng.below(if text_ok { 6 } else { 3 }) {
            0 => {
                self.note("comments");
                let c = *self.rng.pick(&[
                    "<!-- comment -->",
                    "<!---->",
                    "<!-- <node id=\"9\" lat=\"1\" lon=\"1\"/> -->",
                    "<!--</node></osm>-->",
                    "<!-- & < ' \" é -->",
                ]);
                self.out.push_str(c);
            }
            1 => {
                self.note("processing instructions");
                self.out.push_str("<?target some <node/> data?>");
            }
            2 => {
                let w = *self.rng.pick(&["\n\n", "\t", "   ", "\r\n"]);
                self.out.push_str(w);
            }
            3 => {
                self.note("text");
                self.out.push_str("some text &amp; more &#x41;");
            }
            4 => {
                self.note("CDATA");
                self.out
                    .push_str("<![CDATA[ <node id=\"5\"/> & ]] > </osm> ]]>");
            }
            _ => {
                self.note("unknown elements");
                if self.rng.bool() {
                    self.note("elements with names like known ones");
                    let n = near(self.rng, ELEMENTS);
                    let mut e = format!("<{}", n);
                    for (k, v) in [("id", "6"), ("ref", "7"), ("k", "a"), ("v", "b"), ("visible", "false"), ("lat", "1")] {
                        if self.rng.chance(1, 3) {
                            e += &format!(" {}=\"{}\"", k, v);
                        }
                    }
                    e += &match self.rng.below(4) {
                        0 | 1 => "/>".to_string(),
                        2 => format!("></{}>", n),
                        _ => format!(">t<x id='3'/></{} >", n),
                    };
                    self.out.push_str(&e);
                    return;
                }
                let e = *self.rng.pick(&[
                    "<bounds minlat=\"1\" minlon=\"2\" maxlat=\"3\" maxlon=\"4\"/>",
                    "<note>The data included in this document is from www.openstreetmap.org.</note>",
                    "<meta osm_base=\"2020-01-01T00:00:00Z\"/>",
                    "<x><y z='1'/>t</x>",
                    "<nodes/>",
                    "<tags k=\"a\" v=\"b\"/>",
                    "<tagged k=\"a\" v=\"b\"></tagged>",
                    "<changesets id=\"6\"/>",
                    "<changesets><x id=\"6\" user=\"u\" uid=\"3\"/></changesets>",
                    "<Node id=\"1\"/>",
                    "<center lat=\"1\" lon=\"2\" id=\"7\"></center>",
                ]);
                self.out.push_str(e);
            }
        }
    }
    fn leaf(&mut self, name: &str, attrs: Vec<(&str, String)>) {
        self.out.push('<');
        self.out.push_str(name);
        self.attrs(attrs);
        if self.yes(1, 4) {
            self.note("open and close tags");
            self.out.push('>');
            if self.rng.chance(1, 3) {
                self.out.push_str(" \n ");
            }
            self.out.push_str("</");
            self.out.push_str(name);
            if self.rng.chance(1, 5) {
                self.out.push(' ');
            }
            self.out.push('>');
        } else {
            self.out.push_str("/>");
        }
    }
    pub fn coordinate(&mut self, inner: i32) -> String {
        let plain = decimal(inner);
        if self.fancy == 0 {
            return plain;
        }
        match self.rng.below(8) {
            0 => {
                // as the API prints them: 7 digits
                let v = inner as i64;
                format!(
                    "{}{}.{:07}",
                    if v < 0 { "-" } else { "" },
                    v.abs() / 10_000_000,
                    v.abs() % 10_000_000
                )
            }
            1 => {
                let z = "0".repeat(self.rng.range(1, 8) as usize);
                if plain.contains('.') {
                    plain + &z
                } else {
                    plain + "." + &z
                }
            }
            2 if inner.unsigned_abs() < 1_900_000_000 => {
                // more digits than the precision: rounds to the nearest
                let v = inner as i64;
                let extra = self.rng.range(1, 49);
                self.note("coordinates to be rounded");
                format!(
                    "{}{}.{:07}{:02}",
                    if v < 0 { "-" } else { "" },
                    v.abs() / 10_000_000,
                    v.abs() % 10_000_000,
                    extra.min(40)
                )
            }
            _ => plain,
        }
    }
    pub fn object(&mut self, m: &MObj, visible: Option<bool>) {
        let mut a: Vec<(&'static str, String)> = match &self.bad_id {
            Some((n, id)) if *n == self.written => id.iter().map(|id| ("id", id.clone())).collect(),
            _ => vec![("id", m.id.to_string())],
        };
        let spoil = self.unusable.contains(&self.written);
        self.written += 1;
        if let Some(v) = visible {
            a.push(("visible", v.to_string()));
        }
        if let Some(v) = m.version {
            a.push(("version", v.to_string()));
        }
        if let Some(v) = m.changeset {
            a.push(("changeset", v.to_string()));
        }
        if let Some(v) = &m.ts {
            a.push((
                "timestamp",
                match v {
                    Ts::Iso(s) => s.clone(),
                    Ts::Epoch(t) => crate::time::iso_utc(*t),
                },
            ));
        }
        if let Some(v) = &m.user {
            a.push(("user", v.clone()));
        }
        if let Some(v) = m.uid {
            a.push(("uid", v.to_string()));
        }
        if let Some((lat, lon)) = m.latlon {
            let (lat, lon) = (self.coordinate(lat), self.coordinate(lon));
            a.push(("lat", lat));
            a.push(("lon", lon));
        }
        // children: the order within tags, nds and members counts, between them not
        let mut spoiled = Spoiled::default();
        if spoil {
            spoiled = self.spoil(m, visible, &mut a);
        }
        enum C {
            Tag(usize),
            Nd(usize),
            Member(usize),
        }
        let mut first: Vec<C> = (0..m.nodes.len()).map(C::Nd).collect();
        first.extend((0..m.members.len()).map(C::Member));
        let mut tags: Vec<C> = (0..m.tags.len()).map(C::Tag).collect();
        let children: Vec<C> = match if self.fancy == 0 { 0 } else { self.rng.below(4) } {
            0 | 1 => {
                first.extend(tags);
                first
            }
            2 => {
                self.note("child order");
                tags.extend(first);
                tags
            }
            _ => {
                self.note("mixed children");
                let mut all = vec![];
                let (mut a, mut b) = (first.into_iter().peekable(), tags.into_iter().peekable());
                while a.peek().is_some() || b.peek().is_some() {
                    if b.peek().is_none() || (a.peek().is_some() && self.rng.bool()) {
                        all.extend(a.next());
                    } else {
                        all.extend(b.next());
                    }
                }
                all
            }
        };
        self.out.push('<');
        self.out.push_str(m.kind.name());
        self.attrs(a);
        if children.is_empty() && !self.yes(1, 3) {
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');
        for c in children {
            self.nl();
            self.misc(true);
            match c {
                C::Tag(i) => {
                    let (k, v) = &m.tags[i];
                    let mut a = vec![("k", k.clone()), ("v", v.clone())];
                    if let Some(name) = spoiled.tags.get(&i) {
                        a.retain(|x| x.0 != *name);
                    }
                    self.leaf("tag", a)
                }
                C::Nd(i) => {
                    let a = match spoiled.nodes.get(&i) {
                        Some(bad) => bad.iter().map(|b| ("ref", b.clone())).collect(),
                        None => vec![("ref", m.nodes[i].to_string())],
                    };
                    self.leaf("nd", a)
                }
                C::Member(i) => {
                    let (t, id, r) = &m.members[i];
                    let mut a = vec![
                        ("type", t.name().to_string()),
                        ("ref", id.to_string()),
                        ("role", r.clone()),
                    ];
                    if let Some((name, bad)) = spoiled.members.get(&i) {
                        a.retain(|x| x.0 != *name);
                        a.extend(bad.iter().map(|b| (*name, b.clone())));
                    }
                    self.leaf("member", a)
                }
            }
        }
        self.misc(true);
        self.nl();
        self.out.push_str("</");
        self.out.push_str(m.kind.name());
        self.out.push('>');
    }
    /// Make some values of this object unusable
    fn spoil(&mut self, m: &MObj, visible: Option<bool>, a: &mut Vec<(&'static str, String)>) -> Spoiled {
        let mut left = m.clone();
        let mut s = Spoiled::default();
        let mut what = vec![];
        let n = *self.rng.pick(&[1usize, 1, 1, 2, 4]);
        let mut put = |a: &mut Vec<(&'static str, String)>, k: &'static str, v: Option<String>| {
            what.push(match &v {
                Some(v) => format!("{}={:?}", k, v),
                None => format!("no {}", k),
            });
            a.retain(|x| x.0 != k);
            a.extend(v.map(|v| (k, v)));
        };
        while s.n < n {
            let bad = |rng: &mut Rng, of: &[&str]| Some(rng.pick(of).to_string());
            match self.rng.below(8) {
                0 => {
                    let v = bad(self.rng, NO_U32);
                    put(a, "version", v);
                    left.version = None;
                }
                1 => {
                    let v = bad(self.rng, NO_U32);
                    put(a, "changeset", v);
                    left.changeset = None;
                }
                2 => {
                    let v = bad(self.rng, NO_U32);
                    put(a, "uid", v);
                    left.uid = None;
                }
                3 if m.kind == Kind::Node => {
                    let which = self.rng.below(3);
                    for (i, k) in ["lat", "lon"].into_iter().enumerate() {
                        let v = if which == i || which == 2 {
                            if self.rng.chance(1, 3) {
                                None
                            } else {
                                bad(self.rng, NO_COORD)
                            }
                        } else {
                            Some(decimal(m.latlon.map_or(5, |l| if i == 0 { l.0 } else { l.1 })))
                        };
                        put(a, k, v);
                    }
                    left.latlon = None;
                }
                4 if !(m.deleted && visible == Some(false)) => {
                    let v = bad(self.rng, NO_BOOL);
                    put(a, "visible", v);
                }
                5 if !m.nodes.is_empty() => {
                    let i = self.rng.below(m.nodes.len());
                    let v = if self.rng.chance(1, 4) { None } else { bad(self.rng, NO_ID) };
                    let mut x = vec![];
                    put(&mut x, "ref", v.clone());
                    s.nodes.insert(i, v);
                }
                6 if !m.members.is_empty() => {
                    let i = self.rng.below(m.members.len());
                    let (k, of) = if self.rng.bool() { ("ref", NO_ID) } else { ("type", NO_TYPE) };
                    let v = if self.rng.chance(1, 4) { None } else { bad(self.rng, of) };
                    let mut x = vec![];
                    put(&mut x, k, v.clone());
                    s.members.insert(i, (k, v));
                }
                7 if !m.tags.is_empty() => {
                    let i = self.rng.below(m.tags.len());
                    let k = if self.rng.bool() { "k" } else { "v" };
                    let mut x = vec![];
                    put(&mut x, k, None);
                    s.tags.insert(i, k);
                }
                _ => continue,
            }
            s.n += 1;
        }
        fn without<T: Clone>(v: &[T], gone: impl Fn(usize) -> bool) -> Vec<T> {
            v.iter().enumerate().filter(|(i, _)| !gone(*i)).map(|(_, x)| x.clone()).collect()
        }
        left.nodes = without(&m.nodes, |i| s.nodes.contains_key(&i));
        left.members = without(&m.members, |i| s.members.contains_key(&i));
        left.tags = without(&m.tags, |i| s.tags.contains_key(&i));
        self.left.push((self.written - 1, left, what));
        s
    }
    /// The XML declaration and the root's start tag
    pub fn start(&mut self, root: &str) {
        if self.fancy > 0 && self.rng.chance(1, 12) {
            self.note("byte order mark");
            self.out.push('\u{feff}');
        }
        if self.fancy == 0 {
            self.out
                .push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        } else {
            let d = *self.rng.pick(&[
                "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n",
                "<?xml version='1.0' encoding='utf-8'?>\r\n",
                "<?xml version=\"1.0\"?>",
                "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n",
                "",
            ]);
            self.out.push_str(d);
            self.misc(false);
        }
        self.out.push('<');
        self.out.push_str(root);
        self.attrs(vec![
            ("version", "0.6".to_string()),
            ("generator", "test & <generator>".to_string()),
        ]);
        self.out.push('>');
    }
    pub fn end(&mut self, root: &str) {
        self.misc(true);
        self.nl();
        self.out.push_str("</");
        self.out.push_str(root);
        self.out.push('>');
        self.root_end = self.out.len();
        self.misc(false);
        if self.fancy == 0 {
            self.out.push('\n');
        } else if self.rng.bool() {
            self.out.push_str("\n");
        }
    }
    pub fn osm(&mut self, objs: &[MObj]) {
        self.start("osm");
        for m in objs {
            self.nl();
            self.misc(true);
            let v = if m.deleted {
                Some(false)
            } else if self.rng.bool() {
                Some(true)
            } else {
                None
            };
            self.object(m, v);
        }
        self.end("osm");
    }
    /// `objs` go into sections; what the document says then is returned
    pub fn osc(&mut self, objs: &[MObj]) -> Vec<MObj> {
        self.start("osmChange");
        let mut said = vec![];
        let mut i = 0;
        while i < objs.len() || self.rng.chance(1, 6) {
            let section = *self.rng.pick(&["create", "modify", "delete"]);
            let n = match self.rng.below(4) {
                0 => 0,
                1 => 1,
                _ => self.rng.range(1, 6) as usize,
            }
            .min(objs.len() - i);
            self.nl();
            self.misc(true);
            if n == 0 {
                self.note("empty sections");
                self.leaf(section, vec![]);
                continue;
            }
            self.out.push('<');
            self.out.push_str(section);
            self.attrs(vec![]);
            self.out.push('>');
            for m in &objs[i..i + n] {
                self.nl();
                self.misc(true);
                let mut m = m.clone();
                let v = if m.deleted {
                    Some(false)
                } else if self.rng.bool() {
                    Some(true)
                } else {
                    None
                };
                if section == "delete" {
                    self.note("deletions");
                    m.deleted = true;
                    // deletions are often short
                    if self.rng.chance(1, 3) {
                        m.latlon = None;
                        m.tags.clear();
                        m.nodes.clear();
                        m.members.clear();
                    }
                }
                self.object(&m, v);
                said.push(m);
            }
            i += n;
            self.misc(true);
            self.nl();
            self.out.push_str("</");
            self.out.push_str(section);
            self.out.push('>');
        }
        self.end("osmChange");
        said
    }

    pub fn changesets(&mut self, cs: &[MCs]) {
        self.start("osm");
        if self.yes(1, 2) {
            self.nl();
            self.out
                .push_str("<bound box=\"-90,-180,90,180\" origin=\"http://www.openstreetmap.org/\"/>");
        }
        for c in cs {
            self.nl();
            self.misc(true);
            let start = self.out.len();
            self.changeset(c);
            self.spans.push((start, self.out.len()));
        }
        self.end("osm");
    }

    fn discussion(&mut self) {
        self.note("discussions");
        self.nl();
        self.out.push_str("<discussion>");
        for _ in 0..self.rng.range(0, 3) {
            let user = gen::string(self.rng, gen::Chars::Xml);
            self.out.push_str("<comment");
            let id = self.rng.range(1, 99999).to_string();
            let mut a = vec![
                ("uid", self.rng.range(1, 99999).to_string()),
                ("user", user),
                ("date", "2019-01-01T00:00:00Z".to_string()),
            ];
            if self.rng.bool() {
                a.push(("id", id));
            }
            self.attrs(a);
            self.out.push_str("><text>");
            let t = *self.rng.pick(&[
                "Hello",
                "a &lt;b&gt; &amp; \"c\" 'd' &#10; é",
                "<![CDATA[<tag k=\"x\" v=\"y\"/> </changeset>]]>",
                "",
                "multi\nline\r\ntext",
            ]);
            self.out.push_str(t);
            self.out.push_str("</text></comment>");
        }
        self.out.push_str("</discussion>");
    }

    pub fn changeset(&mut self, c: &MCs) {
        let mut a: Vec<(&str, String)> = vec![
            ("id", c.id.to_string()),
            ("created_at", c.created.clone()),
            ("open", c.open.to_string()),
            ("num_changes", c.num_changes.to_string()),
            ("comments_count", c.comments_count.to_string()),
        ];
        if let Some(x) = &c.closed {
            a.push(("closed_at", x.clone()));
        }
        if let Some(x) = c.uid {
            a.push(("uid", x.to_string()));
        }
        if let Some(x) = &c.user {
            a.push(("user", x.clone()));
        }
        if self.rng.bool() {
            for k in ["min_lat", "min_lon", "max_lat", "max_lon"] {
                a.push((k, decimal(gen::coord(self.rng))));
            }
        }
        self.out.push_str("<changeset");
        self.attrs(a);
        let discussion = self.yes(1, 3);
        if c.tags.is_empty() && !discussion && !self.yes(1, 3) {
            self.note("self-closing");
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');
        if discussion && self.rng.bool() {
            self.discussion();
        }
        for (k, v) in &c.tags {
            self.nl();
            self.misc(true);
            self.leaf("tag", vec![("k", k.clone()), ("v", v.clone())]);
        }
        if discussion && self.rng.bool() {
            self.discussion();
        }
        self.misc(true);
        self.nl();
        self.out.push_str("</changeset>");
    }
}

pub fn gen_changeset(rng: &mut Rng, id: u32) -> MCs {
    let cfg = Cfg {
        dup_keys: false,
        ..Cfg::xml()
    };
    let open = rng.chance(1, 4);
    let ts = |rng: &mut Rng| {
        let t = gen::epoch(rng, cfg.ts_range);
        if rng.chance(1, 6) {
            gen::iso_with_offset(rng, t)
        } else {
            crate::time::iso_utc(t)
        }
    };
    MCs {
        id,
        created: ts(rng),
        closed: if open && rng.chance(9, 10) || rng.chance(1, 8) {
            None
        } else {
            Some(ts(rng))
        },
        open,
        uid: if rng.chance(3, 4) {
            Some(gen::i64_edge(rng, i64::MAX))
        } else {
            None
        },
        user: if rng.chance(3, 4) {
            Some(gen::string(rng, gen::Chars::Xml))
        } else {
            None
        },
        num_changes: gen::i64_edge(rng, i64::MAX).unsigned_abs(),
        comments_count: gen::i64_edge(rng, i64::MAX).unsigned_abs(),
        tags: gen::tags(rng, &cfg),
    }
}

pub fn gen_changesets(rng: &mut Rng, max: usize) -> Vec<MCs> {
    let n = match rng.below(6) {
        0 => rng.below(2),
        1..=4 => rng.range(1, 8) as usize,
        _ => rng.range(1, 30) as usize,
    }
    .min(max);
    let mut id = 0u32;
    let mut v = vec![];
    for _ in 0..n {
        id = match rng.below(5) {
            0 => gen::u32_edge(rng, false),
            _ => id.wrapping_add(rng.range(1, 5) as u32),
        };
        if v.iter().any(|c: &MCs| c.id == id) {
            continue;
        }
        v.push(gen_changeset(rng, id));
    }
    v
}
