//! P03: the written documents, as an independent parser sees them.

use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rd::Rk;
use crate::runner::*;
use crate::xmlp::{self, El};
use osmio::xml::XMLWriter;
use osmio::OSMWriter;
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "P03",
        level: "exploration",
        rule: "Random objects and headers with hostile strings are written by both writers; the bytes are parsed by the harness's own strict XML 1.0 parser and every element, attribute and child compared with the model, in both directions. Distinct by hash of document; non-trivial: at least one object or header.",
        assumptions: &[
            "strings contain only characters XML 1.0 can represent, header names are XML names",
            "the XML writer is finished once (see the finding of P13)",
        ],
        legs: vec![
            leg("xml", 40000, 300000, |cx| case(cx, Rk::Xml)),
            leg("osc", 32000, 300000, |cx| case(cx, Rk::Osc)),
            leg("headers", 12000, 60000, headers),
            leg("coordinates", 2400, 6000, coordinates),
            leg("huge", 12, 120, huge),
        ],
        required: &["elements checked", "headers checked"],
        probes: vec![],
    }
}

/// Exact decimal to units of 1e-7, if it is one within a hundredth of a unit
pub fn exact_decimal(s: &str) -> Option<i64> {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s),
    };
    let (i, f) = d.split_once('.').unwrap_or((d, ""));
    if i.is_empty() && f.is_empty()
        || !i.bytes().all(|c| c.is_ascii_digit())
        || !f.bytes().all(|c| c.is_ascii_digit())
        || (d.contains('.') && f.is_empty())
        || i.len() > 12
    {
        return None;
    }
    let i: i128 = if i.is_empty() { 0 } else { i.parse().ok()? };
    let mut f = f.to_string();
    f.truncate(20);
    while f.len() < 20 {
        f.push('0');
    }
    let v = i * 10i128.pow(20) + f.parse::<i128>().ok()?;
    let unit = 10i128.pow(13);
    let n = (v + unit / 2) / unit;
    if (v - n * unit).abs() * 100 >= unit {
        return None;
    }
    Some(if neg { -n as i64 } else { n as i64 })
}

fn attrs_exact(el: &El, want: &[(&str, Option<String>)], what: &str) -> Result<(), String> {
    for (k, v) in want {
        let got = el.attr(k);
        if got != v.as_deref() {
            return Err(format!(
                "{}: attribute {} should be {} but is {}",
                what,
                k,
                short(v),
                short(&got)
            ));
        }
    }
    for (k, _) in &el.attrs {
        if !want.iter().any(|(n, _)| n == k) {
            return Err(format!("{}: unexpected attribute {}", what, k));
        }
    }
    Ok(())
}

pub fn check_element(m: &MObj, el: &El) -> Result<(), String> {
    let what = format!("{} {}", m.kind.name(), m.id);
    if el.name != m.kind.name() {
        return Err(format!("{}: element is <{}>", what, el.name));
    }
    if !el.text.trim_matches([' ', '\n', '\t', '\r']).is_empty() {
        return Err(format!("{}: text {:?}", what, el.text));
    }
    // visible may be left out if true
    let visible = match el.attr("visible") {
        None if !m.deleted => None,
        _ => Some((!m.deleted).to_string()),
    };
    // the instant, in UTC; text which is no timestamp as it is
    let ts = match (&m.ts, el.attr("timestamp")) {
        (None, None) => None,
        (Some(Ts::Epoch(t)), Some(s)) => {
            if crate::time::parse_rfc3339(s) != Some(*t) || !s.ends_with('Z') {
                return Err(format!(
                    "{}: timestamp should be {} but is {:?}",
                    what,
                    crate::time::iso_utc(*t),
                    s
                ));
            }
            Some(s.to_string())
        }
        (Some(t @ Ts::Iso(_)), Some(s)) => {
            if !t.same(&Ts::Iso(s.to_string())) {
                return Err(format!("{}: timestamp should be {:?} but is {:?}", what, t, s));
            }
            Some(s.to_string())
        }
        (a, b) => return Err(format!("{}: timestamp should be {:?} but is {:?}", what, a, b)),
    };
    let mut coord = |k: &str, v: Option<i32>| -> Result<Option<String>, String> {
        match (v, el.attr(k)) {
            (None, None) => Ok(None),
            (Some(v), Some(s)) if exact_decimal(s) == Some(v as i64) => Ok(Some(s.to_string())),
            (v, s) => Err(format!(
                "{}: {} should be {:?} (in 1e-7 degrees) but is {:?}",
                what, k, v, s
            )),
        }
    };
    let lat = coord("lat", m.latlon.map(|x| x.0))?;
    let lon = coord("lon", m.latlon.map(|x| x.1))?;
    attrs_exact(
        el,
        &[
            ("id", Some(m.id.to_string())),
            ("visible", visible),
            ("version", m.version.map(|v| v.to_string())),
            ("changeset", m.changeset.map(|v| v.to_string())),
            ("uid", m.uid.map(|v| v.to_string())),
            ("user", m.user.clone()),
            ("timestamp", ts),
            ("lat", lat),
            ("lon", lon),
        ],
        &what,
    )?;
    let (mut tags, mut nds, mut members) = (vec![], vec![], vec![]);
    for c in &el.children {
        if !c.children.is_empty() || !c.text.trim().is_empty() {
            return Err(format!("{}: <{}> is not empty", what, c.name));
        }
        match c.name.as_str() {
            "tag" => tags.push(c),
            "nd" => nds.push(c),
            "member" => members.push(c),
            x => return Err(format!("{}: unexpected <{}>", what, x)),
        }
    }
    let same = |n: usize, want: usize, name: &str| {
        if n == want {
            Ok(())
        } else {
            Err(format!("{}: {} <{}> instead of {}", what, n, name, want))
        }
    };
    same(tags.len(), m.tags.len(), "tag")?;
    same(nds.len(), m.nodes.len(), "nd")?;
    same(members.len(), m.members.len(), "member")?;
    for (c, (k, v)) in tags.iter().zip(&m.tags) {
        attrs_exact(c, &[("k", Some(k.clone())), ("v", Some(v.clone()))], &what)?;
    }
    for (c, n) in nds.iter().zip(&m.nodes) {
        attrs_exact(c, &[("ref", Some(n.to_string()))], &what)?;
    }
    for (c, (t, n, r)) in members.iter().zip(&m.members) {
        attrs_exact(
            c,
            &[
                ("type", Some(t.name().to_string())),
                ("ref", Some(n.to_string())),
                ("role", Some(r.clone())),
            ],
            &what,
        )?;
    }
    Ok(())
}

pub fn check_document(
    kind: Rk,
    bytes: &[u8],
    models: &[MObj],
    headers: &[(String, String)],
) -> Result<(), String> {
    let root = xmlp::parse(bytes)?;
    let name = if kind == Rk::Xml { "osm" } else { "osmChange" };
    if root.name != name {
        return Err(format!("root is <{}>", root.name));
    }
    let mut want: Vec<(&str, Option<String>)> = vec![
        ("version", Some("0.6".to_string())),
        ("generator", root.attr("generator").map(|s| s.to_string())),
    ];
    for (k, v) in headers {
        want.retain(|(n, _)| n != k);
        want.push((k, Some(v.clone())));
    }
    attrs_exact(&root, &want, "root")?;
    if root.attr("generator").is_none() {
        return Err("no generator".into());
    }
    let els: Vec<&El> = if kind == Rk::Xml {
        root.children.iter().collect()
    } else {
        let mut v = vec![];
        for s in &root.children {
            if !matches!(s.name.as_str(), "create" | "modify" | "delete") {
                return Err(format!("unexpected section <{}>", s.name));
            }
            if !s.text.trim().is_empty() || !s.attrs.is_empty() {
                return Err(format!("section <{}> with text or attributes", s.name));
            }
            for c in &s.children {
                v.push(c);
            }
        }
        v
    };
    if !root.text.trim().is_empty() {
        return Err(format!("text in the root: {:?}", root.text));
    }
    for (m, el) in models.iter().zip(&els) {
        check_element(m, el)?;
    }
    if models.len() != els.len() {
        return Err(format!(
            "{} elements for {} objects",
            els.len(),
            models.len()
        ));
    }
    Ok(())
}

fn case(cx: &mut Cx, kind: Rk) -> Result<(), String> {
    let models = xml_objects(&mut cx.rng, 10);
    run(cx, kind, &models)
}

fn run(cx: &mut Cx, kind: Rk, models: &[MObj]) -> Result<(), String> {
    let objs = build_all(&mut cx.rng, models);
    let bytes = super::p01::write(cx, kind, &objs)?;
    count_objects(cx, models);
    cx.count("elements checked", models.len() as u64);
    if !models.is_empty() {
        cx.seen(crate::rng::hash_bytes(&bytes));
    }
    cx.sample(|| json!({"document": text(&bytes)}));
    check_document(kind, &bytes, models, &[])
        .map_err(|e| format!("{}; document: {}", e, short(&text(&bytes))))
}

/// Extreme in one way
fn huge(cx: &mut Cx) -> Result<(), String> {
    let which = cx.idx as usize % gen::HUGE;
    let (what, m) = gen::huge(&mut cx.rng, &Cfg::xml(), which);
    cx.count(&format!("extreme: {}", what), 1);
    let k = if cx.rng.bool() { Rk::Xml } else { Rk::Osc };
    run(cx, k, &m)
}

fn headers(cx: &mut Cx) -> Result<(), String> {
    let names = [
        "copyright",
        "attribution",
        "license",
        "timestamp",
        "upload",
        "xml_x",
        "a.b-c",
        "é",
        "_",
        "generator",
    ];
    let mut hs: Vec<(String, String)> = vec![];
    let sink = crate::faults::Sink::new();
    let mut calls = vec![];
    for _ in 0..cx.rng.range(1, 6) {
        let k = cx.rng.pick(&names).to_string();
        let v = gen::string(&mut cx.rng, gen::Chars::Xml);
        calls.push((k.clone(), v.clone()));
        hs.retain(|h| h.0 != k);
        hs.push((k, v));
    }
    let models = if cx.rng.bool() {
        vec![]
    } else {
        let mut cfg = Cfg::xml();
        cfg.big = false;
        gen::objects(&mut cx.rng, &cfg, 3)
    };
    must("writing", || -> Result<(), String> {
        let mut w = XMLWriter::new(sink.clone());
        for (k, v) in &calls {
            w.set_header((k, v)).map_err(|e| e.to_string())?;
        }
        for m in &models {
            w.write_obj(&build_string(m)).map_err(|e| e.to_string())?;
        }
        drop(w);
        Ok(())
    })??;
    let bytes = sink.data();
    cx.count("headers checked", hs.len() as u64);
    cx.seen(crate::rng::hash_bytes(&bytes));
    cx.sample(|| json!({"headers": calls, "document": text(&bytes)}));
    check_document(Rk::Xml, &bytes, &models, &hs)
        .map_err(|e| format!("{}; document: {}", e, short(&text(&bytes))))
}

/// Nodes at many places
fn coordinates(cx: &mut Cx) -> Result<(), String> {
    let models: Vec<MObj> = (0..300)
        .map(|i| {
            let mut m = MObj::new(Kind::Node, i);
            m.latlon = Some((gen::coord(&mut cx.rng), gen::coord(&mut cx.rng)));
            m.ts = Some(Ts::Epoch(gen::epoch(
                &mut cx.rng,
                (crate::time::MIN_EPOCH, crate::time::MAX_EPOCH),
            )));
            m
        })
        .collect();
    run(cx, *[Rk::Xml, Rk::Osc].get(cx.idx as usize % 2).unwrap(), &models)
}
