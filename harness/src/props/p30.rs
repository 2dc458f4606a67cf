//! P30: values which are serialized with serde.

use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use osmio::prelude::*;
use osmio::{Lat, Lon, TimestampFormat};
use serde_json::json;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
    Prop {
        id: "P30",
        level: "exploration",
        rule: "Coordinates (edges, random, a window around zero and the ends), timestamps of both forms (any text, any epoch second) and kinds of objects are serialized to JSON text, bytes, indented text and a JSON value, alone, in options, lists, tuples and maps, and deserialized from each again, also after passing through the untyped value; the result must be the very same value. JSON of other values and damaged text must be refused or give a value which survives as well (a whole number no other number), without panic. Distinct by value; all are non-trivial.",
        assumptions: &["the format is JSON"],
        legs: vec![
            leg("coordinates", 9600, 96000, coordinates),
            leg("timestamps", 19200, 192000, timestamps),
            leg("kinds", 240, 2400, kinds),
            leg("foreign", 19200, 192000, foreign),
        ],
        required: &["coordinates", "timestamps as text", "timestamps as epoch", "kinds", "refused", "accepted"],
        probes: vec![],
    }
}

/// As text, bytes, indented, a value; and back
macro_rules! trips {
    ($t:ty, $x:expr, $same:expr) => {{
        let x: &$t = $x;
        let same = $same;
        let r: Result<(), String> = (|| {
            let e = |how: &str| {
                let how = how.to_string();
                move |e: serde_json::Error| format!("{}: {}", how, e)
            };
            let s = serde_json::to_string(x).map_err(e("to text"))?;
            let b = serde_json::to_vec(x).map_err(e("to bytes"))?;
            let p = serde_json::to_string_pretty(x).map_err(e("to indented text"))?;
            let v = serde_json::to_value(x).map_err(e("to a value"))?;
            let backs: Vec<(&str, $t)> = vec![
                ("text", serde_json::from_str(&s).map_err(e(&format!("from text {}", short(&s))))?),
                ("bytes", serde_json::from_slice(&b).map_err(e("from bytes"))?),
                ("stream", serde_json::from_reader(&b[..]).map_err(e("from a stream"))?),
                ("indented text", serde_json::from_str(&p).map_err(e("from indented text"))?),
                ("value", serde_json::from_value(v.clone()).map_err(e(&format!("from value {}", v)))?),
                ("value, as text", serde_json::from_str(&v.to_string()).map_err(e("from a value's text"))?),
            ];
            for (how, back) in &backs {
                if !same(x, back) {
                    return Err(format!("as {} ({}) and back it is {}", how, short(&s), short(back)));
                }
            }
            Ok(())
        })();
        r.map_err(|e| format!("{} {}: {}", stringify!($t), short(x), e))
    }};
}

fn coordinates(cx: &mut Cx) -> Result<(), String> {
    for i in 0..100i64 {
        let n = match i % 4 {
            0 => gen::coord(&mut cx.rng),
            1 => cx.rng.u32() as i32,
            2 => (cx.idx as i64 * 25 + i / 4 - 30_000) as i32,
            _ => {
                let d = cx.rng.below(1000) as i32;
                *cx.rng.pick(&[i32::MAX - d, i32::MIN + d, 900_000_000 - d, -1_800_000_000 + d])
            }
        };
        let other = gen::coord(&mut cx.rng);
        let (lat, lon) = (Lat::from_inner(n), Lon::from_inner(n));
        must("serialization", || -> Result<(), String> {
            trips!(Lat, &lat, |a: &Lat, b: &Lat| a.inner() == b.inner())?;
            trips!(Lon, &lon, |a: &Lon, b: &Lon| a.inner() == b.inner())?;
            let pair = Some((lat, Lon::from_inner(other)));
            trips!(Option<(Lat, Lon)>, &pair, |a: &Option<(Lat, Lon)>, b: &Option<(Lat, Lon)>| {
                a.map(|x| (x.0.inner(), x.1.inner())) == b.map(|x| (x.0.inner(), x.1.inner()))
            })?;
            let list = vec![Lat::from_inner(other), lat];
            trips!(Vec<Lat>, &list, |a: &Vec<Lat>, b: &Vec<Lat>| a
                .iter()
                .map(|x| x.inner())
                .eq(b.iter().map(|x| x.inner())))?;
            Ok(())
        })??;
        cx.seen(n as u64);
    }
    cx.count("coordinates", 100);
    cx.evals(100);
    Ok(())
}

fn same_ts(a: &TimestampFormat, b: &TimestampFormat) -> bool {
    Ts::of(a) == Ts::of(b)
}

fn any_ts(rng: &mut Rng) -> Ts {
    match rng.below(8) {
        0 => Ts::Epoch(rng.u64() as i64),
        1 => Ts::Epoch(*rng.pick(&[0, -1, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, u32::MAX as i64])),
        2 => Ts::Iso(gen::string(rng, Cfg::any().chars)),
        3 => {
            let t = gen::epoch(rng, (crate::time::MIN_EPOCH, crate::time::MAX_EPOCH));
            Ts::Iso(crate::time::iso_utc(t).replace('Z', ".123456789Z"))
        }
        _ => gen::timestamp(rng, &Cfg::any()),
    }
}

fn timestamps(cx: &mut Cx) -> Result<(), String> {
    for _ in 0..20 {
        let t = any_ts(&mut cx.rng);
        cx.count(if matches!(t, Ts::Iso(_)) { "timestamps as text" } else { "timestamps as epoch" }, 1);
        let o = t.to_osm();
        let p = any_ts(&mut cx.rng).to_osm();
        must("serialization", || -> Result<(), String> {
            trips!(TimestampFormat, &o, same_ts)?;
            let l = vec![Some(o.clone()), None, Some(p)];
            trips!(Vec<Option<TimestampFormat>>, &l, |a: &Vec<Option<TimestampFormat>>,
                                                      b: &Vec<Option<TimestampFormat>>| {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.as_ref().map(Ts::of) == b.as_ref().map(Ts::of))
            })
        })??;
        cx.seen_of(&t);
        cx.sample(|| json!({"timestamp": short(&t)}));
    }
    cx.evals(20);
    Ok(())
}

fn kinds(cx: &mut Cx) -> Result<(), String> {
    use OSMObjectType::*;
    let all = [Node, Way, Relation];
    let mut l = vec![];
    for _ in 0..cx.rng.below(10) {
        l.push(*cx.rng.pick(&all));
    }
    must("serialization", || -> Result<(), String> {
        for k in all {
            trips!(OSMObjectType, &k, |a: &OSMObjectType, b: &OSMObjectType| a == b)?;
        }
        trips!(Vec<OSMObjectType>, &l, |a: &Vec<OSMObjectType>, b: &Vec<OSMObjectType>| a == b)?;
        let m: BTreeMap<OSMObjectType, Vec<i64>> = l.iter().map(|k| (*k, vec![cx.rng.u64() as i64])).collect();
        trips!(BTreeMap<OSMObjectType, Vec<i64>>, &m, |a: &BTreeMap<OSMObjectType, Vec<i64>>,
                                                        b: &BTreeMap<OSMObjectType, Vec<i64>>| a == b)?;
        let member = l.iter().map(|k| (*k, 7i64, "role".to_string())).collect::<Vec<_>>();
        trips!(Vec<(OSMObjectType, i64, String)>, &member, |a: &Vec<_>, b: &Vec<_>| a == b)
    })??;
    cx.count("kinds", 3 + l.len() as u64);
    cx.seen_of(&l.iter().map(|k| k.name_short()).collect::<Vec<_>>());
    cx.evals(1);
    Ok(())
}

/// What did not come from here
fn foreign(cx: &mut Cx) -> Result<(), String> {
    let numbers = [
        "0", "-0", "1.5", "1e3", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808",
        "-9223372036854775809", "1e400", "null", "true", "\"1\"", "\"\"", "[]", "[1]", "{}", "{\"0\":1}", "\"Node\"", "\"node\"", "\"n\"",
        "{\"Node\":null}", "{\"EpochNumber\":1}", "{\"EpochNumber\":1.5}", "{\"EpochNumber\":9223372036854775808}", "{\"EpochNumber\":\"1\"}",
        "{\"ISOString\":1}", "{\"ISOString\":\"x\"}", "{\"ISOString\":null}", "{\"ISOString\":\"a\",\"EpochNumber\":1}", "{\"X\":1}", "",
    ];
    let mut s = match cx.rng.below(3) {
        0 => cx.rng.pick(&numbers).to_string(),
        1 => cx.rng.range(-(1 << 40), 1 << 40).to_string(),
        _ => serde_json::to_string(&any_ts(&mut cx.rng).to_osm()).unwrap(),
    };
    if cx.rng.chance(1, 3) && !s.is_empty() {
        let mut b = s.into_bytes();
        let i = cx.rng.below(b.len());
        match cx.rng.below(3) {
            0 => b.truncate(i),
            1 => b[i] = cx.rng.u32() as u8,
            _ => b.insert(i, *cx.rng.pick(b"\"\\{}[]0,:")),
        }
        s = String::from_utf8_lossy(&b).into_owned();
    }
    let want: Option<serde_json::Value> = serde_json::from_str(&s).ok();
    let (mut ok, mut bad) = (0, 0);
    macro_rules! one {
        ($t:ty) => {{
            let r = must("deserialization", || {
                serde_json::from_str::<$t>(&s).map(|x| {
                    let v = serde_json::to_value(&x).map_err(|e| e.to_string())?;
                    let again: $t = serde_json::from_value(v.clone()).map_err(|e| format!("{}: {}", v, e))?;
                    let w = serde_json::to_value(&again).map_err(|e| e.to_string())?;
                    Ok::<_, String>((v, w))
                })
            })?;
            match r {
                Err(_) => bad += 1,
                Ok(r) => {
                    ok += 1;
                    let (v, w) = r.map_err(|e| format!("{} of {}: {}", stringify!($t), s, e))?;
                    let whole = |v: Option<&serde_json::Value>| v.is_some_and(|v| v.is_i64() || v.is_u64());
                    if v != w || whole(want.as_ref()) && whole(Some(&v)) && want.as_ref() != Some(&v) {
                        return Err(format!("{} of {} is {}, and that is {}", stringify!($t), s, v, w));
                    }
                }
            }
        }};
    }
    one!(Lat);
    one!(Lon);
    one!(OSMObjectType);
    one!(TimestampFormat);
    cx.count("accepted", ok);
    cx.count("refused", bad);
    cx.seen_of(&s);
    cx.evals(4);
    Ok(())
}
