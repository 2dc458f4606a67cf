//! P16: timestamps.

use crate::gen;
use crate::rng::Rng;
use crate::runner::*;
use crate::time::{self, MAX_EPOCH, MIN_EPOCH};
use osmio::TimestampFormat;
use serde_json::json;
use std::cmp::Ordering;

pub fn prop() -> Prop {
    Prop {
        id: "P16",
        level: "exploration",
        rule: "Epoch seconds over years 0000-9999 (random, edges, every day boundary in samples) go to text and back and are compared with the harness's own calendar; RFC 3339 texts with random offsets and fractions are parsed; pairs in all mixtures of forms are compared with the exact instants; texts which are certainly no timestamps must be refused. Distinct by timestamp, text or pair; all are non-trivial.",
        assumptions: &["fractions of at most 9 digits", "no leap seconds"],
        legs: vec![
            leg("epochs", 5600, 60000, epochs),
            leg("days", 2928, 36600, days),
            leg("texts", 5600, 60000, texts),
            leg("comparisons", 7200, 80000, comparisons),
            leg("no timestamps", 2400, 20000, no_timestamps),
        ],
        required: &["epochs", "texts", "comparisons", "refused", "before 1970", "after 2106"],
        probes: vec![],
    }
}

fn one(t: i64) -> Result<(), String> {
    let f = TimestampFormat::EpochNumber(t);
    let want = time::iso_utc(t);
    let s = f.to_iso_string();
    if s != want || f.to_string() != want {
        return Err(format!("{} should be {} but is {:?}, {:?}", t, want, s, f.to_string()));
    }
    if f.to_epoch_number() != t {
        return Err(format!("{} as epoch number is {}", t, f.to_epoch_number()));
    }
    let back: TimestampFormat = s.parse().map_err(|e| format!("{:?} is refused: {}", s, e))?;
    if back.to_epoch_number() != t {
        return Err(format!("{} to {} and back is {}", t, s, back.to_epoch_number()));
    }
    let i = TimestampFormat::ISOString(s.clone());
    if i.to_epoch_number() != t {
        return Err(format!("{} as epoch is {}", s, i.to_epoch_number()));
    }
    if i.to_iso_string() != s {
        return Err(format!("{:?} as ISO text is {:?}", s, i.to_iso_string()));
    }
    if i != f || f != i {
        return Err(format!("{} and {} are not equal", t, s));
    }
    let from: TimestampFormat = t.into();
    if from.to_epoch_number() != t {
        return Err(format!("{} converted is {:?}", t, from));
    }
    if let Ok(n) = i32::try_from(t) {
        if TimestampFormat::from(n).to_epoch_number() != t {
            return Err(format!("{} converted from i32 is wrong", t));
        }
    }
    if let Ok(n) = u32::try_from(t) {
        if TimestampFormat::from(n).to_epoch_number() != t {
            return Err(format!("{} converted from u32 is wrong", t));
        }
    }
    Ok(())
}

fn note(cx: &mut Cx, t: i64) {
    cx.count("epochs", 1);
    cx.count("before 1970", (t < 0) as u64);
    cx.count("after 2038", (t > i32::MAX as i64) as u64);
    cx.count("after 2106", (t > u32::MAX as i64) as u64);
    cx.seen(t as u64);
}

fn epochs(cx: &mut Cx) -> Result<(), String> {
    for _ in 0..300 {
        let t = gen::epoch(&mut cx.rng, (MIN_EPOCH, MAX_EPOCH));
        must("conversion", || one(t))??;
        note(cx, t);
        cx.sample(|| json!({"epoch": t, "text": time::iso_utc(t)}));
    }
    cx.evals(300);
    Ok(())
}

/// The first and last second of days
fn days(cx: &mut Cx) -> Result<(), String> {
    let total = (MAX_EPOCH - MIN_EPOCH + 1) / 86400;
    let n = if cx.thorough { 36_600 } else { 366 };
    let mut d = cx.idx as i64;
    while d < total {
        let t = MIN_EPOCH + d * 86400;
        for t in [t, t + 86399] {
            must("conversion", || one(t))??;
            note(cx, t);
        }
        cx.evals(2);
        d += if cx.thorough { n } else { n * 11 };
    }
    Ok(())
}

/// A text, with the instant in nanoseconds
fn text(rng: &mut Rng) -> (String, i128) {
    let t = gen::epoch(rng, (MIN_EPOCH, MAX_EPOCH));
    let mut s = gen::iso_with_offset(rng, t);
    if rng.chance(1, 8) {
        if let Some(x) = s.strip_suffix('Z') {
            s = x.to_string() + rng.pick(&["+00:00", "-00:00"]);
        }
    }
    let mut nanos = 0i128;
    if rng.chance(1, 3) {
        let n = 1 + rng.below(9);
        let digits: String = match rng.below(4) {
            0 => "0".repeat(n),
            1 => "9".repeat(n),
            2 => "5".to_string(),
            _ => (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect(),
        };
        let mut d = digits.clone();
        while d.len() < 9 {
            d.push('0');
        }
        nanos = d.parse().unwrap();
        s.insert_str(19, &format!(".{}", digits));
    }
    (s, t as i128 * 1_000_000_000 + nanos)
}

fn texts(cx: &mut Cx) -> Result<(), String> {
    for _ in 0..200 {
        let (s, ns) = text(&mut cx.rng);
        let t = ns.div_euclid(1_000_000_000) as i64;
        must("parsing", || -> Result<(), String> {
            let p: TimestampFormat = s.parse().map_err(|e| format!("{:?} is refused: {}", s, e))?;
            if p.to_epoch_number() != t {
                return Err(format!("{:?} parsed is {} and should be {}", s, p.to_epoch_number(), t));
            }
            if p.to_iso_string() != time::iso_utc(t) && p.to_iso_string() != s {
                return Err(format!("{:?} parsed is {}", s, p.to_iso_string()));
            }
            let i = TimestampFormat::ISOString(s.clone());
            if i.to_epoch_number() != t {
                return Err(format!("{:?} as epoch is {} and should be {}", s, i.to_epoch_number(), t));
            }
            Ok(())
        })??;
        cx.count("texts", 1);
        cx.seen(crate::rng::hash_bytes(s.as_bytes()));
        cx.sample(|| json!({"text": s, "epoch": t}));
    }
    cx.evals(200);
    Ok(())
}

fn any_form(rng: &mut Rng, near: Option<i128>) -> (TimestampFormat, i128) {
    match (rng.below(3), near) {
        (0, _) => {
            let (s, ns) = text(rng);
            (TimestampFormat::ISOString(s), ns)
        }
        (k, Some(ns)) => {
            // the same or a neighbouring instant in another form
            let t = (ns.div_euclid(1_000_000_000) as i64 + *rng.pick(&[0, 0, 0, 1, -1]))
                .clamp(MIN_EPOCH, MAX_EPOCH);
            if k == 1 {
                (TimestampFormat::EpochNumber(t), t as i128 * 1_000_000_000)
            } else {
                let s = gen::iso_with_offset(rng, t);
                (TimestampFormat::ISOString(s), t as i128 * 1_000_000_000)
            }
        }
        _ => {
            let t = gen::epoch(rng, (MIN_EPOCH, MAX_EPOCH));
            (TimestampFormat::EpochNumber(t), t as i128 * 1_000_000_000)
        }
    }
}

fn comparisons(cx: &mut Cx) -> Result<(), String> {
    for _ in 0..150 {
        let (a, x) = any_form(&mut cx.rng, None);
        let (b, y) = any_form(&mut cx.rng, Some(x));
        let want = x.cmp(&y);
        must("comparing", || -> Result<(), String> {
            let all = a.partial_cmp(&b) == Some(want)
                && b.partial_cmp(&a) == Some(want.reverse())
                && (a == b) == want.is_eq()
                && (b == a) == want.is_eq()
                && (a != b) == want.is_ne()
                && (a < b) == want.is_lt()
                && (a <= b) == want.is_le()
                && (a > b) == want.is_gt()
                && (a >= b) == want.is_ge()
                && a == a.clone();
            if !all {
                return Err(format!(
                    "{:?} and {:?} should compare {:?} but: {:?}, equal {}",
                    a,
                    b,
                    want,
                    a.partial_cmp(&b),
                    a == b
                ));
            }
            Ok(())
        })??;
        cx.count("comparisons", 1);
        cx.count("comparisons of equal instants", (want == Ordering::Equal) as u64);
        cx.seen_of(&(format!("{:?}{:?}", a, b)));
        cx.sample(|| json!({"a": format!("{:?}", a), "b": format!("{:?}", b), "ordering": format!("{:?}", want)}));
    }
    cx.evals(150);
    Ok(())
}

fn no_timestamps(cx: &mut Cx) -> Result<(), String> {
    let fixed = [
        "", "now", "0", "1577836800", "2020", "2020-01-01", "2020-01-01T00:00:00", "2020-13-01T00:00:00Z", "2020-00-10T00:00:00Z",
        "2020-02-30T00:00:00Z", "2021-02-29T00:00:00Z", "1900-02-29T00:00:00Z", "2020-01-00T00:00:00Z", "2020-01-32T00:00:00Z",
        "2020-01-01T24:00:00Z", "2020-01-01T25:00:00Z", "2020-01-01T00:60:00Z", "2020-01-01T00:00:61Z", "2020-01-01T00:00:00X",
        "2020-01-01T00:00:00ZZ", "2020-01-01T00:00:00Z!", "20-01-01T00:00:00Z", "2020/01/01T00:00:00Z", "2020-01-01T00:00Z",
        "T00:00:00Z", "-", "2020-01-01T00:00:00+1", "Wed, 01 Jan 2020 00:00:00 GMT", "２０２０-01-01T00:00:00Z", "é",
    ];
    let mut list: Vec<String> = fixed.iter().map(|s| s.to_string()).collect();
    for _ in 0..60 {
        let t = gen::epoch(&mut cx.rng, (MIN_EPOCH, MAX_EPOCH));
        let s = time::iso_utc(t);
        list.push(match cx.rng.below(6) {
            0 => {
                // a letter for a digit
                let at = *cx.rng.pick(&[0usize, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18]);
                let mut b = s.into_bytes();
                b[at] = *cx.rng.pick(b"xO-:?");
                String::from_utf8(b).unwrap()
            }
            1 => {
                // a field out of range
                let (at, v) = *cx.rng.pick(&[(5, "13"), (5, "00"), (5, "99"), (8, "00"), (8, "32"), (11, "24"), (14, "60"), (17, "61"), (17, "99")]);
                let mut s = s;
                s.replace_range(at..at + 2, v);
                s
            }
            2 => s[..cx.rng.below(s.len())].to_string(),
            3 => s + cx.rng.pick(&["Z", "x", "+00:00", "0"]),
            4 => {
                // no such day
                let y = &s[..4];
                format!("{}-{}T00:00:00Z", y, cx.rng.pick(&["02-30", "04-31", "06-31", "09-31", "11-31", "02-31"]))
            }
            _ => gen::string(&mut cx.rng, gen::Chars::Any),
        });
    }
    for s in &list {
        if time::parse_rfc3339(s).is_some() {
            continue;
        }
        must("parsing", || -> Result<(), String> {
            match s.parse::<TimestampFormat>() {
                Ok(x) => Err(format!("{:?} was parsed as {:?}", s, x)),
                Err(_) => Ok(()),
            }
        })??;
        cx.count("refused", 1);
        cx.seen(crate::rng::hash_bytes(s.as_bytes()));
    }
    cx.evals(list.len() as u64);
    Ok(())
}
