//! P15: coordinates.

use super::util::*;
use crate::gen;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use osmio::prelude::*;
use osmio::{Lat, Lon, ParseLatLonError};
use serde_json::json;

pub fn prop() -> Prop {
    Prop {
        id: "P15",
        level: "exploration",
        rule: "Blocks of 65536 consecutive internal values (thorough: all 2^32) go to degrees, text and back, for Lat and Lon; random and edge decimal texts, f64 and f32 values are converted and compared with exact integer arithmetic; bad texts, values and JSON must be refused, also through set_lat_lon of all node representations, with the old position checked. Distinct by input; all inputs are non-trivial.",
        assumptions: &[
            "a text or float whose exact value is within 1e-6 units of half-way may round to either neighbour",
        ],
        legs: vec![
            leg("blocks", 768, 65536, blocks),
            leg("text", 3200, 40000, texts),
            leg("floats", 3200, 40000, floats),
            leg("bad", 480, 2000, bad),
            leg("nodes", 20000, 200000, nodes),
            leg("order", 800, 5000, order),
        ],
        required: &["values round-tripped", "texts", "floats", "refused", "positions kept"],
        probes: vec![],
    }
}

/// What Lat and Lon have in common
trait Coord: Copy + PartialEq + Ord + std::fmt::Debug + std::fmt::Display + Sized
    + std::str::FromStr<Err = ParseLatLonError> + TryFrom<f64, Error = ParseLatLonError>
    + TryFrom<f32, Error = ParseLatLonError> + Into<f64>
{
    const NAME: &'static str;
    fn from_inner(i: i32) -> Self;
    fn inner(&self) -> i32;
    fn degrees(&self) -> f64;
    fn to_json(&self) -> Result<String, String>;
    fn from_json(s: &str) -> Result<Self, String>;
}
macro_rules! coord {
    ($t:ident) => {
        impl Coord for $t {
            const NAME: &'static str = stringify!($t);
            fn from_inner(i: i32) -> Self {
                $t::from_inner(i)
            }
            fn inner(&self) -> i32 {
                $t::inner(self)
            }
            fn degrees(&self) -> f64 {
                $t::degrees(self)
            }
            fn to_json(&self) -> Result<String, String> {
                serde_json::to_string(self).map_err(|e| e.to_string())
            }
            fn from_json(s: &str) -> Result<Self, String> {
                serde_json::from_str(s).map_err(|e| e.to_string())
            }
        }
    };
}
coord!(Lat);
coord!(Lon);

/// Fixed point with this many binary digits after the point
const FRAC: i32 = 40;
const ONE: i128 = 1 << FRAC;

/// x * 1e7, exact to 2^-40, or None if far out of range
fn exact_f64(x: f64) -> Option<i128> {
    if !x.is_finite() || x.abs() > 1e6 {
        return None;
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = (b & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    let v = m * 10_000_000;
    let s = e + FRAC;
    let v = if s >= 0 {
        v << s
    } else if s < -126 {
        0
    } else {
        v >> -s
    };
    Some(if x < 0.0 { -v } else { v })
}

/// Does the error say what is wrong with this number?
fn right_error(what: &str, v: f64, e: &ParseLatLonError) -> Result<(), String> {
    let ok = match e {
        ParseLatLonError::NotANumber => v.is_nan(),
        ParseLatLonError::TooLarge(_) => v > 0.0,
        ParseLatLonError::TooSmall(_) => v < 0.0,
        ParseLatLonError::ParseFloatError(_) => false,
    };
    if ok {
        return Ok(());
    }
    Err(format!("{} is refused as {:?}", what, e))
}

/// Does the error say what is wrong with this text?
fn right_text_error(s: &str, e: &ParseLatLonError) -> Result<(), String> {
    match (s.parse::<f64>(), e) {
        (Ok(v), e) => right_error(&format!("text {:?}", s), v, e),
        (Err(_), ParseLatLonError::ParseFloatError(_)) => Ok(()),
        (Err(_), e) => Err(format!("text {:?} is refused as {:?}", s, e)),
    }
}

/// Is this result right for this exact number of units (of which v is about the number of degrees)?
fn check<T: Coord>(what: &str, exact: Option<i128>, v: f64, got: Result<T, ParseLatLonError>) -> Result<bool, String> {
    let tol = ONE / 2 + ONE / 1_000_000;
    match got {
        Ok(c) => {
            let ok = exact.is_some_and(|x| (x - c.inner() as i128 * ONE).abs() <= tol);
            if !ok {
                return Err(format!(
                    "{} from {} became {} units, where {} is right",
                    T::NAME,
                    what,
                    c.inner(),
                    exact.map_or("an error".to_string(), |x| format!("{:.6}", x as f64 / ONE as f64))
                ));
            }
            Ok(true)
        }
        Err(e) => {
            // surely in range?
            let inside = exact.is_some_and(|x| {
                x <= i32::MAX as i128 * ONE && x >= i32::MIN as i128 * ONE
            });
            if inside {
                return Err(format!("{} from {} was refused: {}", T::NAME, what, e));
            }
            right_error(what, v, &e)?;
            Ok(false)
        }
    }
}

fn one_value<T: Coord>(i: i32) -> Result<(), String> {
    let c = T::from_inner(i);
    if c.inner() != i {
        return Err(format!("{}::from_inner({}).inner() is {}", T::NAME, i, c.inner()));
    }
    let d = c.degrees();
    // nearest double to i/1e7 or a neighbour
    if (d * 1e7 - i as f64).abs() > 1e-5 {
        return Err(format!("{} units of {} are {} degrees", i, T::NAME, d));
    }
    let f: f64 = c.into();
    if f != d || osmio::lat_lon_inner_to_degrees(i) != d {
        return Err(format!("{} units of {} are {} or {} degrees", i, T::NAME, f, d));
    }
    match T::try_from(d) {
        Ok(x) if x.inner() == i => {}
        r => return Err(format!("{} units of {} to degrees {} and back: {:?}", i, T::NAME, d, r)),
    }
    Ok(())
}

fn one_text<T: Coord>(i: i32, buf: &mut String) -> Result<(), String> {
    use std::fmt::Write;
    let c = T::from_inner(i);
    buf.clear();
    write!(buf, "{}", c).unwrap();
    match buf.parse::<T>() {
        Ok(x) if x.inner() == i => {}
        r => return Err(format!("{} units of {} to text {:?} and back: {:?}", i, T::NAME, buf, r)),
    }
    if super::p03::exact_decimal(buf) != Some(i as i64) {
        return Err(format!("{} units of {} as text: {:?}", i, T::NAME, buf));
    }
    Ok(())
}

fn one_json<T: Coord>(i: i32) -> Result<(), String> {
    let j = T::from_inner(i).to_json()?;
    match T::from_json(&j) {
        Ok(x) if x.inner() == i => Ok(()),
        r => Err(format!("{} units of {} to JSON {} and back: {:?}", i, T::NAME, j, r)),
    }
}

fn block<T: Coord>(base: i32, text: bool) -> Result<(), String> {
    let mut buf = String::new();
    for k in 0..65536i32 {
        let i = base + k;
        one_value::<T>(i)?;
        if text {
            one_text::<T>(i, &mut buf)?;
        }
        if text && k % 16 == 0 {
            one_json::<T>(i)?;
        }
    }
    Ok(())
}

fn blocks(cx: &mut Cx) -> Result<(), String> {
    // a permutation of all blocks, the edges first
    let n = match cx.idx {
        0 => 0x8000,
        1 => 0x7fff,
        2 => 0,
        3 => 0xffff,
        i if cx.thorough => (i * 40503 + cx.seed) & 0xffff,
        _ => cx.rng.below(0x10000) as u64,
    };
    let base = ((n as u32) << 16) as i32;
    must("conversion", || -> Result<(), String> {
        if cx.thorough || cx.idx % 2 == 0 {
            block::<Lat>(base, true)?;
        }
        if cx.thorough || cx.idx % 2 == 1 || cx.idx < 4 {
            block::<Lon>(base, !cx.thorough || cx.idx % 4 == 0)?;
        }
        Ok(())
    })??;
    cx.count("values round-tripped", 65536);
    cx.seen(n);
    cx.sample(|| json!({"block": base, "values": 65536}));
    cx.evals(65536);
    Ok(())
}

/// A decimal number in range or a bit beyond: text, exact value
fn decimal(rng: &mut Rng) -> (String, i128) {
    // digits after the unit
    let extra = *rng.pick(&[0usize, 0, 0, 1, 2, 3, 5, 8, 12]);
    let units: i64 = match rng.below(8) {
        0 => *rng.pick(&[0, 1, -1, 5, -5, i32::MAX as i64, i32::MIN as i64]),
        1 => i32::MAX as i64 + rng.range(-3, 3),
        2 => i32::MIN as i64 + rng.range(-3, 3),
        3 => rng.range(-1_800_000_000, 1_800_000_000),
        4 => rng.range(-100_000_000_000, 100_000_000_000),
        5 => rng.range(-100, 100),
        6 => rng.range(-180, 180) * 10_000_000,
        _ => gen::coord(rng) as i64,
    };
    let neg = units < 0 || (units == 0 && rng.bool());
    let mut digits = format!("{:08}", units.abs());
    for _ in 0..extra {
        digits.push(match rng.below(4) {
            0 => '0',
            1 => '9',
            2 => '5',
            _ => (b'0' + rng.below(10) as u8) as char,
        });
    }
    // exact: digits * 10^-extra
    let all: i128 = digits.parse().unwrap();
    let exact = all * ONE / 10i128.pow(extra as u32);
    let exact = if neg { -exact } else { exact };
    // place of the point, counted from the left
    let point = digits.len() - extra - 7;
    let mut s = String::new();
    if neg {
        s.push('-');
    } else if rng.chance(1, 6) {
        s.push('+');
    }
    for _ in 0..rng.below(3) * rng.below(2) {
        s.push('0');
    }
    match rng.below(5) {
        0 => {
            // exponent
            let e = rng.range(-4, 4);
            let p = point as i64 - e;
            let d = if p <= 0 {
                format!("0.{}{}", "0".repeat(-p as usize), digits)
            } else if p as usize >= digits.len() {
                format!("{}{}", digits, "0".repeat(p as usize - digits.len()))
            } else {
                format!("{}.{}", &digits[..p as usize], &digits[p as usize..])
            };
            s += &d;
            s += if rng.bool() { "e" } else { "E" };
            if e >= 0 && rng.bool() {
                s.push('+');
            }
            s += &e.to_string();
        }
        1 => {
            // as short as it gets
            let f = digits[point..].trim_end_matches('0');
            s += &digits[..point];
            if !f.is_empty() {
                s.push('.');
                s += f;
            }
        }
        2 => {
            s += &digits[..point];
            s.push('.');
            s += &digits[point..];
            for _ in 0..rng.below(20) {
                s.push('0');
            }
        }
        _ => {
            s += &digits[..point];
            s.push('.');
            s += &digits[point..];
        }
    }
    (s, exact)
}

fn texts(cx: &mut Cx) -> Result<(), String> {
    for _ in 0..200 {
        let (s, exact) = decimal(&mut cx.rng);
        let ok = must("parse", || -> Result<bool, String> {
            check::<Lat>(&format!("text {:?}", s), Some(exact), exact as f64, s.parse())?;
            check::<Lon>(&format!("text {:?}", s), Some(exact), exact as f64, s.parse())
        })??;
        cx.count("texts", 1);
        if !ok {
            cx.count("refused", 1);
        }
        cx.seen(crate::rng::hash_bytes(s.as_bytes()));
        cx.sample(|| json!({"text": s, "units": exact as f64 / ONE as f64, "accepted": ok}));
    }
    cx.evals(200);
    Ok(())
}

fn floats(cx: &mut Cx) -> Result<(), String> {
    for _ in 0..300 {
        let x: f64 = match cx.rng.below(9) {
            0 => f64::from_bits(cx.rng.u64()),
            1 => *cx.rng.pick(&[0.0, -0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 214.7483647, -214.7483648, 214.74836475, -214.74836485, 214.7483648, 1e10, 180.0, -180.0]),
            2 => {
                // half-way between units
                (cx.rng.range(-1_800_000_000, 1_800_000_000) as f64 + 0.5) / 1e7
            }
            3 => {
                let x = gen::coord(&mut cx.rng) as f64 / 1e7;
                let b = x.to_bits() as i64;
                f64::from_bits(b.wrapping_add(cx.rng.range(-3, 3)) as u64)
            }
            4 => (i32::MAX as f64 + cx.rng.range(-40, 40) as f64 / 16.0) / 1e7,
            5 => (i32::MIN as f64 + cx.rng.range(-40, 40) as f64 / 16.0) / 1e7,
            6 => cx.rng.range(-400_000_000_000, 400_000_000_000) as f64 / 1e9,
            7 => cx.rng.range(-2_200_000_000_000_000, 2_200_000_000_000_000) as f64 / 1e13,
            _ => cx.rng.range(-1000, 1000) as f64 / 1e8,
        };
        let y = x as f32;
        must("conversion", || -> Result<(), String> {
            check::<Lat>(&format!("f64 {:e}", x), exact_f64(x), x, Lat::try_from(x))?;
            check::<Lon>(&format!("f64 {:e}", x), exact_f64(x), x, Lon::try_from(x))?;
            check::<Lat>(&format!("f32 {:e}", y), exact_f64(y as f64), y as f64, Lat::try_from(y))?;
            check::<Lon>(&format!("f32 {:e}", y), exact_f64(y as f64), y as f64, Lon::try_from(y))?;
            Ok(())
        })??;
        cx.count("floats", 1);
        cx.seen(x.to_bits());
    }
    cx.evals(1200);
    Ok(())
}

const BAD_TEXT: &[&str] = &[
    "", "abc", "1,5", "1.2.3", "--1", "+-1", "0x10", "1e", "e5", ".", "+", "-", "NaN", "nan", "-nan", "NAN", "inf", "-inf", "+inf",
    "infinity", "-Infinity", "INF", "1e400", "-1e400", "1e10", "214.7483650", "-214.7483650", "600", "-600.0", "1 2", "１", "5°",
    "N 5", "1_000", "null", "true", "1.0f", "12:30:00", "1.5\u{0}", "½", "1e1e1", "0b1", "99999999999999999999999999", "1e309",
];

const BAD_JSON: &[&str] = &[
    "2147483648", "-2147483649", "1e30", "-1e30", "null", "true", "\"x\"", "{}", "[]", "[1,2]", "", "99999999999999999999999",
    "4294967296", "-4294967296", "9223372036854775807", "1e400", "\"NaN\"",
];

fn bad(cx: &mut Cx) -> Result<(), String> {
    let mut list: Vec<String> = BAD_TEXT.iter().map(|s| s.to_string()).collect();
    for _ in 0..100 {
        // a number with something in it that no number has
        let (mut s, _) = decimal(&mut cx.rng);
        if s.len() < 2 {
            continue;
        }
        let c = *cx.rng.pick(&['x', ',', ' ', '_', '°', '/', 'é', '\u{0}', '#', 'N', '\u{2212}']);
        let at = cx.rng.range(1, s.len() as i64 - 1) as usize;
        s.insert(at, c);
        list.push(s);
    }
    for _ in 0..20 {
        // far beyond
        let n = cx.rng.range(2_147_483_650, i64::MAX / 2);
        let s = format!("{}.{:07}", n / 10_000_000, n % 10_000_000);
        list.push(if cx.rng.bool() { s } else { format!("-{}", s) });
    }
    for s in &list {
        must("parse", || -> Result<(), String> {
            match s.parse::<Lat>() {
                Ok(x) => return Err(format!("Lat from text {:?} became {} units", s, x.inner())),
                Err(e) => right_text_error(s, &e)?,
            }
            match s.parse::<Lon>() {
                Ok(x) => return Err(format!("Lon from text {:?} became {} units", s, x.inner())),
                Err(e) => right_text_error(s, &e)?,
            }
            Ok(())
        })??;
        cx.count("refused", 1);
        cx.seen(crate::rng::hash_bytes(s.as_bytes()));
    }
    for s in BAD_JSON {
        must("JSON", || -> Result<(), String> {
            if let Ok(x) = <Lat as Coord>::from_json(s) {
                return Err(format!("Lat from JSON {:?} became {} units", s, x.inner()));
            }
            if let Ok(x) = <Lon as Coord>::from_json(s) {
                return Err(format!("Lon from JSON {:?} became {} units", s, x.inner()));
            }
            Ok(())
        })??;
        cx.count("refused JSON", 1);
    }
    cx.sample(|| json!({"refused": list.len()}));
    cx.evals((list.len() + BAD_JSON.len()) as u64);
    Ok(())
}

fn set<N: Node>(n: &mut N, lat: f64, lon: f64, how: usize) -> Result<(), ParseLatLonError> {
    match how {
        0 => n.set_lat_lon((lat, lon)),
        1 => n.set_lat_lon(Some((lat, lon))),
        2 => n.set_lat_lon((lat as f32, lon)),
        3 => n.set_lat_lon((lat, lon as f32)),
        _ => n.set_lat_lon((lat as f32, lon as f32)),
    }
}

fn nodes(cx: &mut Cx) -> Result<(), String> {
    let value = |rng: &mut Rng| -> f64 {
        match rng.below(7) {
            0 => *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 300.0, -300.0, 214.7483649, -214.7483650, 1e300]),
            _ => (gen::coord(rng) as f64 + rng.range(-49, 49) as f64 / 100.) / 1e7,
        }
    };
    fn drive<N: Node>(cx: &mut Cx, n: &mut N, value: impl Fn(&mut Rng) -> f64) -> Result<(), String> {
        for _ in 0..6 {
            let before = observe_node(n);
            let (lat, lon) = (value(&mut cx.rng), value(&mut cx.rng));
            let how = cx.rng.below(5);
            let r = must("set_lat_lon", || set(n, lat, lon, how))?;
            let a = if how == 2 || how == 4 { lat as f32 as f64 } else { lat };
            let o = if how >= 3 { lon as f32 as f64 } else { lon };
            let what = format!("set_lat_lon(({}, {})), way {}", lat, lon, how);
            let after = observe_node(n);
            let mut same = after.clone();
            same.latlon = before.latlon;
            if let Some(d) = before.diff(&same) {
                return Err(format!("{}: changed another field: {}", what, d));
            }
            match r {
                Ok(()) => {
                    let (x, y) = n.lat_lon().ok_or(format!("{}: no position", what))?;
                    check::<Lat>(&what, exact_f64(a), a, Ok(x))?;
                    check::<Lon>(&what, exact_f64(o), o, Ok(y))?;
                    cx.count("positions set", 1);
                }
                Err(e) => {
                    let in_range = |v: f64| {
                        exact_f64(v).is_some_and(|x| x <= i32::MAX as i128 * ONE && x >= i32::MIN as i128 * ONE)
                    };
                    if in_range(a) && in_range(o) {
                        return Err(format!("{} was refused: {}", what, e));
                    }
                    if !in_range(a) && right_error(&what, a, &e).is_ok() {
                        // it is about the latitude
                    } else if !in_range(o) {
                        right_error(&what, o, &e)?;
                    } else {
                        right_error(&what, a, &e)?;
                    }
                    if after.latlon != before.latlon {
                        return Err(format!(
                            "{} failed but changed the position from {:?} to {:?}",
                            what, before.latlon, after.latlon
                        ));
                    }
                    cx.count("positions kept", 1);
                }
            }
            cx.seen_of(&(lat.to_bits(), lon.to_bits(), how));
        }
        if cx.rng.bool() {
            must("set_lat_lon", || n.set_lat_lon(None as Option<(f64, f64)>))?
                .map_err(|e| e.to_string())?;
            if n.lat_lon().is_some() {
                return Err("set_lat_lon(None) left a position".into());
            }
        }
        Ok(())
    }
    let mut m = MObj::new(Kind::Node, cx.rng.range(-5, 5));
    if cx.rng.bool() {
        m.latlon = Some((gen::coord(&mut cx.rng), gen::coord(&mut cx.rng)));
    }
    let r = *cx.rng.pick(&[Repr::S, Repr::R, Repr::A]);
    cx.evals(6);
    match AnyObj::build(&m, r) {
        AnyObj::S(mut o) => drive(cx, o.as_node_mut().unwrap(), value),
        AnyObj::R(mut o) => drive(cx, o.as_node_mut().unwrap(), value),
        AnyObj::A(mut o) => drive(cx, o.as_node_mut().unwrap(), value),
    }
}

fn order(cx: &mut Cx) -> Result<(), String> {
    fn go<T: Coord>(a: i32, b: i32) -> Result<(), String> {
        let (x, y) = (T::from_inner(a), T::from_inner(b));
        if x.cmp(&y) != a.cmp(&b)
            || x.partial_cmp(&y) != Some(a.cmp(&b))
            || (x == y) != (a == b)
            || (x != y) != (a != b)
            || (x < y) != (a < b)
            || (x >= y) != (a >= b)
            || x.max(y).inner() != a.max(b)
        {
            return Err(format!("{}: {} and {} units compare as {:?}", T::NAME, a, b, x.cmp(&y)));
        }
        if (a < b) != (x.degrees() < y.degrees()) {
            return Err(format!("{}: {} and {} units in degrees: {} and {}", T::NAME, a, b, x.degrees(), y.degrees()));
        }
        Ok(())
    }
    for _ in 0..300 {
        let a = gen::coord(&mut cx.rng);
        let b = match cx.rng.below(3) {
            0 => a.saturating_add(cx.rng.range(-2, 2) as i32),
            1 => a.wrapping_neg(),
            _ => gen::coord(&mut cx.rng),
        };
        go::<Lat>(a, b)?;
        go::<Lon>(a, b)?;
        cx.seen_of(&(a, b));
    }
    cx.evals(600);
    Ok(())
}
