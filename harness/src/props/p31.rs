//! P31: comparisons are lawful.

use super::util::*;
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use osmio::prelude::*;
use osmio::{Lat, Lon, TimestampFormat};
use serde_json::json;
use std::cmp::Ordering;
use std::fmt::Debug;

pub fn prop() -> Prop {
    Prop {
        id: "P31",
        level: "exploration",
        rule: "All pairs and triples out of small sets of values are compared with every operator: timestamps (valid ones in every form and spelling, nearly valid ones, any text, extreme epoch seconds; each set has several which are close to each other), coordinates, kinds, and objects which carry such timestamps. The laws of equality and order have to hold, and sorting must not panic and give a sorted permutation. Distinct by set; all are non-trivial.",
        assumptions: &[],
        legs: vec![
            leg("timestamps", 40000, 400000, timestamps),
            leg("coordinates and kinds", 4000, 40000, coordinates),
            leg("objects", 4000, 40000, objects),
        ],
        required: &["pairs", "triples", "equal pairs", "texts which are no timestamps", "lists sorted"],
        probes: vec![],
    }
}

/// What is found out about a pair
#[derive(Clone, Copy, PartialEq, Debug)]
struct Cmp {
    eq: bool,
    ord: Option<Ordering>,
}

/// The laws of PartialEq and PartialOrd
fn laws<T: PartialOrd + Debug>(cx: &mut Cx, xs: &[T]) -> Result<(), String> {
    let n = xs.len();
    let mut t = vec![];
    for a in xs {
        for b in xs {
            let (eq, ne, ord, ops) =
                must("comparison", || (a == b, a != b, a.partial_cmp(b), [a < b, a <= b, a > b, a >= b]))?;
            let bad = |what: &str| format!("{} and {}: {}: ==: {}, !=: {}, order {:?}, <, <=, >, >=: {:?}", short(a), short(b), what, eq, ne, ord, ops);
            if eq == ne {
                return Err(bad("== and != agree"));
            }
            if eq != (ord == Some(Ordering::Equal)) {
                return Err(bad("== and the order do not agree"));
            }
            let want = match ord {
                None => [false; 4],
                Some(Ordering::Less) => [true, true, false, false],
                Some(Ordering::Equal) => [false, true, false, true],
                Some(Ordering::Greater) => [false, false, true, true],
            };
            if ops != want {
                return Err(bad("the operators do not agree with the order"));
            }
            cx.count("equal pairs", eq as u64);
            t.push(Cmp { eq, ord });
        }
    }
    let at = |i: usize, j: usize| t[i * n + j];
    for i in 0..n {
        if !at(i, i).eq {
            return Err(format!("{} is not equal to itself", short(&xs[i])));
        }
        for j in 0..n {
            if at(i, j).ord != at(j, i).ord.map(|o| o.reverse()) {
                return Err(format!(
                    "{} and {} are {:?}, the other way round {:?}",
                    short(&xs[i]),
                    short(&xs[j]),
                    at(i, j),
                    at(j, i)
                ));
            }
            for k in 0..n {
                let (ab, bc, ac) = (at(i, j), at(j, k), at(i, k));
                let want = match (ab.ord, bc.ord) {
                    (Some(x), Some(y)) if x == y => Some(x),
                    (Some(Ordering::Equal), Some(y)) => Some(y),
                    (Some(x), Some(Ordering::Equal)) => Some(x),
                    _ => continue,
                };
                if ac.ord != want {
                    return Err(format!(
                        "a = {}, b = {}, c = {}: a to b is {:?}, b to c {:?}, but a to c {:?}",
                        short(&xs[i]),
                        short(&xs[j]),
                        short(&xs[k]),
                        ab.ord,
                        bc.ord,
                        ac.ord
                    ));
                }
            }
        }
    }
    cx.count("pairs", (n * n) as u64);
    cx.count("triples", (n * n * n) as u64);
    cx.evals((n * n) as u64);
    Ok(())
}

/// Something which is no timestamp, but often nearly
fn no_timestamp(rng: &mut Rng) -> String {
    let t = gen::epoch(rng, (crate::time::MIN_EPOCH, crate::time::MAX_EPOCH));
    let s = crate::time::iso_utc(t);
    match rng.below(8) {
        0 => String::new(),
        1 => s[..10].to_string(),
        2 => s[..s.len() - 1].to_string(),
        3 => s.replace("-", "/"),
        4 => rng.pick(&["0", "1", "-1", "a", "b", "zzz", " ", "1970", "9999-99-99T99:99:99Z", "2020-02-30T00:00:00Z", "10000-01-01T00:00:00Z"]).to_string(),
        5 => t.to_string(),
        6 => format!(" {}", s),
        _ => gen::string(rng, Cfg::any().chars),
    }
}

fn some_timestamps(rng: &mut Rng, n: usize) -> Vec<TimestampFormat> {
    let base = match rng.below(3) {
        0 => *rng.pick(&[0i64, -1, 1, 946684800, 1 << 31, 1 << 32]),
        _ => gen::epoch(rng, (crate::time::MIN_EPOCH + 200_000, crate::time::MAX_EPOCH - 200_000)),
    };
    (0..n)
        .map(|_| {
            let near = base + *rng.pick(&[0i64, 0, 0, 1, -1, 60, 3600, -3600, 86400]);
            match rng.below(8) {
                0 | 1 => TimestampFormat::EpochNumber(near),
                2 => TimestampFormat::ISOString(crate::time::iso_utc(near)),
                3 => TimestampFormat::ISOString(gen::iso_with_offset(rng, near)),
                4 => {
                    let f = rng.pick(&[".0", ".5", ".000000001", ".999999999", ".50"]);
                    TimestampFormat::ISOString(crate::time::iso_utc(near).replace('Z', &format!("{}Z", f)))
                }
                5 => TimestampFormat::EpochNumber(*rng.pick(&[0, i64::MIN, i64::MAX, -1, 1])),
                _ => TimestampFormat::ISOString(no_timestamp(rng)),
            }
        })
        .collect()
}

fn timestamps(cx: &mut Cx) -> Result<(), String> {
    let mut l = some_timestamps(&mut cx.rng, 9);
    cx.count(
        "texts which are no timestamps",
        l.iter().filter(|t| Ts::of(t).instant().is_none()).count() as u64,
    );
    laws(cx, &l)?;
    // as everybody does
    l.extend(some_timestamps(&mut cx.rng, 40));
    let mut sorted = l.clone();
    must("sorting", || sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal)))?;
    sorted_ok(&l, &sorted, |t| Ts::of(t))?;
    cx.count("lists sorted", 1);
    cx.seen_of(&l.iter().map(Ts::of).collect::<Vec<_>>());
    cx.sample(|| json!({"timestamps": short(&l)}));
    Ok(())
}

fn sorted_ok<T: PartialOrd + Debug, K: Debug + PartialEq>(before: &[T], after: &[T], key: impl Fn(&T) -> K) -> Result<(), String> {
    let mut rest: Vec<K> = before.iter().map(&key).collect();
    for x in after {
        let k = key(x);
        match rest.iter().position(|r| *r == k) {
            Some(i) => drop(rest.swap_remove(i)),
            None => return Err(format!("after sorting there is one more {:?}", k)),
        }
    }
    if !rest.is_empty() {
        return Err(format!("after sorting there is no more {:?}", rest));
    }
    for i in 0..after.len() {
        for j in i + 1..after.len() {
            if after[i] > after[j] {
                return Err(format!("{} comes before {} in the sorted list, but is greater", short(&after[i]), short(&after[j])));
            }
        }
    }
    Ok(())
}

fn coordinates(cx: &mut Cx) -> Result<(), String> {
    let base = gen::coord(&mut cx.rng);
    let l: Vec<i32> = (0..7)
        .map(|_| match cx.rng.below(3) {
            0 => base.wrapping_add(*cx.rng.pick(&[0, 1, -1])),
            1 => gen::coord(&mut cx.rng),
            _ => cx.rng.u32() as i32,
        })
        .collect();
    let lats: Vec<Lat> = l.iter().map(|x| Lat::from_inner(*x)).collect();
    let lons: Vec<Lon> = l.iter().map(|x| Lon::from_inner(*x)).collect();
    laws(cx, &lats)?;
    laws(cx, &lons)?;
    laws(cx, &lats.iter().copied().zip(lons.iter().copied()).map(Some).collect::<Vec<_>>())?;
    macro_rules! total {
        ($v:expr, $by:expr) => {
            for a in &$v {
                for b in &$v {
                    let (o, p) = must("comparison", || (a.cmp(b), a.partial_cmp(b)))?;
                    let want = $by(a).cmp(&$by(b));
                    if o != want || p != Some(want) {
                        return Err(format!("{:?} and {:?}: cmp is {:?}, partial_cmp {:?}", a, b, o, p));
                    }
                    let (max, min) = must("comparison", || (*a.max(b), *a.min(b)))?;
                    if $by(&max) != $by(a).max($by(b)) || $by(&min) != $by(a).min($by(b)) {
                        return Err(format!("{:?} and {:?}: the greater one is {:?}, the smaller one {:?}", a, b, max, min));
                    }
                }
            }
            let mut s = $v.clone();
            must("sorting", || s.sort())?;
            sorted_ok(&$v, &s, |x| $by(x))?;
        };
    }
    total!(lats, |x: &Lat| x.inner());
    total!(lons, |x: &Lon| x.inner());
    let kinds: Vec<OSMObjectType> = (0..5).map(|_| cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]).osm()).collect();
    laws(cx, &kinds)?;
    total!(kinds, |x: &OSMObjectType| Kind::of(*x) as usize);
    cx.count("lists sorted", 3);
    cx.seen_of(&l);
    Ok(())
}

/// Equality only
fn objects(cx: &mut Cx) -> Result<(), String> {
    let kind = *cx.rng.pick(&[Kind::Node, Kind::Way, Kind::Rel]);
    let cfg = Cfg {
        big: false,
        dup_keys: false,
        ..Cfg::any()
    };
    let m = gen::object_of(&mut cx.rng, &cfg, kind);
    let r = *cx.rng.pick(&[Repr::S, Repr::R, Repr::A]);
    let ts = some_timestamps(&mut cx.rng, 7);
    let l: Vec<AnyObj> = must("setters", || {
        ts.iter()
            .map(|t| {
                let mut m = m.clone();
                m.ts = Some(Ts::of(t));
                AnyObj::build(&m, r)
            })
            .collect()
    })?;
    let n = l.len();
    let mut t = vec![];
    for a in &l {
        for b in &l {
            t.push(must("==", || match (a, b) {
                (AnyObj::S(a), AnyObj::S(b)) => (a == b, a != b),
                (AnyObj::R(a), AnyObj::R(b)) => (a == b, a != b),
                (AnyObj::A(a), AnyObj::A(b)) => (a == b, a != b),
                _ => unreachable!(),
            })?);
        }
    }
    for i in 0..n {
        for j in 0..n {
            let (eq, ne) = t[i * n + j];
            let what = || format!("{:?} {}s with the timestamps {:?} and {:?}", r, kind.name(), ts[i], ts[j]);
            if eq == ne || (i == j && !eq) || eq != t[j * n + i].0 {
                return Err(format!("{}: ==: {}, !=: {}, the other way round: {:?}", what(), eq, ne, t[j * n + i]));
            }
            for k in 0..n {
                if eq && t[j * n + k].0 && !t[i * n + k].0 {
                    return Err(format!("{} are equal, the second is equal to one with {:?}, but the first is not", what(), ts[k]));
                }
            }
            cx.count("equal pairs", eq as u64);
        }
    }
    cx.count("pairs", (n * n) as u64);
    cx.evals((n * n) as u64);
    cx.seen_of(&(m, ts.iter().map(Ts::of).collect::<Vec<_>>()));
    Ok(())
}
