//! Independent calendar arithmetic (proleptic Gregorian, UTC), used as the oracle for timestamps.

pub const MIN_EPOCH: i64 = -62_167_219_200; // 0000-01-01T00:00:00Z
pub const MAX_EPOCH: i64 = 253_402_300_799; // 9999-12-31T23:59:59Z

fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
    }
}

/// Days from 1970-01-01 to y-m-d
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    // days before year y, counted from year 0
    fn before_year(y: i64) -> i64 {
        if y == 0 {
            return 0;
        }
        // leap years in 0..y
        let n = y - 1;
        y * 365 + n.div_euclid(4) - n.div_euclid(100) + n.div_euclid(400) + 1
    }
    let mut days = before_year(y);
    for mm in 1..m {
        days += month_len(y, mm);
    }
    days + (d - 1) - before_year(1970)
}

pub struct Civil {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
}

pub fn civil(epoch: i64) -> Civil {
    let days = epoch.div_euclid(86400);
    let secs = epoch.rem_euclid(86400);
    // estimate the year and correct
    let mut y = 1970 + days.div_euclid(366) - 1;
    if days < 0 {
        y = 1970 + days.div_euclid(365) - 1;
    }
    while y < 0 || days_from_civil(y + 1, 1, 1) <= days {
        y += 1;
    }
    let mut rest = days - days_from_civil(y, 1, 1);
    let mut mo = 1;
    while rest >= month_len(y, mo) {
        rest -= month_len(y, mo);
        mo += 1;
    }
    Civil {
        y,
        mo,
        d: rest + 1,
        h: secs / 3600,
        mi: secs % 3600 / 60,
        s: secs % 60,
    }
}

pub fn iso_utc(epoch: i64) -> String {
    let c = civil(epoch);
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
        c.y, c.mo, c.d, c.h, c.mi, c.s
    )
}

/// The same instant as text with an offset from UTC in minutes
pub fn iso_offset(epoch: i64, offset_min: i64) -> String {
    let c = civil(epoch + offset_min * 60);
    let a = offset_min.abs();
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{:02}:{:02}",
        c.y,
        c.mo,
        c.d,
        c.h,
        c.mi,
        c.s,
        if offset_min < 0 { '-' } else { '+' },
        a / 60,
        a % 60
    )
}

/// Strict RFC 3339 parse (whole or fractional seconds, no leap second): the epoch second
pub fn parse_rfc3339(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    fn num(b: &[u8], from: usize, n: usize) -> Option<i64> {
        let x = b.get(from..from + n)?;
        if !x.iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        std::str::from_utf8(x).ok()?.parse().ok()
    }
    let y = num(b, 0, 4)?;
    if *b.get(4)? != b'-' || *b.get(7)? != b'-' {
        return None;
    }
    let mo = num(b, 5, 2)?;
    let d = num(b, 8, 2)?;
    if !matches!(*b.get(10)?, b'T') {
        return None;
    }
    let h = num(b, 11, 2)?;
    let mi = num(b, 14, 2)?;
    let se = num(b, 17, 2)?;
    if *b.get(13)? != b':' || *b.get(16)? != b':' {
        return None;
    }
    if !(1..=12).contains(&mo) || d < 1 || d > month_len(y, mo) || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let mut i = 19;
    if b.get(i) == Some(&b'.') {
        i += 1;
        let st = i;
        while b.get(i).is_some_and(|c| c.is_ascii_digit()) {
            i += 1;
        }
        if i == st {
            return None;
        }
    }
    let off = match *b.get(i)? {
        b'Z' => {
            i += 1;
            0
        }
        c @ (b'+' | b'-') => {
            let oh = num(b, i + 1, 2)?;
            let om = num(b, i + 4, 2)?;
            if *b.get(i + 3)? != b':' || oh > 23 || om > 59 {
                return None;
            }
            i += 6;
            let o = oh * 60 + om;
            if c == b'-' {
                -o
            } else {
                o
            }
        }
        _ => return None,
    };
    if i != b.len() {
        return None;
    }
    Some(days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + se - off * 60)
}

/// Check of the calendar itself against well-known instants and itself
pub fn self_test() {
    assert_eq!(iso_utc(0), "1970-01-01T00:00:00Z");
    assert_eq!(iso_utc(MIN_EPOCH), "0000-01-01T00:00:00Z");
    assert_eq!(iso_utc(MAX_EPOCH), "9999-12-31T23:59:59Z");
    assert_eq!(iso_utc(951_782_400), "2000-02-29T00:00:00Z");
    assert_eq!(iso_utc(4_107_542_400), "2100-03-01T00:00:00Z");
    assert_eq!(iso_utc(i32::MAX as i64), "2038-01-19T03:14:07Z");
    assert_eq!(iso_utc(u32::MAX as i64), "2106-02-07T06:28:15Z");
    assert_eq!(iso_utc(-1), "1969-12-31T23:59:59Z");
    let mut t = MIN_EPOCH;
    while t < MAX_EPOCH {
        assert_eq!(parse_rfc3339(&iso_utc(t)), Some(t));
        t += 86400 * 97 + 4_321;
    }
    assert_eq!(parse_rfc3339("2020-01-01T01:30:00+01:30"), Some(1_577_836_800));
}
