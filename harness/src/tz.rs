//! Zone oracle: only the offset that holds at a given UTC instant is taken from the zone data, everything else
//! (local to UTC, gaps, overlaps, rendering) is computed here.
use crate::civil::*;
use crate::rng::Rng;
use chrono::{NaiveDate, NaiveDateTime, Offset, TimeZone};
pub use chrono_tz::Tz;

fn naive(secs: i64) -> NaiveDateTime {
    let c = civil(secs);
    NaiveDate::from_ymd_opt(c.y as i32, c.mo, c.d).unwrap().and_hms_opt(c.h, c.mi, c.s).unwrap()
}

/// seconds east of UTC at a UTC instant
pub fn off(tz: Tz, utc: i64) -> i64 {
    tz.offset_from_utc_datetime(&naive(utc)).fix().local_minus_utc() as i64
}

/// all UTC instants whose local time is the given one
pub fn from_local(tz: Tz, local: i64) -> Vec<i64> {
    let mut offs: Vec<i64> = Vec::new();
    // every offset in force around that time; zones never change twice within these steps without coming back here
    for h in -30..=30 {
        let o = off(tz, local + h * 3600);
        if !offs.contains(&o) {
            offs.push(o);
        }
    }
    let mut v: Vec<i64> = offs.into_iter().map(|o| local - o).filter(|u| off(tz, *u) == local - u).collect();
    v.sort();
    v.dedup();
    v
}

/// a UTC second, biased to what is near transitions and ends of ranges, within 0..=max
pub fn gen_instant(r: &mut Rng, tz: Tz, max: i64) -> i64 {
    let t = match r.below(10) {
        0..=2 => transition(r, tz).map(|t| t + r.irange(-7300, 7300)).unwrap_or(1_500_000_000),
        3 => transition(r, tz).map(|t| t + *r.pick(&[-3601i64, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600])).unwrap_or(0),
        4 => r.irange(0, 200_000),
        5 => max - r.irange(0, 200_000),
        6 => {
            // around year ends and leap days
            let y = r.irange(1971, 2500);
            let (m, d) = *r.pick(&[(1u32, 1u32), (2, 28), (3, 1), (12, 31)]);
            days_from_civil(y, m, d) * 86400 + r.irange(-90_000, 90_000)
        }
        7 => r.irange(0, max.max(1)),
        _ => r.irange(0, 4_000_000_000),
    };
    t.clamp(0, max)
}

/// a UTC second at which the offset changes
pub fn transition(r: &mut Rng, tz: Tz) -> Option<i64> {
    let start = r.irange(0, 2_100_000_000);
    let mut a = start;
    for _ in 0..60 {
        let b = a + 20 * 86400;
        if off(tz, a) != off(tz, b) {
            let (mut lo, mut hi) = (a, b);
            let o = off(tz, lo);
            while hi - lo > 1 {
                let m = (lo + hi) / 2;
                if off(tz, m) == o {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            return Some(hi);
        }
        a = b;
    }
    None
}

pub fn gen_zone(r: &mut Rng) -> Tz {
    const COMMON: [Tz; 16] = [
        Tz::UTC,
        Tz::America__New_York,
        Tz::Europe__London,
        Tz::Asia__Tokyo,
        Tz::Australia__Lord_Howe,
        Tz::Asia__Kathmandu,
        Tz::America__St_Johns,
        Tz::Pacific__Apia,
        Tz::Pacific__Kiritimati,
        Tz::America__Sao_Paulo,
        Tz::Africa__Casablanca,
        Tz::Asia__Kolkata,
        Tz::Pacific__Marquesas,
        Tz::Antarctica__Troll,
        Tz::America__Chicago,
        Tz::Asia__Pyongyang,
    ];
    if r.bool() {
        *r.pick(&COMMON)
    } else {
        *r.pick(&chrono_tz::TZ_VARIANTS)
    }
}

const MON: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];

/// own rendering of a strftime pattern; civil fields may be out of their ranges on purpose.
/// digits: number of fraction digits that %.f prints
pub fn render(pat: &str, c: &Civil, nanos: u32, offset: i64, utc: i64, digits: usize) -> String {
    let mut o = String::new();
    let b: Vec<char> = pat.chars().collect();
    let mut i = 0;
    let frac = |n: usize| format!("{:09}", nanos)[..n].to_string();
    while i < b.len() {
        if b[i] != '%' {
            o.push(b[i]);
            i += 1;
            continue;
        }
        i += 1;
        match b[i] {
            'Y' => o += &format!("{:04}", c.y),
            'y' => o += &format!("{:02}", c.y % 100),
            'm' => o += &format!("{:02}", c.mo),
            'd' => o += &format!("{:02}", c.d),
            'e' => o += &format!("{:2}", c.d),
            'H' => o += &format!("{:02}", c.h),
            'I' => o += &format!("{:02}", if c.h % 12 == 0 { 12 } else { c.h % 12 }),
            'p' => o += if c.h < 12 { "AM" } else { "PM" },
            'M' => o += &format!("{:02}", c.mi),
            'S' => o += &format!("{:02}", c.s),
            'j' => o += &format!("{:03}", days_from_civil(c.y, c.mo, c.d) - days_from_civil(c.y, 1, 1) + 1),
            'b' => o += &MON[(c.mo as usize + 11) % 12][..3],
            'B' => o += MON[(c.mo as usize + 11) % 12],
            's' => o += &utc.to_string(),
            'T' => o += &format!("{:02}:{:02}:{:02}", c.h, c.mi, c.s),
            'F' => o += &format!("{:04}-{:02}-{:02}", c.y, c.mo, c.d),
            'z' => o += &fmt_offset(offset).replace(':', ""),
            '-' => {
                i += 1;
                o += &match b[i] {
                    'H' => c.h.to_string(),
                    x => panic!("pattern -{}", x),
                };
            }
            ':' => {
                i += 1;
                o += &fmt_offset(offset);
            }
            '+' => {
                o += &format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", c.y, c.mo, c.d, c.h, c.mi, c.s);
                if digits > 0 {
                    o.push('.');
                    o += &frac(digits);
                }
                o += &fmt_offset(offset);
            }
            'f' => o += &frac(9),
            '3' => {
                i += 1;
                o += &frac(3);
            }
            '.' => {
                i += 1;
                match b[i] {
                    'f' => {
                        if digits > 0 {
                            o.push('.');
                            o += &frac(digits);
                        }
                    }
                    d => {
                        i += 1;
                        o.push('.');
                        o += &frac(d.to_digit(10).unwrap() as usize);
                    }
                }
            }
            x => panic!("pattern {}", x),
        }
        i += 1;
    }
    o
}

/// fraction digits that texts of the pattern have, None if chosen by text
pub fn precision(pat: &str) -> Option<usize> {
    if pat.contains("%.f") || pat.contains("%+") {
        None
    } else if pat.contains("%.3f") || pat.contains("%3f") {
        Some(3)
    } else if pat.contains("%.6f") {
        Some(6)
    } else if pat.contains("%.9f") || pat.contains("%f") {
        Some(9)
    } else {
        Some(0)
    }
}

pub fn has_zone(pat: &str) -> bool {
    pat.contains("%z") || pat.contains("%:z") || pat.contains("%+") || pat.contains("%s")
}
