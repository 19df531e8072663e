//! Independent calendar arithmetic (days from civil and back), used by the time oracles.
pub fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    (y, m, d)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Civil {
    pub y: i64,
    pub mo: u32,
    pub d: u32,
    pub h: u32,
    pub mi: u32,
    pub s: u32,
}
/// civil fields of seconds since epoch (already shifted by zone offset)
pub fn civil(secs: i64) -> Civil {
    let days = secs.div_euclid(86400);
    let r = secs.rem_euclid(86400) as u32;
    let (y, mo, d) = civil_from_days(days);
    Civil { y, mo, d, h: r / 3600, mi: r / 60 % 60, s: r % 60 }
}
pub fn secs(c: &Civil) -> i64 {
    days_from_civil(c.y, c.mo, c.d) * 86400 + c.h as i64 * 3600 + c.mi as i64 * 60 + c.s as i64
}
pub fn fmt_offset(off: i64) -> String {
    let a = off.abs();
    format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, a / 3600, a / 60 % 60)
}
