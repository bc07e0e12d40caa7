//! Civil-day arithmetic of the monitor's own (no `time` crate arithmetic).
use time::{Date, Month};

pub type Ymd = (i32, u32, u32);

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn mlen(y: i32, m: u32) -> u32 {
    match m {
        2 => if leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01 (Howard Hinnant's algorithm).
pub fn days(y: i32, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y } as i64;
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) as i64 + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil(z: i64) -> Ymd {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    ((if m <= 2 { y + 1 } else { y }) as i32, m, d)
}
/// 0 = Monday .. 6 = Sunday
pub fn wday(z: i64) -> u32 {
    (z + 3).rem_euclid(7) as u32
}
pub fn month(m: u32) -> Month {
    Month::try_from(m as u8).unwrap()
}
pub fn date(z: i64) -> Date {
    let (y, m, d) = civil(z);
    ymd(y, m, d)
}
pub fn ymd(y: i32, m: u32, d: u32) -> Date {
    Date::from_calendar_date(y, month(m), d as u8).unwrap()
}
pub fn z(d: Date) -> i64 {
    days(d.year(), d.month() as u32, d.day() as u32)
}
/// Western Easter Sunday (anonymous Gregorian computus), as a day number.
pub fn easter_western(y: i32) -> i64 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let mo = (h + l - 7 * m + 114) / 31;
    let da = (h + l - 7 * m + 114) % 31 + 1;
    days(y, mo as u32, da as u32)
}
/// Orthodox Easter Sunday (Meeus Julian algorithm), as a Gregorian day number.
pub fn easter_orthodox(y: i32) -> i64 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let mo = (d + e + 114) / 31;
    let da = (d + e + 114) % 31 + 1;
    // Julian to Gregorian shift of that year (Easter is after February)
    let shift = y / 100 - y / 400 - 2;
    days(y, mo as u32, da as u32) + shift as i64
}
