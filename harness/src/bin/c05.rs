//! C05: day-count conventions against independent definitions.
use rqmon::civil::*;
use rqmon::*;
use DayCountConvention::*;
use RustQuant_time::{Calendar, DayCountConvention, Market};

fn last_feb((y, m, d): Ymd) -> bool { m == 2 && d == mlen(y, 2) }
fn leap_days(a: i64, b: i64, incl_start: bool, incl_end: bool) -> i64 {
    let (y0, y1) = (civil(a).0, civil(b).0);
    (y0..=y1).filter(|y| leap(*y)).map(|y| days(y, 2, 29)).filter(|l| (a < *l || (incl_start && a == *l)) && (*l < b || (incl_end && *l == b))).count() as i64
}
/// Acceptable factors for a <= b; more than one where published definitions differ on a boundary.
fn want(c: DayCountConvention, a: i64, b: i64) -> Vec<f64> {
    let n = (b - a) as f64;
    let (s, e) = (civil(a), civil(b));
    let thirty = |d1: u32, e2: Ymd, d2: u32, den: f64| {
        (360 * (e2.0 as i64 - s.0 as i64) + 30 * (e2.1 as i64 - s.1 as i64) + (d2 as i64 - d1 as i64)) as f64 / den
    };
    match c {
        One_One => vec![1.0],
        Actual_360 => vec![n / 360.0],
        Actual_364 => vec![n / 364.0],
        Actual_365_Fixed => vec![n / 365.0],
        Actual_366 => vec![n / 366.0],
        Actual_365_25 => vec![n / 365.25],
        Actual_365_Actual => {
            let k = |l: i64| n / if l > 0 { 366.0 } else { 365.0 };
            let strict = leap_days(a, b, false, false);
            if strict > 0 { vec![k(1)] } else { vec![k(leap_days(a, b, false, true)), k(leap_days(a, b, true, false))] }
        }
        Actual_365_Leap => {
            // published variants agree when every year touched, or none, is a leap year
            let l = (s.0..=e.0).filter(|y| leap(*y)).count();
            if l == 0 { vec![n / 365.0] } else if l as i32 == e.0 - s.0 + 1 { vec![n / 366.0] } else { vec![n / 365.0, n / 366.0] }
        }
        Actual_Actual_AFB => {
            let mut out = vec![];
            for variant in 0..2 {
                // anniversaries of the end, counted backwards
                let back = |k: i32| -> i64 {
                    let y = e.0 - k;
                    if k > 0 && e.1 == 2 && e.2 >= 28 { days(y, 2, mlen(y, 2)) } else { days(y, e.1, e.2.min(mlen(y, e.1))) }
                };
                let mut k = 0;
                while back(k + 1) >= a { k += 1; }
                let st = back(k);
                let l = if variant == 0 { leap_days(a, st, true, false) } else { leap_days(a, st, false, true) };
                out.push(k as f64 + (st - a) as f64 / if l > 0 { 366.0 } else { 365.0 });
            }
            out
        }
        Actual_Actual_ISDA => {
            let mut t = 0.0;
            for y in s.0..=e.0 {
                let lo = a.max(days(y, 1, 1));
                let hi = b.min(days(y + 1, 1, 1));
                if hi > lo { t += (hi - lo) as f64 / if leap(y) { 366.0 } else { 365.0 }; }
            }
            vec![t]
        }
        No_Leap_360 | No_Leap_365 => {
            let den = if matches!(c, No_Leap_360) { 360.0 } else { 365.0 };
            let f = |l: i64| (n - l as f64) / den;
            vec![f(leap_days(a, b, false, true)), f(leap_days(a, b, true, false))]
        }
        Thirty_360_ISDA => {
            let d1 = s.2.min(30);
            let d2 = if e.2 == 31 && d1 == 30 { 30 } else { e.2 };
            vec![thirty(d1, e, d2, 360.0)]
        }
        Thirty_E_360 => vec![thirty(s.2.min(30), e, e.2.min(30), 360.0)],
        Thirty_E_360_ISDA | Thirty_E_365 => {
            let den = if matches!(c, Thirty_E_365) { 365.0 } else { 360.0 };
            let d1 = if last_feb(s) { 30 } else { s.2.min(30) };
            let d2 = if last_feb(e) { 30 } else { e.2.min(30) };
            vec![thirty(d1, e, d2, den)]
        }
        Thirty_E_Plus_360 => {
            let e2 = if e.2 == 31 { civil(b + 1) } else { e };
            vec![thirty(s.2.min(30), e2, e2.2, 360.0)]
        }
        Thirty_U_360 => {
            let d1 = if last_feb(s) { 30 } else { s.2.min(30) };
            let d2 = if last_feb(s) && last_feb(e) { 30 } else if e.2 == 31 && d1 == 30 { 30 } else { e.2 };
            vec![thirty(d1, e, d2, 360.0)]
        }
        Actual_Actual_ICMA => vec![],
    }
}
fn pick(r: &mut Rng) -> i64 {
    let y = r.i(1900, 2200) as i32;
    match r.us(0, 7) {
        0 => days(y, 2, mlen(y, 2)),
        1 => { let m = r.us(1, 12) as u32; days(y, m, mlen(y, m)) }
        2 => { let m = r.us(1, 12) as u32; days(y, m, 1) }
        3 => { let y = y - y.rem_euclid(4); days(y, 2, 27 + r.us(0, (mlen(y, 2) - 27) as usize) as u32) }
        4 => days(y, 2, 28),
        5 => { let y = [1900, 2000, 2100, 2200][r.us(0, 3)]; days(y, 1, 1) + r.i(0, 120) }
        _ => days(y, 1, 1) + r.i(0, 364),
    }
}

fn main() {
    let mut c = Ctx::new("C05", "ordered date pairs over 1900-2210, from short to centuries long, concentrated on month ends, leap days and century years, for every supported convention, through the convention and through the calendar; plus additivity and empty periods. Non-trivial: start before end.");
    c.assume("Act/Act ICMA is unimplemented in the code and not part of the property; where published definitions differ only in whether a leap day at the period's edge counts, either value is accepted");
    let all = [One_One, Actual_360, Actual_364, Actual_366, Actual_365_25, Actual_365_Actual, Actual_365_Fixed, Actual_365_Leap, Actual_Actual_AFB,
        Actual_Actual_ISDA, No_Leap_360, No_Leap_365, Thirty_360_ISDA, Thirty_E_360, Thirty_E_360_ISDA, Thirty_E_365, Thirty_E_Plus_360, Thirty_U_360];
    let cal = Calendar::new(Market::None);
    for _ in 0..c.n(60000) {
        let mut r = c.fork();
        let a = pick(&mut r);
        let b = match r.us(0, 6) {
            0 => a,
            1 => a + r.i(1, 40),
            2 => a + r.i(1, 800),
            3 => { let (y, m, d) = civil(a); let y2 = y + r.i(1, 9) as i32; days(y2, m, d.min(mlen(y2, m))) }
            4 => a + r.i(1, 4000),
            _ => pick(&mut r),
        };
        let (a, b) = (a.min(b), a.max(b));
        let (da, db) = (date(a), date(b));
        for cv in all {
            let n = format!("{cv:?}");
            let Some(g) = c.guard(&format!("dcf:{n}"), || format!("{da} {db}"), || cv.day_count_factor(da, db)) else { continue };
            let w = want(cv, a, b);
            c.check(w.iter().any(|w| num::close(g, *w, 1e-12, 1e-13)), &format!("dcf:{n}"), || format!("{da} to {db}: got {g} want {w:?}"));
            if a < b { c.case(&n, &format!("{da} {db}")) } else { c.trivial("empty_period") }
            if let Some(g2) = c.guard(&format!("calendar_dcf:{n}"), || format!("{da} {db}"), || cal.day_count_factor(da, db, cv)) {
                c.check(g2 == g, &format!("calendar_dcf:{n}"), || format!("{da} {db} {g2} vs {g}"));
            }
        }
        let n = c.guard("calendar_day_count", || format!("{da} {db}"), || (cal.calendar_day_count(da, db), cal.calendar_day_count(db, da), RustQuant_time::days_between(da, db), RustQuant_time::days_between(db, da)));
        if let Some(n) = n { c.check(n == (b - a, a - b, b - a, b - a), "calendar_day_count", || format!("{da} {db} {n:?} want {}", b - a)); }
        if let Some(y) = c.guard("year_fraction", || format!("{da} {db}"), || RustQuant_time::year_fraction(da, db)) {
            c.close(y, (b - a) as f64 / 365.25, 1e-14, 1e-14, "year_fraction", || format!("{da} {db}"));
        }
        // additivity over an intermediate date
        let m = r.i(a, b);
        for cv in [Actual_360, Actual_364, Actual_366, Actual_365_25, Actual_365_Fixed, Actual_Actual_ISDA] {
            let dm = date(m);
            if let Some((x, y, z)) = c.guard("additive", || format!("{da} {dm} {db}"), || (cv.day_count_factor(da, dm), cv.day_count_factor(dm, db), cv.day_count_factor(da, db))) {
                c.check((x + y - z).abs() < 1e-10, &format!("additive:{cv:?}"), || format!("{da} {dm} {db}: {x}+{y} != {z}"));
            }
        }
        // backwards, a fixed denominator counts negative
        for cv in [Actual_360, Actual_364, Actual_366, Actual_365_25, Actual_365_Fixed, Thirty_E_360] {
            if let Some((x, y)) = c.guard("backwards", || format!("{db} back to {da}"), || (cv.day_count_factor(da, db), cv.day_count_factor(db, da))) {
                c.check((x + y).abs() < 1e-12 * (1.0 + x.abs()), &format!("backwards:{cv:?}"), || format!("{da} {db}: {x} forwards, {y} backwards"));
            }
        }
        // vectors of periods
        let ds: Vec<_> = { let mut v: Vec<i64> = (0..r.us(2, 6)).map(|_| r.i(a, b)).collect(); v.sort(); v.into_iter().map(date).collect() };
        let cv = *r.pick(&all);
        if let Some((f, n)) = c.guard("day_count_vectors", || format!("{ds:?}"), || (cal.day_count_factors(ds.clone(), cv), cal.calendar_day_counts(ds.clone()))) {
            c.check(f.len() == ds.len() - 1 && n.len() == ds.len() - 1, "vector_len", || format!("{ds:?}"));
            for (i, w) in ds.windows(2).enumerate() {
                let wants = want(cv, z(w[0]), z(w[1]));
                c.check(wants.iter().any(|w| num::close(f[i], *w, 1e-12, 1e-13)), "day_count_factors", || format!("{w:?} {cv:?} {} {wants:?}", f[i]));
                c.check(n[i] == z(w[1]) - z(w[0]), "calendar_day_counts", || format!("{w:?} {}", n[i]));
            }
        }
    }
    c.finish()
}
