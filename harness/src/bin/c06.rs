//! C06: calendar utilities, frequencies and date sequences against enumeration.
use rqmon::civil::*;
use rqmon::*;
use time::{Date, Error, Month, Weekday};
use RustQuant_time::*;

fn main() {
    let mut c = Ctx::new("C06", "exhaustive: every date of 1890-2210 for the month/year/weekday predicates and every (year, month) for first/last weekday lookups; random intervals for enumeration, leap counting and sequences; every day difference for frequency inference. Non-trivial: interval longer than a day.");
    let wd = |d: Date| d.weekday().number_days_from_monday();
    for q in days(1890, 1, 1)..=days(2210, 12, 31) {
        let d = date(q);
        let (y, m, dd) = civil(q);
        let w = wday(q);
        if let Some(g) = c.guard("day_predicates", || d.to_string(), || (is_weekend(d), is_weekday(d), is_first_day_of_month(d), is_last_day_of_month(d), is_last_day_of_february(d))) {
            let want = (w >= 5, w < 5, dd == 1, dd == mlen(y, m), m == 2 && dd == mlen(y, 2));
            c.check(g == want, "day_predicates", || format!("{d}: (weekend, weekday, first, last, last_feb) got {g:?} want {want:?}"));
        }
        if (1901..=2199).contains(&y) && dd % 9 == 0 {
            for orth in [false, true] {
                if let Some(u) = c.guard("unpack_date", || d.to_string(), || unpack_date(d, orth)) {
                    let e = (if orth { easter_orthodox(y) } else { easter_western(y) }) + 1 - days(y, 1, 1) + 1;
                    let want = (y, month(m), dd as u8, w as u8, (q - days(y, 1, 1) + 1) as u16, e as u16);
                    let got = (u.0, u.1, u.2, u.3.number_days_from_monday(), u.4, u.5);
                    c.check(got == want, &format!("unpack_date:{}", if orth { "orthodox" } else { "western" }), || format!("{d} got {got:?} want {want:?}"));
                }
            }
        }
        if dd == 1 { c.case("date", &d.to_string()) } else { c.trivial("date_other") }
    }
    type F = fn(i32, Month) -> Result<Date, Error>;
    let firsts: [F; 7] = [get_first_monday_of_month, get_first_tuesday_of_month, get_first_wednesday_of_month, get_first_thursday_of_month, get_first_friday_of_month, get_first_saturday_of_month, get_first_sunday_of_month];
    let lasts: [F; 7] = [get_last_monday_of_month, get_last_tuesday_of_month, get_last_wednesday_of_month, get_last_thursday_of_month, get_last_friday_of_month, get_last_saturday_of_month, get_last_sunday_of_month];
    for y in 1890..=2210 {
        for m in 1..=12u32 {
            let (f, l) = (days(y, m, 1), days(y, m, mlen(y, m)));
            for k in 0..7usize {
                let wf = (f..=l).find(|q| wday(*q) == k as u32).unwrap();
                let wl = (f..=l).rev().find(|q| wday(*q) == k as u32).unwrap();
                let g = c.guard("nth_weekday", || format!("{y}-{m} {k}"), || (firsts[k](y, month(m)).map(z), lasts[k](y, month(m)).map(z)));
                if let Some((a, b)) = g {
                    c.check(a.as_ref().ok() == Some(&wf), &format!("first_weekday:{k}"), || format!("{y}-{m} got {a:?} want {wf}"));
                    c.check(b.as_ref().ok() == Some(&wl), &format!("last_weekday:{k}"), || format!("{y}-{m} got {b:?} want {wl}"));
                }
            }
            let g = c.guard("month_edge_weekday", || format!("{y}-{m}"), || (get_first_day_of_month(y, month(m)), get_last_day_of_month(y, month(m))));
            if let Some((a, b)) = g {
                let wk = |q: i64| Weekday::Monday.nth_next(wday(q) as u8);
                c.check(a.as_ref().ok() == Some(&wk(f)), "first_day_of_month", || format!("{y}-{m} {a:?}"));
                c.check(b.as_ref().ok() == Some(&wk(l)), "last_day_of_month", || format!("{y}-{m} {b:?} want {:?}", wk(l)));
            }
            c.case("month", &format!("{y}-{m}"));
        }
    }
    // the whole range of years the library's dates cover
    for y in -9999..=9999i32 {
        let (f, l) = (days(y, 1, 1), days(y, 12, 31));
        let n = (l - f + 1) as u16;
        if let Some(g) = c.guard("single_year", || y.to_string(), || (contains_leap_year(date(f), date(l)), leap_year_count(date(f), date(l)), get_days_in_years_in_range(date(l), date(l)))) {
            c.check(g == (leap(y), leap(y) as i64, vec![n]), "single_year", || format!("{y}: got {g:?}"));
        }
        let e = days(y, 2, mlen(y, 2));
        for q in [e - 1, e, e + 1] {
            if let Some(g) = c.guard("end_of_february", || q.to_string(), || is_last_day_of_february(date(q))) { c.check(g == (q == e), "end_of_february", || format!("{} got {g}", date(q))); }
        }
        if y % 25 == 0 { c.case("year", &y.to_string()) } else { c.trivial("year_other") }
    }
    for _ in 0..c.n(20000) {
        let mut r = c.fork();
        let q = r.i(days(-9998, 1, 1), days(9998, 12, 31));
        let (y, m, dd) = civil(q);
        let (d, w) = (date(q), wday(q));
        if let Some(g) = c.guard("far_predicates", || d.to_string(), || (is_weekend(d), is_weekday(d), is_first_day_of_month(d), is_last_day_of_month(d))) {
            c.check(g == (w >= 5, w < 5, dd == 1, dd == mlen(y, m)), "far_predicates", || format!("{d}: {g:?}"));
        }
        c.case("far_date", &d.to_string());
    }
    for _ in 0..c.n(30000) {
        let mut r = c.fork();
        let far = r.us(0, 5) == 0;
        let a = if far { r.i(days(-9000, 1, 1), days(8000, 1, 1)) } else { days(1890, 1, 1) + r.i(0, 115000) };
        let b = match r.us(0, 4) { 0 => a, 1 => a + 1, 2 => a + r.i(0, 40), 3 => a + r.i(0, 900), _ => a + r.i(0, if far { 700_000 } else { 9000 }) };
        let (da, db) = (date(a), date(b));
        let (ya, yb) = (civil(a).0, civil(b).0);
        let ys: Vec<i32> = (ya..=yb).collect();
        let leaps = ys.iter().filter(|y| leap(**y)).count() as i64;
        let g = c.guard("year_ranges", || format!("{da} {db}"), || (get_years_in_range(da, db), get_days_in_years_in_range(da, db), contains_leap_year(da, db), leap_year_count(da, db)));
        if let Some((gy, gd, gl, gc)) = g {
            c.check(gy == ys, "years_in_range", || format!("{da} {db} {gy:?}"));
            let wd: Vec<u16> = ys.iter().map(|y| if leap(*y) { 366 } else { 365 }).collect();
            c.check(gd == wd, "days_in_years", || format!("{da} {db} {gd:?}"));
            c.check(gl == (leaps > 0), "contains_leap_year", || format!("{da} {db} {gl}"));
            c.check(gc == leaps, "leap_year_count", || format!("{da} {db} {gc} want {leaps}"));
        }
        if b - a < 3000 || r.us(0, 40) == 0 {
            if let Some(s) = c.guard("date_sequence", || format!("{da} {db}"), || date_sequence(da, db)) {
                let ok = s.len() as i64 == b - a + 1 && s.iter().enumerate().all(|(i, d)| z(*d) == a + i as i64);
                c.check(ok, "date_sequence", || format!("{da} {db}: {} dates, first {:?} last {:?}", s.len(), s.first(), s.last()));
            }
            if b > a {
                if let Some(s) = c.guard("date_sequence_empty", || format!("{db} {da}"), || date_sequence(db, da)) {
                    c.check(s.is_empty(), "date_sequence_empty", || format!("{db} {da}: {} dates", s.len()));
                }
            }
        }
        if let Some(n) = c.guard("days_between", || format!("{da} {db}"), || (days_between(da, db), days_between(db, da))) { c.check(n == (b - a, b - a), "days_between", || format!("{da} {db} {n:?}")); }
        if b > a + 1 { c.case("interval", &format!("{da} {db}")) } else { c.trivial("short_interval") }
    }
    // frequencies: documented periods per year, and inference from one period
    use Frequency::*;
    for (f, n) in [(Daily, 252), (Weekly, 52), (BiWeekly, 26), (SemiMonthly, 24), (Monthly, 12), (SemiQuarterly, 8), (Quarterly, 4), (TriAnnually, 3), (SemiAnnually, 2), (Annually, 1), (Zero, 0)] {
        c.check(f as isize == n, &format!("periods_per_year:{f:?}"), || format!("got {}", f as isize));
    }
    for n in -400..=4000i64 {
        let want = match n {
            1 => Some(Daily), 7 => Some(Weekly), 14 => Some(BiWeekly), 15 => Some(SemiMonthly), 28..=31 => Some(Monthly), 45..=46 => Some(SemiQuarterly),
            91..=92 => Some(Quarterly), 121..=122 => Some(TriAnnually), 182..=183 => Some(SemiAnnually), 365..=366 => Some(Annually), _ => None,
        };
        let s = days(2001, 3, 1) + c.rng.i(0, 9000);
        let g = c.call("infer_frequency", || Frequency::infer_frequency(date(s), date(s + n)));
        match (want, g) {
            (Some(w), Ok(g)) => { c.check(g == w, "infer_frequency", || format!("{n} days: {g:?} want {w:?}")); }
            (Some(w), Err(e)) => c.violate("infer_frequency", || format!("{n} days: refused ({e}), want {w:?}")),
            (None, Ok(_)) if matches!(n, 13 | 16 | 44 | 47 | 89..=93 | 119..=124 | 180..=185) => {} // near misses: either answer
            (None, Ok(g)) => c.violate("infer_frequency_unmatched", || format!("{n} days: reported {g:?}")),
            (None, Err(_)) => {}
        }
        c.case("frequency", &n.to_string());
    }
    c.finish()
}
