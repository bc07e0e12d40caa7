//! C04: business-day predicates, rolling and counting, from the holiday predicate alone.
use rqmon::civil::*;
use rqmon::*;
use std::collections::BTreeSet;
use DateRollingConvention::*;
use RustQuant_time::*;

const MARKETS: &[Market] = &[
    Market::None, Market::Weekends, Market::Argentina, Market::Australia, Market::Austria, Market::Botswana, Market::Brazil, Market::Canada,
    Market::Chile, Market::China, Market::CzechRepublic, Market::Denmark, Market::Finland, Market::France, Market::Germany, Market::HongKong,
    Market::Hungary, Market::Iceland, Market::India, Market::Indonesia, Market::Israel, Market::Italy, Market::Mexico, Market::Netherlands,
    Market::NewZealand, Market::Singapore, Market::UnitedKingdom, Market::UnitedStates, Market::Switzerland,
];

fn main() {
    let mut c = Ctx::new("C04", "every market; dates of 1905-2195 with user-added holidays (single days, clusters at month ends, whole weeks), added one by one, in bulk and between queries; predicates, six rolling conventions, vectors, inclusive business-day counts and generated schedules. Non-trivial: the date is not a business day, or the interval contains a closed weekday.");
    for round in 0..c.n(1500) {
        let mut r = c.fork();
        let mkt = MARKETS[round as usize % MARKETS.len()];
        let name = format!("{mkt:?}");
        let israel = matches!(mkt, Market::Israel);
        let plain = Calendar::new(mkt);
        let mut cal = Calendar::new(mkt);
        let mut extra: BTreeSet<i64> = BTreeSet::new();
        let y = r.i(1905, 2195) as i32;
        let m = r.us(1, 12) as u32;
        let anchor = days(y, m, if r.bool() { mlen(y, m) } else { 1 });
        for _ in 0..r.us(0, 4) {
            let s = anchor + r.i(-8, 8);
            let k = if r.chance(0.3) { r.i(2, 9) } else { 1 };
            if k == 1 { cal.add_holiday(date(s)); } else { cal.add_holidays((s..s + k).map(date).collect()); }
            for q in s..s + k { extra.insert(q); }
        }
        let ex: BTreeSet<i64> = cal.extra_holidays().iter().map(|d| z(*d)).collect();
        c.check(ex == extra, "extra_holidays", || format!("{name} {ex:?} want {extra:?}"));
        c.check(format!("{:?}", cal.market()) == name, "market", || name.clone());
        // oracle predicates
        let weekend = |q: i64| { let w = wday(q); if israel { w == 4 || w == 5 } else { w >= 5 } };
        let mut hol: std::collections::HashMap<i64, bool> = Default::default();
        let (lo, hi) = (anchor - 120, anchor + 120);
        for q in lo..=hi {
            let Some(h) = c.guard("is_holiday", || format!("{name} {}", date(q)), || plain.is_holiday(date(q))) else { break };
            hol.insert(q, h || extra.contains(&q));
        }
        if hol.len() < 241 { continue; }
        let open = |q: i64| !weekend(q) && !hol[&q];
        let mut closed = 0;
        for q in lo..=hi {
            let d = date(q);
            if let Some((we, h, b)) = c.guard("predicates", || format!("{name} {d}"), || (cal.is_weekend(d), cal.is_holiday(d), cal.is_business_day(d))) {
                c.check(we == weekend(q), &format!("weekend"), || format!("{name} {d} got {we}"));
                c.check(h == hol[&q], "holiday_with_added", || format!("{name} {d} got {h}"));
                c.check(b == open(q), "business_day", || format!("{name} {d} got {b}"));
            }
            if !open(q) { closed += 1; }
        }
        c.count("closed_days_seen", closed);
        // rolling
        for q in anchor - 20..=anchor + 20 {
            let d = date(q);
            let mut f = q; while !open(f) { f += 1; if f > hi { break } }
            let mut p = q; while !open(p) { p -= 1; if p < lo { break } }
            if f > hi || p < lo { continue }
            let mo = |q: i64| { let t = civil(q); (t.0, t.1) };
            let mf = if mo(f) != mo(q) { p } else { f };
            let mp = if mo(p) != mo(q) { f } else { p };
            let month_open = mo(f) == mo(q) || mo(p) == mo(q);
            for (cv, want) in [(Actual, q), (Following, f), (ModifiedFollowing, mf), (Preceding, p), (ModifiedPreceding, mp), (ModifiedRolling, f)] {
                if !month_open && matches!(cv, ModifiedFollowing | ModifiedPreceding) { continue }
                if let Some(g) = c.guard(&format!("roll:{cv:?}"), || format!("{name} {d}"), || cal.roll_date(d, cv)) {
                    c.check(z(g) == want, &format!("roll:{cv:?}"), || format!("{name} {d} got {g} want {}", date(want)));
                }
            }
            if let Some((a, b)) = c.guard("next_prev", || format!("{name} {d}"), || (next_business_day(d, &cal), previous_business_day(d, &cal))) {
                c.check(z(a) == f && z(b) == p, "next_previous_business_day", || format!("{name} {d} got {a} {b}"));
            }
            if !open(q) { c.case("roll_closed", &format!("{name} {d} {extra:?}")) } else { c.trivial("roll_open") }
        }
        // counts, inclusive of both ends
        for _ in 0..12 {
            let a = r.i(lo, hi);
            let b = r.i(a, hi);
            let want = (a..=b).filter(|q| open(*q)).count() as i64;
            if let Some(g) = c.guard("business_day_count", || format!("{name} {} {}", date(a), date(b)), || cal.business_day_count(date(a), date(b))) {
                c.check(g == want, "business_day_count", || format!("{name} {} to {}: got {g} want {want}", date(a), date(b)));
            }
            c.case("count", &format!("{name} {a} {b}"));
        }
        let mut ds: Vec<i64> = (0..r.us(2, 7)).map(|_| r.i(lo + 40, hi - 40)).collect();
        if r.bool() { ds.sort(); }
        let dv: Vec<_> = ds.iter().map(|q| date(*q)).collect();
        if ds.windows(2).all(|w| w[0] <= w[1]) {
            if let Some(g) = c.guard("business_day_counts", || format!("{dv:?}"), || cal.business_day_counts(dv.clone())) {
                let w: Vec<i64> = ds.windows(2).map(|w| (w[0]..=w[1]).filter(|q| open(*q)).count() as i64).collect();
                c.check(g == w, "business_day_counts", || format!("{name} {dv:?} {g:?} want {w:?}"));
            }
        }
        for cv in [Actual, Following, ModifiedFollowing, Preceding, ModifiedPreceding, ModifiedRolling] {
            let want: Vec<_> = dv.iter().map(|d| cal.roll_date(*d, cv)).collect();
            if let Some(g) = c.guard("roll_dates", || format!("{dv:?}"), || cal.roll_dates(dv.clone(), cv)) {
                c.check(g == want, "roll_dates", || format!("{name} {cv:?} {dv:?} {g:?}"));
            }
            let dc = *r.pick(&[DayCountConvention::Actual_360, DayCountConvention::Thirty_E_360, DayCountConvention::Actual_365_Fixed]);
            let t0 = today();
            let s = c.guard("schedule", || format!("{dv:?}"), || cal.generate_schedule_from_dates(dv.clone(), cv, dc));
            if let Some(s) = s {
                let mut w: Vec<f64> = want.windows(2).map(|x| dc.day_count_factor(x[0], x[1])).collect();
                w.insert(0, dc.day_count_factor(t0, want[0]));
                if today() == t0 {
                    c.check(s.day_count_factors == w, "schedule_factors", || format!("{name} {cv:?} {dv:?} {:?} want {w:?}", s.day_count_factors));
                }
                c.check(s.dates == want && s.date_rolling_convention == cv && format!("{:?}", s.day_counting_convention) == format!("{dc:?}"), "schedule_dates", || format!("{name} {cv:?} {:?} want {want:?}", s.dates));
            }
        }
        // a clone and a fresh calendar are unaffected by later additions
        let mut cl = cal.clone();
        let q = anchor + r.i(-30, 30);
        cl.add_holiday(date(q));
        c.check(cal.is_holiday(date(q)) == hol[&q] && cl.is_holiday(date(q)) && !cl.is_business_day(date(q)), "clone_independent", || format!("{name} {}", date(q)));
    }
    c.finish()
}
