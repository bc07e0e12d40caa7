//! C03: every market's holiday predicate against an independent statement of its rules, on every
//! date of 1901-2199. Announced (non-rule) dates come from the reference tables in data/holidays.
use rqmon::civil::*;
use rqmon::*;
use std::collections::{BTreeMap, HashSet};
use RustQuant_time::*;

const MON: u32 = 0;
const TUE: u32 = 1;
const WED: u32 = 2;
const THU: u32 = 3;
const FRI: u32 = 4;
const SAT: u32 = 5;
const SUN: u32 = 6;

/// The holidays of one market in one year, built by adding days (not by testing a date).
struct Y {
    y: i32,
    e: i64, // Easter Sunday
    set: HashSet<i64>,
}
impl Y {
    fn new(y: i32) -> Y {
        Y { y, e: easter_western(y), set: HashSet::new() }
    }
    fn d(&mut self, m: u32, d: u32) -> &mut Self {
        self.set.insert(days(self.y, m, d));
        self
    }
    fn fixed(&mut self, l: &[(u32, u32)]) -> &mut Self {
        for &(m, d) in l { self.d(m, d); }
        self
    }
    /// Offsets from Easter Sunday.
    fn easter(&mut self, l: &[i64]) -> &mut Self {
        for o in l { self.set.insert(self.e + o); }
        self
    }
    /// Add the day, and the given day shifts when it falls on the given weekday.
    fn obs(&mut self, m: u32, d: u32, moves: &[(u32, i64)]) -> &mut Self {
        let z = days(self.y, m, d);
        self.set.insert(z);
        for &(w, s) in moves { if wday(z) == w { self.set.insert(z + s); } }
        self
    }
    fn nth(&mut self, m: u32, n: i64, w: u32) -> &mut Self {
        let f = days(self.y, m, 1);
        self.set.insert(f + (w as i64 - wday(f) as i64).rem_euclid(7) + 7 * (n - 1));
        self
    }
    fn last(&mut self, m: u32, w: u32) -> &mut Self {
        let l = days(self.y, m, mlen(self.y, m));
        self.set.insert(l - (wday(l) as i64 - w as i64).rem_euclid(7));
        self
    }
    /// The only weekday `w` in the seven days starting at (m, d).
    fn week(&mut self, m: u32, d: u32, w: u32) -> &mut Self {
        let f = days(self.y, m, d);
        self.set.insert(f + (w as i64 - wday(f) as i64).rem_euclid(7));
        self
    }
    fn when(&mut self, c: bool, f: impl FnOnce(&mut Self)) -> &mut Self {
        if c { f(self) }
        self
    }
}
/// Weekend to Monday / Christmas and Boxing Day two-day displacement / US style.
const SATSUN_MON: &[(u32, i64)] = &[(SAT, 2), (SUN, 1)];
const SUN_MON: &[(u32, i64)] = &[(SUN, 1)];
const WEEKEND_2: &[(u32, i64)] = &[(SAT, 2), (SUN, 2)];
const US: &[(u32, i64)] = &[(SAT, -1), (SUN, 1)];

fn rules(name: &str, y: i32) -> HashSet<i64> {
    let mut q = Y::new(y);
    match name {
        "None" | "Weekends" => {}
        "Argentina" => {
            q.fixed(&[(1, 1), (5, 1), (5, 25), (7, 9), (12, 8), (12, 24), (12, 25), (12, 31)]).easter(&[-3, -2]).nth(6, 3, MON).nth(8, 3, MON);
            // Monday among 10, 11, 12, 15, 16 October
            for d in [10, 11, 12, 15, 16] { if wday(days(y, 10, d)) == MON { q.d(10, d); } }
            if wday(days(y, 12, 30)) == FRI { q.d(12, 30); }
        }
        "Australia" => {
            q.obs(1, 1, SATSUN_MON).obs(1, 26, SATSUN_MON).easter(&[-2, 1]).d(4, 25).nth(6, 2, MON).nth(8, 1, MON).nth(10, 1, MON).obs(12, 25, WEEKEND_2).obs(12, 26, WEEKEND_2);
            q.when(y == 2022, |q| { q.d(9, 22); });
        }
        "Austria" => {
            q.fixed(&[(1, 1), (1, 6), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)]).easter(&[1, 39, 50, 60]);
            q.when(y >= 1967, |q| { q.d(10, 26); }).when(y >= 1919 && y <= 1934, |q| { q.d(11, 12); });
        }
        "Botswana" => {
            q.obs(1, 1, &[(SUN, 1), (SUN, 2)]).easter(&[-2, 1, 39]).obs(5, 1, SUN_MON).obs(7, 1, SUN_MON).nth(7, 3, MON).obs(9, 30, SUN_MON).obs(10, 1, &[(SUN, 1), (SUN, 2)]).d(12, 25).obs(12, 26, SUN_MON);
        }
        "Brazil" => {
            q.fixed(&[(1, 1), (4, 21), (5, 1), (9, 7), (10, 12), (11, 2), (11, 15), (12, 25)]).easter(&[-48, -47, -2, 60]).when(y >= 2024, |q| { q.d(11, 20); });
        }
        "Canada" => {
            q.obs(1, 1, SATSUN_MON).easter(&[-2]).week(5, 18, MON).obs(7, 1, SATSUN_MON).nth(8, 1, MON).nth(9, 1, MON).nth(10, 2, MON).obs(11, 11, SATSUN_MON).obs(12, 25, WEEKEND_2).obs(12, 26, WEEKEND_2);
            q.when(y >= 2008, |q| { q.nth(2, 3, MON); }).when(y >= 2021, |q| { q.obs(9, 30, SATSUN_MON); });
        }
        "Chile" => {
            q.fixed(&[(1, 1), (5, 1), (5, 21), (7, 16), (8, 15), (9, 18), (9, 19), (11, 1), (12, 8), (12, 25)]).easter(&[-2, -1]);
            q.when(y > 2016, |q| { q.obs(1, 1, SUN_MON); }).when(y >= 2021, |q| { q.d(6, 21); });
            // St. Peter and St. Paul (29 June): on Mondays 26-29 June or 2 July
            for (m, d) in [(6, 26), (6, 27), (6, 28), (6, 29), (7, 2), (10, 9), (10, 10), (10, 11), (10, 12), (10, 15)] {
                if wday(days(y, m, d)) == MON { q.d(m, d); }
            }
            let w17 = wday(days(y, 9, 17));
            if w17 == MON && y >= 2007 || w17 == FRI && y > 2016 { q.d(9, 17); }
            if wday(days(y, 9, 20)) == FRI && y >= 2007 { q.d(9, 20); }
            if y >= 2008 {
                // Reformation Day: Tuesday moves to the previous Friday, Wednesday to the next one
                match wday(days(y, 10, 31)) { TUE => q.d(10, 27), WED => q.d(11, 2), _ => q.d(10, 31) };
            }
        }
        "China" => {
            q.d(1, 1);
            if y <= 2008 { q.fixed(&[(4, 4), (6, 9), (9, 15)]); }
            if y <= 2007 { for d in 1..=7 { q.d(5, d).d(10, d); } }
        }
        "CzechRepublic" => {
            q.fixed(&[(1, 1), (5, 1), (5, 8), (7, 5), (7, 6), (9, 28), (10, 28), (11, 17), (12, 24), (12, 25), (12, 26)]).easter(&[1]);
            q.when(y >= 2016, |q| { q.easter(&[-2]); }).when(y == 2004, |q| { q.fixed(&[(1, 2), (12, 31)]); });
        }
        "Denmark" => {
            q.fixed(&[(1, 1), (6, 5), (12, 24), (12, 25), (12, 26), (12, 31)]).easter(&[-3, -2, 1, 39, 50]);
            q.when(y <= 2023, |q| { q.easter(&[26]); }).when(y >= 2009, |q| { q.easter(&[40]); });
        }
        "Finland" => { q.fixed(&[(1, 1), (1, 6), (5, 1), (12, 6), (12, 24), (12, 25), (12, 26)]).easter(&[-2, 1, 39]).week(6, 18, FRI); }
        "France" => { q.fixed(&[(1, 1), (5, 1), (5, 8), (7, 14), (8, 15), (11, 1), (11, 11), (12, 25)]).easter(&[1, 39, 50]); }
        "Germany" => { q.fixed(&[(1, 1), (5, 1), (10, 3), (12, 24), (12, 25), (12, 26)]).easter(&[-2, 1, 39, 50, 60]); }
        "HongKong" => { q.obs(1, 1, SUN_MON).easter(&[-2, 1]).obs(5, 1, SUN_MON).obs(7, 1, SUN_MON).obs(10, 1, SUN_MON).fixed(&[(12, 25), (12, 26)]); }
        "Hungary" => { q.fixed(&[(1, 1), (3, 15), (5, 1), (8, 20), (10, 23), (11, 1), (12, 25), (12, 26)]).easter(&[-2, 1, 50]); }
        "Iceland" => { q.fixed(&[(1, 1), (5, 1), (6, 17), (12, 24), (12, 25), (12, 26), (12, 31)]).easter(&[-3, -2, 1, 39, 50]).week(4, 19, THU).nth(8, 1, MON); }
        "India" => { q.fixed(&[(1, 26), (5, 1), (8, 15), (10, 2), (12, 25)]).easter(&[-2]); }
        "Indonesia" => { q.fixed(&[(1, 1), (5, 1), (6, 1), (8, 17), (12, 25), (12, 26)]).easter(&[-2, 39]); }
        "Israel" => return israel(y),
        "Italy" => { q.fixed(&[(1, 1), (1, 6), (4, 25), (5, 1), (6, 2), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)]).easter(&[1]); }
        "Mexico" => {
            q.fixed(&[(1, 1), (5, 1), (9, 16), (12, 25)]).nth(2, 1, MON).nth(3, 3, MON).nth(11, 3, MON).when((y - 2018).rem_euclid(6) == 0, |q| { q.d(10, 1); });
        }
        "Netherlands" => {
            q.fixed(&[(1, 1), (12, 25), (12, 26)]).easter(&[-2, 0, 1, 39, 49, 50]);
            if wday(days(y, 4, 27)) == SUN { q.d(4, 26); } else { q.d(4, 27); }
            q.when(y >= 2020 && y % 5 == 0, |q| { q.d(5, 5); });
        }
        "NewZealand" => {
            q.obs(1, 1, WEEKEND_2).obs(1, 2, WEEKEND_2).week(1, 19, MON).d(2, 6).d(4, 25).easter(&[-2, 1]).nth(6, 1, MON).nth(10, 4, MON).obs(12, 25, WEEKEND_2).obs(12, 26, WEEKEND_2);
            q.when(y > 2013, |q| { q.obs(2, 6, SATSUN_MON).obs(4, 25, SATSUN_MON); });
            // Matariki, as gazetted (day, month) for 2022-2052
            const M: [(u32, u32); 31] = [
                (24, 6), (14, 7), (28, 6), (20, 6), (10, 7), (25, 6), (14, 7), (6, 7), (21, 6), (11, 7), (2, 7), (24, 6), (7, 7), (29, 6), (18, 7), (10, 7),
                (25, 6), (15, 7), (6, 7), (19, 7), (11, 7), (3, 7), (24, 6), (7, 7), (29, 6), (19, 7), (3, 7), (25, 6), (15, 7), (30, 6), (21, 6),
            ];
            if (2022..=2052).contains(&y) { let (d, m) = M[(y - 2022) as usize]; q.d(m, d); }
        }
        "Singapore" => { q.obs(1, 1, SUN_MON).easter(&[-2]).obs(5, 1, SUN_MON).obs(8, 9, SUN_MON).obs(12, 25, SUN_MON); }
        "Switzerland" => { q.fixed(&[(1, 1), (1, 2), (5, 1), (8, 1), (12, 24), (12, 25), (12, 26), (12, 31)]).easter(&[-2, 1, 39, 50]); }
        "UnitedKingdom" => {
            q.obs(1, 1, SATSUN_MON).easter(&[-2, 1]).last(8, MON).obs(12, 25, WEEKEND_2).obs(12, 26, WEEKEND_2);
            if y == 1995 || y == 2020 { q.d(5, 8); } else { q.nth(5, 1, MON); }
            match y { 2002 => q.fixed(&[(6, 3), (6, 4)]), 2012 => q.fixed(&[(6, 4), (6, 5)]), 2022 => q.fixed(&[(6, 2), (6, 3)]), _ => q.last(5, MON) };
            match y { 1999 => q.d(12, 31), 2011 => q.d(4, 29), 2022 => q.d(9, 19), 2023 => q.d(5, 8), _ => &mut q };
        }
        "UnitedStates" => {
            q.obs(1, 1, SUN_MON).obs(7, 4, US).nth(9, 1, MON).nth(11, 4, THU).obs(12, 25, US);
            if wday(days(y, 12, 31)) == FRI { q.d(12, 31); }
            q.when(y >= 1983, |q| { q.nth(1, 3, MON); }).when(y >= 2022, |q| { q.obs(6, 19, US); });
            if y >= 1971 { q.nth(2, 3, MON).last(5, MON).nth(10, 2, MON); } else { q.obs(2, 22, US).obs(5, 30, US); }
            if (1971..=1977).contains(&y) { q.nth(10, 4, MON); } else { q.obs(11, 11, US); }
        }
        _ => panic!("market without rules: {name}"),
    }
    q.set
}

/// Hebrew calendar (molad arithmetic), months numbered from Tishri = 1.
fn heb_leap(h: i64) -> bool { (7 * h + 1).rem_euclid(19) < 7 }
/// Day number of 1 Tishri of Hebrew year h (elapsed days plus the fixed epoch).
fn heb_new_year(h: i64) -> i64 {
    let el = |h: i64| {
        let months = (235 * h - 234).div_euclid(19);
        let parts = 12084 + 13753 * months;
        let d = months * 29 + parts.div_euclid(25920);
        if (3 * (d + 1)).rem_euclid(7) < 3 { d + 1 } else { d }
    };
    let (p, c, n) = (el(h - 1), el(h), el(h + 1));
    let fix = if n - c == 356 { 2 } else if c - p == 382 { 1 } else { 0 };
    // R.D. epoch -1373427 (1 Tishri AM 1 is R.D. -1373427); R.D. 719163 is 1970-01-01
    -1373427 + c + fix - 719163
}
fn israel(y: i32) -> HashSet<i64> {
    let mut s = HashSet::new();
    for h in (y as i64 + 3760)..=(y as i64 + 3761) {
        let ny = heb_new_year(h);
        let len = heb_new_year(h + 1) - ny;
        let leap = heb_leap(h);
        let base = if leap { len - 30 } else { len };
        assert!((353..=355).contains(&base), "hebrew year length {len}");
        // lengths from Tishri; Adar (or Adar II) named by start day
        let mut start = BTreeMap::new();
        let mut z = ny;
        let mut put = |n: &'static str, l: i64| { start.insert(n, z); z += l; };
        put("Tishri", 30);
        put("Heshvan", if base == 355 { 30 } else { 29 });
        put("Kislev", if base == 353 { 29 } else { 30 });
        put("Tevet", 29);
        put("Shevat", 30);
        if leap { put("AdarI", 30); }
        put("Adar", 29);
        put("Nisan", 30);
        put("Iyar", 29);
        put("Sivan", 30);
        put("Tammuz", 29);
        put("Av", 30);
        put("Elul", 29);
        assert_eq!(z, ny + len);
        let mut add = |m: &str, d: i64| { s.insert(start[m] + d - 1); };
        for d in [1, 2, 9, 10, 14, 15, 22, 23] { add("Tishri", d); }
        add("Elul", 29);
        add("Adar", 14);
        for d in [14, 15, 20, 21] { add("Nisan", d); }
        for d in [5, 6] { add("Sivan", d); }
        // Tisha B'Av: the 9th, and the 10th when that is a Sunday
        add("Av", 9);
        if wday(start["Av"] + 9) == SUN { add("Av", 10); }
        // Memorial and Independence Day as observed on the given weekdays of Iyar
        for (d, w) in [(3, THU), (4, THU), (2, WED), (3, WED), (5, MON), (6, TUE), (5, WED), (4, TUE)] {
            if wday(start["Iyar"] + d - 1) == w { add("Iyar", d); }
        }
    }
    s.retain(|z| civil(*z).0 == y);
    s
}

fn main() {
    let mut c = Ctx::new("C03", "every market x every date of 1901-2199, through Calendar::is_holiday and is_business_day. Non-trivial: the date is a holiday by the rules.");
    c.assume("the announced (lunar and one-off) holidays of China 2004-2023, Hong Kong 2004-2020, Singapore 2004-2024, India 2000-2029 and Indonesia 2000-2025 come from reference tables in harness/data/holidays.txt");
    let mut table: BTreeMap<String, HashSet<i64>> = BTreeMap::new();
    for l in include_str!("../../data/holidays.txt").lines() {
        let mut it = l.split_whitespace();
        let (Some(m), Some(y)) = (it.next(), it.next()) else { continue };
        for d in it {
            let (a, b) = d.split_once('-').unwrap();
            table.entry(m.to_string()).or_default().insert(days(y.parse().unwrap(), a.parse().unwrap(), b.parse().unwrap()));
        }
    }
    let markets: &[Market] = &[
        Market::None, Market::Weekends, Market::Argentina, Market::Australia, Market::Austria, Market::Botswana, Market::Brazil, Market::Canada,
        Market::Chile, Market::China, Market::CzechRepublic, Market::Denmark, Market::Finland, Market::France, Market::Germany, Market::HongKong,
        Market::Hungary, Market::Iceland, Market::India, Market::Indonesia, Market::Israel, Market::Italy, Market::Mexico, Market::Netherlands,
        Market::NewZealand, Market::Singapore, Market::UnitedKingdom, Market::UnitedStates, Market::Switzerland,
    ];
    for mkt in markets {
        let name = format!("{mkt:?}");
        let cal = Calendar::new(*mkt);
        let empty = HashSet::new();
        let extra = table.get(&name).unwrap_or(&empty);
        for y in 1901..=2199 {
            let rule = rules(&name, y);
            for q in days(y, 1, 1)..=days(y, 12, 31) {
                let want = rule.contains(&q) || extra.contains(&q);
                let d = date(q);
                let Some((h, b)) = c.guard(&format!("{name}:panic"), || format!("{d}"), || (cal.is_holiday(d), cal.is_business_day(d))) else { continue };
                let (_, m, dd) = civil(q);
                c.check(h == want, &format!("{name}:{}:{m:02}-{dd:02}", if want { "missing" } else { "spurious" }), || format!("{d} is_holiday={h} rule={want}"));
                let w = wday(q);
                let open = !want && !(if name == "Israel" { w == FRI || w == SAT } else { w == SAT || w == SUN });
                c.check(b == open, &format!("{name}:business:{m:02}-{dd:02}"), || format!("{d} is_business_day={b} want {open}"));
                if want { c.case(&name, &d.to_string()) } else { c.trivial("ordinary_days") }
            }
        }
    }
    c.finish()
}
