//! C34: every constant and every lookup of the ISO tables against reference tables.
use rqmon::*;
use std::collections::{BTreeMap, BTreeSet};
use RustQuant_iso::{iso_10383 as mic, iso_3166 as country, ISO_10383, ISO_3166, ISO_4217, MICStatus, OperatingOrSegment};

macro_rules! countries { ($($n:ident $a:literal $b:literal $c:literal,)*) => { const COUNTRIES: &[(&str, ISO_3166, &str, &str, &str)] = &[$((stringify!($n), country::$n, $a, $b, $c)),*]; } }
macro_rules! mics { ($($n:ident $o:literal $c:literal $s:ident $t:ident $city:literal $d:literal,)*) => { const MICS: &[(&str, ISO_10383, &str, &str, OperatingOrSegment, MICStatus, &str, &str)] = &[$((stringify!($n), mic::$n, $o, $c, OperatingOrSegment::$s, MICStatus::$t, $city, $d)),*]; } }
include!("../countries.in");
include!("../mics.in");

fn main() {
    let mut c = Ctx::new("C34", "all 249 country constants and all 2615 market constants against reference tables, country lookup of every one- and two-letter string, every three-letter string, every three-digit code and hostile strings, uniqueness and internal consistency, currency code values. Exhaustive. Non-trivial: an entry that exists.");
    // countries
    let (mut s2, mut s3, mut sn): (BTreeMap<&str, &str>, BTreeMap<&str, &str>, BTreeMap<&str, &str>) = Default::default();
    for (name, v, a2, a3, num) in COUNTRIES {
        let h = || format!("{name}: {} {} {} for {a2} {a3} {num}", v.alpha_2, v.alpha_3, v.numeric);
        c.check((v.alpha_2, v.alpha_3, v.numeric) == (*a2, *a3, *num), "country:codes", h);
        c.check((v.alpha_2(), v.alpha_3(), v.numeric()) == (*a2, *a3, *num), "country:accessors", h);
        for (m, k) in [(&mut s2, v.alpha_2), (&mut s3, v.alpha_3), (&mut sn, v.numeric)] { if let Some(o) = m.insert(k, name) { c.violate("country:duplicate", || format!("{k} belongs to {o} and {name}")) } }
        let got = c.guard("lookup", h, || ISO_3166::from_alpha_2(a2)).flatten();
        c.check(got == Some(*v), "country:lookup", || format!("{a2} found {got:?}"));
        c.case("country", name);
    }
    let known: BTreeSet<&str> = COUNTRIES.iter().map(|r| r.2).collect();
    let abc: Vec<char> = ('A'..='Z').collect();
    let mut probes: Vec<String> = vec![String::new(), " ".into(), "US ".into(), " US".into(), "U S".into(), "USA\0".into(), "Ü".into(), "ÅX".into(), "U".repeat(1000), "USUS".into(), "__".into(), "alpha_2".into(), "Some".into()];
    for a in &abc { probes.push(a.to_string()); for b in &abc { probes.push(format!("{a}{b}")); for d in &abc { probes.push(format!("{a}{b}{d}")) } } }
    for i in 0..1000 { probes.push(format!("{i:03}")); probes.push(i.to_string()) }
    for a in 0..128u8 { for b in 0..128u8 { if !(a.is_ascii_alphabetic() && b.is_ascii_alphabetic()) { probes.push(String::from_utf8(vec![a, b]).unwrap()) } } }
    for p in &probes {
        let got = c.guard("lookup", || format!("{p:?}"), || ISO_3166::from_alpha_2(p)).flatten();
        if known.contains(p.as_str()) { c.check(got.is_some_and(|v| v.alpha_2 == p), "country:lookup", || format!("{p:?} found {got:?}")); c.case("lookup", p); }
        else { c.check(got.is_none(), "country:unknown code found", || format!("{p:?} found {got:?}")); c.trivial("unknown code") }
    }
    // equality is by code
    for (i, a) in COUNTRIES.iter().enumerate() { for (j, b) in COUNTRIES.iter().enumerate() { c.check((a.1 == b.1) == (i == j), "country:equality", || format!("{} and {}", a.0, b.0)); } }
    // markets
    let by: BTreeMap<&str, &ISO_10383> = MICS.iter().map(|r| (r.0, &r.1)).collect();
    for (name, v, op, cc, seg, status, city, text) in MICS {
        let h = || format!("{name}: {v:?} for {op} {cc} {seg:?} {status:?} {city} {text}");
        c.check(v.operating_mic == *op, "market:operating code", h);
        c.check(v.country_code == *cc, "market:country", h);
        c.check(v.oprt_sgmt == *seg, "market:operating or segment", h);
        c.check(v.status == *status, "market:status", h);
        c.check(v.city == *city && v.description == *text, "market:name", h);
        c.check((v.oprt_sgmt == OperatingOrSegment::Operating) == (v.operating_mic == *name), "market:an operating market is its own operator", h);
        let o = by.get(v.operating_mic);
        c.check(o.is_some(), "market:operator unknown", h);
        if v.status != MICStatus::Expired { c.check(o.is_some_and(|o| o.status != MICStatus::Expired && o.oprt_sgmt == OperatingOrSegment::Operating), "market:active under an expired operator", h); }
        c.check(v.country_code == "ZZ" || ISO_3166::from_alpha_2(v.country_code).is_some(), "market:country unknown", h);
        c.case("market", name);
    }
    // currency code values
    for _ in 0..c.n(300) {
        let mut g = c.fork();
        let codes = [("USD", "840"), ("EUR", "978"), ("JPY", "392"), ("GBP", "826"), ("XAU", "959"), ("ALL", "008")];
        let (a, b) = (*g.pick(&codes), *g.pick(&codes));
        let (x, y) = (ISO_4217::new(a.0, a.1), ISO_4217::new(b.0, b.1));
        c.check(x.alphabetic() == a.0 && x.numeric() == a.1 && x.alphabetic == a.0 && x.numeric == a.1, "currency code:accessors", || format!("{a:?} gives {x:?}"));
        c.check((x == y) == (a == b), "currency code:equality", || format!("{a:?} {b:?}"));
        c.check(x.to_string().contains(a.0), "currency code:text", || format!("{a:?} shown as {x}"));
        c.trivial("currency code");
    }
    c.finish()
}
