//! C25: money arithmetic and currency conversion against a rate-table model; currency constants.
use rqmon::*;
use std::collections::HashMap;
use RustQuant_instruments::fx::*;
use RustQuant_instruments::Instrument;
use RustQuant_iso::ISO_4217;

fn main() {
    let mut c = Ctx::new("C25", "random amounts (signed, tiny, huge, zero, infinite) in random currencies; exchanges built by random histories of quotes (repeated pairs, both directions, self pairs, extreme rates) and queried after every step, on originals and clones; every currency constant; currencies built at run time. Non-trivial: histories holding both directions of a pair or a replaced quote.");
    let table: Vec<(Currency, &str, &str, usize, &str)> = include!("../currencies.in").to_vec();
    let mut by_alpha = HashMap::new();
    for (i, &(cur, al, num, minor, name)) in table.iter().enumerate() {
        c.check(cur.code.alphabetic == al && cur.code().alphabetic() == al, "constant:alphabetic", || format!("{al} carries {:?}", cur.code));
        c.check(cur.code.numeric == num && cur.code().numeric() == num, "constant:numeric", || format!("{al} carries {:?}, the standard says {num}", cur.code));
        c.check(cur.minor == minor && cur.minor() == minor, "constant:minor unit", || format!("{al} carries {}, the standard says {minor}", cur.minor));
        c.check(cur.fractions == 10usize.pow(cur.minor as u32) && cur.fractions() == cur.fractions, "constant:fractions", || format!("{al}: minor {} fractions {}", cur.minor, cur.fractions));
        c.check(cur.name == name && cur.name() == name && cur.symbol() == cur.symbol && !cur.symbol.is_empty(), "constant:name", || format!("{al}: {cur:?} wanted {name}"));
        let text = format!("{cur}");
        c.check(text.contains(al) && text.contains(num) && text.contains(name), "currency:display", || text.clone());
        c.check(Instrument::price(&cur) == 1.0, "currency:price in itself", || al.to_string());
        let iso = ISO_4217::new(al, num);
        let it = format!("{iso}");
        c.check(iso == cur.code && it.contains(al) && it.contains(num), "iso_4217:equality", || format!("{iso:?} {:?}", cur.code));
        let rebuilt = Currency::new(cur.name, cur.symbol, iso, minor, 10usize.pow(minor as u32));
        c.check(rebuilt == cur, "currency:rebuilt", || format!("{rebuilt:?} != {cur:?}"));
        by_alpha.insert(al, cur);
        for &(other, al2, ..) in &table[..i] {
            c.check(cur != other && cur.code != other.code && cur.name != other.name && cur.code.numeric != other.code.numeric, "constant:not distinct", || format!("{al} and {al2}"));
            c.check(Money::new(cur, 1.0) != Money::new(other, 1.0), "money:equal across currencies", || format!("{al} and {al2}"));
            c.check(CurrencyPair::new(cur, other) != CurrencyPair::new(other, cur), "pair:unordered", || format!("{al} and {al2}"));
        }
        c.case("constant", al);
    }
    let cur = |g: &mut Rng| { let i = g.us(0, table.len() - 1); table[i].0 };
    let amount = |g: &mut Rng| match g.below(8) { 0 => 0.0, 1 => g.normal() * 1e300, 2 => g.normal() * 1e-300, 3 => f64::INFINITY, 4 => g.i(-1000, 1000) as f64, _ => g.normal() * g.logr(1e-3, 1e9) };
    // arithmetic
    for _ in 0..c.n(20000) {
        let mut g = c.fork();
        let a = cur(&mut g);
        let same = g.chance(0.6);
        let b = if same { a } else { cur(&mut g) };
        let (x, y) = (amount(&mut g), if g.chance(0.1) { 1.0 } else { amount(&mut g) });
        let (m, n) = (Money::new(a, x), Money::new(b, y));
        let h = || format!("{} {x} and {} {y}", a.code.alphabetic, b.code.alphabetic);
        c.check(m.amount().to_bits() == x.to_bits() && m.currency() == a, "money:accessors", h);
        let ops: [(&str, fn(Money, Money) -> Money, fn(f64, f64) -> f64); 4] = [("add", |p, q| p + q, |p, q| p + q), ("sub", |p, q| p - q, |p, q| p - q), ("mul", |p, q| p * q, |p, q| p * q), ("div", |p, q| p / q, |p, q| p / q)];
        for (name, f, w) in ops {
            match c.call(name, || f(m, n)) {
                Ok(r) => {
                    c.check(a == b, &format!("{name}:accepts mixed currencies"), h);
                    let want = w(x, y);
                    c.check(r.amount.to_bits() == want.to_bits() || (r.amount.is_nan() && want.is_nan()), &format!("{name}:amount"), || format!("{} got {} want {want}", h(), r.amount));
                    c.check(r.currency == a, &format!("{name}:currency"), h);
                }
                Err(e) => { c.check(a != b, &format!("{name}:refuses one currency"), || format!("{} {e}", h())); }
            }
        }
        c.check((m == n) == (a == b && x == y), "money:equality", h);
        c.check(m.partial_cmp(&n) == if a == b { x.partial_cmp(&y) } else { None }, "money:order", h);
        c.check((m < n) == (a == b && x < y) && (m >= n) == (a == b && x >= y), "money:comparison", h);
        let text = format!("{m}");
        c.check(text.contains(a.name) && text.contains(a.code.alphabetic) && text.contains(&format!("{x}")), "money:display", || text.clone());
        c.case(if a == b { "one currency" } else { "mixed" }, &h());
    }
    // histories of quotes
    for _ in 0..c.n(1500) {
        let mut g = c.fork();
        let pool: Vec<Currency> = (0..g.us(2, 6)).map(|_| cur(&mut g)).collect();
        let mut ex = if g.bool() { Exchange::new() } else { Exchange::default() };
        let mut model: HashMap<(&str, &str), f64> = HashMap::new();
        let mut frozen: Option<(Exchange, HashMap<(&str, &str), f64>)> = None;
        let mut hist = String::new();
        let (mut both, mut replaced) = (false, false);
        for step in 0..g.us(2, 30) {
            let (a, b) = (*g.pick(&pool), *g.pick(&pool));
            let rate = if g.chance(0.1) { g.logr(1e-8, 1e8) } else { g.logr(0.01, 100.0) };
            hist.push_str(&format!("{}/{}={rate};", a.code.alphabetic, b.code.alphabetic));
            let q = ExchangeRate::new(a, b, rate);
            c.check(q.rate == rate && q.from_currency == a && q.to_currency == b, "rate:fields", || hist.clone());
            ex.add_rate(q);
            replaced |= model.insert((a.code.alphabetic, b.code.alphabetic), rate).is_some();
            both |= a != b && model.contains_key(&(b.code.alphabetic, a.code.alphabetic));
            if step == 5 { frozen = Some((ex.clone(), model.clone())) }
            for _ in 0..3 {
                let (p, q) = (*g.pick(&pool), if g.chance(0.9) { *g.pick(&pool) } else { cur(&mut g) });
                let x = amount(&mut g);
                let views: Vec<(&str, &Exchange, &HashMap<_, f64>)> = match &frozen { Some((e, m)) => vec![("exchange", &ex, &model), ("clone", e, m)], None => vec![("exchange", &ex, &model)] };
                for (who, e, m) in views {
                    let want = m.get(&(p.code.alphabetic, q.code.alphabetic)).copied();
                    let h = || format!("{hist} query {}->{} amount {x} on {who}", p.code.alphabetic, q.code.alphabetic);
                    let got = e.get_rate(&p, &q);
                    c.check(got.map(|r| r.rate) == want, "get_rate:value", || format!("{} got {got:?} want {want:?}", h()));
                    if let Some(r) = got {
                        c.check(r.from_currency == p && r.to_currency == q, "get_rate:pair", h);
                        // the quote itself converts only its own base currency
                        let direct = *r;
                        match c.call("ExchangeRate::convert", || direct.convert(Money::new(q, x))) {
                            Ok(_) => { c.check(p == q, "rate:converts a foreign currency", h); }
                            Err(e) => { c.check(p != q, "rate:refuses its base", || format!("{} {e}", h())); }
                        }
                    }
                    match (c.call("convert", || e.convert(Money::new(p, x), q)), want) {
                        (Ok(v), Some(w)) => {
                            let z = x * w;
                            c.check((v.amount == z || (v.amount.is_nan() && z.is_nan())) && v.currency == q, "convert:value", || format!("{} got {v:?} want {z}", h()));
                        }
                        (Ok(v), None) => c.violate("convert:invents a quote", || format!("{} got {v:?}", h())),
                        (Err(e), Some(_)) => c.violate("convert:refuses a quoted pair", || format!("{} {e}", h())),
                        (Err(_), None) => {}
                    }
                }
            }
            c.check(ex.rates.len() == model.len(), "exchange:number of quotes", || format!("{hist} {} != {}", ex.rates.len(), model.len()));
        }
        if both || replaced { c.case("history", &hist) } else { c.trivial("no reversal") }
    }
    c.finish()
}
