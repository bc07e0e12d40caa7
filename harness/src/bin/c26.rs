//! C26: portfolios, cash flows, legs and quotes against direct sums and models.
use rqmon::*;
use std::collections::HashMap;
use time::{Date, Duration, Month};
use RustQuant_cashflows::{Cashflow, Leg, Quote, SimpleQuote};
use RustQuant_instruments::fx::*;
use RustQuant_instruments::Instrument;
use RustQuant_portfolios::{Portfolio, Position};

struct Probe(f64);
impl Instrument for Probe {
    fn price(&self) -> f64 { self.0 }
    fn error(&self) -> Option<f64> { None }
    fn valuation_date(&self) -> Date { Date::MIN }
    fn instrument_type(&self) -> &'static str { "probe" }
}
type Row = (String, u64, f64, f64);

fn judge(c: &mut Ctx, p: &Portfolio<Probe>, model: &[Row], h: &dyn Fn() -> String) {
    let size: f64 = model.iter().map(|(_, q, a, b)| *q as f64 * (a.abs() + b.abs())).sum();
    let tol = 1e-13 * size * (1 + model.len()) as f64;
    let value: f64 = model.iter().map(|(_, q, _, b)| *q as f64 * b).sum();
    let cost: f64 = model.iter().map(|(_, q, a, _)| *q as f64 * a).sum();
    let cash = |name: &str, c: &mut Ctx, got: f64, want: f64| c.close(got, want, tol, 0.0, name, || h());
    cash("portfolio:value", c, p.value(), value);
    cash("portfolio:cost", c, p.cost(), cost);
    cash("portfolio:profit", c, p.profit(), value - cost);
    for (name, q, a, b) in model {
        let Some(x) = p.positions.get(name) else { c.violate("portfolio:lost position", || h()); continue };
        c.check(x.quantity == *q && x.purchase_price == *a && x.current_price == *b, "position:fields", || h());
        c.close(x.value(), *q as f64 * b, 0.0, 1e-15, "position:value", || h());
        c.close(x.profit(), *q as f64 * (b - a), tol, 0.0, "position:profit", || h());
    }
    c.check(p.positions.len() == model.len(), "portfolio:positions", || h());
    // weights are meaningful when the value does not cancel
    let gross: f64 = model.iter().map(|(_, q, _, b)| (*q as f64 * b).abs()).sum();
    if gross > 0.0 && value.abs() > 0.05 * gross && value.abs() < 1e37 {
        if let Some(w) = c.guard("position_weights", || h(), || p.position_weights()) {
            c.check(w.len() == model.len(), "weights:entries", || h());
            let mut sum = 0.0;
            for (name, q, _, b) in model {
                let Some(x) = w.get(name) else { c.violate("weights:missing", || h()); continue };
                c.close(*x as f64, *q as f64 * b / value, 1e-6, 1e-6, "weights:share", || format!("{} position {name}", h()));
                sum += *x as f64;
            }
            c.close(sum, 1.0, 4e-7 * (gross / value.abs()) * (2 + model.len()) as f64, 0.0, "weights:sum", || h());
        }
    }
}

fn main() {
    let mut c = Ctx::new("C26", "portfolios of 0 to 800 positions with zero and huge quantities, negative and zero prices, built in different orders, then random histories of price and quantity updates checked after every step; cash flows under every operator with matching and differing dates; legs built at once, incrementally or by default with unsorted and repeated dates, queried around their span; quote histories with unset, zero and repeated values. Non-trivial: portfolios of two or more positions, legs with two or more distinct dates, quote histories that unset a value.");
    for _ in 0..c.n(3000) {
        let mut g = c.fork();
        let top = if g.chance(0.2) { 30 } else { 6 };
        let n = g.size(0, top, 800);
        let qty = |g: &mut Rng| match g.below(6) { 0 => 0, 1 => 1, 2 => { let k = g.us(12, 40); g.u64() >> k }, _ => g.below(5000) };
        let px = |g: &mut Rng| match g.below(10) { 0 => 0.0, 1 => -g.range(0.0, 50.0), 2 => g.logr(1e-6, 1e6), _ => g.range(1.0, 500.0) };
        let mut model: Vec<Row> = (0..n).map(|i| (format!("P{i}"), qty(&mut g), px(&mut g), px(&mut g))).collect();
        let ccy = [Some(USD), None, Some(EUR)];
        let build = |rows: &[Row], literal: bool| Portfolio::new(rows.iter().map(|(s, q, a, b)| (s.clone(), if literal { Position { instrument: Probe(*b), quantity: *q, purchase_price: *a, current_price: *b, currency: ccy[(*q % 3) as usize] } } else { Position::new(Probe(*b), *q, *a, *b, ccy[(*q % 3) as usize]) })).collect::<HashMap<_, _>>());
        let mut p = build(&model, g.bool());
        let first = format!("{model:?}");
        let mut hist = String::new();
        judge(&mut c, &p, &model, &|| first.clone());
        // insertion order does not matter beyond rounding
        let mut other = model.clone();
        g.shuffle(&mut other);
        judge(&mut c, &build(&other, g.bool()), &other, &|| format!("reordered {first}"));
        if n > 0 {
            for _ in 0..g.us(1, 12) {
                let i = g.us(0, n - 1);
                let name = model[i].0.clone();
                let (q, x) = (qty(&mut g), px(&mut g));
                match g.below(4) {
                    0 => { p.update_price(&name, x); model[i].3 = x; hist.push_str(&format!("{name}.price={x};")) }
                    1 => { p.update_quantity(&name, q); model[i].1 = q; hist.push_str(&format!("{name}.quantity={q};")) }
                    2 => { p.positions.get_mut(&name).unwrap().update_price(x); model[i].3 = x; hist.push_str(&format!("{name}:price={x};")) }
                    _ => { p.positions.get_mut(&name).unwrap().update_quantity(q); model[i].1 = q; hist.push_str(&format!("{name}:quantity={q};")) }
                }
                judge(&mut c, &p, &model, &|| format!("{first} {hist}"));
            }
            // an unknown name must not change anything
            if c.call("update_price", || p.update_price("nobody", 1.0)).is_ok() { c.check(!p.positions.contains_key("nobody"), "portfolio:invented position", || first.clone()); }
            judge(&mut c, &p, &model, &|| format!("{first} {hist} unknown"));
        }
        if n >= 2 { c.case("portfolio", &first) } else { c.trivial("small portfolio") }
    }
    let day = |g: &mut Rng| Date::from_calendar_date(2020, Month::January, 1).unwrap() + Duration::days(if g.chance(0.5) { g.i(0, 6) } else { g.i(-40000, 40000) });
    let amount = |g: &mut Rng| match g.below(6) { 0 => 0.0, 1 => g.normal() * 1e200, _ => g.normal() * g.logr(0.01, 1e7) };
    for _ in 0..c.n(8000) {
        let mut g = c.fork();
        let (x, y, k) = (amount(&mut g), amount(&mut g), if g.chance(0.1) { 0.0 } else { g.normal() * 3.0 });
        let d = day(&mut g);
        let e = if g.chance(0.7) { d } else { day(&mut g) };
        let (a, b) = (Cashflow::new(x, d), Cashflow::new(y, e));
        let h = || format!("{x} on {d}, {y} on {e}, factor {k}");
        let eq = |p: f64, q: f64| p == q || (p.is_nan() && q.is_nan());
        c.check(a.amount() == x && a.date() == d && a.amount == x && a.date == d, "cashflow:accessors", h);
        c.check(eq(a.npv(k), x * k), "cashflow:npv", h);
        let two: [(&str, fn(Cashflow, Cashflow) -> Cashflow, f64); 4] = [("add", |p, q| p + q, x + y), ("sub", |p, q| p - q, x - y), ("add_assign", |mut p, q| { p += q; p }, x + y), ("sub_assign", |mut p, q| { p -= q; p }, x - y)];
        for (name, f, want) in two {
            match c.call(name, || f(a, b)) {
                Ok(r) => { c.check(d == e, &format!("cashflow:{name}:accepts other date"), h); c.check(eq(r.amount, want) && r.date == d, &format!("cashflow:{name}:value"), || format!("{} got {r}", h())); }
                Err(m) => { c.check(d != e, &format!("cashflow:{name}:refuses same date"), || format!("{} {m}", h())); }
            }
        }
        let mut m1 = a; m1 *= k;
        let mut d1 = a; d1 /= k;
        let mut neg = a;
        for (name, r, want) in [("mul", a * k, x * k), ("div", a / k, x / k), ("mul_assign", m1, x * k), ("div_assign", d1, x / k), ("neg", -a, -x), ("neg ref", -&a, -x), ("neg mut", -&mut neg, -x)] {
            c.check(eq(r.amount, want) && r.date == d, &format!("cashflow:{name}:value"), || format!("{} got {r}", h()));
        }
        c.check(neg == a && a == Cashflow::new(x, d), "cashflow:neg changes operand", h);
        c.check((a == b) == (x == y && d == e), "cashflow:equality", h);
        c.check(format!("{a}").contains(&format!("{d}")) && format!("{a}").contains(&format!("{x}")), "cashflow:display", || format!("{a}"));
        c.case("cashflow", &h());
    }
    for _ in 0..c.n(3000) {
        let mut g = c.fork();
        let n = g.size(0, 12, 1000);
        let flows: Vec<(f64, Date)> = (0..n).map(|_| (amount(&mut g), day(&mut g))).collect();
        let split = g.us(0, n);
        let mut leg = if split == 0 && g.bool() { Leg::default() } else { Leg::new(flows[..split].iter().map(|(x, d)| Cashflow::new(*x, *d)).collect()) };
        for i in split..=n {
            let cur = &flows[..i];
            let h = || format!("{cur:?} first {split} at construction");
            c.check(leg.size() == i && leg.cashflows().len() == i, "leg:size", h);
            c.check(leg.cashflows().iter().zip(cur).all(|(c, (x, d))| c.amount == *x && c.date == *d), "leg:flows", h);
            c.check(leg.start_date() == cur.iter().map(|x| x.1).min(), "leg:start", || format!("{} got {:?}", h(), leg.start_date()));
            c.check(leg.end_date() == cur.iter().map(|x| x.1).max(), "leg:end", || format!("{} got {:?}", h(), leg.end_date()));
            let k = match g.below(10) { 0 => 0.0, 1 => g.normal() * 1e2, _ => g.range(0.0, 1.5) };
            let size: f64 = cur.iter().map(|x| x.0.abs()).sum();
            c.close(leg.npv(k), cur.iter().map(|x| x.0 * k).sum(), 1e-14 * size * k.abs().max(1.0) * (i + 1) as f64, 0.0, "leg:npv", h);
            for q in [day(&mut g), day(&mut g)].into_iter().chain(leg.start_date()).chain(leg.end_date()).chain(leg.start_date().map(|d| d - Duration::DAY)).chain(leg.end_date().map(|d| d + Duration::DAY)) {
                let want = i > 0 && cur.iter().any(|x| x.1 <= q) && cur.iter().any(|x| x.1 >= q);
                c.check(leg.is_active(q) == want, "leg:active", || format!("{} on {q}", h()));
            }
            let copy = leg.clone();
            if i < n { leg.add_cashflow(Cashflow::new(flows[i].0, flows[i].1)); c.check(copy.size() == i && copy != leg, "leg:clone shares flows", h); }
        }
        if flows.iter().any(|x| x.1 != flows[0].1) { c.case("leg", &format!("{flows:?}{split}")) } else { c.trivial("single date leg") }
    }
    for _ in 0..c.n(4000) {
        let mut g = c.fork();
        let val = |g: &mut Rng| match g.below(6) { 0 => None, 1 => Some(0.0), 2 => Some(1.5), 3 => Some(g.normal() * g.logr(1e-6, 1e9)), _ => Some(g.normal()) };
        let mut cur = val(&mut g);
        let mut q = SimpleQuote::new(cur);
        let mut hist = format!("{cur:?}");
        let mut unset = false;
        for step in 0..g.size(1, 12, 500) {
            if step > 0 {
                if g.chance(0.15) { q.reset(); unset |= cur.is_some(); cur = None; hist.push_str(";reset") } else {
                    let v = val(&mut g);
                    hist.push_str(&format!(";{v:?}"));
                    let diff = q.set_value(v);
                    let want = match (cur, v) { (Some(a), Some(b)) => Some(b - a), (None, Some(b)) => Some(b), _ => None };
                    if let Some(w) = want { c.check(diff == w, "quote:reported change", || format!("{hist} got {diff} want {w}")); }
                    unset |= cur.is_some() && v.is_none();
                    cur = v;
                }
            }
            c.check(q.value() == cur, "quote:value", || format!("{hist} got {:?}", q.value()));
            c.check(q.is_valid() == cur.is_some(), "quote:validity", || hist.clone());
        }
        if unset { c.case("quote", &hist) } else { c.trivial("never unset") }
    }
    c.finish()
}
