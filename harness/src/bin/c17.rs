//! C17: closed-form prices against quadrature of the payoff, parity, bounds, shape and one another.
use rqmon::*;
use time::{Date, Duration, Month};
use RustQuant_instruments::*;

#[derive(Clone, Copy, Debug)]
enum M { Bs, Merton, B76, Asay, Gk, Bach }
/// discount rate, cost of carry
fn spec(m: M, r: f64, q: f64) -> (f64, f64) {
    match m { M::Bs => (r, r), M::Merton | M::Gk => (r, r - q), M::B76 | M::Bach => (r, 0.0), M::Asay => (0.0, 0.0) }
}
fn price(m: M, s: f64, k: f64, t: f64, r: f64, q: f64, v: f64, f: TypeFlag) -> f64 {
    match m {
        M::Bs => BlackScholes73::new(s, r, v).price(k, t, f),
        M::Merton => Merton73::new(s, r, q, v).price(k, t, f),
        M::B76 => Black76::new(s, r, v).price(k, t, f),
        M::Asay => Asay82::new(s, v).price(k, t, f),
        M::Gk => GarmanKohlhagen83::new(s, r, q, v).price(k, t, f),
        M::Bach => Bachelier::new(s, r, v).price(k, t, f),
    }
}
/// Discounted expectation of the payoff by quadrature over the standard normal.
fn expectation(m: M, s: f64, k: f64, t: f64, r: f64, b: f64, v: f64, call: bool) -> f64 {
    let sd = v * t.sqrt();
    let (df, fwd) = ((-r * t).exp(), s * (b * t).exp());
    let z0 = match m { M::Bach => (k - s) / sd, _ => ((k / fwd).ln() + 0.5 * sd * sd) / sd };
    // density times terminal value, with the exponents combined
    let dens = |z: f64| match m { M::Bach => num::npdf(z) * (s + sd * z), _ => fwd * num::npdf(z - sd) };
    let pay = |z: f64| (if call { dens(z) - k * num::npdf(z) } else { k * num::npdf(z) - dens(z) }).max(0.0);
    let (lo, hi) = (-12.0, 12.0 + if matches!(m, M::Bach) { 0.0 } else { sd });
    let (a, c) = if call { (z0.max(lo), hi) } else { (lo, z0.min(hi)) };
    if a >= c { return 0.0 }
    df * num::quad(&pay, a, c, 60)
}

fn main() {
    let mut c = Ctx::new("C17", "random spots (1e-4 to 1e6), strikes within ten standard deviations and beyond, rates and yields of both signs, volatilities 0.1% to 500%, expiries one day to 50 years, calls and puts, all models incl. the dated option and the contract pricer. Every price is compared with a quadrature of the payoff, and checked for parity, bounds, shape in strike, growth in volatility, homogeneity and agreement between models. Non-trivial: total deviation between 0.001 and 5 and moneyness within six deviations.");
    let ms = [M::Bs, M::Merton, M::B76, M::Asay, M::Gk, M::Bach];
    for round in 0..c.n(24000) {
        let mut rg = c.fork();
        let m = ms[round as usize % ms.len()];
        let bach = matches!(m, M::Bach);
        let s0 = if rg.chance(0.5) { rg.range(20.0, 200.0) } else { rg.logr(1e-4, 1e6) };
        let s = if bach && rg.chance(0.3) { -s0 } else { s0 };
        let t = match rg.below(4) { 0 => rg.range(1.0, 60.0) / 365.0, 1 => rg.range(5.0, 50.0), _ => rg.range(0.05, 5.0) };
        let (r0, q0) = (*rg.pick(&[0.0, 0.05, rg.side().range(-0.05, 0.2)]), *rg.pick(&[0.0, rg.side().range(-0.05, 0.2)]));
        let v0 = match rg.below(6) { 0 => rg.logr(1e-3, 0.05), 1 => rg.range(0.8, 5.0), _ => rg.range(0.05, 0.8) };
        let v = if bach { v0 * s.abs() } else { v0 };
        let (r, b) = spec(m, r0, q0);
        let sd = v * t.sqrt();
        let fwd = if bach { s } else { s * (b * t).exp() };
        let z = match rg.below(8) { 0 => 0.0, 1 => rg.range(-10.0, 10.0), _ => rg.range(-3.0, 3.0) };
        let strike = |z: f64| if bach { s + sd * z } else { fwd * (sd * z).exp() };
        let k = strike(z);
        if !(k.abs() < 1e12 && (bach || k > 1e-12)) { continue }
        let df = (-r * t).exp();
        let h = format!("{m:?} s={s} k={k} t={t} r={r} q={q0} b={b} v={v}");
        let pr = |c: &mut Ctx, k: f64, t: f64, v: f64, call: bool| -> Option<f64> {
            c.guard(&format!("price:{m:?}"), || h.clone(), || price(m, s, k, t, r0, q0, v, if call { TypeFlag::Call } else { TypeFlag::Put }))
        };
        let size = df * (fwd.abs().max(k.abs()) + if bach { sd } else { 0.0 });
        let tol = 1e-11 * size;
        let (Some(call), Some(put)) = (pr(&mut c, k, t, v, true), pr(&mut c, k, t, v, false)) else { continue };
        let (d, kk) = (df * fwd, df * k);
        // (1) expectation
        let xt = 2e-10 * size;
        c.close(call, expectation(m, s, k, t, r, b, v, true), xt, 1e-8, &format!("expectation:call:{m:?}"), || h.clone());
        c.close(put, expectation(m, s, k, t, r, b, v, false), xt, 1e-8, &format!("expectation:put:{m:?}"), || h.clone());
        // (1b) the closed form in double precision
        let arg = [s, k, t, r, b, v];
        let argb = [s, k, t, r, v];
        for (f, p) in [(true, call), (false, put)] {
            let want = if bach { jet::bachelier(&argb, f) } else { jet::gbsm(&arg, f) };
            c.close(p, want, tol * 0.1, 1e-9, &format!("closed_form:{m:?}"), || format!("{h} call={f}"));
        }
        // (2) parity and bounds
        c.close(call - put, d - kk, tol, 1e-11, &format!("parity:{m:?}"), || h.clone());
        c.check(call >= (d - kk).max(0.0) - tol && put >= (kk - d).max(0.0) - tol && call.is_finite() && put.is_finite(), &format!("lower_bound:{m:?}"), || format!("{h} call={call} put={put}"));
        if !bach { c.check(call <= d + tol && put <= kk + tol, &format!("upper_bound:{m:?}"), || format!("{h} call={call} put={put}")); }
        // (3) shape in strike and volatility
        let dk = if bach { sd * rg.range(0.01, 1.0) } else { k * rg.range(0.005, 0.5) };
        for f in [true, false] {
            let (Some(a), Some(e)) = (pr(&mut c, k - dk, t, v, f), pr(&mut c, k + dk, t, v, f)) else { continue };
            let p = if f { call } else { put };
            let tol = tol * 4.0;
            c.check(if f { a >= p - tol && p >= e - tol } else { a <= p + tol && p <= e + tol }, &format!("monotone:{m:?}"), || format!("{h} dk={dk} {a} {p} {e}"));
            c.check((a - e).abs() <= 2.0 * dk * df * (1.0 + 1e-9) + tol, &format!("slope:{m:?}"), || format!("{h} dk={dk} {a} {e}"));
            c.check(a + e - 2.0 * p >= -tol, &format!("convex:{m:?}"), || format!("{h} dk={dk} {a} {p} {e}"));
            if let Some(hi) = pr(&mut c, k, t, v * rg.range(1.01, 2.0), f) { c.check(hi >= p - tol, &format!("vol_monotone:{m:?}"), || format!("{h} {p} {hi}")); }
            // homogeneity
            let l = rg.logr(1e-3, 1e3);
            if let Some(x) = c.guard(&format!("price:{m:?}"), || h.clone(), || price(m, l * s, l * k, t, r0, q0, if bach { l * v } else { v }, if f { TypeFlag::Call } else { TypeFlag::Put })) {
                c.close(x, l * p, l * tol, 1e-9, &format!("homogeneous:{m:?}"), || format!("{h} scale={l}"));
            }
        }
        // (4) models agree where they coincide
        if !bach {
            for f in [TypeFlag::Call, TypeFlag::Put] {
                let p = if matches!(f, TypeFlag::Call) { call } else { put };
                for (n, o) in [
                    ("merton", Merton73::new(s, r, r - b, v).price(k, t, f)),
                    ("gk", GarmanKohlhagen83::new(s, r, r - b, v).price(k, t, f)),
                    ("black76 on the forward", Black76::new(fwd, r, v).price(k, t, f)),
                    ("discounted asay", df * Asay82::new(fwd, v).price(k, t, f)),
                    ("black-scholes on the carry-adjusted spot", BlackScholes73::new(s * ((b - r) * t).exp(), r, v).price(k, t, f)),
                ] { c.close(o, p, tol, 1e-8, &format!("coincide:{n}"), || format!("{h} {f:?}")); }
            }
            // dated option
            let d0 = Date::from_calendar_date(2000, Month::January, 1).unwrap() + Duration::days(rg.i(0, 12000));
            let days = rg.i(1, 4000);
            let tt = days as f64 / 365.25;
            for f in [TypeFlag::Call, TypeFlag::Put] {
                let want = jet::gbsm(&[s, k, tt, r, b, v], matches!(f, TypeFlag::Call));
                let o = BlackScholesMerton::new(b, s, k, v, r, Some(d0), d0 + Duration::days(days), f);
                let tl = 1e-11 * (s * ((b - r) * tt).exp()).max(k * (-r * tt).exp());
                if let Some((p, y, ip)) = c.guard("dated", || h.clone(), || (o.price(), o.year_fraction(), Instrument::price(&o))) {
                    c.close(p, want, tl, 1e-8, "dated:price", || format!("{h} days={days} {f:?}"));
                    c.close(y, tt, 0.0, 1e-14, "dated:year_fraction", || format!("days={days}"));
                    c.check(p == ip && o.valuation_date() == d0, "dated:instrument", || h.clone());
                }
                // without a date of its own it is valued today
                let today = RustQuant_time::today();
                let o = BlackScholesMerton::new(b, s, k, v, r, None, today + Duration::days(days), f);
                let w = BlackScholesMerton::new(b, s, k, v, r, Some(today), today + Duration::days(days), f);
                if let Some((p, ip, y, d, q, iq)) = c.guard("undated", || h.clone(), || (o.price(), Instrument::price(&o), o.year_fraction(), o.valuation_date(), w.price(), Instrument::price(&w))) {
                    if today == RustQuant_time::today() { c.check(p == q && ip == iq && y == tt && d == today, "undated:price", || format!("{h} {f:?} days={days}: undated {p} {ip} over {y} from {d}, dated today {q} {iq}")); }
                }
            }
        }
        // contract pricer, expiry counted from today
        let exp = RustQuant_time::today() + Duration::days(rg.i(1, 3000));
        for f in [TypeFlag::Call, TypeFlag::Put] {
            let o = EuropeanVanillaOption::new(k, exp, f);
            let y0 = RustQuant_time::year_fraction(RustQuant_time::today(), exp);
            let (got, want) = match m {
                M::Bs => (AnalyticOptionPricer::new(o, BlackScholes73::new(s, r0, v)).price(), price(m, s, k, y0, r0, q0, v, f)),
                M::Merton => (AnalyticOptionPricer::new(o, Merton73::new(s, r0, q0, v)).price(), price(m, s, k, y0, r0, q0, v, f)),
                M::B76 => (AnalyticOptionPricer::new(o, Black76::new(s, r0, v)).price(), price(m, s, k, y0, r0, q0, v, f)),
                M::Asay => (AnalyticOptionPricer::new(o, Asay82::new(s, v)).price(), price(m, s, k, y0, r0, q0, v, f)),
                M::Gk => (AnalyticOptionPricer::new(o, GarmanKohlhagen83::new(s, r0, q0, v)).price(), price(m, s, k, y0, r0, q0, v, f)),
                M::Bach => (AnalyticOptionPricer::new(o, Bachelier::new(s, r0, v)).price(), price(m, s, k, y0, r0, q0, v, f)),
            };
            if y0 == RustQuant_time::year_fraction(RustQuant_time::today(), exp) {
                c.close(got, want, 0.0, 1e-13, &format!("pricer:{m:?}"), || format!("{h} expiry {exp}"));
                let days = (exp - RustQuant_time::today()).whole_days() as f64;
                c.check((y0 - days / 365.0).abs() < 0.01 * y0 + 0.003, "pricer:year_fraction", || format!("{days} days -> {y0}"));
            }
        }
        // the pricer follows its option and its model
        if rg.chance(0.2) {
            let (o1, o2) = (EuropeanVanillaOption::new(k, exp, TypeFlag::Call), EuropeanVanillaOption::new(1.1 * k, exp + Duration::days(rg.i(1, 300)), TypeFlag::Put));
            let (m1, m2) = (BlackScholes73::new(s, r0, v), BlackScholes73::new(0.9 * s, r0 + 0.01, 1.2 * v));
            let mut a = AnalyticOptionPricer::new(o1.clone(), m1.clone());
            let at = |m: &BlackScholes73, o: &EuropeanVanillaOption| m.price(o.strike, RustQuant_time::year_fraction(RustQuant_time::today(), o.expiry), o.type_flag);
            let today = RustQuant_time::today();
            let mut seen = vec![(a.price(), at(&m1, &o1))];
            if rg.bool() { a.set_option(o2.clone()); seen.push((a.price(), at(&m1, &o2))); a.set_model(m2.clone()); } else { a.set_model(m2.clone()); seen.push((a.price(), at(&m2, &o1))); a.set_option(o2.clone()); }
            seen.push((a.price(), at(&m2, &o2)));
            if today == RustQuant_time::today() { for (g, w) in seen { c.close(g, w, 1e-300, 1e-9, "pricer:updated", || format!("{h} {g} {w}")); } }
            c.check(format!("{:?} {:?}", a.option(), a.model()) == format!("{o2:?} {m2:?}"), "pricer:parts", || h.clone());
        }
        if (0.001..5.0).contains(&sd.abs().min(if bach { 1.0 } else { sd })) && z.abs() < 6.0 { c.case(&format!("{m:?}"), &h) } else { c.trivial("extreme") }
    }
    c.finish()
}
