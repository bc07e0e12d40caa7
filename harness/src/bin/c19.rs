//! C19: implied volatilities invert the price they were given.
use jet::{partial, J3};
use rqmon::*;
use time::{Date, Duration, Month};
use RustQuant_instruments::*;

/// Mills ratio N(-y) / n(y), y > 0.5, by its continued fraction (Lentz from below).
fn mills(y: f64) -> f64 {
    let n = if y > 6.0 { 60 } else if y > 2.0 { 300 } else { 4000 };
    let mut f = 0.0;
    for i in (1..=n).rev() { f = i as f64 / (y + f); }
    1.0 / (y + f)
}

fn main() {
    let mut c = Ctx::new("C19", "Black-Scholes: random spots, strikes up to twenty standard deviations from the forward, rates and carries of both signs, volatilities 0.5% to 500%, expiries three days to 40 years, calls and puts; prices made from a volatility, prices placed uniformly or near either end of the no-arbitrage interval, prices up to thirty-five deviations out of the money (down to 1e-278), and prices on and outside the interval. Bachelier likewise. The returned volatility must reproduce the price in an independently written formula. Non-trivial: the price determines the volatility to better than 1%.");
    for _ in 0..c.n(200000) {
        let mut g = c.fork();
        let s = if g.bool() { g.range(20.0, 200.0) } else { g.logr(1e-3, 1e5) };
        let days = g.i(3, 14000);
        let dated = g.chance(0.3);
        let t = if dated { days as f64 / 365.25 } else { match g.below(3) { 0 => g.range(3.0, 60.0) / 365.0, 1 => g.range(2.0, 40.0), _ => g.range(0.1, 2.0) } };
        let r = *g.pick(&[0.0, 0.05, g.side().range(-0.05, 0.2)]);
        let b = if dated { *g.pick(&[r, 0.0, g.side().range(-0.1, 0.2)]) } else { r };
        let v = match g.below(6) { 0 => g.logr(0.005, 0.05), 1 => g.range(0.8, 5.0), _ => g.range(0.05, 0.8) };
        let sd = v * t.sqrt();
        let fwd = s * (b * t).exp();
        let z = match g.below(6) { 0 => 0.0, 1 => g.range(-20.0, 20.0), 2 => g.range(-8.0, 8.0), _ => g.range(-3.0, 3.0) };
        let k = match g.below(8) { 0 => s, _ => fwd * (z * sd).exp() };
        if !(k > 1e-9 && k < 1e12) { continue }
        let call = g.bool();
        let flag = if call { TypeFlag::Call } else { TypeFlag::Put };
        let df = (-r * t).exp();
        let (dk, ds) = (df * k, df * fwd);
        let (lo, hi) = if call { ((ds - dk).max(0.0), ds) } else { ((dk - ds).max(0.0), dk) };
        let size = ds.max(dk);
        let mode = g.below(5);
        let value = |v: f64| jet::gbsm(&[s, k, t, r, b, v], call);
        let p = match mode { 0 => lo + (hi - lo) * g.range(0.001, 0.999), 1 => lo + (hi - lo) * g.logr(1e-9, 1e-2), 2 => hi - (hi - lo) * g.logr(1e-9, 1e-2), _ => value(v) };
        let hist = format!("s={s} k={k} t={t} r={r} b={b} {flag:?} price={p} mode={mode} v={v}");
        let inv = |c: &mut Ctx, p: f64| {
            if dated {
                let d0 = Date::from_calendar_date(2001, Month::March, 1).unwrap() + Duration::days(7 * (days % 900));
                let o = BlackScholesMerton::new(b, s, k, 0.123, r, Some(d0), d0 + Duration::days(days), flag);
                let x = c.guard("iv:dated", || hist.clone(), || o.implied_volatility(p));
                let today = RustQuant_time::today();
                let o = BlackScholesMerton::new(b, s, k, 0.123, r, None, today + Duration::days(days), flag);
                let y = c.guard("iv:undated", || hist.clone(), || o.implied_volatility(p));
                if today == RustQuant_time::today() { c.check(x.map(f64::to_bits) == y.map(f64::to_bits), "iv:undated", || format!("{hist} {days} days: dated {x:?}, undated {y:?}")); }
                x
            } else {
                let x = c.guard("iv", || hist.clone(), || implied_volatility(p, s, k, t, r, flag));
                let y = c.guard("iv", || hist.clone(), || iv(p, s, k, t, r, flag));
                c.check(x.map(f64::to_bits) == y.map(f64::to_bits), "iv:alias", || hist.clone());
                x
            }
        };
        let noise = 4e-16 * size * (1.0 + r.abs() * t + b.abs() * t);
        // strictly inside the bounds, beyond rounding
        if p > lo + 50.0 * noise && p < hi - 50.0 * noise {
            if let Some(iv) = inv(&mut c, p) {
                c.check(iv.is_finite() && iv > 0.0, "iv:not a volatility", || format!("{hist} iv={iv}"));
                if iv.is_finite() && iv > 0.0 {
                    let back = value(iv);
                    // the time value is what is inverted
                    let tv = (p - lo).min(hi - p);
                    
                    c.close(back, p, 20.0 * noise + 1e-12 * tv, 0.0, "iv:reprice", || format!("{hist} iv={iv}"));
                    let vega = partial(&|x: &[J3]| jet::gbsm(x, call), &[s, k, t, r, b, iv], &[5]);
                    let slack = 20.0 * noise / vega;
                    if mode > 2 && slack < 0.01 * v { c.close(iv, v, slack, 1e-12, "iv:recover", || format!("{hist} iv={iv}")); }
                    if slack < 0.01 * iv { c.case("bs", &hist) } else { c.trivial("bs_undetermined") }
                } else { c.case("bs", &hist) }
            }
        } else { c.trivial("bs_edge") }
        // outside
        let over = g.logr(1e-6, 10.0) * size;
        for p in [lo - over, hi + over] {
            if let Some(x) = inv(&mut c, p) { c.check(!(x.is_finite() && x > 0.0), "iv:out of bounds accepted", || format!("{hist} instead price={p} iv={x}")); }
        }
        // far out of the money the price is tiny but still determines the volatility: compare logarithms
        {
            let sd = match g.below(3) { 0 => g.logr(0.002, 0.05), 1 => g.range(0.5, 6.0), _ => g.range(0.05, 0.6) };
            let t = if dated { t } else { g.logr(0.01, 30.0) };
            let v = sd / t.sqrt();
            let fwd = s * (b * t).exp();
            // beyond the region where the other cases are resolved
            let z = if g.chance(0.3) { g.range(1.0, 8.0) } else { g.range(8.0, 35.0) };
            let m = z * sd;
            let call = g.bool();
            let k = if call { fwd * m.exp() } else { fwd * (-m).exp() };
            let flag = if call { TypeFlag::Call } else { TypeFlag::Put };
            // from the forward the option is m out of the money: upper and lower tail arguments
            let (y1, y2) = (m / sd - 0.5 * sd, m / sd + 0.5 * sd);
            let logp = if y1 > 0.5 { (if call { s * ((b - r) * t).exp() } else { s * ((b - r) * t).exp() }).ln() + num::npdf(0.0).ln() - 0.5 * if call { y1 * y1 } else { y2 * y2 } + (mills(y1) - mills(y2)).ln() } else { f64::NEG_INFINITY };
            if logp > -640.0 && k > 1e-200 && k < 1e200 && m < 300.0 {
                let p = logp.exp();
                let hist = format!("far out: s={s} k={k} t={t} r={r} b={b} {flag:?} price={p:e} v={v} deviations={z}");
                let x = if dated {
                    let d0 = Date::from_calendar_date(2001, Month::March, 1).unwrap() + Duration::days(7 * (days % 900));
                    let o = BlackScholesMerton::new(b, s, k, 0.123, r, Some(d0), d0 + Duration::days(days), flag);
                    c.guard("iv:dated", || hist.clone(), || o.implied_volatility(p))
                } else if b == r { c.guard("iv", || hist.clone(), || implied_volatility(p, s, k, t, r, flag)) } else { None };
                if let Some(x) = x {
                    // a relative error e of the price moves the volatility by e / (y1 y2 + 1)
                    let e = 1e-13 * (1.0 + logp.abs() + (1.0 + s.ln().abs() + m) * (1.0 + z / sd)) + 1e-14 / (sd / (1.0 + y2));
                    c.close(x, v, 0.0, 1e-9 + 10.0 * e / (1.0 + y1 * y2), "iv:far out of the money", || format!("{hist} iv={x}"));
                    c.case("bs_far", &hist);
                } else { c.trivial("bs_far_range") }
            } else { c.trivial("bs_far_range") }
        }
        // Bachelier
        let f = if g.chance(0.2) { -s } else { s };
        let bv = g.logr(0.003, 2.0) * s;
        let bsd = bv * t.sqrt();
        let zz = match g.below(5) { 0 => 0.0, 1 => g.range(-6.0, 6.0), 2 => g.range(-1.0, 1.0) * g.logr(1e-9, 1e-1), _ => g.range(-3.0, 3.0) };
        let kk = f - zz * bsd;
        let o = Bachelier::new(f, r, 0.77 * s);
        let value = |v: f64| jet::bachelier(&[f, kk, t, r, v], call);
        let p = value(bv);
        let bh = format!("Bachelier f={f} k={kk} t={t} r={r} v={bv} {flag:?} price={p}");
        if let Some(x) = c.guard("bachelier", || bh.clone(), || o.iv(p, kk, t, flag)) {
            let vega = df * t.sqrt() * num::npdf(zz);
            let slack = 20.0 * 4e-16 * df * (f.abs() + kk.abs() + bsd) / vega;
            if slack < 1e-3 * bv { c.close(x, bv, slack, 1e-8, "bachelier:recover", || bh.clone()); c.case("bachelier", &bh); } else { c.trivial("bachelier_undetermined") }
        }
        let o = Bachelier::new(f, r, bv);
        let at = jet::bachelier(&[f, f, t, r, bv], call);
        c.close(o.atm_price(t), at, 0.0, 1e-11, "bachelier:atm_price", || bh.clone());
        c.close(o.atm_vol(at, t), bv, 0.0, 1e-11, "bachelier:atm_vol", || bh.clone());
        c.close(o.iv(at, f, t, flag), bv, 0.0, 1e-8, "bachelier:iv at the money", || bh.clone());
        let e = RustQuant_time::today() + Duration::days(days);
        let y = RustQuant_time::year_fraction(RustQuant_time::today(), e);
        let a = AnalyticOptionPricer::new(EuropeanVanillaOption::new(kk, e, flag), o);
        let m = a.model();
        let got = [a.atm_price(), a.atm_vol(p), a.iv(p)];
        let want = [m.atm_price(y), m.atm_vol(p, y), m.iv(p, kk, y, flag)];
        if y == RustQuant_time::year_fraction(RustQuant_time::today(), e) { c.check(got.map(f64::to_bits) == want.map(f64::to_bits), "bachelier:pricer", || format!("{bh} {got:?} {want:?}")); }
    }
    c.finish()
}
