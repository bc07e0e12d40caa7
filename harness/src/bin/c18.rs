//! C18: every reported sensitivity against the exact derivative of the price.
use jet::{partial, J3};
use rqmon::*;
use time::{Date, Duration, Month};
use RustQuant_instruments::*;

const S: usize = 0;
const K: usize = 1;
const T: usize = 2;
const R: usize = 3;
const Q: usize = 4;
const V: usize = 5;
#[derive(Clone, Copy, Debug)]
enum M { Bs, Merton, B76, Asay, Gk, Dated, Bach }

/// The model's own price as a function of (S, K, T, r, q, v).
fn formula(m: M, x: &[J3], call: bool) -> J3 {
    use jet::Real;
    let z = J3::c(0.0);
    match m {
        M::Bs => jet::gbsm(&[x[S], x[K], x[T], x[R], x[R], x[V]], call),
        M::Merton | M::Gk | M::Dated => jet::gbsm(&[x[S], x[K], x[T], x[R], x[R] - x[Q], x[V]], call),
        M::B76 => jet::gbsm(&[x[S], x[K], x[T], x[R], z, x[V]], call),
        M::Asay => jet::gbsm(&[x[S], x[K], x[T], z, z, x[V]], call),
        M::Bach => jet::bachelier(&[x[S], x[K], x[T], x[R], x[V]], call),
    }
}
fn main() {
    let mut c = Ctx::new("C18", "random spots, strikes within six standard deviations incl. exactly at and next to the points d1 = 0 and d2 = 0, rates and yields of both signs, volatilities 1% to 200%, expiries three days to 50 years, calls and puts, every sensitivity of every closed-form model, of the dated option and of the contract pricer. The oracle differentiates the price formula exactly with nested dual numbers. Non-trivial: within four deviations.");
    let ms = [M::Bs, M::Merton, M::B76, M::Asay, M::Gk, M::Dated, M::Bach];
    for round in 0..c.n(42000) {
        let mut g = c.fork();
        let m = ms[round as usize % ms.len()];
        let bach = matches!(m, M::Bach);
        let s0 = if g.bool() { g.range(20.0, 200.0) } else { g.logr(1e-2, 1e5) };
        let s = if bach && g.chance(0.2) { -s0 } else { s0 };
        let days = if g.chance(0.1) { g.i(7300, 20000) } else { g.i(3, 7300) };
        let t = if matches!(m, M::Dated) { days as f64 / 365.25 } else { match g.below(3) { 0 => g.range(3.0, 60.0) / 365.0, 1 => g.logr(2.0, 50.0), _ => g.range(0.1, 2.0) } };
        let (r, q) = (*g.pick(&[0.0, 0.05, g.side().range(-0.05, 0.2)]), *g.pick(&[0.0, 0.03, g.side().range(-0.05, 0.2)]));
        let v = if bach { g.range(0.02, 0.6) * s.abs() } else if g.chance(0.2) { g.range(0.6, 2.0) } else { g.range(0.01, 0.6) };
        let b = match m { M::Bs => r, M::B76 | M::Asay | M::Bach => 0.0, _ => r - q };
        let rr = if matches!(m, M::Asay) { 0.0 } else { r };
        let sd = v * t.sqrt();
        let z = if g.chance(0.2) { g.range(-6.0, 6.0) } else { g.range(-3.0, 3.0) };
        let fwd = if bach { s } else { s * (b * t).exp() };
        let k = if bach { s + z * sd } else { match g.below(6) { 0 => s, 1 => fwd * (0.5 * sd * sd).exp(), 2 => fwd * (-0.5 * sd * sd).exp(), _ => fwd * (z * sd).exp() } };
        let x = [s, k, t, r, q, v];
        let hist = format!("{m:?} s={s} k={k} t={t} r={r} q={q} v={v}");
        let size = (-rr * t).exp() * if bach { sd } else { fwd.max(k) };
        // natural magnitude of one differentiation
        let w = sd.min(1.0);
        let unit = |d: usize| match d {
            S | K => if bach { 1.0 / sd } else { 1.0 / (if d == S { s } else { k } * w) },
            T => 1.0 / t + rr.abs() + b.abs() / w,
            R | Q => t / w,
            _ => 1.0 / v + if bach { 0.0 } else { t.sqrt() },
        };
        let d1 = if bach { (s - k) / sd } else { ((s / k).ln() + (b + 0.5 * v * v) * t) / sd };
        let far = d1.abs() > 5.0 || (!bach && (d1 - sd).abs() > 5.0);
        for call in [true, false] {
            let flag = if call { TypeFlag::Call } else { TypeFlag::Put };
            let f = move |x: &[J3]| formula(m, x, call);
            let d0 = Date::from_calendar_date(2001, Month::March, 1).unwrap() + Duration::days(g.i(0, 9000));
            // name, reported, derivative directions, factor
            let mut rows: Vec<(&str, f64, Vec<usize>, f64)> = vec![];
            macro_rules! gbsm_rows { ($o:expr) => {{
                let o = $o;
                rows.extend([
                    ("price", o.price(k, t, flag), vec![], 1.0), ("delta", o.delta(k, t, flag), vec![S], 1.0), ("gamma", o.gamma(k, t, flag), vec![S, S], 1.0),
                    ("theta", o.theta(k, t, flag), vec![T], -1.0), ("vega", o.vega(k, t, flag), vec![V], 1.0), ("rho", o.rho(k, t, flag), vec![R], 1.0),
                    ("vanna", o.vanna(k, t, flag), vec![S, V], 1.0), ("charm", o.charm(k, t, flag), vec![S, T], -1.0), ("zomma", o.zomma(k, t, flag), vec![S, S, V], 1.0),
                    ("speed", o.speed(k, t, flag), vec![S, S, S], 1.0), ("color", o.color(k, t, flag), vec![S, S, T], -1.0), ("vomma", o.vomma(k, t, flag), vec![V, V], 1.0),
                    ("ultima", o.ultima(k, t, flag), vec![V, V, V], 1.0),
                ]);
                let p = partial(&f, &x, &[]);
                if p > 1e-6 * size {
                    let la = partial(&f, &x, &[S]) * s / p;
                    c.close(o.lambda(k, t, flag), la, 1e-13 * (size + s) / p, 1e-8, &format!("{m:?}:lambda"), || format!("{hist} {flag:?}"));
                }
                // d1 and d2 enter through the exercise probabilities
                let df = (-rr * t).exp();
                c.close(-df * num::ncdf(o.d2(k, t)), partial(&|x: &[J3]| formula(m, x, true), &x, &[K]), 1e-12 * df, 1e-9, &format!("{m:?}:d2"), || hist.clone());
                c.close(((b - rr) * t).exp() * num::ncdf(o.d1(k, t)), partial(&|x: &[J3]| formula(m, x, true), &x, &[S]), 1e-12, 1e-9, &format!("{m:?}:d1"), || hist.clone());
                // the same numbers through a contract whose expiry counts from today
                let e = RustQuant_time::today() + Duration::days(days);
                let y = RustQuant_time::year_fraction(RustQuant_time::today(), e);
                let a = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, e, flag), o);
                let o = a.model();
                let got = [a.price(), a.delta(), a.gamma(), a.theta(), a.vega(), a.rho(), a.vanna(), a.charm(), a.lambda(), a.zomma(), a.speed(), a.color(), a.vomma(), a.ultima()];
                let want = [o.price(k, y, flag), o.delta(k, y, flag), o.gamma(k, y, flag), o.theta(k, y, flag), o.vega(k, y, flag), o.rho(k, y, flag), o.vanna(k, y, flag), o.charm(k, y, flag), o.lambda(k, y, flag), o.zomma(k, y, flag), o.speed(k, y, flag), o.color(k, y, flag), o.vomma(k, y, flag), o.ultima(k, y, flag)];
                if y == RustQuant_time::year_fraction(RustQuant_time::today(), e) {
                    c.check(got.iter().zip(&want).all(|(a, b)| num::close(*a, *b, 0.0, 1e-12)), &format!("{m:?}:pricer"), || format!("{hist} {days} days {flag:?}: {got:?} {want:?}"));
                }
            }} }
            match m {
                M::Bs => gbsm_rows!(BlackScholes73::new(s, r, v)),
                M::Merton => gbsm_rows!(Merton73::new(s, r, q, v)),
                M::B76 => gbsm_rows!(Black76::new(s, r, v)),
                M::Asay => gbsm_rows!(Asay82::new(s, v)),
                M::Gk => gbsm_rows!(GarmanKohlhagen83::new(s, r, q, v)),
                M::Dated => {
                    let o = BlackScholesMerton::new(b, s, k, v, r, Some(d0), d0 + Duration::days(days), flag);
                    rows.extend([
                        ("price", o.price(), vec![], 1.0), ("delta", o.delta(), vec![S], 1.0), ("vanna", o.vanna(), vec![S, V], 1.0), ("charm", o.charm(), vec![S, T], -1.0),
                        ("gamma", o.gamma(), vec![S, S], 1.0), ("gamma_percent", o.gamma_percent(), vec![S, S], s / 100.0), ("zomma", o.zomma(), vec![S, S, V], 1.0),
                        ("zomma_percent", o.zomma_percent(), vec![S, S, V], s / 100.0), ("speed", o.speed(), vec![S, S, S], 1.0), ("colour", o.colour(), vec![S, S, T], -1.0),
                        ("vega", o.vega(), vec![V], 1.0), ("vomma", o.vomma(), vec![V, V], 1.0), ("ultima", o.ultima(), vec![V, V, V], 1.0), ("vega_bleed", o.vega_bleed(), vec![V, T], -1.0),
                        ("theta", o.theta(), vec![T], -1.0), ("rho", o.rho(), vec![R], 1.0), ("phi", o.phi(), vec![Q], 1.0),
                        ("strike_delta", o.strike_delta(), vec![K], 1.0), ("strike_gamma", o.strike_gamma(), vec![K, K], 1.0),
                        ("zeta", o.zeta(), vec![K], if call { -1.0 } else { 1.0 } * (r * t).exp()),
                    ]);
                    let today = RustQuant_time::today();
                    let pair = [None, Some(today)].map(|at| {
                        let o = BlackScholesMerton::new(b, s, k, v, r, at, today + Duration::days(days), flag);
                        [o.delta(), o.vanna(), o.charm(), o.lambda(), o.gamma(), o.gamma_percent(), o.zomma(), o.zomma_percent(), o.speed(), o.colour(), o.vega(), o.vomma(), o.ultima(), o.vega_bleed(), o.theta(), o.rho(), o.phi(), o.strike_delta(), o.strike_gamma(), o.zeta()]
                    });
                    if today == RustQuant_time::today() { c.check(pair[0].map(f64::to_bits) == pair[1].map(f64::to_bits), "Dated:undated", || format!("{hist} {flag:?} {days} days: undated {:?}, dated today {:?}", pair[0], pair[1])); }
                    let p = partial(&f, &x, &[]);
                    if p > 1e-6 * size { c.close(o.lambda(), partial(&f, &x, &[S]) * s / p, 1e-13 * (size + s) / p, 1e-8, "Dated:lambda", || format!("{hist} {flag:?}")); }
                }
                M::Bach => {
                    let o = Bachelier::new(s, r, v);
                    rows.extend([("price", o.price(k, t, flag), vec![], 1.0), ("delta", o.delta(k, t, flag), vec![S], 1.0), ("gamma", o.gamma(k, t, flag), vec![S, S], 1.0), ("theta", o.theta(k, t, flag), vec![T], -1.0), ("vega", o.vega(k, t, flag), vec![V], 1.0)]);
                    let e = RustQuant_time::today() + Duration::days(days);
                    let y = RustQuant_time::year_fraction(RustQuant_time::today(), e);
                    let a = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, e, flag), o);
                    let o = a.model();
                    let got = [a.price(), a.delta(), a.gamma(), a.theta(), a.vega()];
                    let want = [o.price(k, y, flag), o.delta(k, y, flag), o.gamma(k, y, flag), o.theta(k, y, flag), o.vega(k, y, flag)];
                    if y == RustQuant_time::year_fraction(RustQuant_time::today(), e) { c.check(got == want, "Bach:pricer", || format!("{hist} {days} days {flag:?}: {got:?} {want:?}")); }
                }
            }
            for (n, got, dirs, factor) in &rows {
                let want = partial(&f, &x, dirs) * factor;
                let atol = 1e-11 * size * factor.abs() * dirs.iter().map(|d| unit(*d)).product::<f64>();
                c.close(*got, want, atol, 1e-8, &format!("{m:?}:{n}"), || format!("{hist} {flag:?}"));
            }
        }
        if far { c.trivial("tail") } else { c.case(&format!("{m:?}"), &hist) }
    }
    c.finish()
}
