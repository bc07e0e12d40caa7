//! C20: Heston against an independent single-integral valuation, SABR against the Hagan expansion.
use ::num::Complex;
use rqmon::*;
use time::Duration;
use RustQuant_instruments::*;
type Cx = Complex<f64>;

struct H { s: f64, v: f64, r: f64, q: f64, rho: f64, kappa: f64, theta: f64, sigma: f64 }
/// Characteristic function of the log-return against the forward.
fn cf(h: &H, t: f64, u: Cx) -> Cx {
    let i = Cx::i();
    let a = h.kappa - h.rho * h.sigma * i * u;
    let d = (a * a + h.sigma * h.sigma * (i * u + u * u)).sqrt();
    let g = (a - d) / (a + d);
    let e = (-d * t).exp();
    let dd = (a - d) / (h.sigma * h.sigma) * (1.0 - e) / (1.0 - g * e);
    let cc = h.kappa * h.theta / (h.sigma * h.sigma) * ((a - d) * t - 2.0 * ((1.0 - g * e) / (1.0 - g)).ln());
    (cc + dd * h.v).exp()
}
/// call, its delta, gamma and rho
fn lewis(h: &H, k: f64, t: f64) -> (f64, f64, f64, f64) {
    let i = Cx::i();
    let m = (h.s / k).ln() + (h.r - h.q) * t;
    let mut top = 8.0;
    while cf(h, t, Cx::new(top, -0.5)).norm() > 1e-17 && top < 3000.0 { top *= 1.3 }
    let panels = 40 + (top * (m.abs() + 0.3) / 4.0) as usize;
    let z = |u: f64| { let w = i * u + 0.5; (w, (w * m).exp() * cf(h, t, Cx::new(u, -0.5))) };
    let i0 = num::quad(&|u| z(u).1.re / (u * u + 0.25), 0.0, top, panels);
    let i1 = num::quad(&|u| { let (w, x) = z(u); (w * x).re / (u * u + 0.25) }, 0.0, top, panels);
    let i2 = num::quad(&|u| z(u).1.re, 0.0, top, panels);
    let (df, dq, pi) = ((-h.r * t).exp(), (-h.q * t).exp(), std::f64::consts::PI);
    (h.s * dq - k * df / pi * i0, dq - k * df / (pi * h.s) * i1, k * df / (pi * h.s * h.s) * i2, t * k * df / pi * (i0 - i1))
}
/// Hagan et al. (2002), equation (2.17a).
fn hagan(f: f64, k: f64, t: f64, al: f64, be: f64, rho: f64, nu: f64) -> f64 {
    let l = (f / k).ln();
    let ob = 1.0 - be;
    let fk = (f * k).powf(0.5 * ob);
    let z = nu / al * fk * l;
    // z/x(z), by series where the quotient cancels
    let q = if z.abs() < 1e-4 { 1.0 - 0.5 * rho * z + (2.0 - 3.0 * rho * rho) / 12.0 * z * z } else {
        // the sum root + z - rho cancels for negative z: use the conjugate
        let root = (1.0 - 2.0 * rho * z + z * z).sqrt();
        let x = if z - rho < 0.0 { ((1.0 + rho) / (root - z + rho)).ln() } else { ((root + z - rho) / (1.0 - rho)).ln() };
        z / x
    };
    let corr = ob * ob / 24.0 * al * al / (fk * fk) + 0.25 * rho * be * nu * al / fk + (2.0 - 3.0 * rho * rho) / 24.0 * nu * nu;
    al / (fk * (1.0 + ob * ob / 24.0 * l * l + ob.powi(4) / 1920.0 * l.powi(4))) * q * (1.0 + corr * t)
}

fn main() {
    let mut c = Ctx::new("C20", "Heston: random spot, variance, long-run variance 0.01 to 0.5, mean reversion 0.2 to 8, volatility of variance 0.05 to 1.2, correlation -0.95 to 0.95, expiry 0.1 to 10 years, rates of both signs, strikes within three standard deviations, calls and puts and their sensitivities, incl. the contract pricer; points whose characteristic function has not decayed to 1e-3 at the model's documented integration bound are trivial. SABR: random forwards, strikes, expiries, alpha, all beta, correlation and vol-of-vol incl. at and next to the money; smiles of random models, exact and with noise of 0.1%, fitted again. Non-trivial: Heston points in range and SABR points with non-zero vol-of-vol.");
    c.assume("the Heston integrals are truncated at 50, as documented in the code; tolerances are those of its quadrature there");
    for _ in 0..c.n(700) {
        let mut r = c.fork();
        let h = H { s: if r.bool() { 100.0 } else { r.logr(1e-3, 1e5) }, v: r.logr(0.01, 0.5), r: r.range(-0.02, 0.12), q: *r.pick(&[0.0, 0.03, -0.01]), rho: r.range(-0.95, 0.95), kappa: r.logr(0.2, 8.0), theta: r.logr(0.01, 0.5), sigma: r.logr(0.05, 1.2) };
        let t = if r.chance(0.3) { r.range(2.0, 10.0) } else { r.logr(0.03, 2.0) };
        let vbar = h.theta + (h.v - h.theta) * (1.0 - (-h.kappa * t).exp()) / (h.kappa * t);
        let z = match r.below(4) { 0 => 0.0, 1 => r.range(-3.0, 3.0), _ => r.range(-1.5, 1.5) };
        let k = h.s * ((h.r - h.q) * t + z * (vbar * t).sqrt()).exp();
        let k = if r.chance(0.2) && k > 3.0 { k.round() } else { k };
        let hist = format!("Heston s={} v={} r={} q={} rho={} kappa={} theta={} sigma={} k={k} t={t}", h.s, h.v, h.r, h.q, h.rho, h.kappa, h.theta, h.sigma);
        let tail = cf(&h, t, Cx::new(50.0, 0.0)).norm().max(cf(&h, t, Cx::new(50.0, -1.0)).norm());
        if tail > 1e-3 { c.trivial("heston_truncated"); continue }
        // what the frequencies beyond the documented bound contribute at most
        let beyond = num::quad(&|u| cf(&h, t, Cx::new(u, 0.0)).norm().max(cf(&h, t, Cx::new(u, -1.0)).norm()), 50.0, 400.0, 60) / std::f64::consts::PI;
        let m = Heston93::new(h.s, h.v, h.r, h.q, h.rho, h.kappa, h.theta, h.sigma);
        let (call, delta, gamma, rho) = lewis(&h, k, t);
        let (df, dq) = ((-h.r * t).exp(), (-h.q * t).exp());
        let (a, g, ss) = (h.s * dq, k * df, (h.s * dq).max(k * df));
        for flag in [TypeFlag::Call, TypeFlag::Put] {
            let put = matches!(flag, TypeFlag::Put) as u8 as f64;
            let Some((p, d, ga, rh)) = c.guard("heston", || hist.clone(), || (m.price(k, t, flag), m.delta(k, t, flag), m.gamma(k, t, flag), m.rho(k, t, flag))) else { continue };
            let w = [call - put * (a - g), delta - put * dq, gamma, rho - put * t * g];
            let sc = [ss, dq, dq / (h.s * (vbar * t).sqrt()), t * g];
            for (j, (x, n)) in [p, d, ga, rh].iter().zip(["price", "delta", "gamma", "rho"]).enumerate() {
                c.close(*x, w[j], TOL[j] * sc[j] + 1.1 * beyond * [ss / 25.0, dq / 50.0, dq / h.s, t * g / 50.0][j], 0.0, &format!("heston:{n}"), || format!("{hist} {flag:?}"));
            }
            let tol = 2.0 * TOL[0] * ss + beyond * ss / 20.0;
            let (lo, hi) = if put > 0.0 { ((g - a).max(0.0), g) } else { ((a - g).max(0.0), a) };
            c.check(p >= lo - tol && p <= hi + tol, "heston:bounds", || format!("{hist} {flag:?} {p}"));
        }
        let (pc, pp) = (m.price(k, t, TypeFlag::Call), m.price(k, t, TypeFlag::Put));
        c.close(pc - pp, a - g, 1e-10 * ss, 0.0, "heston:parity", || hist.clone());
        // contract pricer
        let e = RustQuant_time::today() + Duration::days(r.i(200, 2000));
        let y = RustQuant_time::year_fraction(RustQuant_time::today(), e);
        for flag in [TypeFlag::Call, TypeFlag::Put] {
            let o = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, e, flag), Heston93::new(h.s, h.v, h.r, h.q, h.rho, h.kappa, h.theta, h.sigma));
            let got = (o.price(), o.delta(), o.gamma(), o.rho());
            let want = (m.price(k, y, flag), m.delta(k, y, flag), m.gamma(k, y, flag), m.rho(k, y, flag));
            if y == RustQuant_time::year_fraction(RustQuant_time::today(), e) { c.check(format!("{got:?}") == format!("{want:?}"), "heston:pricer", || format!("{hist} {got:?} {want:?}")); }
        }
        // Black-Scholes limit
        let l = Heston93::new(h.s, vbar.max(0.02), h.r, h.q, h.rho, h.kappa, vbar.max(0.02), 0.001);
        if vbar * t > 0.03 {
            if let Some(p) = c.guard("heston_limit", || hist.clone(), || l.price(k, t, TypeFlag::Call)) {
                c.close(p, jet::gbsm(&[h.s, k, t, h.r, h.r - h.q, vbar.max(0.02).sqrt()], true), 1e-3 * ss, 0.0, "heston:limit", || hist.clone());
            }
        }
        c.case("heston", &hist);
    }
    for _ in 0..c.n(30000) {
        let mut r = c.fork();
        let be = *r.pick(&[0.0, 0.5, 1.0, r.side().range(0.0, 1.0)]);
        let f = if r.bool() { r.range(0.005, 0.2) } else { r.logr(0.01, 500.0) };
        let vol = r.logr(0.02, 1.0);
        let al = vol * f.powf(1.0 - be);
        let (rho, nu) = (r.range(-0.95, 0.95), match r.below(6) { 0 => 1e-6, _ => r.range(0.01, 2.0) });
        let t = r.range(0.05, 20.0);
        let k = match r.below(5) { 0 => f, 1 => f * (1.0 + r.range(-1e-6, 1e-6)), 2 => f * (1.0 + *r.pick(&[1e-12, -1e-12, 1e-9, -1e-9, 1e-8, 1e-7])), _ => f * r.logr(0.25, 4.0) };
        let hist = format!("SABR f={f} k={k} t={t} alpha={al} beta={be} rho={rho} nu={nu}");
        let m = Sabr02::new(f, al, be, rho, nu);
        if let Some(v) = c.guard("sabr", || hist.clone(), || m.volatility(k, t)) {
            c.close(v, hagan(f, k, t, al, be, rho, nu), 0.0, 1e-6, "sabr:volatility", || hist.clone());
        }
        c.case("sabr", &hist);
    }
    // calibration: the volatilities of a model are reproduced, and noisy ones approached at least as closely as by that model
    for _ in 0..c.n(100) {
        let mut r = c.fork();
        let be = *r.pick(&[0.0, 0.5, 1.0, r.side().range(0.0, 1.0)]);
        let f = if r.bool() { r.range(0.005, 0.2) } else { r.logr(0.01, 500.0) };
        let vol = r.range(0.05, 0.8);
        let (al, rho, nu, t) = (vol * f.powf(1.0 - be), r.range(-0.9, 0.9), r.range(0.1, 2.0), r.range(0.1, 3.0));
        let n = r.us(5, 16);
        let ks: Vec<f64> = (0..n).map(|i| f * ((2.0 * i as f64 / (n - 1) as f64 - 1.0) * 2.0 * (vol * t.sqrt()).min(0.7)).exp()).collect();
        let noise = if r.chance(0.3) { 1e-3 * vol } else { 0.0 };
        let vs: Vec<f64> = ks.iter().map(|&k| hagan(f, k, t, al, be, rho, nu) + noise * r.range(-1.0, 1.0)).collect();
        let hist = format!("SABR fit f={f} t={t} alpha={al} beta={be} rho={rho} nu={nu} noise={noise} strikes={ks:?}");
        if vs.iter().any(|v| !(*v > 0.01 && *v < 1.5 * vs[n / 2])) || vs[n / 2] > 1.6 * vol { c.trivial("sabr_fit_extreme"); continue }
        let miss = |m: &dyn Fn(f64) -> f64| ks.iter().zip(&vs).map(|(&k, v)| (m(k) - v).powi(2)).sum::<f64>().sqrt();
        let want = miss(&|k| hagan(f, k, t, al, be, rho, nu)) + 1e-6 * vol;
        // the search is random: a swarm may fail once, not three times
        let mut got = Vec::new();
        for _ in 0..3 {
            let mut m = Sabr02::new(f, al * r.range(0.5, 2.0), be, r.range(-0.5, 0.5), 1.0);
            let Some(x) = c.guard("sabr:fit", || hist.clone(), || m.fit(&vs, &ks, t).map_err(|e| e.to_string())) else { break };
            if let Err(e) = x { c.check(false, "sabr:fit refuses a smile", || format!("{hist} {e}")); break }
            let Some(g) = c.guard("sabr:fitted", || hist.clone(), || miss(&|k| m.volatility(k, t))) else { break };
            got.push(g);
            if g <= want {
                // between the strikes of an exact smile, too
                if noise == 0.0 { for i in 0..n - 1 {
                    let k = (ks[i] * ks[i + 1]).sqrt();
                    if let Some(v) = c.guard("sabr:fitted", || hist.clone(), || m.volatility(k, t)) { c.close(v, hagan(f, k, t, al, be, rho, nu), 1e-4 * vol, 0.0, "sabr:fit between strikes", || format!("{hist} k={k}")); }
                } }
                break
            }
        }
        if got.len() == 3 { c.check(got.iter().any(|g| *g <= want), "sabr:fit", || format!("{hist} vols={vs:?}: three fits miss by {got:?}; the model itself misses by {want}")); }
        c.count(&format!("sabr_fits_needed_{}", got.len()), 1);
        c.case("sabr_fit", &hist);
    }
    c.finish()
}
const TOL: [f64; 4] = [1e-4, 1e-4, 1e-4, 1e-4];
