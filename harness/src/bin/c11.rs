//! C11: quadrature against closed-form integrals.
use rqmon::*;
use RustQuant_math::integration::integrate;

/// (name, integrand, integral over [a,b], scale of the integrand's absolute integral, smooth up to the ends)
type Case = (String, Box<dyn Fn(f64) -> f64>, f64, f64, bool);

fn case(r: &mut Rng, a: f64, b: f64) -> Case {
    let w = b - a;
    match r.below(9) {
        0 => { // polynomial around the midpoint
            let n = r.us(0, 9); let m = 0.5 * (a + b);
            let co: Vec<f64> = (0..=n).map(|_| r.range(-2.0, 2.0)).collect();
            let (h, c2) = (0.5 * w, co.clone());
            let v: f64 = co.iter().enumerate().map(|(k, c)| if k % 2 == 0 { 2.0 * c * h / (k as f64 + 1.0) } else { 0.0 }).sum();
            (format!("poly{co:?}"), Box::new(move |x| { let u = (x - m) / h; c2.iter().rev().fold(0.0, |s, c| s * u + c) }), v, w.abs() * 4.0 * (n as f64 + 1.0), true) }
        1 => { let k = r.range(-4.0, 4.0) / w.abs(); // exp(k(x-a))
            let v = if (k * w).abs() < 1e-8 { w } else { (k * w).exp_m1() / k };
            (format!("exp({k}(x-a))"), Box::new(move |x| (k * (x - a)).exp()), v, w.abs() * (k.abs() * w.abs()).exp(), true) }
        2 => { let k = r.range(-12.0, 12.0) / w.abs(); let p = r.range(0.0, 6.0);
            let v = if k.abs() * w.abs() < 1e-6 { w * p.sin() } else { (p.cos() - (k * w + p).cos()) / k };
            (format!("sin({k}(x-a)+{p})"), Box::new(move |x| (k * (x - a) + p).sin()), v, w.abs(), true) }
        3 => { let s = w.abs() * r.range(0.5, 4.0); // 1/(1+((x-m)/s)^2)
            let m = r.range(a.min(b), a.max(b));
            (format!("lorentz m={m} s={s}"), Box::new(move |x| 1.0 / (1.0 + ((x - m) / s).powi(2))), s * (((b - m) / s).atan() - ((a - m) / s).atan()), w.abs(), true) }
        4 => { let s = w.abs() * r.range(0.5, 3.0); let m = r.range(a.min(b), a.max(b)); // gaussian bump
            (format!("gauss m={m} s={s}"), Box::new(move |x| num::npdf((x - m) / s) / s), num::ncdf((b - m) / s) - num::ncdf((a - m) / s), w.abs() / s, true) }
        5 => { let p = r.range(0.05, 3.0); // (x-a)^p: smooth inside, non-analytic end
            let sgn = w.signum();
            (format!("|x-a|^{p}"), Box::new(move |x| (sgn * (x - a)).max(0.0).powf(p)), sgn * w.abs().powf(p + 1.0) / (p + 1.0), w.abs().powf(p + 1.0), false) }
        6 => { let p = r.range(0.05, 0.4); let sgn = w.signum(); // singular end: |x-a|^-p
            (format!("|x-a|^-{p}"), Box::new(move |x| (sgn * (x - a)).powf(-p)), sgn * w.abs().powf(1.0 - p) / (1.0 - p), 30.0 * w.abs().powf(1.0 - p), false) }
        7 => { let sgn = w.signum(); // ln|x-a|
            let l = w.abs();
            (format!("ln|x-a|"), Box::new(move |x| (sgn * (x - a)).ln()), sgn * l * (l.ln() - 1.0), l * (1.0 + l.ln().abs()), false) }
        _ => { let sgn = w.signum(); let h = 0.5 * w.abs(); let m = 0.5 * (a + b); // semicircle
            ("semicircle".into(), Box::new(move |x| (h * h - (x - m) * (x - m)).max(0.0).sqrt()), sgn * std::f64::consts::PI * h * h / 2.0, h * h, false) }
    }
}

fn main() {
    let mut c = Ctx::new("C11", "random intervals (tiny, large, shifted, reversed, empty) and integrands with known integrals: polynomials, exponentials, trigonometric, rational and Gaussian functions, powers and logarithms non-smooth or singular at an end point, functions that are not finite at the ends. Metamorphic: swap of limits, split, linear combination, affine change of variable. Non-trivial: a non-empty interval.");
    c.assume("singular integrands are placed with the singular end at zero: elsewhere the distance to the end point cannot be resolved by any rule evaluated at rounded abscissae");
    for _ in 0..c.n(200_000) {
        let mut r = c.fork();
        let w = if r.chance(0.15) { r.logr(1e-12, 1e12) } else { r.logr(1e-3, 1e3) } * if r.chance(0.3) { -1.0 } else { 1.0 };
        let a0 = if r.chance(0.3) { 0.0 } else { r.range(-3.0, 3.0) * w.abs() };
        let (mut a, mut b) = (a0, a0 + w);
        let side = r.side();
        let mut rr = side.clone();
        let mut k = case(&mut rr, a, b);
        if !k.4 { a = 0.0; b = w; let mut rr = side.clone(); k = case(&mut rr, a, b); }
        let (name, f, want, scale, _) = &k;
        let hist = format!("{name} on [{a},{b}]");
        let cls = name.split(|ch: char| !ch.is_ascii_alphabetic()).next().unwrap_or("").to_string();
        let calls = std::cell::Cell::new(0u64);
        let bad = std::cell::Cell::new(f64::NAN);
        let (lo, hi) = (a.min(b), a.max(b));
        let Some(g) = c.guard("panic", || hist.clone(), || integrate(|x| { calls.set(calls.get() + 1); if !(x >= lo - 1e-12 * w.abs() && x <= hi + 1e-12 * w.abs()) { bad.set(x) } f(x) }, a, b)) else { continue };
        c.count("integrand_evaluations", calls.get());
        c.check(bad.get().is_nan(), "evaluates_outside", || format!("{hist}: integrand evaluated at {}", bad.get()));
        let cond = 1e-13 * (1.0 + lo.abs().max(hi.abs()) / w.abs());
        let tol = (1e-11 + cond * 100.0) * scale;
        c.close(g, *want, tol, 0.0, "value", || format!("{hist} scale {scale}"));
        // relations that hold to rounding
        if let Some(s) = c.guard("panic", || hist.clone(), || integrate(f, b, a)) { c.close(s, -g, 1e-11 * scale + tol * 1e-3, 0.0, "swap", || hist.clone()); }
        if let Some(s) = c.guard("panic", || hist.clone(), || integrate(f, a, a)) { c.check(s == 0.0, "empty", || format!("{hist} at a: {s}")); }
        let q = r.range(-3.0, 3.0);
        if let Some(s) = c.guard("panic", || hist.clone(), || integrate(|x| q * f(x), a, b)) { c.close(s, q * g, 1e-11 * scale, 0.0, "scale", || format!("{hist} times {q}")); }
        if k.4 {
            let m = a + w * r.range(0.1, 0.9);
            if let Some((u, v)) = c.guard("panic", || hist.clone(), || (integrate(f, a, m), integrate(f, m, b))) { c.close(u + v, g, 3.0 * tol, 0.0, "additive", || format!("{hist} split at {m}")); }
            let k2 = case(&mut r, a, b);
            if k2.4 { if let Some((u, v)) = c.guard("panic", || hist.clone(), || (integrate(|x| f(x) + (k2.1)(x), a, b), integrate(&k2.1, a, b))) { c.close(u, g + v, 1e-11 * (scale + k2.3), 0.0, "linear", || format!("{hist} plus {}", k2.0)); } }
        }
        c.case(&cls, &hist);
    }
    c.finish()
}
