//! Independent numerical oracles (no RustQuant code).
pub fn close(got: f64, want: f64, atol: f64, rtol: f64) -> bool {
    if got.is_nan() || want.is_nan() {
        return got.is_nan() && want.is_nan();
    }
    if got.is_infinite() || want.is_infinite() {
        return got == want;
    }
    (got - want).abs() <= atol + rtol * want.abs()
}

/// erfc by the continued fraction / series, about 1e-15 relative.
pub fn erfc(x: f64) -> f64 {
    if x.is_nan() {
        return x;
    }
    if x < 0.0 {
        return 2.0 - erfc(-x);
    }
    if x < 2.5 {
        // series for erf
        let mut t = x;
        let mut s = x;
        let mut n = 0.0;
        loop {
            n += 1.0;
            t *= 2.0 * x * x / (2.0 * n + 1.0);
            s += t;
            if t <= s * 1e-18 {
                break;
            }
        }
        return 1.0 - 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp() * s;
    }
    if x > 27.3 {
        return 0.0;
    }
    // Lentz continued fraction: erfc(x) = exp(-x^2)/sqrt(pi) * 1/(x+ (1/2)/(x+ 1/(x+ (3/2)/(x+...
    let mut f = x;
    for k in (1..200).rev() {
        f = x + (k as f64 * 0.5) / f;
    }
    (-x * x).exp() / std::f64::consts::PI.sqrt() / f
}
pub fn ncdf(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}
pub fn npdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
/// ln Gamma (Lanczos, g=7, n=9), ~1e-14 relative.
pub fn lgamma(x: f64) -> f64 {
    if x < 0.5 {
        return (std::f64::consts::PI / (std::f64::consts::PI * x).sin()).abs().ln() - lgamma(1.0 - x);
    }
    let g = 7.0;
    let c = [
        0.99999999999980993, 676.5203681218851, -1259.1392167224028, 771.32342877765313, -176.61502916214059,
        12.507343278686905, -0.13857109526572012, 9.9843695780195716e-6, 1.5056327351493116e-7,
    ];
    let x = x - 1.0;
    let mut a = c[0];
    let t = x + g + 0.5;
    for (i, ci) in c.iter().enumerate().skip(1) {
        a += ci / (x + i as f64);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}
/// Regularised lower incomplete gamma P(a,x).
pub fn gammp(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x < a + 1.0 {
        let mut ap = a;
        let mut d = 1.0 / a;
        let mut s = d;
        for _ in 0..10000 {
            ap += 1.0;
            d *= x / ap;
            s += d;
            if d.abs() < s.abs() * 1e-17 {
                break;
            }
        }
        s * (-x + a * x.ln() - lgamma(a)).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < 1e-300 { d = 1e-300; }
            c = b + an / c;
            if c.abs() < 1e-300 { c = 1e-300; }
            d = 1.0 / d;
            let de = d * c;
            h *= de;
            if (de - 1.0).abs() < 1e-16 {
                break;
            }
        }
        1.0 - (-x + a * x.ln() - lgamma(a)).exp() * h
    }
}
/// Composite Gauss-Legendre (20-point panels) on [a,b].
pub fn quad(f: &dyn Fn(f64) -> f64, a: f64, b: f64, panels: usize) -> f64 {
    const X: [f64; 10] = [
        0.0765265211334973, 0.2277858511416451, 0.3737060887154195, 0.5108670019508271, 0.6360536807265150,
        0.7463319064601508, 0.8391169718222188, 0.9122344282513259, 0.9639719272779138, 0.9931285991850949,
    ];
    const W: [f64; 10] = [
        0.1527533871307258, 0.1491729864726037, 0.1420961093183820, 0.1316886384491766, 0.1181945319615184,
        0.1019301198172404, 0.0832767415767048, 0.0626720483341091, 0.0406014298003869, 0.0176140071391521,
    ];
    let h = (b - a) / panels as f64;
    let mut s = 0.0;
    for p in 0..panels {
        let m = a + (p as f64 + 0.5) * h;
        let r = 0.5 * h;
        for i in 0..10 {
            s += W[i] * r * (f(m - r * X[i]) + f(m + r * X[i]));
        }
    }
    s
}
/// Central difference with Richardson extrapolation; returns (value, error estimate).
pub fn deriv(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> (f64, f64) {
    let d = |h: f64| (f(x + h) - f(x - h)) / (2.0 * h);
    let (d1, d2, d3) = (d(h), d(h / 2.0), d(h / 4.0));
    let a1 = (4.0 * d2 - d1) / 3.0;
    let a2 = (4.0 * d3 - d2) / 3.0;
    let b = (16.0 * a2 - a1) / 15.0;
    (b, (b - a2).abs().max((a2 - a1).abs() * 0.1))
}
pub fn deriv2(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> (f64, f64) {
    let d = |h: f64| (f(x + h) - 2.0 * f(x) + f(x - h)) / (h * h);
    let (d1, d2, d3) = (d(h), d(h / 2.0), d(h / 4.0));
    let a1 = (4.0 * d2 - d1) / 3.0;
    let a2 = (4.0 * d3 - d2) / 3.0;
    let b = (16.0 * a2 - a1) / 15.0;
    (b, (b - a2).abs().max((a2 - a1).abs() * 0.1))
}
