//! C15: descriptive statistics against their definitions.
use rqmon::*;
use RustQuant_math::statistic::Statistic;

/// compensated sum
fn sum(x: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut e) = (0.0, 0.0);
    for v in x { let t: f64 = s + v; e += if f64::abs(s) >= f64::abs(v) { (s - t) + v } else { (v - t) + s }; s = t; }
    s + e
}

fn main() {
    let mut c = Ctx::new("C15", "random data sets of 1 to 40000 values: normal, heavy-tailed, constant, ties, already sorted, reversed, huge and tiny scales, large common offset, pairs with chosen correlation; metamorphic permutation, shift and scale. Non-trivial: at least two distinct values.");
    c.assume("the interquartile range is the spread of the order statistics at a quarter and three quarters of the length, as implemented; the ratios in risk_reward.rs have no public constructor and cannot be observed");
    // order statistics and means next to the ends of the number range
    for _ in 0..c.n(3000) {
        let mut r = c.fork();
        let n = r.us(1, 40);
        let sc = *r.pick(&[1e-300, 1e-160, 1e160, 1e300]);
        let x: Vec<f64> = (0..n).map(|_| sc * r.range(0.1, 1.0) * if r.bool() { 1.0 } else { -1.0 }).collect();
        let mut s = x.clone();
        s.sort_by(|a, b| a.total_cmp(b));
        let hist = format!("n={n} scale={sc:e} {x:?}");
        let q = r.f();
        let at = q * (n - 1) as f64;
        let (i, j) = (at.floor() as usize, at.ceil() as usize);
        let want = [s[0], s[n - 1], s[n - 1] - s[0], 0.5 * s[(n - 1) / 2] + 0.5 * s[n / 2], s[i] + (s[j] - s[i]) * (at - i as f64), x.iter().map(|v| v / sc).sum::<f64>() / n as f64 * sc];
        if let Some(got) = c.guard("extreme", || hist.clone(), || [x.min(), x.max(), x.range(), x.median(), x.quantile(q), x.mean()]) {
            for (k, w) in ["min", "max", "range", "median", "quantile", "mean"].iter().enumerate() { c.close(got[k], want[k], 1e-12 * sc, 0.0, &format!("extreme:{w}"), || format!("{hist} {w}")); }
        }
        let y: Vec<f64> = x.iter().map(|v| v.abs()).collect();
        if let Some((g, h)) = c.guard("extreme", || hist.clone(), || (y.geometric_mean(), y.harmonic_mean())) {
            c.close(g, (y.iter().map(|v| (v / sc).ln()).sum::<f64>() / n as f64).exp() * sc, 0.0, 1e-10, "extreme:geometric_mean", || hist.clone());
            c.close(h, n as f64 / y.iter().map(|v| sc / v).sum::<f64>() * sc, 0.0, 1e-10, "extreme:harmonic_mean", || hist.clone());
        }
        // a data set may consist of infinities only
        let z = vec![if r.bool() { f64::INFINITY } else { f64::NEG_INFINITY }; n.min(3)];
        if let Some((lo, hi)) = c.guard("extreme", || hist.clone(), || (z.min(), z.max())) { c.check(lo == z[0] && hi == z[0], "extreme:infinite", || format!("{z:?}: min {lo} max {hi}")); }
        c.case("extreme", &hist);
    }
    for _ in 0..c.n(12_000) {
        let mut r = c.fork();
        let n = match r.below(6) { 0 => r.us(1, 3), 1 => r.us(4, 6), 2 => r.us(300, 2000), _ => r.size(4, 60, 40000) };
        let sc = *r.pick(&[1.0, 1.0, 1e-6, 1e6]);
        let off = if r.chance(0.3) { sc * r.range(-50.0, 50.0) } else { 0.0 };
        let shape = r.below(6);
        let mut x: Vec<f64> = (0..n).map(|_| off + sc * match shape { 0 => r.normal(), 1 => { let z = r.normal(); z * z * z }, 2 => r.i(-3, 3) as f64, 3 => 2.5, 4 => r.logr(1e-4, 1e4), _ => r.range(-1.0, 1.0) }).collect();
        match r.below(8) { 0 => x.sort_by(|a, b| a.total_cmp(b)), 1 => x.sort_by(|a, b| b.total_cmp(a)), _ => {} }
        let hist = format!("n={n} shape={shape} scale={sc} off={off} {:?}", &x[..n.min(12)]);
        let nf = n as f64;
        let mu = sum(x.iter().copied()) / nf;
        let mx = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let ss = |k: i32| sum(x.iter().map(|v| (v - mu).powi(k)));
        let (m2, m3, m4) = (ss(2), ss(3), ss(4));
        let mut s = x.clone();
        s.sort_by(|a, b| a.total_cmp(b));
        let spread = s[n - 1] - s[0];
        let distinct = spread > 1e-6 * mx;
        let eps = 1e-13 * nf.sqrt();
        macro_rules! chk { ($w:expr, $f:expr, $want:expr, $a:expr, $r:expr) => {{ let want: f64 = $want; if let Some(g) = c.guard($w, || hist.clone(), || $f) { c.close(g, want, $a, $r, $w, || hist.clone()); } }} }
        chk!("mean", x.mean(), mu, eps * mx, 0.0);
        chk!("arithmetic_mean", x.arithmetic_mean(), mu, eps * mx, 0.0);
        if x.iter().all(|v| *v > 0.0) {
            chk!("geometric_mean", x.geometric_mean(), (sum(x.iter().map(|v| v.ln())) / nf).exp(), 0.0, 1e-10);
            chk!("harmonic_mean", x.harmonic_mean(), nf / sum(x.iter().map(|v| 1.0 / v)), 0.0, 1e-10);
        }
        chk!("min", x.min(), s[0], 0.0, 0.0);
        chk!("max", x.max(), s[n - 1], 0.0, 0.0);
        chk!("range", x.range(), spread, 1e-15 * mx, 0.0);
        chk!("median", x.median(), if n % 2 == 1 { s[n / 2] } else { 0.5 * (s[n / 2 - 1] + s[n / 2]) }, 1e-15 * mx, 0.0);
        chk!("interquartile_range", x.interquartile_range(), s[3 * n / 4] - s[n / 4], 1e-15 * mx, 0.0);
        for _ in 0..3 {
            let q = match r.below(4) { 0 => 0.0, 1 => 1.0, 2 => r.us(0, n - 1) as f64 / (n - 1).max(1) as f64, _ => r.f() };
            // linear interpolation of order statistics
            let h = q * (nf - 1.0);
            let want = if n == 1 { s[0] } else { let i0 = (h.floor() as usize).min(n - 2); s[i0] + (h - i0 as f64) * (s[i0 + 1] - s[i0]) };
            let gap = 1e-12 * nf * spread + 1e-15 * mx;
            chk!("quantile", x.quantile(q), want, gap, 0.0);
            chk!("percentile", x.percentile(q), want, gap, 0.0);
        }
        chk!("population_variance", x.population_variance(), m2 / nf, (eps * mx).powi(2), 1e-10);
        if n > 1 {
            let v = m2 / (nf - 1.0);
            let va = (eps * mx).powi(2);
            chk!("variance", x.variance(), v, va, 1e-10);
            chk!("sample_variance", x.sample_variance(), v, va, 1e-10);
            chk!("standard_deviation", x.standard_deviation(), v.sqrt(), eps * mx, 1e-10);
            chk!("sample_standard_deviation", x.sample_standard_deviation(), v.sqrt(), eps * mx, 1e-10);
            chk!("population_standard_deviation", x.population_standard_deviation(), (m2 / nf).sqrt(), eps * mx, 1e-10);
            let rho = r.range(-1.0, 1.0);
            let y: Vec<f64> = x.iter().map(|v| rho * (v - mu) + sc * r.range(-1.0, 1.0) + r.range(-2.0, 2.0) * sc).collect();
            let my = sum(y.iter().copied()) / nf;
            let sxy = sum(x.iter().zip(&y).map(|(a, b)| (a - mu) * (b - my)));
            let syy = sum(y.iter().map(|b| (b - my).powi(2)));
            let ca = 1e-12 * nf * (m2 * syy).sqrt() + eps * mx * eps * mx;
            chk!("covariance", x.covariance(&y), sxy / (nf - 1.0), ca, 1e-9);
            chk!("covariance", y.covariance(&x), sxy / (nf - 1.0), ca, 1e-9);
            chk!("covariance_self", x.covariance(&x), v, va, 1e-10);
            if distinct && syy > 0.0 {
                chk!("correlation", x.correlation(&y), sxy / (m2 * syy).sqrt(), 1e-8, 0.0);
                chk!("correlation_self", x.correlation(&x), 1.0, 1e-10, 0.0);
                let neg: Vec<f64> = x.iter().map(|v| -2.0 * v + sc).collect();
                chk!("correlation_self", x.correlation(&neg), -1.0, 1e-8, 0.0);
            }
            if distinct && n > 2 {
                let sd = v.sqrt();
                let g1 = m3 / sd.powi(3) * nf / ((nf - 1.0) * (nf - 2.0));
                chk!("skewness", x.skewness(), g1, 1e-7, 1e-8);
                if n > 3 {
                    let g2 = nf * (nf + 1.0) / ((nf - 1.0) * (nf - 2.0) * (nf - 3.0)) * m4 / sd.powi(4) - 3.0 * (nf - 1.0).powi(2) / ((nf - 2.0) * (nf - 3.0));
                    chk!("kurtosis", x.kurtosis(), g2, 1e-7, 1e-8);
                }
            }
            // shift and scale
            let k = r.range(-4.0, 4.0);
            let z: Vec<f64> = x.iter().map(|t| k * t + sc).collect();
            let tz = eps * 10.0 * (mx * k.abs() + sc);
            chk!("affine_mean", z.mean(), k * mu + sc, tz, 0.0);
            chk!("affine_sd", z.standard_deviation(), k.abs() * v.sqrt(), tz, 1e-9);
            chk!("affine_median", z.median(), k * if n % 2 == 1 { s[n / 2] } else { 0.5 * (s[n / 2 - 1] + s[n / 2]) } + sc, tz, 0.0);
            let before = x.clone();
            let _ = c.call("no mutation", || (x.median(), x.quantile(0.3), x.interquartile_range()));
            c.check(before == x, "mutated", || hist.clone());
        }
        if distinct { c.case(&format!("shape{shape}"), &hist) } else { c.trivial("single value") }
    }
    c.finish()
}
