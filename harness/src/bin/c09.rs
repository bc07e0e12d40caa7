//! C09: distribution objects against independent special functions, sums and quadratures.
use rqmon::*;
use rqmon::num::*;
use RustQuant_math::distributions::*;

struct Ref<'a> {
    name: &'a str,
    hist: String,
    d: &'a dyn Distribution,
}

/// A finite (truncated) law: (value, mass).
fn discrete(c: &mut Ctx, r: &mut Rng, x: Ref, law: &[(f64, f64)], pmf_ok: bool, cdf_args: &[f64], degenerate: bool, mode_median: bool) {
    let Ref { name, hist, d } = x;
    let moment = |k: i32, m: f64| law.iter().map(|(v, p)| p * (v - m).powi(k)).sum::<f64>();
    let mean = law.iter().map(|(v, p)| v * p).sum::<f64>();
    let var = moment(2, mean);
    macro_rules! chk { ($what:expr, $f:expr, $want:expr, $a:expr, $r:expr) => {
        let want: f64 = $want;
        if let Some(g) = c.guard(&format!("{name}:{}", $what), || hist.clone(), || $f) {
            c.close(g, want, $a, $r, &format!("{name}:{}", $what), || format!("{hist} {}", $what));
        }
    } }
    chk!("mean", d.mean(), mean, 1e-9, 1e-9);
    chk!("variance", d.variance(), var, 1e-9, 1e-8);
    if !degenerate {
        chk!("skewness", d.skewness(), moment(3, mean) / var.powf(1.5), 1e-7, 1e-7);
        chk!("kurtosis", d.kurtosis(), moment(4, mean) / (var * var) - 3.0, 1e-6, 1e-6);
    }
    if pmf_ok {
        for _ in 0..12 {
            let (v, p) = *r.pick(law);
            chk!("pmf", d.pmf(v), p, 1e-12, 1e-8);
            chk!("pdf", d.pdf(v), p, 1e-12, 1e-8);
        }
        let mut tot = 0.0;
        for (v, _) in law { if let Ok(m) = c.call("pmf", || d.pmf(*v)) { tot += m; c.check(m >= 0.0, &format!("{name}:pmf_negative"), || format!("{hist} x={v}")); } }
        c.close(tot, 1.0, 1e-8, 0.0, &format!("{name}:pmf_total"), || hist.clone());
    }
    for a in cdf_args {
        let want = law.iter().filter(|(v, _)| v <= a).map(|(_, p)| p).sum::<f64>();
        let Some(g) = c.guard(&format!("{name}:cdf"), || format!("{hist} x={a}"), || d.cdf(*a)) else { continue };
        if name == "poisson" {
            // the recorded defect is exactly 1 - P/Q
                        if !close(g, want, 1e-8, 0.0) && close(g, 1.0 - (1.0 - want) / want, 1e-7, 1e-6) {
                c.violate("poisson:cdf_is_1-P/Q", || format!("{hist} x={a} got {g} want {want}"));
                continue;
            }
        }
        c.close(g, want, 1e-8, 0.0, &format!("{name}:cdf"), || format!("{hist} x={a}"));
    }
    let mut seen: Vec<f64> = vec![];
    for _ in 0..3 {
        let t = if seen.is_empty() { 0.0 } else { r.range(-2.5, 2.5) };
        seen.push(t);
        let (re, im) = law.iter().fold((0.0, 0.0), |(a, b), (v, p)| (a + p * (t * v).cos(), b + p * (t * v).sin()));
        if let Some(g) = c.guard(&format!("{name}:cf"), || format!("{hist} t={t}"), || d.cf(t)) {
            c.close(g.re, re, 1e-8, 0.0, &format!("{name}:cf"), || format!("{hist} t={t} re"));
            c.close(g.im, im, 1e-8, 0.0, &format!("{name}:cf"), || format!("{hist} t={t} im"));
        }
        // E exp(tX); keep the truncated tail negligible
        let t = if t == 0.0 { 0.0 } else { t * (1.0f64).min(2.0 / (mean.abs() + 10.0 * var.sqrt() + 1e-9)) };
        let m = law.iter().filter(|l| l.1 > 0.0).map(|(v, p)| p * (t * v).exp()).sum::<f64>();
        chk!("mgf", d.mgf(t), m, 1e-10, 1e-7);
    }
    // quantiles strictly inside a jump
    if name != "uniform_discrete" {
        let mut acc = 0.0;
        for (v, p) in law {
            if *p > 1e-6 && acc + 0.5 * p < 1.0 - 1e-9 && (acc == 0.0 || r.chance(0.5)) {
                let q = acc + p * r.range(0.1, 0.9);
                if let Some(g) = c.guard(&format!("{name}:inv_cdf"), || format!("{hist} p={q}"), || d.inv_cdf(q)) {
                    c.check(g == *v, &format!("{name}:inv_cdf"), || format!("{hist} p={q} got {g} want {v}"));
                }
            }
            acc += p;
        }
    }
    if mode_median {
        let pm = law.iter().map(|l| l.1).fold(0.0, f64::max);
        if let Some(g) = c.guard(&format!("{name}:mode"), || hist.clone(), || d.mode()) {
            let m = law.iter().find(|l| l.0 == g).map_or(0.0, |l| l.1);
            c.check(m >= pm * (1.0 - 1e-9), &format!("{name}:mode"), || format!("{hist} mode {g} mass {m} max {pm}"));
        }
        if let Some(g) = c.guard(&format!("{name}:median"), || hist.clone(), || d.median()) {
            let below = law.iter().filter(|l| l.0 <= g).map(|l| l.1).sum::<f64>();
            let above = law.iter().filter(|l| l.0 >= g).map(|l| l.1).sum::<f64>();
            // the documented Poisson median is an asymptotic formula
            let tol = if name == "poisson" { 0.01 } else { 1e-9 };
            c.check(below >= 0.5 - tol && above >= 0.5 - tol, &format!("{name}:median"), || format!("{hist} median {g} P(<=) {below} P(>=) {above}"));
        }
    }
}

fn main() {
    let mut c = Ctx::new("C09", "random parameters over several decades (degenerate and extreme ones included) for the eight distributions; mass/density, distribution function, quantile, moments, mode, median, entropy, generating and characteristic functions at random arguments in the body, in the tails, at support ends and between integers. Non-trivial: a non-degenerate law.");
    c.assume("ties of quantiles at jumps, non-integer arguments of mass functions, and the functions the library declares unimplemented (Gamma quantile/median/entropy, Poisson entropy, discrete-uniform quantile/mode) are not judged");
    c.assume("entropy of the binomial is the documented Gaussian approximation; chi-squared and Poisson medians are the documented approximations");
    for _ in 0..c.n(5000) {
        let mut r = c.fork();
        // ---- Bernoulli
        let p = match r.below(6) { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => r.f() };
        let hist = format!("Bernoulli({p})");
        let Some(d) = c.guard("bernoulli:new", || hist.clone(), || Bernoulli::new(p)) else { continue };
        let deg = p == 0.0 || p == 1.0;
        let args = [-1.5, -1.0, -0.5, -1e-9, 0.0, 0.3, 0.999, 1.0, 1.5, 7.0];
        discrete(&mut c, &mut r, Ref { name: "bernoulli", hist: hist.clone(), d: &d }, &[(0.0, 1.0 - p), (1.0, p)], true, &args, deg, true);
        if !deg { if let Some(g) = c.guard("bernoulli:entropy", || hist.clone(), || d.entropy()) { c.close(g, -(p * p.ln() + (1.0 - p) * (1.0 - p).ln()), 1e-10, 1e-9, "bernoulli:entropy", || hist.clone()); } c.case("bernoulli", &hist) } else { c.trivial("degenerate") }
        // ---- Binomial
        let n = match r.below(6) { 0 => 1, 1 => r.us(2, 13), 2 => r.us(13, 40), 3 => r.us(40, 300), 4 => r.us(300, 1500), _ => r.us(1, 25) };
        let p = match r.below(8) { 0 => 0.0, 1 => 1.0, 2 => 0.5, 3 => r.logr(1e-4, 0.1), 4 => 1.0 - r.logr(1e-4, 0.1), _ => r.f() };
        let hist = format!("Binomial({n},{p})");
        let deg = p == 0.0 || p == 1.0;
        let law: Vec<(f64, f64)> = (0..=n).map(|k| {
            let (nf, kf) = (n as f64, k as f64);
            let m = if deg { if (p == 0.0 && k == 0) || (p == 1.0 && k == n) { 1.0 } else { 0.0 } } else {
                (lgamma(nf + 1.0) - lgamma(kf + 1.0) - lgamma(nf - kf + 1.0) + kf * p.ln() + (nf - kf) * (-p).ln_1p()).exp() };
            (kf, m) }).collect();
        let d = Binomial::new(n, p);
        let nf = n as f64;
        let args = [-1.0, -0.5, 0.0, 0.5, (nf * p).floor(), nf * p + 0.5, r.us(0, n) as f64, nf - 1.0, nf - 0.5, nf, nf + 0.5, nf + 3.0];
        discrete(&mut c, &mut r, Ref { name: "binomial", hist: hist.clone(), d: &d }, &law, true, &args, deg, true);
        if !deg { let v = nf * p * (1.0 - p); if let Some(g) = c.guard("binomial:entropy", || hist.clone(), || d.entropy()) { c.close(g, 0.5 * (2.0 * std::f64::consts::PI * std::f64::consts::E * v).ln(), 1e-9, 1e-9, "binomial:entropy", || hist.clone()); } c.case("binomial", &hist) } else { c.trivial("degenerate") }
        // ---- Poisson
        let l = match r.below(4) { 0 => r.logr(1e-3, 0.5), 1 => r.range(0.5, 10.0), 2 => r.us(1, 12) as f64, _ => if r.chance(0.01) { r.range(900.0, 20000.0) } else if r.chance(0.2) { r.range(120.0, 900.0) } else { r.range(10.0, 120.0) } };
        let hist = format!("Poisson({l})");
        let top = (l + 30.0 * l.sqrt() + 40.0) as usize;
        let law: Vec<(f64, f64)> = (0..=top).map(|k| (k as f64, (k as f64 * l.ln() - l - lgamma(k as f64 + 1.0)).exp())).collect();
        let d = Poisson::new(l);
        let mut args = vec![0.0, 1.0, l.floor(), (l + l.sqrt()).floor(), (l + 3.0 * l.sqrt()).floor()];
        args.retain(|a| *a < 150.0);
        discrete(&mut c, &mut r, Ref { name: "poisson", hist: hist.clone(), d: &d }, &law, true, &args, false, true);
        if let Some(g) = c.guard("poisson:inv_cdf", || hist.clone(), || d.inv_cdf(0.0)) { c.check(g == 0.0, "poisson:inv_cdf0", || format!("{hist} {g}")); }
        // quantiles next to one: rounding must neither lose nor loop for them
        if l < 900.0 { for _ in 0..4 {
            let p = 1.0 - r.logr(3e-16, 1e-6);
            let (tx, rx) = std::sync::mpsc::channel();
            if r.chance(0.03) { std::thread::spawn(move || { let _ = tx.send(std::panic::catch_unwind(|| Poisson::new(l).inv_cdf(p)).ok()); }); } else { continue }
            let x = match rx.recv_timeout(std::time::Duration::from_secs(20)) { Ok(Some(x)) => x, _ => { c.check(false, "poisson:no quantile", || format!("{hist} p={p}: no answer within 20 s, or a panic")); break } };
            let at = |x: f64| law.iter().filter(|v| v.0 <= x).map(|v| v.1).sum::<f64>();
            c.check(x.is_finite() && at(x) >= p - 1e-10 && at(x - 1.0) <= p + 1e-10, "poisson:upper quantile", || format!("{hist} p=1-{:e} got {x}: P(X<=x)=1-{:e} P(X<x)=1-{:e}", 1.0 - p, 1.0 - at(x), 1.0 - at(x - 1.0)));
        } }
        c.case("poisson", &hist);
        // ---- discrete uniform
        let a = r.i(-20, 20) as f64;
        let b = a + if r.chance(0.15) { 0.0 } else { r.us(1, 40) as f64 };
        let hist = format!("Uniform({a},{b},Discrete)");
        let law: Vec<(f64, f64)> = (0..=(b - a) as usize).map(|k| (a + k as f64, 1.0 / (b - a + 1.0))).collect();
        let d = Uniform::new(a, b, DistributionClass::Discrete);
        let args = [a - 3.0, a - 0.5, a, a + 0.5, (0.5 * (a + b)).floor(), b - 0.25, b, b + 0.5, b + 4.0];
        discrete(&mut c, &mut r, Ref { name: "uniform_discrete", hist: hist.clone(), d: &d }, &law, true, &args, a == b, false);
        for (o, w) in [(a - 1.0, 0.0), (b + 1.0, 0.0)] { if let Some(g) = c.guard("uniform_discrete:pmf", || hist.clone(), || d.pmf(o)) { c.check(g == w, "uniform_discrete:pmf_outside", || format!("{hist} x={o} {g}")); } }
        if let Some(g) = c.guard("uniform_discrete:median", || hist.clone(), || (d.median(), d.entropy())) { c.close(g.0, 0.5 * (a + b), 1e-12, 1e-12, "uniform_discrete:median", || hist.clone()); c.close(g.1, (b - a + 1.0).ln(), 1e-12, 1e-12, "uniform_discrete:entropy", || hist.clone()); }
        c.case("uniform_discrete", &hist);
        // ---- continuous laws
        for kind in 0..5 {
            let wide = r.chance(0.25);
            let pi = std::f64::consts::PI;
            // (name, object, support, density, cdf, mean, var, skew, exkurt, entropy, median?, mode?, cf(t), mgf limit, mgf)
            let (name, hist, d, lo, scale): (&str, String, Box<dyn Distribution>, f64, f64);
            let (dens, cdf): (Box<dyn Fn(f64) -> f64>, Box<dyn Fn(f64) -> f64>);
            let (mean, var, skew, kurt): (f64, f64, f64, f64);
            let (ent, med, mode): (Option<f64>, Option<f64>, Option<f64>);
            let lcf: Box<dyn Fn(f64) -> (f64, f64)>; // log characteristic function (modulus exponent, phase)
            let lmgf: Box<dyn Fn(f64) -> f64>;
            let tmax: f64;
            match kind {
                0 => {
                    let (m, v) = if wide { (r.range(-1.0, 1.0) * r.logr(1.0, 1e5), r.logr(1e-8, 1e9)) } else { (r.range(-20.0, 20.0), r.logr(1e-4, 1e4)) };
                    let s = v.sqrt();
                    name = "gaussian"; hist = format!("Gaussian({m},{v})"); d = Box::new(Gaussian::new(m, v)); lo = f64::NEG_INFINITY; scale = s;
                    dens = Box::new(move |x| npdf((x - m) / s) / s); cdf = Box::new(move |x| ncdf((x - m) / s));
                    mean = m; var = v; skew = 0.0; kurt = 0.0;
                    ent = Some(0.5 * (2.0 * pi * std::f64::consts::E * v).ln()); med = Some(m); mode = Some(m);
                    lcf = Box::new(move |t| (-0.5 * v * t * t, m * t)); lmgf = Box::new(move |t| m * t + 0.5 * v * t * t); tmax = 3.0 / (s + m.abs());
                }
                1 => {
                    let l = if wide { r.logr(1e-10, 1e10) } else { r.logr(1e-3, 1e3) };
                    name = "exponential"; hist = format!("Exponential({l})"); d = Box::new(Exponential::new(l)); lo = 0.0; scale = 1.0 / l;
                    dens = Box::new(move |x| l * (-l * x).exp()); cdf = Box::new(move |x| -(-l * x).exp_m1());
                    mean = 1.0 / l; var = 1.0 / (l * l); skew = 2.0; kurt = 6.0;
                    ent = Some(1.0 - l.ln()); med = Some(std::f64::consts::LN_2 / l); mode = Some(0.0);
                    lcf = Box::new(move |t| (-0.5 * (t * t / (l * l)).ln_1p(), (t / l).atan())); lmgf = Box::new(move |t| -(-t / l).ln_1p()); tmax = l;
                }
                2 => {
                    let (a, b) = if wide { (r.logr(0.02, 2e4), r.logr(1e-6, 1e6)) } else { (r.logr(0.1, 300.0), r.logr(1e-2, 1e2)) };
                    name = "gamma"; hist = format!("Gamma({a},{b})"); d = Box::new(Gamma::new(a, b)); lo = 0.0; scale = a.sqrt() / b;
                    dens = Box::new(move |x| (a * b.ln() + (a - 1.0) * x.ln() - b * x - lgamma(a)).exp()); cdf = Box::new(move |x| gammp(a, b * x));
                    mean = a / b; var = a / (b * b); skew = 2.0 / a.sqrt(); kurt = 6.0 / a;
                    ent = None; med = None; mode = Some(((a - 1.0) / b).max(0.0));
                    lcf = Box::new(move |t| (-0.5 * a * (t * t / (b * b)).ln_1p(), a * (t / b).atan())); lmgf = Box::new(move |t| -a * (-t / b).ln_1p()); tmax = b;
                }
                3 => {
                    let k = match r.below(4) { 0 => r.us(1, 2), 1 => r.us(3, 10), 2 => r.us(11, 60), _ => if wide { r.us(900, 20000) } else { r.us(61, 900) } };
                    let a = k as f64 / 2.0;
                    name = "chi_squared"; hist = format!("ChiSquared({k})"); d = Box::new(ChiSquared::new(k)); lo = 0.0; scale = (2.0 * k as f64).sqrt();
                    dens = Box::new(move |x| ((a - 1.0) * x.ln() - a * 2f64.ln() - x / 2.0 - lgamma(a)).exp()); cdf = Box::new(move |x| gammp(a, x / 2.0));
                    mean = k as f64; var = 2.0 * mean; skew = (8.0 / mean).sqrt(); kurt = 12.0 / mean;
                    // digamma by differencing log-gamma
                    let (dg, de) = deriv(&|z| lgamma(z), a, 0.05 * a.min(4.0));
                    ent = if de < 1e-5 { Some(a + 2f64.ln() + lgamma(a) + (1.0 - a) * dg) } else { None };
                    med = None; mode = Some((mean - 2.0).max(0.0));
                    lcf = Box::new(move |t| (-0.5 * a * (4.0 * t * t).ln_1p(), a * (2.0 * t).atan())); lmgf = Box::new(move |t| -a * (-2.0 * t).ln_1p()); tmax = 0.5;
                }
                _ => {
                    let a = r.range(-50.0, 50.0) * if wide { r.logr(1.0, 1e5) } else { 1.0 }; let b = a + if wide { r.logr(1e-2, 1e7) } else { r.logr(1e-3, 100.0) };
                    name = "uniform"; hist = format!("Uniform({a},{b},Continuous)"); d = Box::new(Uniform::new(a, b, DistributionClass::Continuous)); lo = a; scale = b - a;
                    dens = Box::new(move |x| if x < a || x > b { 0.0 } else { 1.0 / (b - a) }); cdf = Box::new(move |x| ((x - a) / (b - a)).clamp(0.0, 1.0));
                    mean = 0.5 * (a + b); var = (b - a) * (b - a) / 12.0; skew = 0.0; kurt = -1.2;
                    ent = Some((b - a).ln()); med = Some(mean); mode = None;
                    let (m, h) = (mean, 0.5 * (b - a));
                    lcf = Box::new(move |t| { let z = h * t; (if z == 0.0 { 0.0 } else { (z.sin() / z).abs().ln() }, m * t + if z.sin() / z < 0.0 { pi } else { 0.0 }) });
                    lmgf = Box::new(move |t| { let z = h * t; m * t + if z == 0.0 { 0.0 } else { (z.sinh() / z).ln() } }); tmax = 3.0 / (b.abs() + a.abs());
                }
            }
            macro_rules! chk { ($what:expr, $f:expr, $want:expr, $a:expr, $r:expr) => {
                let want: f64 = $want;
                if let Some(g) = c.guard(&format!("{name}:{}", $what), || hist.clone(), || $f) {
                    c.close(g, want, $a, $r, &format!("{name}:{}", $what), || format!("{hist} {}", $what));
                }
            } }
            let s = var.sqrt();
            chk!("mean", d.mean(), mean, 1e-12 * s, 1e-10);
            chk!("variance", d.variance(), var, 0.0, 1e-10);
            chk!("skewness", d.skewness(), skew, 1e-12, 1e-10);
            chk!("kurtosis", d.kurtosis(), kurt, 1e-12, 1e-10);
            if let Some(e) = ent { chk!("entropy", d.entropy(), e, if kind == 3 { 1e-5 * (1.0 + mean.abs().min(1e3)) } else { 1e-10 }, if kind == 3 { 1e-7 } else { 1e-10 }); }
            if let Some(m) = med { chk!("median", d.median(), m, 1e-12 * s, 1e-10); }
            if let Some(m) = mode { chk!("mode", d.mode(), m, 1e-12 * s, 1e-10); }
            if kind == 3 { if let Some(g) = c.guard("chi_squared:median", || hist.clone(), || d.median()) { c.close(cdf(g), 0.5, 0.03, 0.0, "chi_squared:median", || format!("{hist} {g}")); } }
            let mut pts: Vec<f64> = (0..10).map(|_| mean + s * r.range(-4.0, 6.0)).collect();
            if lo > f64::NEG_INFINITY { for _ in 0..4 { pts.push(lo + scale * r.logr(1e-6, 1.0)); } } else { pts.push(mean + 9.0 * s); pts.push(mean - 9.0 * s); }
            if kind == 4 { pts.push(lo - scale); pts.push(lo + 2.0 * scale); pts.push(lo); } else { pts.retain(|x| *x > lo); }
            if kind == 1 || (kind == 3 && mean >= 2.0) { pts.push(0.0); }
            if s > 0.3 && s < 1e6 { let v: Vec<f64> = pts.iter().take(4).map(|x| x.round()).filter(|x| *x > lo).collect(); pts.extend(v); }
            pts.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut prev = -1.0;
            for x in &pts {
                let x = *x;
                let want = if x == 0.0 && kind == 3 { if mean == 2.0 { 0.5 } else { 0.0 } } else { dens(x) };
                // relative accuracy where the density is representable
                chk!("pdf", d.pdf(x), want, 1e-290, 2e-8);
                chk!("pmf", d.pmf(x), want, 1e-290, 2e-8);
                let w = cdf(x);
                if let Some(g) = c.guard(&format!("{name}:cdf"), || format!("{hist} x={x}"), || d.cdf(x)) {
                    c.close(g, w, 1e-9, 0.0, &format!("{name}:cdf"), || format!("{hist} x={x}"));
                    if kind == 0 && x < mean { c.close(g, w, 0.0, 1e-6, "gaussian:lower_tail", || format!("{hist} x={x}")); }
                    c.check(g >= prev - 1e-12, &format!("{name}:cdf_monotone"), || format!("{hist} x={x} {prev} {g}"));
                    c.check((0.0..=1.0 + 1e-12).contains(&g), &format!("{name}:cdf_range"), || format!("{hist} x={x} {g}"));
                    prev = g;
                }
                // running total of the library's own density
                if kind != 4 && x < mean + 5.0 * s && (kind != 2 && kind != 3 || mean / s > 1.5) {
                    let y = x + 0.3 * s;
                    let dd = &d;
                    if let Some(q) = c.guard(&format!("{name}:pdf"), || hist.clone(), || quad(&|z| dd.pdf(z), x, y, 6)) {
                        c.close(q, cdf(y) - cdf(x), 1e-7, 0.0, &format!("{name}:pdf_integrates_to_cdf"), || format!("{hist} [{x},{y}]"));
                    }
                }
            }
            if kind != 2 {
                let lim = if kind == 0 || kind == 3 { 1e-6 } else { 1e-12 };
                if kind == 0 {
                    // far down the lower tail, where only relative accuracy says anything
                    let q = r.logr(1e-300, 1e-6);
                    if let Some(x) = c.guard("gaussian:inv_cdf", || format!("{hist} p={q}"), || d.inv_cdf(q)) {
                        let z = (x - mean) / s;
                        if z * z * 1e-16 * (1.0 + (mean / s).abs()) < 1e-8 { c.close(num::ncdf(z), q, 0.0, 1e-6, "gaussian:lower_tail_quantile", || format!("{hist} p={q:e} x={x}")); }
                    }
                }
                for _ in 0..6 {
                    let q = match r.below(4) { 0 => r.logr(lim, 0.1), 1 => 1.0 - r.logr(lim.max(1e-9), 0.1), _ => r.f() };
                    if let Some(x) = c.guard(&format!("{name}:inv_cdf"), || format!("{hist} p={q}"), || d.inv_cdf(q)) {
                        let tail = q.min(1.0 - q);
                        c.close(cdf(x), q, 1e-6 * tail + 1e-13 + 1e-15 * x.abs() / s, 0.0, &format!("{name}:inv_cdf"), || format!("{hist} p={q} x={x}"));
                    }
                }
            }
            for j in 0..3 {
                let t = if j == 0 { 0.0 } else { tmax * r.range(-3.0, 3.0) / mean.abs().max(1.0).min(30.0) };
                let (lm, ph) = lcf(t);
                // the difference quotient of a narrow uniform law cancels
                let cft = 1e-8 + if kind == 4 && t != 0.0 { 1e-14 / (t * scale).abs() } else { 0.0 };
                if let Some(g) = c.guard(&format!("{name}:cf"), || format!("{hist} t={t}"), || d.cf(t)) {
                    c.close(g.re, lm.exp() * ph.cos(), cft, 0.0, &format!("{name}:cf"), || format!("{hist} t={t} re"));
                    c.close(g.im, lm.exp() * ph.sin(), cft, 0.0, &format!("{name}:cf"), || format!("{hist} t={t} im"));
                }
                let t = if j == 0 { 0.0 } else { tmax * r.range(-2.0, 0.9) / (1.0 + mean.abs() / 10.0) };
                if kind != 4 || t == 0.0 || (t * scale).abs() > 1e-6 { chk!("mgf", d.mgf(t), lmgf(t).exp(), 1e-300, 1e-6); }
            }
            c.case(name, &hist);
        }
    }
    // arguments that no distribution has an answer for
    for _ in 0..c.n(300) {
        let mut r = c.fork();
        let bad_p = [-0.5, -1e-9, -f64::MIN_POSITIVE * 1e300, 1.0 + 1e-9, 1.5, 2.0, -r.logr(1e-9, 1e9), 1.0 + r.logr(1e-9, 1e9), f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        let (p, k, l) = (r.f(), r.us(1, 40), r.logr(1e-2, 1e2));
        let objs: Vec<(&str, Box<dyn Distribution>)> = vec![
            ("bernoulli", Box::new(Bernoulli::new(p))), ("binomial", Box::new(Binomial::new(k, p))), ("poisson", Box::new(Poisson::new(l))),
            ("gaussian", Box::new(Gaussian::new(l - 3.0, l))), ("exponential", Box::new(Exponential::new(l))), ("chi_squared", Box::new(ChiSquared::new(k))),
            ("uniform", Box::new(Uniform::new(-l, p, DistributionClass::Continuous))),
        ];
        for (name, d) in &objs {
            let q = *r.pick(&bad_p);
            let g = c.call("inv_cdf", || d.inv_cdf(q));
            c.check(!matches!(g, Ok(x) if x.is_finite()), &format!("{name}:quantile of no probability"), || format!("inv_cdf({q}) = {g:?}"));
            // the ends of the support
            for (q, want) in [(0.0, match *name { "gaussian" => f64::NEG_INFINITY, "uniform" => -l, _ => 0.0 }), (1.0, match *name { "bernoulli" => if p == 0.0 { 0.0 } else { 1.0 }, "binomial" => k as f64, "uniform" => p, _ => f64::INFINITY })] {
                if *name == "binomial" && q == 1.0 { continue } // the running sum reaches one within rounding earlier
                if let Some(g) = c.guard(&format!("{name}:inv_cdf end"), || format!("p={q}"), || d.inv_cdf(q)) { c.check(num::close(g, want, 1e-12 * l, 1e-12) || g == want, &format!("{name}:quantile at the ends"), || format!("inv_cdf({q}) = {g}, want {want}")); }
            }
            c.case("refusal", &format!("{name} {q}"));
        }
        // no mass and no density outside the support: zero or a refusal
        let far = -r.logr(1e-6, 1e3);
        let outside: Vec<(&str, Box<dyn Distribution>, Vec<f64>)> = vec![
            ("bernoulli", Box::new(Bernoulli::new(p)), vec![-1.0, 2.0, 3.0, -2.0]), ("binomial", Box::new(Binomial::new(k, p)), vec![-1.0, -2.0, -(k as f64), k as f64 + 1.0, 3.0 * k as f64 + 2.0]),
            ("poisson", Box::new(Poisson::new(l)), vec![-1.0, -2.0, -7.0, -1e3]), ("exponential", Box::new(Exponential::new(l)), vec![far, -1.0 / l]), ("chi_squared", Box::new(ChiSquared::new(k)), vec![far, -1.0]),
            ("gamma", Box::new(Gamma::new(l, k as f64)), vec![far, -1.0]), ("uniform", Box::new(Uniform::new(-l, p, DistributionClass::Continuous)), vec![-l + far, p - far]),
            ("uniform_discrete", Box::new(Uniform::new(-(k as f64), 3.0, DistributionClass::Discrete)), vec![-(k as f64) - 1.0, 4.0]),
        ];
        for (name, d, xs) in &outside {
            let x = *r.pick(xs);
            for (what, g) in [("pmf", c.call("pmf", || d.pmf(x))), ("pdf", c.call("pdf", || d.pdf(x)))] {
                c.check(!matches!(g, Ok(m) if m != 0.0 && !m.is_nan()), &format!("{name}:{what} outside the support"), || format!("{name} p={p} k={k} l={l}: {what}({x}) = {g:?}"));
            }
            let above = matches!(*name, "bernoulli" | "binomial" | "uniform" | "uniform_discrete") && x > d.mean();
            let g = c.call("cdf", || d.cdf(x));
            if *name != "poisson" { c.check(!matches!(g, Ok(m) if m != above as u8 as f64 && !m.is_nan()), &format!("{name}:cdf outside the support"), || format!("{name} p={p} k={k} l={l}: cdf({x}) = {g:?}")); }
        }
        // generating functions beyond the point where they diverge
        let div: Vec<(&str, Box<dyn Distribution>, f64)> = vec![("exponential", Box::new(Exponential::new(l)), l), ("gamma", Box::new(Gamma::new(k as f64, l)), l), ("chi_squared", Box::new(ChiSquared::new(k)), 0.5)];
        for (name, d, lim) in &div {
            let t = lim * r.logr(1.0 + 1e-9, 1e3).max(1.0 + 1e-9);
            let g = c.call("mgf", || d.mgf(t));
            c.check(!matches!(g, Ok(m) if m.is_finite()), &format!("{name}:divergent generating function"), || format!("{name} k={k} l={l}: mgf({t}) = {g:?}"));
        }
        let neg = *r.pick(&[0.0, -0.0, -1.0, -1e-300, f64::NAN, f64::NEG_INFINITY]);
        let out = *r.pick(&[-1e-9, 1.0 + 1e-9, 2.0, f64::NAN, f64::INFINITY]);
        let made = [
            ("bernoulli", c.call("new", || { Bernoulli::new(out); }).is_ok()), ("binomial", c.call("new", || { Binomial::new(k, out); }).is_ok()),
            ("poisson", c.call("new", || { Poisson::new(neg); }).is_ok()), ("gaussian", c.call("new", || { Gaussian::new(0.0, neg); }).is_ok()),
            ("exponential", c.call("new", || { Exponential::new(neg); }).is_ok()), ("chi_squared", c.call("new", || { ChiSquared::new(0); }).is_ok()),
            ("gamma", c.call("new", || { Gamma::new(neg, l); }).is_ok() || c.call("new", || { Gamma::new(l, neg); }).is_ok()),
            ("uniform", c.call("new", || { Uniform::new(l, l - 1e-6 * l, DistributionClass::Continuous); }).is_ok() || c.call("new", || { Uniform::new(f64::NAN, l, DistributionClass::Continuous); }).is_ok()),
        ];
        for (name, ok) in made { c.check(!ok, &format!("{name}:invalid parameters accepted"), || format!("{neg} {out}")); }
    }
    c.finish()
}
