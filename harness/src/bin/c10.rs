//! C10: recorded samples against the law they should follow.
use rqmon::*;
use rqmon::num::*;
use RustQuant_math::distributions::*;

type Law = (String, String, Box<dyn Distribution>, Box<dyn Fn(f64) -> f64>, Box<dyn Fn(f64) -> bool>, bool);

fn law(r: &mut Rng, kind: u64) -> Law {
    match kind {
        0 => { let p = match r.below(5) { 0 => 0.0, 1 => 1.0, _ => r.f() };
            ("bernoulli".into(), format!("Bernoulli({p})"), Box::new(Bernoulli::new(p)), Box::new(move |x| if x < 0.0 { 0.0 } else if x < 1.0 { 1.0 - p } else { 1.0 }), Box::new(move |x| (x == 0.0 && p < 1.0) || (x == 1.0 && p > 0.0)), true) }
        1 => { let n = match r.below(3) { 0 => 1, 1 => r.us(2, 30), _ => if r.bool() { r.us(30, 400) } else { r.us(400, 100_000) } }; let p = if r.chance(0.3) { r.logr(1e-3, 0.1) } else { r.f() };
            let mut cum = vec![0.0; n + 1]; let mut t = 0.0;
            for (k, c) in cum.iter_mut().enumerate() { let (nf, kf) = (n as f64, k as f64); t += (lgamma(nf + 1.0) - lgamma(kf + 1.0) - lgamma(nf - kf + 1.0) + kf * p.ln() + (nf - kf) * (-p).ln_1p()).exp(); *c = t; }
            ("binomial".into(), format!("Binomial({n},{p})"), Box::new(Binomial::new(n, p)), Box::new(move |x| if x < 0.0 { 0.0 } else if x >= n as f64 { 1.0 } else { cum[x as usize] }), Box::new(move |x| x >= 0.0 && x <= n as f64 && x.fract() == 0.0), true) }
        2 => { let l = if r.chance(0.4) { r.logr(300.0, 3e5) } else { r.logr(0.02, 300.0) };
            ("poisson".into(), format!("Poisson({l})"), Box::new(Poisson::new(l)), Box::new(move |x| if x < 0.0 { 0.0 } else { 1.0 - gammp(x.floor() + 1.0, l) }), Box::new(|x| x >= 0.0 && x.fract() == 0.0), true) }
        3 => { let w = if r.chance(0.3) { 40_000 } else { 1 }; let a = (w * r.i(-15, 15)) as f64; let b = a + if r.chance(0.2) { 0.0 } else { (w as usize * r.us(1, 25)) as f64 };
            ("uniform_discrete".into(), format!("Uniform({a},{b},Discrete)"), Box::new(Uniform::new(a, b, DistributionClass::Discrete)), Box::new(move |x| ((x.floor() - a + 1.0) / (b - a + 1.0)).clamp(0.0, 1.0)), Box::new(move |x| x >= a && x <= b && x.fract() == 0.0), true) }
        4 => { let a = r.range(-50.0, 50.0); let b = a + r.logr(1e-2, 100.0);
            ("uniform".into(), format!("Uniform({a},{b},Continuous)"), Box::new(Uniform::new(a, b, DistributionClass::Continuous)), Box::new(move |x| ((x - a) / (b - a)).clamp(0.0, 1.0)), Box::new(move |x| x >= a && x <= b), false) }
        5 => { let (m, v) = (r.range(-20.0, 20.0) * if r.chance(0.3) { 1e4 } else { 1.0 }, r.logr(1e-4, 1e9)); let s = v.sqrt();
            ("gaussian".into(), format!("Gaussian({m},{v})"), Box::new(Gaussian::new(m, v)), Box::new(move |x| ncdf((x - m) / s)), Box::new(|x| x.is_finite()), false) }
        6 => { let l = r.logr(1e-9, 1e9);
            ("exponential".into(), format!("Exponential({l})"), Box::new(Exponential::new(l)), Box::new(move |x| if x <= 0.0 { 0.0 } else { -(-l * x).exp_m1() }), Box::new(|x| x >= 0.0 && x.is_finite()), false) }
        7 => { let (a, b) = (if r.chance(0.3) { r.logr(200.0, 3e4) } else { r.logr(0.015, 200.0) }, r.logr(1e-5, 1e5));
            ("gamma".into(), format!("Gamma({a},{b})"), Box::new(Gamma::new(a, b)), Box::new(move |x| if x <= 0.0 { 0.0 } else { gammp(a, b * x) }), Box::new(|x| x >= 0.0 && x.is_finite()), false) }
        _ => { let k = match r.below(3) { 0 => 1, 1 => r.us(2, 10), _ => match r.below(3) { 0 => r.us(11, 300), 1 => r.us(300, 30_000), _ => r.us(30_000, 200_000) } };
            ("chi_squared".into(), format!("ChiSquared({k})"), Box::new(ChiSquared::new(k)), Box::new(move |x| if x <= 0.0 { 0.0 } else { gammp(k as f64 / 2.0, x / 2.0) }), Box::new(|x| x >= 0.0 && x.is_finite()), false) }
    }
}

fn main() {
    let mut c = Ctx::new("C10", "random parameters for nine laws; one large call and many calls of 1-7 draws per law, and draws made concurrently on several threads. Each recorded sample is compared with an independent distribution function. Non-trivial: a law with more than one atom.");
    c.assume("samples are drawn from the library's unseeded generator; every threshold has false-alarm probability below 1e-13 (Dvoretzky-Kiefer-Wolfowitz and Hoeffding bounds), so deviations of the distribution function below about 0.01 are not seen");
    let big = if c.thorough() { 1_000_000 } else { 150_000 };
    let reps = if c.thorough() { 30 } else { 15 };
    let mut smallest = f64::MAX;
    for _ in 0..reps { for kind in 0..9u64 { for mode in 0..3 {
        let mut r = c.fork();
        let (name, hist, d, cdf, sup, disc) = law(&mut r, kind);
        // how the sample is drawn
        let mut xs: Vec<f64> = vec![];
        let how = ["one call", "small calls", "mixed sizes"][mode];
        let Some(()) = c.guard(&format!("{name}:sample"), || format!("{hist} {how}"), || {
            match mode {
                0 => xs = d.sample(big).unwrap_or_default(),
                1 => while xs.len() < big / 5 { let n = r.us(1, 7); let v = d.sample(n).unwrap_or_default(); if v.len() != n { xs.clear(); break } xs.extend(v) },
                _ => while xs.len() < big { let n = r.us(20, 3000); let v = d.sample(n).unwrap_or_default(); if v.len() != n { xs.clear(); break } xs.extend(v) },
            }
        }) else { continue };
        if !c.check(if mode == 0 { xs.len() == big } else { !xs.is_empty() }, &format!("{name}:length"), || format!("{hist} {how}: wrong number of draws")) { continue }
        if let Some(x) = xs.iter().find(|x| !sup(**x)) { let x = *x; c.violate(&format!("{name}:support"), || format!("{hist} {how}: drew {x}")); }
        let n = xs.len() as f64;
        c.count("draws", xs.len() as u64);
        let mut s = xs.clone();
        s.sort_by(|a, b| a.total_cmp(b));
        let mut dev = 0.0f64; let mut at = 0.0;
        let mut ii = 0;
        let mut atoms = 0;
        while ii < s.len() {
            let mut j = ii; while j + 1 < s.len() && s[j + 1] == s[ii] { j += 1 }
            atoms += 1;
            let f = cdf(s[ii]);
            let left = if disc { cdf(s[ii] - 0.5) } else { f };
            let e = ((j + 1) as f64 / n - f).abs().max((ii as f64 / n - left).abs());
            if e > dev { dev = e; at = s[ii] }
            ii = j + 1;
        }
        let thr = ((2.0f64 / 1e-13).ln() / (2.0 * n)).sqrt();
        smallest = smallest.min(thr);
        c.check(dev <= thr, &format!("{name}:law"), || format!("{hist} {how}: n={n} max deviation {dev:.5} at {at} allowed {thr:.5}"));
        if !disc {
            // a continuous law draws distinct values (rounding aside)
            c.check(atoms as f64 > 0.9 * n, &format!("{name}:atoms"), || format!("{hist} {how}: {atoms} distinct values in {n} draws"));
            // successive draws are uncorrelated: products of centred transforms, bounded by 1/4
            for lag in [1usize, 2] {
                let mut sum = 0.0; let mut m = 0.0f64;
                let mut k = 0;
                while k + lag < xs.len() { sum += (cdf(xs[k]) - 0.5) * (cdf(xs[k + lag]) - 0.5); m += 1.0; k += 2 * lag; }
                let t = 0.5 * ((2.0f64 / 1e-13).ln() / (2.0 * m)).sqrt();
                c.check((sum / m).abs() <= t, &format!("{name}:serial"), || format!("{hist} {how}: lag {lag} mean product {} allowed {t}", sum / m));
            }
        }
        if atoms > 1 { c.case(&name, &format!("{hist} {how}")) } else { c.trivial("degenerate") }
        // concurrent draws never repeat one another's stream
        if mode == 0 && !disc {
            let (p, kk) = (r.clone(), kind);
            let hs: Vec<_> = (0..4).map(|_| { let mut q = p.clone(); std::thread::spawn(move || { let l = law(&mut q, kk); l.2.sample(64).unwrap_or_default() }) }).collect();
            let vs: Vec<Vec<f64>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
            for a in 0..4 { for b in 0..a { c.check(vs[a].len() == 64 && vs[a] != vs[b], &format!("{name}:threads"), || format!("{hist}: two threads drew the same sample")); } }
        }
    } } }
    c.assume(&format!("smallest deviation threshold used: {smallest:.5}"));
    c.finish()
}
