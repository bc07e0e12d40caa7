//! C29: fractional noise whitened by the covariance of fractional Brownian increments, and fractional processes replayed from it.
use rqmon::*;
use RustQuant_stochastics::*;

fn acf(h: f64, k: usize) -> f64 {
    if k == 0 { return 1.0 }
    let k = k as f64;
    if k > 60.0 {
        // far lags by series: the direct difference cancels
        let (p, mut term, mut s) = (2.0 * h, 1.0, 0.0);
        for j in 1..=12u32 { term *= (p - f64::from(2 * j - 2)) * (p - f64::from(2 * j - 1)) / f64::from((2 * j - 1) * (2 * j)) / (k * k); s += term; }
        return s * k.powf(p)
    }
    0.5 * ((k + 1.0).powf(2.0 * h) - 2.0 * k.powf(2.0 * h) + (k - 1.0).powf(2.0 * h))
}
/// Innovations of a stationary Gaussian sequence by the Durbin-Levinson recursion, standardised.
struct White { phi: Vec<Vec<f64>>, sd: Vec<f64> }
impl White {
    fn new(h: f64, n: usize) -> White {
        let r: Vec<f64> = (0..n).map(|k| acf(h, k)).collect();
        let (mut phi, mut sd) = (vec![vec![]], vec![1.0]);
        let mut v = 1.0;
        for i in 1..n {
            let p: &Vec<f64> = &phi[i - 1];
            let k = (r[i] - p.iter().enumerate().map(|(j, a)| a * r[i - 1 - j]).sum::<f64>()) / v;
            let mut q: Vec<f64> = (0..i - 1).map(|j| p[j] - k * p[i - 2 - j]).collect();
            q.push(k);
            v *= 1.0 - k * k;
            phi.push(q);
            sd.push(v.sqrt());
        }
        White { phi, sd }
    }
    fn apply(&self, x: &[f64]) -> Vec<f64> {
        (0..x.len()).map(|i| (x[i] - self.phi[i].iter().enumerate().map(|(j, a)| a * x[i - 1 - j]).sum::<f64>()) / self.sd[i]).collect()
    }
}
fn ks(z: &mut [f64]) -> f64 {
    z.sort_by(|a, b| a.total_cmp(b));
    let n = z.len() as f64;
    z.iter().enumerate().map(|(i, x)| { let f = num::ncdf(*x); (f - i as f64 / n).abs().max((f - (i + 1) as f64 / n).abs()) }).fold(0.0, f64::max) * n.sqrt()
}
/// Rows of whitened noise must be independent standard normal, entry by entry.
fn white(c: &mut Ctx, sig: &str, w: &[Vec<f64>], h: &dyn Fn() -> String) {
    let (m, n) = (w.len() as f64, w[0].len());
    let lim = 6.5 * (1.0 + 4.0 / m.sqrt());
    if w.iter().flatten().any(|x| !x.is_finite()) { c.violate(&format!("{sig}:not finite"), h); return }
    let nn = m * n as f64;
    let tot = |f: &dyn Fn(f64) -> f64| w.iter().flatten().map(|x| f(*x)).sum::<f64>();
    let (mean, var) = (tot(&|x| x) / nn, tot(&|x| x * x) / nn);
    c.check(mean.abs() * nn.sqrt() < 6.5, &format!("{sig}:mean"), || format!("{} mean {mean} of {nn}", h()));
    let l2 = 6.5 * (1.0 + 5.0 / nn.sqrt());
    c.check((var - 1.0).abs() * (nn / 2.0).sqrt() < l2, &format!("{sig}:variance"), || format!("{} standardised second moment {var} of {nn}", h()));
    for k in 1..n.min(40) {
        let s: f64 = w.iter().map(|r| r.windows(k + 1).map(|v| v[0] * v[k]).sum::<f64>()).sum();
        let cnt = m * (n - k) as f64;
        if cnt > 60.0 { c.check(s.abs() / cnt.sqrt() < l2, &format!("{sig}:covariance"), || format!("{} lag {k}: standardised {} over {cnt}", h(), s / cnt.sqrt())); }
    }
    if m > 200.0 {
        for i in 0..n { for j in 0..=i {
            let s: f64 = w.iter().map(|r| r[i] * r[j]).sum::<f64>() / m - f64::from(u8::from(i == j));
            let sd = if i == j { (2.0 / m).sqrt() } else { (1.0 / m).sqrt() };
            c.check(s.abs() / sd < lim, &format!("{sig}:covariance"), || format!("{} entries {i},{j}: {} deviations", h(), s / sd));
        } }
    }
    let cross: f64 = w.windows(2).map(|v| v[0].iter().zip(&v[1]).map(|(a, b)| a * b).sum::<f64>()).sum();
    if nn > 100.0 && m > 1.0 { c.check(cross.abs() / nn.sqrt() < l2, &format!("{sig}:rows correlated"), || format!("{} {}", h(), cross / nn.sqrt())); }
    let mut z: Vec<f64> = w.iter().flatten().copied().collect();
    let d = ks(&mut z);
    c.check(d < 3.4, &format!("{sig}:not normal"), || format!("{} scaled distance {d}", h()));
}

fn main() {
    let mut c = Ctx::new("C29", "Hurst exponents from 0.02 to 0.98 and one half, both generators, lengths 1 to 1500, horizons 0.01 to 50; samples whitened by an independent Durbin-Levinson recursion and tested entry by entry; fractional processes on grids starting before, at and after zero, three schemes, increments recovered and whitened, and the mean-reverting processes replayed from the increments of fractional Brownian motion under the same seed. Non-trivial: length at least two, exponent not one half.");
    let gens = [("cholesky", fgn_cholesky as fn(f64, usize, f64, Option<u64>) -> Vec<f64>), ("fft", fgn_fft)];
    let hurst = |g: &mut Rng| match g.below(6) { 0 => *g.pick(&[0.02, 0.05, 0.95, 0.98]), 1 => 0.5, _ => g.range(0.05, 0.95) };
    // noise
    let mut pool = std::collections::BTreeMap::<String, (f64, f64)>::new();
    for round in 0..c.n(160) {
        let mut g = c.fork();
        let hu = hurst(&mut g);
        let (name, f) = gens[(round % 2) as usize];
        let long = g.chance(0.2);
        let n = if long { g.us(200, if name == "fft" { 1500 } else { 350 }) } else { g.us(1, 24) };
        let m = if long { g.us(2, 8) } else { 1500 };
        let t = g.logr(0.01, 50.0);
        let seeded = g.chance(0.8);
        let h = || format!("{name} noise, exponent {hu}, length {n}, horizon {t}, {m} samples, {}", if seeded { "seeded" } else { "unseeded" });
        let scale = (t / n as f64).powf(hu);
        let wh = White::new(hu, n);
        let mut bad = false;
        let mut w = vec![];
        for _ in 0..m {
            let seed = g.u64();
            let Some(x) = c.guard(&format!("noise:{name}"), || format!("{} seed {seed}", h()), || f(hu, n, t, seeded.then_some(seed))) else { bad = true; break };
            if !c.check(x.len() == n, &format!("noise:{name}:length"), || format!("{} returned {}", h(), x.len())) { bad = true; break }
            w.push(wh.apply(&x.iter().map(|v| v / scale).collect::<Vec<_>>()));
        }
        if bad { continue }
        white(&mut c, &format!("noise:{name}"), &w, &h);
        for x in &w {
            let mut add = |k: &str, v: &[f64]| { let e = pool.entry(format!("{name}:{k}")).or_insert((0.0, 0.0)); e.0 += v.iter().map(|a| a * a - 1.0).sum::<f64>(); e.1 += v.len() as f64; };
            add("first entry", &x[..1]);
            add("last entry", &x[n - 1..]);
            if n > 2 { add("middle entry", &x[n / 2..=n / 2]) }
            add(if n % 2 == 1 { "odd length" } else { "even length" }, x);
            add(if n == 1 { "length one" } else if n < 8 { "short" } else if n < 64 { "medium" } else if n > 900 { "very long" } else { "long" }, x);
            add(if hu <= 0.05 { "rough" } else if hu >= 0.95 { "smooth" } else if hu < 0.5 { "below half" } else if hu == 0.5 { "half" } else { "above half" }, x);
            add(if t < 1.0 { "horizon below one" } else { "horizon above one" }, x);
        }
        if n > 1 && hu != 0.5 { c.case(name, &format!("{hu}{n}{t}")) } else { c.trivial("ordinary noise") }
        if seeded {
            // the horizon only scales the noise
            let seed = g.u64();
            let a = c.guard("noise", h, || f(hu, n, 1.0, Some(seed)));
            let b = c.guard("noise", h, || f(hu, n, t, Some(seed)));
            if let (Some(a), Some(b)) = (a, b) { c.check(a.iter().zip(&b).all(|(a, b)| num::close(*b, a * t.powf(hu), 1e-12, 1e-9)), &format!("noise:{name}:horizon"), h); }
        }
    }
    for (k, (s, n)) in &pool {
        c.check(s.abs() / (2.0 * n).sqrt() < 6.0 * (1.0 + 3.0 / n.sqrt()), &format!("noise:{}:pooled", k.split(':').next().unwrap()), || format!("{k}: variance {} of {n} standardised entries", 1.0 + s / n));
    }
    // processes
    let scheme = |k: u64| [StochasticScheme::EulerMaruyama, StochasticScheme::Milstein, StochasticScheme::StrangSplitting][k as usize];
    for round in 0..c.n(240) {
        let mut g = c.fork();
        let hu = hurst(&mut g);
        let fft = round % 2 == 0;
        let method = || if fft { FractionalProcessGeneratorMethod::FFT } else { FractionalProcessGeneratorMethod::CHOLESKY };
        let sc = g.below(3);
        let n = match g.below(5) { 0 => 1, 1 => g.us(40, 120), _ => g.us(2, 20) };
        let m = g.us(300, 600) / (1 + n / 20);
        let t0 = *g.pick(&[0.0, 0.0, 0.5, -1.0, 3.0]);
        let t1 = t0 + g.logr(0.05, 10.0);
        let seed = g.u64();
        let par = g.bool();
        let (mu, sigma, theta) = (g.range(0.1, 1.5), g.range(0.05, 0.4), g.range(0.1, 2.0));
        let w = g.range(0.5, 2.0);
        let x0 = g.range(0.3, 2.0);
        let dt = (t1 - t0) / n as f64;
        let h = || format!("exponent {hu} by {} scheme {sc} steps={n} paths={m} from {t0} to {t1} x0={x0} seed={seed} parallel={par} mu={mu}+0.1sin({w}t) sigma={sigma}(1+0.2cos({w}t)) theta={theta}", if fft { "fft" } else { "cholesky" });
        let cfg = |x: f64, sc: u64, par: bool, m: usize| StochasticProcessConfig::new(x, t0, t1, n, scheme(sc), m, par, Some(seed));
        let fbm = FractionalBrownianMotion::new(hu, method());
        let Some(base) = c.guard("motion", h, || fbm.generate(&cfg(x0, sc, par, m))) else { continue };
        c.check(base.times.len() == n + 1 && base.times.iter().enumerate().all(|(i, t)| num::close(*t, t0 + dt * i as f64, 1e-12, 1e-12)), "motion:grid", || format!("{} {:?}", h(), &base.times));
        if !c.check(base.paths.len() == m && base.paths.iter().all(|p| p.len() == n + 1 && p[0] == x0), "motion:start", h) { continue }
        let scale = dt.powf(hu);
        let wh = White::new(hu, n);
        let wn: Vec<Vec<f64>> = base.paths.iter().map(|p| wh.apply(&p.windows(2).map(|v| (v[1] - v[0]) / scale).collect::<Vec<_>>())).collect();
        white(&mut c, "motion", &wn, &h);
        // increments under the same seed, started at zero to keep them exact
        let Some(zero) = c.guard("motion", h, || fbm.generate(&cfg(0.0, 0, par, m.min(20)))) else { continue };
        let inc: Vec<Vec<f64>> = zero.paths.iter().map(|p| p.windows(2).map(|v| v[1] - v[0]).collect()).collect();
        let (fm, fs) = (move |t: f64| mu + 0.1 * (w * t).sin(), move |t: f64| sigma * (1.0 + 0.2 * (w * t).cos()));
        let fou = FractionalOrnsteinUhlenbeck::new(fm, fs, theta, hu, method());
        let fcir = FractionalCoxIngersollRoss::new(fm, fs, theta, hu, method());
        for (name, root) in [("ornstein-uhlenbeck", false), ("cox-ingersoll-ross", true)] {
            if root && sc == 1 { continue }
            let k = cfg(x0, sc, par, inc.len());
            let Some(tr) = c.guard(name, h, || if root { fcir.generate(&k) } else { fou.generate(&k) }) else { continue };
            c.check(tr.paths.len() == inc.len() && tr.paths.iter().all(|p| p.len() == n + 1 && p[0] == x0), &format!("{name}:start"), h);
            for (i, p) in tr.paths.iter().enumerate() {
                let mut scale = 1.0 + x0;
                for j in 0..n.min(p.len() - 1) {
                    let (t, x) = (t0 + dt * j as f64, p[j]);
                    scale = f64::max(scale, x.abs());
                    let drift = theta * (fm(t) - x);
                    let (xs, ts) = if sc == 2 { (x + 0.5 * dt * drift, t + 0.5 * dt) } else { (x, t) };
                    if root && xs <= 1e-9 { break }
                    let want = x + drift * dt + fs(ts) * if root { xs.sqrt() } else { 1.0 } * inc[i][j];
                    scale = f64::max(scale, zero.paths[i][j].abs());
                    c.close(p[j + 1], want, 1e-11 * scale, 1e-10, &format!("{name}:step"), || format!("{} path {i} step {j}", h()));
                }
            }
        }
        if n > 1 && hu != 0.5 { c.case("process", &h()) } else { c.trivial("ordinary process") }
    }
    // exponent one: a straight line of random slope
    for round in 0..c.n(60) {
        let mut g = c.fork();
        let hu = if round % 3 == 0 { 1.0 - g.logr(1e-12, 1e-9) } else { 1.0 };
        let n = g.size(1, 300, 3000);
        let t = g.logr(0.01, 50.0);
        let h = || format!("noise of exponent {hu}, length {n}, horizon {t}");
        let (mut ss, m) = (0.0, 40);
        for _ in 0..m {
            let seed = g.u64();
            let Some(v) = c.guard("noise", || format!("{} seed {seed}", h()), || fgn_fft(hu, n, t, Some(seed))) else { continue };
            let scale = t / n as f64;
            c.check(v.len() == n && v.iter().all(|x| (x - v[0]).abs() <= 1e-3 * scale), "straight line", || format!("{} seed {seed}: {:?}", h(), &v[..v.len().min(6)]));
            if let Some(x) = v.first() { ss += (x / scale).powi(2) / m as f64 }
        }
        c.check(ss > 0.15 && ss < 3.0, "straight line:variance", || format!("{}: {ss}", h()));
        c.case("straight line", &h());
    }
    // refused exponents
    for _ in 0..c.n(40) {
        let mut g = c.fork();
        let hu = match g.below(4) { 0 => -g.logr(1e-9, 10.0), 1 => 1.0 + g.logr(1e-9, 10.0), 2 => f64::NAN, _ => f64::INFINITY };
        let a = c.call("new", || FractionalBrownianMotion::new(hu, FractionalProcessGeneratorMethod::FFT).hurst).is_err();
        let b = c.call("new", || FractionalOrnsteinUhlenbeck::new(0.1, 0.1, 0.1, hu, FractionalProcessGeneratorMethod::FFT).hurst).is_err();
        let d = c.call("new", || FractionalCoxIngersollRoss::new(0.1, 0.1, 0.1, hu, FractionalProcessGeneratorMethod::CHOLESKY).hurst).is_err();
        let e = c.call("noise", || fgn_fft(hu, 8, 1.0, Some(1))).is_err();
        c.check(a && b && d && e, "exponent outside the unit interval accepted", || format!("exponent {hu}: motion {a}, ornstein-uhlenbeck {b}, cox-ingersoll-ross {d}, noise {e}"));
        c.trivial("refused exponent");
    }
    c.finish()
}
