//! C27: simulated paths replayed against the scheme's recursion and the process's published coefficients.
use rqmon::*;
use RustQuant_stochastics::*;

type Fun = Box<dyn Fn(f64) -> f64 + Send + Sync>;
/// A parameter of the process as the monitor sees it, and a copy handed to the library.
struct Par { f: Fun, lib: Option<ModelParameter>, text: String }
fn par(g: &mut Rng, lo: f64, hi: f64) -> Par {
    let a = g.range(lo, hi);
    if g.chance(0.5) {
        Par { f: Box::new(move |_| a), lib: Some(ModelParameter::from(a)), text: format!("{a}") }
    } else {
        let (b, w) = (0.4 * (a - lo).min(hi - a) * g.range(-1.0, 1.0), g.range(0.3, 4.0));
        let f = move |t: f64| a + b * (w * t).sin();
        Par { f: Box::new(f), lib: Some(ModelParameter::from(f)), text: format!("{a}+{b}sin({w}t)") }
    }
}
impl Par { fn give(&mut self) -> ModelParameter { self.lib.take().unwrap() } fn at(&self, t: f64) -> f64 { (self.f)(t) } }

/// A process whose coefficients are known only to the monitor.
struct Probe { k: [f64; 4] }
impl StochasticProcess for Probe {
    fn drift(&self, x: f64, t: f64) -> f64 { self.k[0] + self.k[1] * x + 0.3 * t }
    fn diffusion(&self, x: f64, t: f64) -> f64 { self.k[2] + self.k[3] * (x + t).sin() }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> { Some(1e6) }
}
struct Stoch { k: [f64; 4] }
impl StochasticVolatilityProcess for Stoch {
    fn drift_1(&self, x: f64, t: f64) -> f64 { self.k[0] * x + t }
    fn drift_2(&self, y: f64, _t: f64) -> f64 { self.k[1] * y }
    fn diffusion_1(&self, x: f64, t: f64) -> f64 { self.k[2] * (1.0 + x * x).sqrt() + 0.1 * t }
    fn diffusion_2(&self, _y: f64, _t: f64) -> f64 { self.k[3] }
}

fn ks(z: &mut [f64]) -> f64 {
    z.sort_by(|a, b| a.total_cmp(b));
    let n = z.len() as f64;
    z.iter().enumerate().map(|(i, x)| { let f = num::ncdf(*x); (f - i as f64 / n).abs().max((f - (i + 1) as f64 / n).abs()) }).fold(0.0, f64::max) * n.sqrt()
}
/// Standard normal, independent along and across the rows: threshold in standard deviations.
fn noise(c: &mut Ctx, sig: &str, z: &[Vec<f64>], lim: f64, h: &dyn Fn() -> String) {
    let all: Vec<f64> = z.iter().flatten().copied().collect();
    let n = all.len() as f64;
    if n < 50.0 { return }
    let mean = all.iter().sum::<f64>() / n;
    let var = all.iter().map(|x| x * x).sum::<f64>() / n;
    c.check(mean.abs() * n.sqrt() < lim, &format!("{sig}:mean"), || format!("{} mean {mean} of {n}", h()));
    c.check((var - 1.0).abs() * (n / 2.0).sqrt() < lim * (1.0 + 6.0 / n.sqrt()), &format!("{sig}:variance"), || format!("{} second moment {var} of {n}", h()));
    let lag: f64 = z.iter().map(|r| r.windows(2).map(|w| w[0] * w[1]).sum::<f64>()).sum();
    let nl = z.iter().map(|r| r.len().saturating_sub(1)).sum::<usize>() as f64;
    if nl > 50.0 { c.check(lag.abs() / nl.sqrt() < lim, &format!("{sig}:serial correlation"), || format!("{} {}", h(), lag / nl)); }
    let cross: f64 = z.windows(2).map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| a * b).sum::<f64>()).sum();
    let nc = z.windows(2).map(|w| w[0].len().min(w[1].len())).sum::<usize>() as f64;
    if nc > 50.0 { c.check(cross.abs() / nc.sqrt() < lim, &format!("{sig}:paths correlated"), || format!("{} {}", h(), cross / nc)); }
    let mut s = all;
    let d = ks(&mut s);
    c.check(d < 0.45 * lim + 0.4, &format!("{sig}:not normal"), || format!("{} scaled distance {d}", h()));
}

fn main() {
    let mut c = Ctx::new("C27", "every process of the library and two processes only the monitor knows, constant and time-dependent parameters, the three schemes, starts before, at and after time zero, 1 to 6000 steps, 1 to 2500 paths, sequential and parallel, seeded; each step replayed from increments recovered from Brownian motion under the same seed, increments tested for normality and independence; jump counts and sizes; unseeded and stochastic-volatility runs judged by their recovered increments. Non-trivial: at least two paths of at least five steps.");
    let scheme = |k: usize| [StochasticScheme::EulerMaruyama, StochasticScheme::Milstein, StochasticScheme::StrangSplitting][k];
    let sname = ["euler", "milstein", "strang"];
    let grid = |c: &mut Ctx, tr: &Trajectories, x0: f64, t0: f64, t1: f64, n: usize, m: usize, h: &dyn Fn() -> String| {
        let dt = (t1 - t0) / n as f64;
        let scale = t0.abs().max(t1.abs()).max(1e-300);
        c.check(tr.times.len() == n + 1, "grid:points", || format!("{} {}", h(), tr.times.len()));
        c.check(tr.times.iter().enumerate().all(|(i, t)| (t - (t0 + dt * i as f64)).abs() <= 1e-13 * scale), "grid:times", || format!("{} {:?}", h(), &tr.times[..tr.times.len().min(6)]));
        c.check(tr.times.last().is_some_and(|t| (t - t1).abs() <= 1e-12 * scale), "grid:end", || format!("{} {:?}", h(), tr.times.last()));
        c.check(tr.paths.len() == m, "paths:number", || format!("{} {}", h(), tr.paths.len()));
        c.check(tr.paths.iter().all(|p| p.len() == n + 1), "paths:length", h);
        c.check(tr.paths.iter().all(|p| p[0] == x0), "paths:start", h);
        tr.times.len() == n + 1 && tr.paths.len() == m && tr.paths.iter().all(|p| p.len() == n + 1)
    };
    for round in 0..c.n(8000) {
        let mut g = c.fork();
        let kind = round % 13;
        let sc = (round / 13 % 3) as usize;
        let n = match g.below(4) { 0 => g.us(1, 5), 1 => g.us(100, 400), _ => g.size(5, 60, 6000) };
        let m = if g.chance(0.1) { 1 } else { g.size(2, 24, if n > 60 { 24 } else { 2500 }) };
        let t0 = match g.below(6) { 0 | 1 => 0.0, 2 => g.range(0.0, 3.0), 3 => g.range(0.0, 100.0), _ => g.range(-2.0, 5.0) };
        let far = if g.chance(0.15) { 60.0 } else { 4.0 };
        let t1 = t0 + g.logr(0.02, far);
        let seed = if g.chance(0.1) { u64::MAX - g.below(5) } else { g.u64() };
        let parallel = g.chance(0.3);
        let cfg = |x0: f64| StochasticProcessConfig::new(x0, t0, t1, n, scheme(sc), m, parallel, Some(seed));
        let dt = (t1 - t0) / n as f64;
        let h0 = format!("scheme={} t0={t0} t1={t1} steps={n} paths={m} parallel={parallel} seed={seed}", sname[sc]);
        // the Brownian increments of this seed
        let Some(bm) = c.guard("brownian motion", || h0.clone(), || BrownianMotion::new().generate(&cfg(0.0))) else { continue };
        if !grid(&mut c, &bm, 0.0, t0, t1, n, m, &|| format!("brownian motion {h0}")) { continue }
        let dw: Vec<Vec<f64>> = bm.paths.iter().map(|p| p.windows(2).map(|w| w[1] - w[0]).collect()).collect();
        let z: Vec<Vec<f64>> = dw.iter().map(|r| r.iter().map(|x| x / dt.sqrt()).collect()).collect();
        noise(&mut c, &format!("increments:{}", sname[sc]), &z, 5.0, &|| h0.clone());
        let mut p: Vec<Par> = vec![];
        let mut x0 = 0.0;
        type C2 = Box<dyn Fn(f64, f64) -> f64>;
        macro_rules! mk { ($g:ident; $($lo:expr, $hi:expr);+) => { $( p.push(par(&mut $g, $lo, $hi)); )+ } }
        // process, name, drift and diffusion written from the model's definition
        let (tr, name, a, b): (Option<Trajectories>, &str, C2, C2) = {
            macro_rules! run { ($name:expr, $proc:expr, $a:expr, $b:expr) => {{
                let proc_ = $proc;
                // coefficients, point by point
                for v in 0..6 {
                    let far = v >= 4;
                    let t = if far { g.range(-10.0, 120.0) } else { g.range(t0, t1) };
                    let x = match kind {
                        1 | 3 | 8 | 9 | 10 if far => x0 * g.logr(1e-4, 1e4),
                        1 | 3 | 8 | 9 | 10 => x0 * g.range(0.3, 2.5),
                        _ if far => g.range(-1e3, 1e3),
                        _ => x0 + g.normal(),
                    };
                    let t = if g.chance(0.1) { *g.pick(&[5.5e-17, -1e-12, 1e-9, 0.0]) } else { t };
                    let (da, db) = (proc_.drift(x, t), proc_.diffusion(x, t));
                    let (wa, wb) = ($a(&p, x, t), $b(&p, x, t));
                    c.close(da, wa, if $name == "black-derman-toy" { 3e-7 + 2e-10 * t * t } else { 1e-9 } * (1.0 + x.abs()), 1e-7, &format!("{}:drift", $name), || format!("x={x} t={t} {:?}", p.iter().map(|q| q.text.clone()).collect::<Vec<_>>()));
                    c.close(db, wb, 1e-12 * (1.0 + x.abs()), 1e-12, &format!("{}:diffusion", $name), || format!("x={x} t={t} {:?}", p.iter().map(|q| q.text.clone()).collect::<Vec<_>>()));
                }
                if $name != "probe" { c.check(p.is_empty() || proc_.parameters().iter().take(p.len()).zip(&p).all(|(u, v)| (u - v.at(0.0)).abs() < 1e-14 * (1.0 + u.abs())), &format!("{}:parameters", $name), || format!("{:?}", proc_.parameters())); }
                let tr = c.guard($name, || format!("{} {h0}", $name), || proc_.generate(&cfg(x0)));
                let q: Vec<Fun> = p.drain(..).map(|q| q.f).collect();
                let q = std::sync::Arc::new(q.into_iter().map(|f| Par { f, lib: None, text: String::new() }).collect::<Vec<_>>());
                let q2 = q.clone();
                (tr, $name, Box::new(move |x: f64, t: f64| $a(&q, x, t)) as C2, Box::new(move |x: f64, t: f64| $b(&q2, x, t)) as C2)
            }} }
            type P<'a> = &'a [Par];
            match kind {
                0 => { mk!(g; -1.0, 1.0; 0.05, 1.5); x0 = g.normal(); let v = ArithmeticBrownianMotion::new(p[0].lib.take().unwrap().0, p[1].lib.take().unwrap().0); run!("arithmetic brownian motion", v, |p: P, _x: f64, t: f64| p[0].at(t), |p: P, _x: f64, t: f64| p[1].at(t)) }
                1 => { mk!(g; -0.2, 0.3; 0.05, 0.6); x0 = g.logr(0.5, 200.0); let v = GeometricBrownianMotion::new(p[0].give(), p[1].give()); run!("geometric brownian motion", v, |p: P, x: f64, t: f64| p[0].at(t) * x, |p: P, x: f64, t: f64| p[1].at(t) * x) }
                2 => { mk!(g; -1.0, 2.0; 0.05, 1.0; 0.05, 3.0); x0 = g.normal(); let v = OrnsteinUhlenbeck::new(p[0].give(), p[1].give(), p[2].give()); run!("ornstein-uhlenbeck", v, |p: P, x: f64, t: f64| p[2].at(t) * (p[0].at(t) - x), |p: P, _x: f64, t: f64| p[1].at(t)) }
                3 => { mk!(g; 0.5, 3.0; 0.02, 0.25; 0.2, 2.0); x0 = g.range(0.5, 3.0); let v = CoxIngersollRoss::new(p[0].give(), p[1].give(), p[2].give()); run!("cox-ingersoll-ross", v, |p: P, x: f64, t: f64| p[2].at(t) * (p[0].at(t) - x), |p: P, x: f64, t: f64| p[1].at(t) * x.sqrt()) }
                4 => { mk!(g; 0.05, 2.0; 0.02, 0.5; -0.5, 1.0); x0 = g.normal(); let v = ExtendedVasicek::new(p[0].give(), p[1].give(), p[2].give()); run!("extended vasicek", v, |p: P, x: f64, t: f64| p[2].at(t) - p[0].at(t) * x, |p: P, _x: f64, t: f64| p[1].at(t)) }
                5 => { mk!(g; 0.05, 2.0; 0.02, 0.5; -0.5, 1.0); x0 = g.normal(); let v = HullWhite::new(p[0].give(), p[1].give(), p[2].give()); run!("hull-white", v, |p: P, x: f64, t: f64| p[2].at(t) - p[0].at(t) * x, |p: P, _x: f64, t: f64| p[1].at(t)) }
                6 => { mk!(g; 0.02, 0.5; 0.0, 1.0); x0 = g.normal(); let v = HoLee::new(p[0].give(), p[1].give()); run!("ho-lee", v, |p: P, _x: f64, t: f64| p[1].at(t), |p: P, _x: f64, t: f64| p[0].at(t)) }
                7 => { mk!(g; 0.05, 0.5; -0.5, 1.0); x0 = g.normal(); let v = BlackDermanToy::new(p[0].give(), p[1].give()); run!("black-derman-toy", v, |p: P, x: f64, t: f64| p[1].at(t) + (p[0].at(t + 1e-4) - p[0].at(t - 1e-4)) / 2e-4 / p[0].at(t) * x, |p: P, _x: f64, t: f64| p[0].at(t)) }
                8 => { mk!(g; -0.2, 0.3; 0.02, 0.2; 0.05, 0.95); x0 = g.range(2.0, 20.0); let v = ConstantElasticityOfVariance::new(p[0].give(), p[1].give(), p[2].give()); run!("constant elasticity of variance", v, |p: P, x: f64, t: f64| p[0].at(t) * x, |p: P, x: f64, t: f64| p[1].at(t) * x.powf(p[2].at(t))) }
                9 => { mk!(g; -0.2, 0.3; 0.05, 0.3); x0 = g.logr(0.5, 50.0); let end = x0 * g.range(0.7, 1.4); let te = t1 + g.range(0.05, 1.0); let v = GeometricBrownianBridge::new(p[0].give(), p[1].give(), end, te); run!("geometric brownian bridge", v, move |p: P, x: f64, t: f64| p[0].at(t) * x + (end / x).ln() / (te - t) * x, |p: P, x: f64, t: f64| p[1].at(t) * x) }
                10 => { mk!(g; -0.2, 0.3; 0.05, 0.6); x0 = g.logr(0.5, 200.0); let v = MertonJumpDiffusion::new(p[0].give(), p[1].give(), 0.0, 0.3, 0.4); run!("merton without jumps", v, |p: P, x: f64, t: f64| p[0].at(t) * x, |p: P, x: f64, t: f64| p[1].at(t) * x) }
                11 => { x0 = g.normal(); let v = BrownianMotion::default(); run!("brownian motion", v, |_: P, _x: f64, _t: f64| 0.0, |_: P, _x: f64, _t: f64| 1.0) }
                _ => { x0 = g.normal(); let k = [g.normal() * 0.3, g.normal() * 0.5, g.range(0.3, 1.0), g.range(-0.25, 0.25)]; let v = Probe { k }; run!("probe", v, move |_: P, x: f64, t: f64| k[0] + k[1] * x + 0.3 * t, move |_: P, x: f64, t: f64| k[2] + k[3] * (x + t).sin()) }
            }
        };
        let Some(tr) = tr else { continue };
        let h = || format!("{name} x0={x0} {h0}");
        if !grid(&mut c, &tr, x0, t0, t1, n, m, &|| h()) { continue }
        // merton draws its jump counts from the same stream; its increments are recovered instead
        let replay = kind != 10;
        let mut zz: Vec<Vec<f64>> = vec![];
        let mut worst = (0.0f64, [0.0f64; 2], String::new());
        for (i, path) in tr.paths.iter().enumerate() {
            let mut row = vec![];
            for k in 0..n {
                let (x, t) = (path[k], t0 + dt * k as f64);
                if !x.is_finite() || !path[k + 1].is_finite() { break }
                let (ax, bx) = (a(x, t), b(x, t));
                if sc == 0 && bx != 0.0 { row.push((path[k + 1] - x - ax * dt) / (bx * dt.sqrt())); }
                if !replay { continue }
                let w = dw[i][k];
                let want: [f64; 2] = match sc {
                    0 => [x + ax * dt + bx * w; 2],
                    1 => { let e = 1e-5; let d = (b(x + e, t) - b(x - e, t)) / (2.0 * e); [x + ax * dt + bx * w + 0.5 * bx * d * (w * w - dt); 2] }
                    _ => {
                        let mid = x + 0.5 * ax * dt;
                        let bm_ = b(mid, t + 0.5 * dt);
                        let two = mid + bm_ * w;
                        [two + 0.5 * ax * dt, two + 0.5 * a(two, t + dt) * dt]
                    }
                };
                let tol = 1e-9 * (1.0 + x.abs() + path[k + 1].abs()) + if kind == 7 { (1e-6 + 2e-10 * t * t) * dt * (1.0 + x.abs()) } else { 0.0 } + if sc == 1 { 1e-6 * (w * w + dt) * (1.0 + bx.abs()) } else { 0.0 };
                for v in 0..2 { worst.1[v] = worst.1[v].max(((path[k + 1] - want[v]) / tol).abs()); }
                if worst.1[0] > 1.0 && worst.2.is_empty() { worst.2 = format!("path {i} step {k}: from {x} at {t} with increment {w} got {} want {}", path[k + 1], want[0]); }
            }
            zz.push(row);
        }
        worst.0 = worst.1[0].min(worst.1[1]);
        c.check(worst.0 <= 1.0, &format!("{}:{name}", sname[sc]), || format!("{} {}", h(), worst.2));
        if sc == 0 && !(kind == 3 || kind == 8) { noise(&mut c, &format!("recovered increments:{name}"), &zz, 5.0, &h); }
        if m >= 2 && n >= 5 { c.case(name, &h()) } else { c.trivial("short") }
    }
    // jumps: sizes and counts recovered from a motion without diffusion
    for round in 0..c.n(300) {
        let mut g = c.fork();
        let sc = (round % 3) as usize;
        let n = g.us(20, 120);
        let m = g.us(20, 60);
        let t0 = if g.chance(0.3) { g.range(-3.0, 60.0) } else { g.range(0.0, 1.0) };
        let t1 = t0 + g.range(0.5, 3.0);
        let dt = (t1 - t0) / n as f64;
        let per = if g.chance(0.15) { g.logr(3.0, 100.0) } else { g.logr(0.02, 3.0) };
        let lam = per / dt;
        let vary = g.bool();
        let (w, amp) = (g.range(0.5, 3.0), 0.9 * lam);
        let rate = move |t: f64| if vary { lam + amp * (w * t).cos() } else { lam };
        let mean = g.pick(&[0.7, -1.3, 2.0]) * 1.0;
        let tiny = g.bool();
        let var = if tiny { 1e-8 } else { g.range(0.05, 1.0) };
        let seed = g.u64();
        let x0 = g.range(50.0, 100.0);
        let mu = g.range(-0.01, 0.01);
        let p = MertonJumpDiffusion::new(mu, 0.0, rate, mean, var);
        let h = || format!("merton mu={mu} lambda={lam}{} jump mean={mean} variance={var} scheme={} t0={t0} t1={t1} steps={n} paths={m} seed={seed}", if vary { format!("+{amp}cos({w}t)") } else { String::new() }, sname[sc]);
        let cfg = StochasticProcessConfig::new(x0, t0, t1, n, scheme(sc), m, round % 4 == 1, Some(seed));
        let Some(tr) = c.guard("merton", h, || p.generate(&cfg)) else { continue };
        if !grid(&mut c, &tr, x0, t0, t1, n, m, &|| h()) { continue }
        let (mut sum, mut esum, mut vsum, mut zero, mut ezero, mut vzero, mut sq, mut esq, mut vsq) = (0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
        let mut shared = 0.0; let (mut eshared, mut vshared) = (0.0, 0.0);
        for k in 0..n {
            let lt = rate(t0 + dt * k as f64) * dt;
            let p0 = (-lt).exp();
            let j: Vec<f64> = tr.paths.iter().map(|q| q[k + 1] - q[k] - mu * q[k] * dt).collect();
            for (i, &x) in j.iter().enumerate() {
                let quiet = x.abs() < 1e-6;
                zero += quiet as u8 as f64; ezero += p0; vzero += p0 * (1.0 - p0);
                sum += x; esum += lt * mean; vsum += lt * (mean * mean + var);
                let ex2 = lt * (mean * mean + var) + lt * lt * mean * mean;
                sq += x * x; esq += ex2;
                // fourth moment of a compound Poisson sum, bounded generously
                let k2 = lt * (mean * mean + var); let k4 = lt * (mean.powi(4) + 6.0 * mean * mean * var + 3.0 * var * var); let k3 = lt * (mean.powi(3) + 3.0 * mean * var); let k1 = lt * mean;
                vsq += k4 + 3.0 * k2 * k2 + 4.0 * k3 * k1 + 6.0 * k2 * k1 * k1 + k1.powi(4) - ex2 * ex2;
                if tiny { let c_ = x / mean; c.check((c_ - c_.round()).abs() < 1e-2 && c_ > -0.5, "jumps:size", || format!("{} jump {x}", h())); }
                if i > 0 { let both = quiet && j[i - 1].abs() < 1e-6; shared += both as u8 as f64; eshared += p0 * p0; vshared += p0 * p0 * (1.0 - p0 * p0) + 2.0 * (p0.powi(3) - p0.powi(4)); }
            }
        }
        for (name, got, want, v) in [("frequency", zero, ezero, vzero), ("sum", sum, esum, vsum), ("second moment", sq, esq, vsq), ("independence across paths", shared, eshared, vshared)] {
            c.check((got - want).abs() <= 5.5 * f64::sqrt(v) + 1e-6 * want.abs() + 2.0, &format!("jumps:{name}"), || format!("{} got {got} expected {want} standard deviation {}", h(), f64::sqrt(v)));
        }
        c.case("jumps", &h());
    }
    // jumps on top of diffusion: mean of the sum
    for _ in 0..c.n(12) {
        let mut g = c.fork();
        let (n, m) = (g.us(20, 60), 400);
        let (lam, mean, var, sigma, mu) = (g.range(0.5, 6.0), g.range(-3.0, 3.0), g.range(0.1, 2.0), g.range(0.02, 0.1), g.range(-0.1, 0.1));
        let t1 = g.range(0.5, 2.0);
        let dt = t1 / n as f64;
        let seed = g.u64();
        let p = MertonJumpDiffusion::new(mu, sigma, lam, mean, var);
        let h = || format!("merton mu={mu} sigma={sigma} lambda={lam} jump mean={mean} variance={var} t1={t1} steps={n} paths={m} seed={seed}");
        let Some(tr) = c.guard("merton", h, || p.generate(&StochasticProcessConfig::new(100.0, 0.0, t1, n, StochasticScheme::EulerMaruyama, m, false, Some(seed)))) else { continue };
        let (mut s, mut es, mut vs, mut q, mut eq) = (0.0, 0.0, 0.0, 0.0, 0.0);
        for path in &tr.paths { for k in 0..n { let x = path[k]; let e = path[k + 1] - x - mu * x * dt; s += e; es += lam * dt * mean; let v = lam * dt * (mean * mean + var) + sigma * sigma * x * x * dt; vs += v; q += (e - lam * dt * mean).powi(2); eq += v; } }
        c.check((s - es).abs() <= 5.5 * f64::sqrt(vs), "jump diffusion:mean", || format!("{} {s} expected {es} standard deviation {}", h(), f64::sqrt(vs)));
        c.close(q, eq, 0.0, 0.15, "jump diffusion:variance", h);
        c.case("jump diffusion", &h());
    }
    // unseeded runs and the two-factor trait
    for round in 0..c.n(120) {
        let mut g = c.fork();
        let n = g.us(5, 100); let m = g.us(2, 40);
        let (t0, x0, y0) = (g.range(-1.0, 1.0), g.normal(), g.normal());
        let t1 = t0 + g.logr(0.1, 3.0);
        let dt = (t1 - t0) / n as f64;
        let parallel = g.bool();
        let k = [g.normal() * 0.3, g.normal(), if round % 4 == 0 { 0.0 } else { g.range(0.3, 1.0) }, g.range(0.1, 1.0)];
        let s = Stoch { k };
        let h = || format!("two-factor {k:?} x0={x0} y0={y0} t0={t0} t1={t1} steps={n} paths={m} parallel={parallel}");
        let Some(tr) = c.guard("two-factor", h, || s.euler_maruyama(x0, y0, t0, t1, n, m, parallel)) else { continue };
        if !grid(&mut c, &tr, x0, t0, t1, n, m, &|| h()) { continue }
        let z: Vec<Vec<f64>> = tr.paths.iter().map(|p| (0..n).map(|i| (p[i + 1] - p[i] - s.drift_1(p[i], tr.times[i]) * dt) / (s.diffusion_1(p[i], tr.times[i]) * dt.sqrt())).collect()).collect();
        if k[2] != 0.0 { noise(&mut c, "two-factor increments", &z, 7.0, &h); }
        let pr = Probe { k: [0.1, 0.2, 0.7, 0.1] };
        let Some(tr) = c.guard("unseeded", h, || pr.generate(&StochasticProcessConfig::new(x0, t0, t1, n, StochasticScheme::EulerMaruyama, m, parallel, None))) else { continue };
        let z: Vec<Vec<f64>> = tr.paths.iter().map(|p| (0..n).map(|i| (p[i + 1] - p[i] - pr.drift(p[i], tr.times[i]) * dt) / (pr.diffusion(p[i], tr.times[i]) * dt.sqrt())).collect()).collect();
        noise(&mut c, "unseeded increments", &z, 7.0, &h);
        c.case("unseeded", &h());
    }
    // refused intervals
    for (a, b) in [(1.0, 1.0), (1.0, 0.5), (0.0, -1.0)] {
        for k in 0..3 {
            let r = c.call("generate", || BrownianMotion::new().generate(&StochasticProcessConfig::new(0.0, a, b, 5, scheme(k), 2, false, Some(1))).paths.len());
            c.check(r.is_err(), "interval:accepts reversed", || format!("{a} {b}"));
            c.case("refused", &format!("{a}{b}{k}"));
        }
    }
    c.finish()
}
