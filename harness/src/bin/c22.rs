//! C22: Monte Carlo prices against the discounted mean payoff of exactly the generated paths.
use rqmon::*;
use std::sync::Mutex;
use time::{Date, Month};
use RustQuant_instruments::*;
use RustQuant_stochastics::*;

/// A process whose paths the monitor chose; records the configurations it is asked for.
struct Chosen { paths: Vec<Vec<f64>>, asked: Mutex<Vec<String>> }
fn text(c: &StochasticProcessConfig) -> String {
    let s = match c.scheme { StochasticScheme::EulerMaruyama => 'e', StochasticScheme::Milstein => 'm', StochasticScheme::StrangSplitting => 's' };
    format!("x0={} t0={} tn={} n={} m={} {s} par={} seed={:?}", c.x_0, c.t_0, c.t_n, c.n_steps, c.m_paths, c.parallel, c.seed)
}
impl StochasticProcess for Chosen {
    fn drift(&self, _: f64, _: f64) -> f64 { 0.0 }
    fn diffusion(&self, _: f64, _: f64) -> f64 { 0.0 }
    fn jump(&self, _: f64, _: f64) -> Option<f64> { None }
    fn generate(&self, c: &StochasticProcessConfig) -> Trajectories {
        self.asked.lock().unwrap().push(text(c));
        Trajectories { times: (0..=c.n_steps).map(|i| i as f64).collect(), paths: self.paths.clone() }
    }
}
type Pay = Box<dyn Fn(&[f64]) -> f64>;
fn all<S: StochasticProcess>(g: &Rng, level: f64, pr: &S, cfg: &StochasticProcessConfig, rate: f64) -> Vec<(&'static str, f64, Pay)> {
    let mut g = g.side();
    let day = Date::from_calendar_date(2030, Month::June, 3).unwrap();
    let k = level * g.range(0.7, 1.4);
    let bar = level * g.range(0.5, 1.6);
    let pw = *g.pick(&[0.5, 1.0, 2.0]);
    let (cap, a2) = (level * g.range(0.05, 0.6), level * g.range(1.0, 2.0));
    let t = if g.bool() { TypeFlag::Call } else { TypeFlag::Put };
    let call = matches!(t, TypeFlag::Call);
    let con = |st: Option<StrikeFlag>| OptionContract { type_flag: t, exercise_flag: ExerciseFlag::European { expiry: day }, strike_flag: st, settlement_flag: None };
    let sg = if call { 1.0 } else { -1.0 };
    let end = |p: &[f64]| p[p.len() - 1];
    let mut o: Vec<(&'static str, f64, Pay)> = vec![];
    o.push(("vanilla", EuropeanVanillaOption::new(k, day, t).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (sg * (end(p) - k)).max(0.0))));
    o.push(("asian fixed", AsianOption::new(con(Some(StrikeFlag::Fixed)), AveragingMethod::ArithmeticDiscrete, Some(k)).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (sg * (p.iter().sum::<f64>() / p.len() as f64 - k)).max(0.0))));
    o.push(("asian floating", AsianOption::new(con(Some(StrikeFlag::Floating)), AveragingMethod::GeometricDiscrete, None).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (sg * (end(p) - (p.iter().map(|x| x.ln()).sum::<f64>() / p.len() as f64).exp())).max(0.0))));
    o.push(("binary", BinaryOption { contract: con(None), strike: k, binary_type: BinaryType::CashOrNothing }.price_monte_carlo(pr, cfg, rate), Box::new(move |p| if sg * (end(p) - k) > 0.0 { k } else { 0.0 })));
    o.push(("barrier", BarrierOption { contract: con(None), barrier_type: BarrierType::DownAndIn, barrier: bar, strike: k, rebate: None }.price_monte_carlo(pr, cfg, rate), Box::new(move |p| if p.iter().any(|x| *x <= bar) { (sg * (end(p) - k)).max(0.0) } else { 0.0 })));
    o.push(("power", PowerOption::new(con(None), k.powf(pw), pw).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (sg * (end(p).powf(pw) - k.powf(pw))).max(0.0))));
    o.push(("powered", PoweredOption::new(con(None), k, pw).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (sg * (end(p) - k)).max(0.0).powf(pw))));
    o.push(("capped", CappedPowerOption::new(con(None), k, 1.0, cap).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (sg * (end(p) - k)).max(0.0).min(cap))));
    o.push(("power contract", PowerContract::new(k, pw).price_monte_carlo(pr, cfg, rate), Box::new(move |p| (end(p) / k).powf(pw))));
    o.push(("supershare", SupershareOption { contract: con(None), strike_1: k.min(a2), strike_2: a2 }.price_monte_carlo(pr, cfg, rate), Box::new(move |p| if end(p) >= k.min(a2) && end(p) <= a2 { end(p) / k.min(a2) } else { 0.0 })));
    o.push(("log moneyness", LogMoneynessContract { contract: con(None), strike: k }.price_monte_carlo(pr, cfg, rate), Box::new(move |p| (end(p) / k).ln())));
    o.push(("log underlying", LogUnderlyingContract { contract: con(None), strike: k }.price_monte_carlo(pr, cfg, rate), Box::new(move |p| end(p).ln())));
    o.push(("log option", LogOption { contract: con(None), strike: k }.price_monte_carlo(pr, cfg, rate), Box::new(move |p| (end(p) / k).ln().max(0.0))));
    o
}

fn main() {
    let mut c = Ctx::new("C22", "every contract with a simulation price, on (a) chosen path sets of 1 to 6000 paths with 1 to 3000 steps handed over by a probe process that records the configuration it is asked for, (b) the paths of real processes regenerated under the same seed, serial and parallel, start times other than zero, rates of both signs, and (c) geometric Brownian motion with many paths against the exact expectation of the discretised dynamics within six standard errors. Non-trivial: more than one path with a non-zero payoff.");
    for round in 0..c.n(3000) {
        let mut g = c.fork();
        let level = *g.pick(&[1.0, 100.0, 100.0, 5000.0]);
        let t0 = *g.pick(&[0.0, 0.0, 0.7, -1.0, 3.0]);
        let t1 = t0 + g.logr(0.02, 10.0);
        let rate = *g.pick(&[0.0, 0.05, g.side().range(-0.05, 0.3)]);
        let m = if g.chance(0.1) { 1 } else { g.size(2, if round % 2 == 0 { 400 } else { 60 }, 6000) };
        let n = if m < 100 { g.size(1, 60, 3000) } else { g.us(1, if m > 400 { 8 } else { 60 }) };
        let scheme = match g.below(3) { 0 => StochasticScheme::EulerMaruyama, 1 => StochasticScheme::Milstein, _ => StochasticScheme::StrangSplitting };
        let seed = g.u64() >> 8;
        let chosen = round % 2 == 0;
        let cfg = StochasticProcessConfig::new(level, t0, t1, n, scheme, m, g.bool(), Some(seed));
        let hist = format!("{} rate={rate} level={level}", text(&cfg));
        let (rows, paths) = if chosen {
            let v = g.range(0.01, 0.3);
            let paths: Vec<Vec<f64>> = (0..m).map(|_| { let mut p = vec![level]; for _ in 0..n { let x = *p.last().unwrap(); p.push(x * (v * g.normal()).exp()) } p }).collect();
            let pr = Chosen { paths: paths.clone(), asked: Mutex::new(vec![]) };
            let Some(rows) = c.guard("chosen", || hist.clone(), || all(&g, level, &pr, &cfg, rate)) else { continue };
            let asked = pr.asked.lock().unwrap();
            c.check(asked.iter().all(|a| *a == text(&cfg)), "configuration", || format!("{hist}: process asked for {:?}", asked.iter().find(|a| **a != text(&cfg))));
            (rows, paths)
        } else {
            let (mu, sg) = (g.range(-0.1, 0.2), g.range(0.0, 0.2));
            let small = StochasticProcessConfig::new(level, t0, t0 + (t1 - t0).min(0.5), n, StochasticScheme::EulerMaruyama, m, g.bool(), Some(seed));
            let pr = geometric_brownian_motion::GeometricBrownianMotion::new(mu, sg);
            let Some((rows, p)) = c.guard("seeded", || hist.clone(), || (all(&g, level, &pr, &small, rate), pr.generate(&small).paths)) else { continue };
            let df = (-rate * (small.t_n - small.t_0)).exp();
            judge(&mut c, &rows, &p, df, &hist, "seeded");
            continue;
        };
        let df = (-rate * (t1 - t0)).exp();
        judge(&mut c, &rows, &paths, df, &hist, "chosen");
    }
    // convergence to the expectation under the discretised dynamics
    for _ in 0..c.n(12) {
        let mut g = c.fork();
        let (x0, mu, sg, n, t1, rate) = (100.0, g.range(-0.1, 0.2), g.range(0.05, 0.4), g.us(1, 12), g.range(0.2, 2.0), g.range(0.0, 0.1));
        let m = 60_000;
        let dt = t1 / n as f64;
        let cfg = |s: u64| StochasticProcessConfig::new(x0, 0.0, t1, n, StochasticScheme::EulerMaruyama, m, true, Some(s));
        let pr = geometric_brownian_motion::GeometricBrownianMotion::new(mu, sg);
        let df = (-rate * t1).exp();
        let hist = format!("mu={mu} sigma={sg} n={n} T={t1} rate={rate}");
        let s = g.u64() >> 8;
        // moments of the Euler chain: E = (1 + mu dt)^n, E2 = ((1 + mu dt)^2 + sigma^2 dt)^n, ...
        let mom = |k: i32| -> f64 {
            // E[(a + b Z)^k]
            let (a, b) = (1.0 + mu * dt, sg * dt.sqrt());
            let one = match k { 1 => a, 2 => a * a + b * b, _ => a.powi(4) + 6.0 * a * a * b * b + 3.0 * b.powi(4) };
            one.powi(n as i32)
        };
        for (pw, mean, sq) in [(1.0, mom(1), mom(2)), (2.0, mom(2), mom(4))] {
            if let Some(p) = c.guard("converge", || hist.clone(), || PowerContract::new(x0, pw).price_monte_carlo(&pr, &cfg(s), rate)) {
                let se = ((sq - mean * mean) / m as f64).sqrt();
                c.close(p, df * mean, 6.0 * df * se, 0.0, "converge:moment", || format!("{hist} power {pw}"));
            }
        }
        // a fine grid approaches the closed form of the vanilla option
        let fine = StochasticProcessConfig::new(x0, 0.0, t1, 100, StochasticScheme::EulerMaruyama, 20_000, true, Some(s + 7));
        let k = x0 * g.range(0.8, 1.2);
        for t in [TypeFlag::Call, TypeFlag::Put] {
            let want = jet::gbsm(&[x0, k, t1, rate, rate, sg], matches!(t, TypeFlag::Call));
            let rn = geometric_brownian_motion::GeometricBrownianMotion::new(rate, sg);
            if let Some(p) = c.guard("converge", || hist.clone(), || EuropeanVanillaOption::new(k, RustQuant_time::today(), t).price_monte_carlo(&rn, &fine, rate)) {
                let se = x0 * (rate * t1).exp() * ((sg * sg * t1).exp() - 1.0).sqrt() / (20_000f64).sqrt();
                c.close(p, want, 6.0 * se + 0.01 * x0 * sg * sg * t1, 0.0, "converge:vanilla", || format!("{hist} k={k} {t:?}"));
            }
        }
        c.case("converge", &hist);
    }
    c.finish()
}
fn judge(c: &mut Ctx, rows: &[(&'static str, f64, Pay)], paths: &[Vec<f64>], df: f64, hist: &str, tag: &str) {
    let m = paths.len() as f64;
    let mut any = false;
    for (n, got, f) in rows {
        let pay: Vec<f64> = paths.iter().map(|p| f(p)).collect();
        let want = df * pay.iter().sum::<f64>() / m;
        let size = pay.iter().map(|x| x.abs()).fold(0.0, f64::max) + paths.iter().flatten().fold(0.0, |a: f64, x| a.max(x.abs()));
        c.close(*got, want, 1e-10 * size, 1e-10, &format!("{tag}:{n}"), || format!("{hist} contract {n}"));
        any |= pay.iter().filter(|x| **x != 0.0).count() > 1;
    }
    if any { c.case(tag, hist) } else { c.trivial("no payoff") }
}
