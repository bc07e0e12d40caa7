//! C28: seeded simulations repeated across schedules, thread counts and callers, compared bit for bit.
use rqmon::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use time::{Date, Duration, Month};
use RustQuant_instruments::longstaff_schwartz::LongstaffScwhartzPricer;
use RustQuant_instruments::*;
use RustQuant_stochastics::*;

static SHAKE: AtomicU64 = AtomicU64::new(0);
/// Delays that differ from run to run without touching any value.
fn shake() {
    let k = SHAKE.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
    match (k ^ (k >> 29)) % 41 { 0 => std::thread::yield_now(), 1 => std::thread::sleep(std::time::Duration::from_micros(20)), 2 => { for _ in 0..200 { std::hint::spin_loop() } } _ => {} }
}
/// Shaken geometric motion that records which worker produced which path start.
struct Shaken { workers: Mutex<Vec<usize>>, sigma: f64 }
impl StochasticProcess for Shaken {
    fn drift(&self, x: f64, t: f64) -> f64 {
        if t == 0.0 { self.workers.lock().unwrap().push(rayon::current_thread_index().map_or(0, |i| i + 1)); }
        shake();
        0.03 * x
    }
    fn diffusion(&self, x: f64, _t: f64) -> f64 { self.sigma * x }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> { None }
}

fn bits(t: &Trajectories) -> Vec<u64> {
    t.times.iter().chain(t.paths.iter().flat_map(|p| p.iter())).map(|x| x.to_bits()).chain(t.paths.iter().map(|p| p.len() as u64)).collect()
}
type Run = Arc<dyn Fn(&StochasticProcessConfig) -> Trajectories + Send + Sync>;

fn process(g: &mut Rng) -> (&'static str, Run, f64, bool) {
    let a = g.range(0.05, 0.5);
    let b = g.range(0.1, 0.4);
    let w = g.range(0.5, 3.0);
    let hurst = *g.pick(&[0.15, 0.35, 0.5, 0.7, 0.9]);
    let fft = g.bool();
    let method = move || if fft { FractionalProcessGeneratorMethod::FFT } else { FractionalProcessGeneratorMethod::CHOLESKY };
    let lam = g.range(0.5, 20.0);
    macro_rules! r { ($name:expr, $p:expr, $x0:expr) => {{ let p = $p; ($name, Arc::new(move |c: &StochasticProcessConfig| p.generate(c)) as Run, $x0, false) }} }
    macro_rules! f { ($name:expr, $p:expr, $x0:expr) => {{ let p = $p; ($name, Arc::new(move |c: &StochasticProcessConfig| p.generate(c)) as Run, $x0, true) }} }
    match g.below(15) {
        0 => r!("brownian motion", BrownianMotion::new(), 0.0),
        1 => r!("arithmetic brownian motion", ArithmeticBrownianMotion::new(move |_: f64| a, move |_: f64| b), 1.0),
        2 => r!("geometric brownian motion", GeometricBrownianMotion::new(a, b), 10.0),
        3 => r!("ornstein-uhlenbeck", OrnsteinUhlenbeck::new(a, b, 1.0), 0.4),
        4 => r!("cox-ingersoll-ross", CoxIngersollRoss::new(1.0, 0.2, a), 1.0),
        5 => r!("extended vasicek", ExtendedVasicek::new(a, b, move |t: f64| (w * t).sin()), 0.1),
        6 => r!("hull-white", HullWhite::new(a, b, a), 0.1),
        7 => r!("ho-lee", HoLee::new(b, a), 0.1),
        8 => r!("black-derman-toy", BlackDermanToy::new(move |t: f64| 0.2 + 0.1 * (w * t).sin(), a), 0.1),
        9 => r!("constant elasticity of variance", ConstantElasticityOfVariance::new(a, 0.1, 0.6), 10.0),
        10 => r!("geometric brownian bridge", GeometricBrownianBridge::new(a, b, 12.0, 50.0), 10.0),
        11 => r!("merton", MertonJumpDiffusion::new(a, b, lam, 0.3, 0.5), 10.0),
        12 => f!("fractional brownian motion", FractionalBrownianMotion::new(hurst, method()), 0.0),
        13 => f!("fractional ornstein-uhlenbeck", FractionalOrnsteinUhlenbeck::new(a, b, 1.0, hurst, method()), 0.4),
        _ => f!("fractional cox-ingersoll-ross", FractionalCoxIngersollRoss::new(1.0, 0.1, a, hurst, method()), 1.0),
    }
}

fn main() {
    let mut c = Ctx::new("C28", "every process of the library, the three schemes, seeds including zero and the largest, 1 to 140000 paths of 1 to 4000 steps, run twice in sequence, in parallel on pools of 1 to 16 workers under competing load, and from several caller threads at once; Monte Carlo and Longstaff-Schwartz pricers and fractional noise generators under the same regime; a process with injected delays records which worker produced which path. Non-trivial: more than one path and more than one worker.");
    let pools: Vec<(usize, rayon::ThreadPool)> = [1, 2, 3, 5, 8, 16].into_iter().map(|n| (n, rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).collect();
    // competing load
    let stop = Arc::new(AtomicBool::new(false));
    let load: Vec<_> = (0..3).map(|_| { let s = stop.clone(); std::thread::spawn(move || { while !s.load(Ordering::Relaxed) { for _ in 0..5000 { std::hint::spin_loop() } std::thread::sleep(std::time::Duration::from_micros(300)); } }) }).collect();
    let mut schedules: HashSet<Vec<usize>> = HashSet::new();
    let scheme = |k: u64| [StochasticScheme::EulerMaruyama, StochasticScheme::Milstein, StochasticScheme::StrangSplitting][k as usize];
    for round in 0..c.n(500) {
        let mut g = c.fork();
        let (name, run, x0, fractional) = process(&mut g);
        let many = round % 150 == 20 && !fractional;
        let sc = g.below(3);
        let n = if many { 2 } else if fractional { g.us(2, 24) } else { g.size(1, 60, 4000) };
        let m = if many { g.us(66_000, 140_000) } else if g.chance(0.1) { 1 } else if fractional || n > 60 { g.us(2, 10) } else { g.size(2, 60, 3000) };
        let t0 = *g.pick(&[0.0, 0.0, 0.5, -1.0]);
        let t1 = t0 + g.range(0.1, 3.0);
        let seed = match g.below(8) { 0 => 0, 1 => u64::MAX, 2 => u64::MAX - 3, _ => g.u64() };
        let mk = move |parallel: bool, seed: Option<u64>| StochasticProcessConfig::new(x0, t0, t1, n, scheme(sc), m, parallel, seed);
        let h = || format!("{name} scheme {sc} x0={x0} t0={t0} t1={t1} steps={n} paths={m} seed={seed}");
        let Some(first) = c.guard("generate", h, || run(&mk(false, Some(seed)))) else { continue };
        let want = bits(&first);
        let again = c.guard("generate", h, || run(&mk(false, Some(seed))));
        c.check(again.is_some_and(|t| bits(&t) == want), &format!("sequential:{name}"), h);
        for _ in 0..3 {
            let (k, pool) = g.pick(&pools);
            let t = c.guard("generate", || format!("{} on {k} workers", h()), || pool.install(|| run(&mk(true, Some(seed)))));
            c.check(t.is_some_and(|t| bits(&t) == want), &format!("parallel:{name}"), || format!("{} on {k} workers", h()));
        }
        // several callers at once, sharing the process
        if g.chance(0.3) {
            let got: Vec<_> = std::thread::scope(|s| { let hs: Vec<_> = (0..4).map(|i| { let run = &run; s.spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bits(&run(&mk(i % 2 == 0, Some(seed))))))) }).collect(); hs.into_iter().map(|h| h.join()).collect() });
            c.check(got.into_iter().all(|r| matches!(r, Ok(Ok(b)) if b == want)), &format!("concurrent callers:{name}"), h);
        }
        // paths differ from one another, seeds matter, unseeded runs differ
        let mut met: std::collections::HashMap<Vec<u64>, usize> = std::collections::HashMap::new();
        for i in 0..m { if first.paths[i].iter().all(|x| x.is_finite()) {
            let before = met.insert(first.paths[i].iter().map(|x| x.to_bits()).collect(), i);
            c.check(before.is_none(), &format!("paths:identical:{name}"), || format!("{} paths {i} and {before:?}", h()));
        } }
        let other = seed ^ (1 << g.below(64));
        for par in [false, true] {
            if let Some(t) = c.guard("generate", h, || run(&mk(par, Some(other)))) { c.check(bits(&t) != want, &format!("seed:ignored:{name}"), || format!("{} and seed {other}", h())); }
            if let Some(t) = c.guard("generate", h, || run(&mk(par, None))) { c.check(bits(&t) != want, &format!("unseeded:repeats:{name}"), h); }
        }
        if m > 1 { c.case(name, &h()) } else { c.trivial("one path") }
    }
    // recorded schedules with injected delays
    for _ in 0..c.n(120) {
        let mut g = c.fork();
        let (n, m, seed) = (g.us(3, 20), g.us(4, 40), g.u64());
        let sigma = g.range(0.1, 0.5);
        let mk = |par| StochasticProcessConfig::new(10.0, 0.0, 1.0, n, StochasticScheme::EulerMaruyama, m, par, Some(seed));
        let p = Shaken { workers: Mutex::new(vec![]), sigma };
        let want = bits(&p.generate(&mk(false)));
        for _ in 0..3 {
            p.workers.lock().unwrap().clear();
            let (k, pool) = g.pick(&pools);
            let got = pool.install(|| bits(&p.generate(&mk(true))));
            let w = std::mem::take(&mut *p.workers.lock().unwrap());
            let h = || format!("delayed motion sigma={sigma} steps={n} paths={m} seed={seed} on {k} workers, order of workers {w:?}");
            c.check(got == want, "parallel:delayed", h);
            let used: HashSet<usize> = w.iter().copied().collect();
            let mut sig = w.clone(); sig.push(1000 + m);
            let fresh = schedules.insert(sig);
            if used.len() > 1 && fresh { c.case("schedule", &format!("{w:?}{seed}")) } else { c.trivial("single worker or repeated schedule") }
        }
    }
    // pricers
    for _ in 0..c.n(120) {
        let mut g = c.fork();
        let seed = g.u64();
        let day = Date::from_calendar_date(2030, Month::June, 3).unwrap();
        let (n, m) = (g.us(2, 20), g.us(5, 80));
        let strike = g.range(8.0, 12.0);
        let gbm = GeometricBrownianMotion::new(0.03, 0.25);
        let mjd = MertonJumpDiffusion::new(0.03, 0.25, 2.0, 0.1, 0.2);
        let t = if g.bool() { TypeFlag::Call } else { TypeFlag::Put };
        let asian = AsianOption::new(OptionContract { type_flag: t, exercise_flag: ExerciseFlag::European { expiry: day }, strike_flag: Some(StrikeFlag::Fixed), settlement_flag: None }, AveragingMethod::ArithmeticDiscrete, Some(strike));
        let vanilla = EuropeanVanillaOption::new(strike, day, t);
        let price = |par: bool, seed: Option<u64>| { let k = StochasticProcessConfig::new(10.0, 0.0, 1.0, n, StochasticScheme::EulerMaruyama, m, par, seed); [vanilla.price_monte_carlo(&gbm, &k, 0.03), asian.price_monte_carlo(&gbm, &k, 0.03), asian.price_monte_carlo(&mjd, &k, 0.03)].map(f64::to_bits) };
        let h = || format!("monte carlo strike={strike} steps={n} paths={m} seed={seed}");
        let Some(want) = c.guard("price", h, || price(false, Some(seed))) else { continue };
        let r = c.call("price", || price(false, Some(seed)));
        c.check(c_eq(r, want), "pricer:sequential", h);
        for _ in 0..2 { let (k, pool) = g.pick(&pools); let r = c.call("price", || pool.install(|| price(true, Some(seed)))); c.check(c_eq(r, want), "pricer:parallel", || format!("{} on {k} workers", h())); }
        let start = Date::from_calendar_date(2024, Month::January, 1).unwrap();
        let lsm = |seed| LongstaffScwhartzPricer::new(10.0, strike, 0.05, 0.3, Some(start), start + Duration::days(365), n as u32, t, 60, seed).generate_price().to_bits();
        let a = lsm(Some(seed));
        let b = std::thread::scope(|s| { let x = s.spawn(|| lsm(Some(seed))); let y = s.spawn(|| lsm(Some(seed))); (x.join().unwrap(), y.join().unwrap()) });
        c.check(a == b.0 && a == b.1 && a == lsm(Some(seed)), "longstaff-schwartz:not reproducible", h);
        // noise generators
        let (len, hu) = (g.us(2, 64), g.range(0.05, 0.95));
        for (name, f) in [("cholesky", fgn_cholesky as fn(f64, usize, f64, Option<u64>) -> Vec<f64>), ("fft", fgn_fft)] {
            let hh = || format!("fractional noise {name} hurst={hu} length={len} seed={seed}");
            let Some(x) = c.guard("noise", hh, || f(hu, len, 1.0, Some(seed))) else { continue };
            let (k, pool) = g.pick(&pools);
            let y = c.guard("noise", hh, || pool.install(|| f(hu, len, 1.0, Some(seed))));
            c.check(y.as_ref() == Some(&x), &format!("noise:{name}:not reproducible"), || format!("{} on {k} workers", hh()));
            c.check(f(hu, len, 1.0, Some(seed ^ 2)) != x && f(hu, len, 1.0, None) != x, &format!("noise:{name}:seed ignored"), hh);
        }
        c.case("pricer", &h());
    }
    stop.store(true, Ordering::Relaxed);
    for t in load { let _ = t.join(); }
    println!("schedules observed: {}", schedules.len());
    c.finish()
}
fn c_eq(r: Result<[u64; 3], String>, want: [u64; 3]) -> bool { r.is_ok_and(|x| x == want) }
