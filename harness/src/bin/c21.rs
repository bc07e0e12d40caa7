//! C21: payoffs against definitional payoffs on adversarial paths.
use rqmon::*;
use time::{Date, Month};
use RustQuant_instruments::*;

fn main() {
    let mut c = Ctx::new("C21", "random contracts (vanilla, Asian arithmetic and geometric, lookback, all barriers with and without rebate, binary, power, powered, capped, power contract, log, supershare) on adversarial paths: random walks, constant, monotone, of length 1 to 5000, with the terminal value, the extremes or one interior point exactly at the strike or barrier or one ulp to either side, tiny and huge levels. Non-trivial: a path of at least two points.");
    let day = Date::from_calendar_date(2030, Month::June, 3).unwrap();
    for _ in 0..c.n(30000) {
        let mut g = c.fork();
        let level = *g.pick(&[100.0, 1.0, 1e-6, 1e6]) * g.range(0.5, 2.0);
        let n = match g.below(8) { 0 => 1, 1 => 2, 2 => g.us(100, 5000), _ => g.us(3, 60) };
        let k = level * g.range(0.6, 1.6);
        let bar = level * g.range(0.5, 1.7);
        let mut path: Vec<f64> = vec![level];
        let shape = g.below(4);
        let vol = g.logr(1e-3, 0.2);
        while path.len() < n {
            let x = *path.last().unwrap();
            path.push(match shape { 0 => level, 1 => x * (1.0 + vol.min(10.0 / n as f64)), 2 => x * (1.0 - vol.min(10.0 / n as f64)), _ => x * (vol * g.normal()).exp() });
        }
        // place a point exactly at, or one ulp beside, a critical value
        let ulp = |x: f64, d: i64| f64::from_bits((x.to_bits() as i64 + d) as u64);
        let near = |g: &mut Rng, x: f64| ulp(x, g.i(-1, 1));
        if g.chance(0.4) { let x = *g.pick(&[k, bar]); let v = near(&mut g, x); path[n - 1] = v; }
        if g.chance(0.3) { let i = g.us(0, n - 1); path[i] = near(&mut g, bar); }
        if g.chance(0.2) { let m = path.iter().cloned().fold(f64::MIN, f64::max); let b = near(&mut g, m); if g.bool() { for x in path.iter_mut() { if *x > b { *x = b } } } }
        let bar = if g.chance(0.3) { let (lo, hi) = (path.iter().cloned().fold(f64::MAX, f64::min), path.iter().cloned().fold(f64::MIN, f64::max)); let x = *g.pick(&[lo, hi]); near(&mut g, x) } else { bar };
        let s = path[n - 1];
        let (mx, mn) = (path.iter().cloned().fold(f64::MIN, f64::max), path.iter().cloned().fold(f64::MAX, f64::min));
        let hist = format!("n={n} shape={shape} k={k:e} barrier={bar:e} terminal={s:e} max={mx:e} min={mn:e}");
        let contract = |t: TypeFlag, st: Option<StrikeFlag>| OptionContract { type_flag: t, exercise_flag: ExerciseFlag::European { expiry: day }, strike_flag: st, settlement_flag: None };
        let am = path.iter().sum::<f64>() / n as f64;
        let gm = (path.iter().map(|x| x.ln()).sum::<f64>() / n as f64).exp();
        let rebate = match g.below(3) { 0 => None, 1 => Some(0.0), _ => Some(level * g.range(0.0, 0.3)) };
        let reb = rebate.unwrap_or(0.0);
        let pow = *g.pick(&[0.5, 1.0, 1.5, 2.0, 3.0]);
        let cap = if g.chance(0.05) { 0.0 } else { level * g.range(0.0, 0.5) };
        let (a1, a2) = (level * g.range(0.6, 1.0), level * g.range(1.0, 1.6));
        let eq = |c: &mut Ctx, n: &str, got: Option<f64>, want: f64, tol: f64| { if let Some(x) = got { c.close(x, want, tol, 1e-12, n, || hist.clone()); } };
        let tol = 1e-13 * level;
        for call in [true, false] {
            let t = if call { TypeFlag::Call } else { TypeFlag::Put };
            let pos = |x: f64| x.max(0.0);
            let van = pos(if call { s - k } else { k - s });
            let r = c.guard("vanilla", || hist.clone(), || EuropeanVanillaOption::new(k, day, t).payoff(s));
            eq(&mut c, "vanilla", r, van, 0.0);
            for (am_flag, avg, tag) in [(AveragingMethod::ArithmeticDiscrete, am, "arithmetic"), (AveragingMethod::GeometricDiscrete, gm, "geometric")] {
                let r = c.guard("asian", || hist.clone(), || AsianOption::new(contract(t, Some(StrikeFlag::Fixed)), am_flag, Some(k)).payoff(path.clone()));
                eq(&mut c, &format!("asian:{tag}:fixed:{call}"), r, pos(if call { avg - k } else { k - avg }), tol * n as f64 * 1.0);
                let r = c.guard("asian", || hist.clone(), || AsianOption::new(contract(t, Some(StrikeFlag::Floating)), am_flag, if g.bool() { Some(k) } else { None }).payoff(path.clone()));
                eq(&mut c, &format!("asian:{tag}:floating:{call}"), r, pos(if call { s - avg } else { avg - s }), tol * n as f64);
            }
            let r = c.guard("lookback", || hist.clone(), || LookbackOption { contract: contract(t, Some(StrikeFlag::Fixed)), strike: Some(k) }.payoff(path.clone()));
            eq(&mut c, &format!("lookback:fixed:{call}"), r, pos(if call { mx - k } else { k - mn }), 0.0);
            for st in [Some(StrikeFlag::Floating), None] {
                let none = st.is_none();
                let r = c.guard("lookback", || hist.clone(), || LookbackOption { contract: contract(t, st), strike: None }.payoff(path.clone()));
                eq(&mut c, &format!("lookback:floating:{call}:{none}"), r, pos(if call { s - mn } else { mx - s }), 0.0);
            }
            let (up, down) = (path.iter().any(|x| *x >= bar), path.iter().any(|x| *x <= bar));
            let mut legs = vec![];
            for (b, paid, tag) in [(BarrierType::UpAndOut, !up, "up-out"), (BarrierType::UpAndIn, up, "up-in"), (BarrierType::DownAndOut, !down, "down-out"), (BarrierType::DownAndIn, down, "down-in")] {
                let r = c.guard("barrier", || hist.clone(), || BarrierOption { contract: contract(t, None), barrier_type: b, barrier: bar, strike: k, rebate }.payoff(path.clone()));
                eq(&mut c, &format!("barrier:{tag}:{call}"), r, if paid { van } else { reb }, 0.0);
                legs.push(r.unwrap_or(f64::NAN));
            }
            c.close(legs[0] + legs[1], van + reb, tol, 1e-13, "barrier:in plus out", || hist.clone());
            c.close(legs[2] + legs[3], van + reb, tol, 1e-13, "barrier:in plus out", || hist.clone());
            let itm = if call { s > k } else { s < k };
            for (b, amt, tag) in [(BinaryType::CashOrNothing, k, "cash"), (BinaryType::AssetOrNothing, s, "asset")] {
                let r = c.guard("binary", || hist.clone(), || BinaryOption { contract: contract(t, None), strike: k, binary_type: b }.payoff(s));
                eq(&mut c, &format!("binary:{tag}:{call}"), r, if itm { amt } else { 0.0 }, 0.0);
            }
            let kp = k.powf(pow);
            let raw = pos(if call { s.powf(pow) - kp } else { kp - s.powf(pow) });
            let tp = 1e-13 * level.powf(pow);
            let r = c.guard("power", || hist.clone(), || PowerOption::new(contract(t, None), kp, pow).payoff(s));
            eq(&mut c, &format!("power:{call}"), r, raw, tp);
            let r = c.guard("capped", || hist.clone(), || CappedPowerOption::new(contract(t, None), kp, pow, cap).payoff(s));
            eq(&mut c, &format!("capped:{call}"), r, raw.min(cap), tp);
            let r = c.guard("powered", || hist.clone(), || PoweredOption::new(contract(t, None), k, pow).payoff(s));
            eq(&mut c, &format!("powered:{call}"), r, van.powf(pow), tp);
            let r = c.guard("log_moneyness", || hist.clone(), || LogMoneynessContract { contract: contract(t, None), strike: k }.payoff(s));
            eq(&mut c, "log_moneyness", r, (s / k).ln(), 1e-15);
            let r = c.guard("log_underlying", || hist.clone(), || LogUnderlyingContract { contract: contract(t, None), strike: k }.payoff(s));
            eq(&mut c, "log_underlying", r, s.ln(), 1e-15);
            let r = c.guard("log_option", || hist.clone(), || LogOption { contract: contract(t, None), strike: k }.payoff(s));
            eq(&mut c, "log_option", r, (s / k).ln().max(0.0), 1e-15);
            for u in [s, a1, a2, ulp(a1, -1), ulp(a2, 1), ulp(a1, 1), ulp(a2, -1)] {
                let r = c.guard("supershare", || hist.clone(), || SupershareOption { contract: contract(t, None), strike_1: a1, strike_2: a2 }.payoff(u));
                eq(&mut c, "supershare", r, if u >= a1 && u <= a2 { u / a1 } else { 0.0 }, 0.0);
            }
            for ex in [ExerciseFlag::European { expiry: day }, ExerciseFlag::American { start: Date::MIN, end: day }, ExerciseFlag::Bermudan { exercise_dates: vec![Date::MIN, day] }] {
                c.check(ex.expiry() == day, "expiry", || format!("{ex:?}"));
            }
        }
        let r = c.guard("power_contract", || hist.clone(), || PowerContract::new(k, pow).payoff(s));
        eq(&mut c, "power_contract", r, (s / k).powf(pow), 1e-15);
        if n > 1 { c.case(if n > 100 { "long" } else { "short" }, &hist) } else { c.trivial("single point") }
    }
    c.finish()
}
