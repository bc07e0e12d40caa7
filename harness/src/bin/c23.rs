//! C23: finite-difference prices against closed forms and a binomial tree.
use rqmon::*;
use time::{Date, Duration, Month};
use RustQuant_instruments::finite_difference_pricer::FiniteDifferencePricer;
use RustQuant_instruments::*;

/// Leisen-Reimer free: CRR tree with smoothing by averaging two sizes; American when asked.
fn tree(s: f64, k: f64, t: f64, r: f64, v: f64, call: bool, american: bool, n: usize) -> f64 {
    let one = |n: usize| {
        let dt = t / n as f64;
        let u = (v * dt.sqrt()).exp();
        let p = ((r * dt).exp() - 1.0 / u) / (u - 1.0 / u);
        let df = (-r * dt).exp();
        let pay = |x: f64| if call { (x - k).max(0.0) } else { (k - x).max(0.0) };
        let mut w: Vec<f64> = (0..=n).map(|j| pay(s * u.powi(2 * j as i32 - n as i32))).collect();
        for m in (0..n).rev() {
            for j in 0..=m {
                w[j] = df * (p * w[j + 1] + (1.0 - p) * w[j]);
                if american { w[j] = w[j].max(pay(s * u.powi(2 * j as i32 - m as i32))) }
            }
        }
        w[0]
    };
    0.5 * (one(n) + one(n + 1))
}

fn main() {
    let mut c = Ctx::new("C23", "random spots, strikes within two and a half standard deviations, rates, volatilities 2% to 80%, expiries one month to four years, dates, calls and puts, European and American, all three schemes, even and odd grids of 60 to 300 price steps with the time steps the explicit scheme needs for stability or coarser ones for the others; refinement of a quarter of the cases. Non-trivial: a price above one cent per hundred of strike.");
    for round in 0..c.n(700) {
        let mut g = c.fork();
        let s = if g.chance(0.3) { g.side().logr(1e-3, 1e6) } else { *g.pick(&[10.0, 100.0, 1.0]) * g.range(0.7, 1.5) };
        let v = if g.chance(0.2) { g.range(0.02, 0.06) } else { g.range(0.05, 0.8) };
        let days = g.i(30, 1500);
        let t = days as f64 / 365.25;
        let sd = v * t.sqrt();
        // the grid reaches five deviations; keep the drift well inside it
        let r = g.logr(0.002, 0.15).min(1.5 * v / t.sqrt());
        let k = s * (g.range(-2.0, 2.5) * sd.min(0.8)).exp();
        let call = g.bool();
        let american = g.chance(0.4);
        let big = round % 12 == 5;
        let n = if big { g.us(300, 400) } else if g.chance(0.1) { g.us(200, 300) } else if g.chance(0.1) { g.us(12, 59) } else { g.us(60, 150) };
        // explicit: dt v^2 <= dx^2, dx = 10 sd / n
        let stable_of = |n: usize| (n * n) as f64 / 100.0 * 1.05;
        let stable = stable_of(n);
        let d0 = Date::from_calendar_date(2020, Month::January, 1).unwrap() + Duration::days(g.i(0, 2000));
        let d1 = d0 + Duration::days(days);
        let ex = |am: bool| if am { if round % 3 == 0 { ExerciseFlag::American { start: Date::MIN, end: Date::MAX } } else { ExerciseFlag::American { start: d0, end: d1 } } } else { ExerciseFlag::European { expiry: d1 } };
        let flag = if call { TypeFlag::Call } else { TypeFlag::Put };
        let mk = |n: usize, m: usize, am: bool| FiniteDifferencePricer::new(s, k, r, v, Some(d0), d1, m as u32, n as u32, flag, ex(am));
        let euro = jet::gbsm(&[s, k, t, r, r, v], call);
        let want = if american { if call { euro } else { tree(s, k, t, r, v, false, true, 400) } } else { euro };
        let h = format!("s={s} k={k} r={r} v={v} days={days} {flag:?} american={american} price_steps={n}");
        let run = |c: &mut Ctx, scheme: usize, n: usize, m: usize, am: bool| -> Option<f64> {
            let o = mk(n, m, am);
            c.guard("scheme", || format!("{h} scheme={scheme} time_steps={m}"), || match scheme { 0 => o.explicit(), 1 => o.implicit(), _ => o.crank_nicolson() })
        };
        let names = ["explicit", "implicit", "crank_nicolson"];
        let ms = [(stable.max(20.0) * g.range(1.0, 1.5)) as usize + 1, if big { g.us(50, 100) } else { g.us(60, 250) }, g.us(60, 250)];
        let disc = (-r * t).exp();
        let dx = 10.0 * sd / n as f64;
        for sc in 0..3 {
            let Some(p) = run(&mut c, sc, n, ms[sc], american) else { continue };
            // grid error: second order in dx (gamma of a kinked payoff), first or second order in time
            let space = s.max(k * disc) * (dx * dx / (8.0 * sd)) * 2.0;
            let odd = if n % 2 == 1 { s * dx * dx / (8.0 * sd) * 2.0 + s * dx * dx } else { 0.0 };
            let time = if sc == 2 { s * sd * 2.0 / (ms[sc] as f64) } else { s * (sd * 0.6 + r * t) / ms[sc] as f64 };
            let am = if american { s * (sd * 0.6 + if sc == 2 { r * t } else { 0.0 }) / ms[sc] as f64 + 2e-3 * s * sd / 20.0 + 0.2 * k * r * t * dx } else { 0.0 };
            let tol = (space + odd + time + am) * if sc == 2 { if american { 0.3 } else { 0.24 } } else { 0.46 } * if n < 60 { 2.0 } else { 1.0 } + 1e-5 * s;
            c.close(p, want, tol, 0.0, &format!("{}:{}:{}", names[sc], if american { "american" } else { "european" }, if call { "call" } else { "put" }), || format!("{h} time_steps={}", ms[sc]));
            if american {
                let intrinsic = if call { s - k } else { k - s }.max(0.0);
                c.check(p >= intrinsic - tol, &format!("{}:exercise value", names[sc]), || format!("{h} {p} < {intrinsic}"));
                if let Some(e) = run(&mut c, sc, n, ms[sc], false) { c.check(p >= e - 1e-9 * s, &format!("{}:below european", names[sc]), || format!("{h} time_steps={} american {p} european {e}", ms[sc])); }
            }
            if g.chance(0.25) && n < 110 {
                // halving dx (and dt accordingly) must not move away
                let m2 = if sc == 0 { ms[sc] * 4 } else { ms[sc] * 3 };
                if let Some(q) = run(&mut c, sc, 2 * n, m2, american) {
                    c.close(q, want, tol * 0.6, 0.0, &format!("{}:refined", names[sc]), || format!("{h} doubled, time_steps={m2}"));
                }
            }
        }
        // without a date of its own the option is valued today
        if n < 200 {
            let today = RustQuant_time::today();
            let got = [None, Some(today)].map(|at| c.guard("undated", || h.clone(), || { let o = FiniteDifferencePricer::new(s, k, r, v, at, today + Duration::days(days), 20, 30, flag, ex(american)); [o.implicit(), o.crank_nicolson()] }));
            if today == RustQuant_time::today() { c.check(got[0].map(|x| x.map(f64::to_bits)) == got[1].map(|x| x.map(f64::to_bits)), "undated", || format!("{h}: undated {:?}, dated today {:?}", got[0], got[1])); }
        }
        // the price is a number of units of account: changing the unit changes nothing else
        if g.chance(0.3) && n < 200 {
            let l = *g.pick(&[1e-4, 0.01, 7.0, 100.0, 1e5]);
            for sc in 0..3 {
                let o = FiniteDifferencePricer::new(s * l, k * l, r, v, Some(d0), d1, ms[sc] as u32, n as u32, flag, ex(american));
                let q = c.guard("scheme", || h.clone(), || match sc { 0 => o.explicit(), 1 => o.implicit(), _ => o.crank_nicolson() });
                if let (Some(p), Some(q)) = (run(&mut c, sc, n, ms[sc], american), q) { c.close(q, l * p, l * s * 1e-6, 0.0, &format!("{}:unit", names[sc]), || format!("{h} times {l}")); }
            }
        }
        // far out of the money: worth almost nothing, never less than nothing
        if g.chance(0.3) && n < 150 {
            let far = s * (if call { g.range(3.5, 9.0) } else { g.range(-9.0, -3.5) } * sd).exp();
            for sc in 0..3 {
                let o = FiniteDifferencePricer::new(s, far, r, v, Some(d0), d1, ms[sc] as u32, n as u32, flag, ex(american));
                let p = c.guard("scheme", || h.clone(), || match sc { 0 => o.explicit(), 1 => o.implicit(), _ => o.crank_nicolson() });
                if let Some(p) = p { c.check(p >= -1e-12 * s && p <= s * sd * 0.02 + 1e-3 * s, &format!("{}:far", names[sc]), || format!("{h} strike {far} time_steps={} got {p}", ms[sc])); }
            }
        }
        // parity of the European schemes on one grid
        if !american && n >= 60 && g.chance(0.3) {
            for sc in 0..3 {
                let other = FiniteDifferencePricer::new(s, k, r, v, Some(d0), d1, ms[sc] as u32, n as u32, if call { TypeFlag::Put } else { TypeFlag::Call }, ex(false));
                let q = c.guard("scheme", || h.clone(), || match sc { 0 => other.explicit(), 1 => other.implicit(), _ => other.crank_nicolson() });
                if let (Some(p), Some(q)) = (run(&mut c, sc, n, ms[sc], false), q) {
                    let d = if call { p - q } else { q - p };
                    c.close(d, s - k * disc, s * (2e-3 * (1.0 + sd) + sd * sd * dx * dx / 10.0 + 3.0 * num::ncdf(sd - 5.0)), 0.0, &format!("{}:parity", names[sc]), || h.clone());
                }
            }
        }
        if want > 1e-4 * k { c.case(if american { "american" } else { "european" }, &h) } else { c.trivial("worthless") }
    }
    c.finish()
}
