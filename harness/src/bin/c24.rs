//! C24: Longstaff-Schwartz prices against a Bermudan tree, with sampling-error bounds.
use rqmon::*;
use time::{Date, Duration, Month};
use RustQuant_instruments::longstaff_schwartz::LongstaffScwhartzPricer;
use RustQuant_instruments::*;

/// Tree value and the standard deviation of the discounted payoff of the optimal policy;
/// exercise is allowed at every `n / m`-th step except the first date.
fn bermudan(s: f64, k: f64, t: f64, r: f64, v: f64, call: bool, m: usize, per: usize) -> (f64, f64) {
    let n = m * per;
    let dt = t / n as f64;
    let u = (v * dt.sqrt()).exp();
    let p = ((r * dt).exp() - 1.0 / u) / (u - 1.0 / u);
    let df = (-r * dt).exp();
    let pay = |x: f64| if call { (x - k).max(0.0) } else { (k - x).max(0.0) };
    let at = |m: usize, j: usize| s * u.powi(2 * j as i32 - m as i32);
    let mut w: Vec<f64> = (0..=n).map(|j| pay(at(n, j))).collect();
    let mut q: Vec<f64> = w.iter().map(|x| x * x).collect();
    for i in (0..n).rev() {
        for j in 0..=i {
            w[j] = df * (p * w[j + 1] + (1.0 - p) * w[j]);
            q[j] = df * df * (p * q[j + 1] + (1.0 - p) * q[j]);
            let e = pay(at(i, j));
            if i > 0 && i % per == 0 && e > w[j] { w[j] = e; q[j] = e * e }
        }
    }
    (w[0], (q[0] - w[0] * w[0]).max(0.0).sqrt())
}

fn main() {
    let mut c = Ctx::new("C24", "random spots over five decades, strikes within two deviations, rates, volatilities 8% to 60%, one month to three years, 1 to 50 exercise dates, 200 to 1500 paths, several seeds per contract averaged; out-of-the-money contracts with almost no exercising paths; repeated, shifted and missing seeds; deviations pooled over single-date contracts. Non-trivial: more than one exercise date and a price above the sampling error.");
    for round in 0..c.n(300) {
        let mut g = c.fork();
        let s = *g.pick(&[1.0, 10.0, 100.0, 3000.0, 0.05]) * g.range(0.7, 1.5);
        // half the contracts are puts with a large early-exercise premium
        let early = g.bool();
        let r = if early { g.range(0.05, 0.15) } else { g.logr(0.005, 0.15) };
        let v = if early { g.range(0.1, 0.35) } else { g.range(0.08, 0.6) };
        let days = if early { g.i(250, 1100) } else { g.i(30, 1100) };
        let t = days as f64 / 365.25;
        let sd = v * t.sqrt();
        let k = s * (if early { g.range(-0.2, 1.0) } else { g.range(-1.5, 1.5) } * sd).exp();
        let call = !early && g.chance(0.6);
        let m = if round % 6 == 0 { 1 } else { *g.pick(&[2, 3, 5, 10, 20, 50]) };
        let n = if early && m <= 10 { g.us(1000, 1500) } else { g.us(200, if m > 10 { 500 } else { 1500 }) };
        let d0 = Date::from_calendar_date(2020, Month::January, 1).unwrap() + Duration::days(g.i(0, 2000));
        let d1 = d0 + Duration::days(days);
        let flag = if call { TypeFlag::Call } else { TypeFlag::Put };
        let mk = |z: f64, seed: Option<u64>| LongstaffScwhartzPricer::new(s * z, k * z, r, v, Some(d0), d1, m as u32, flag, n as u64, seed);
        let h = format!("s={s} k={k} r={r} v={v} days={days} {flag:?} time_steps={m} num_simulations={n}");
        let seeds: Vec<u64> = (0..6).map(|_| g.u64()).collect();
        let mut xs = vec![];
        for &seed in &seeds {
            let Some(x) = c.guard("generate_price", || format!("{h} seed={seed}"), || mk(1.0, Some(seed)).generate_price()) else { continue };
            c.check(x.is_finite() && x >= 0.0, "price:not a non-negative number", || format!("{h} seed={seed} got {x}"));
            xs.push(x);
        }
        if xs.len() < seeds.len() { continue }
        // reproducible
        let again = c.guard("generate_price", || h.clone(), || mk(1.0, Some(seeds[0])).generate_price());
        c.check(again.map(f64::to_bits) == Some(xs[0].to_bits()), "seed:not reproducible", || format!("{h} seed={} {again:?} {}", seeds[0], xs[0]));
        let euro = jet::gbsm(&[s, k, t, r, r, v], call);
        let (want, dev) = bermudan(s, k, t, r, v, call, m, (240 / m).max(8));
        let (_, dev1) = bermudan(s, k, t, r, v, call, 1, 200);
        let dev = dev.max(0.5 * dev1);
        if want > 3.0 * dev / (n as f64).sqrt() {
            let distinct = xs.iter().filter(|x| **x != xs[0]).count();
            c.check(distinct > 0, "seed:has no effect", || format!("{h} seeds={seeds:?} {xs:?}"));
        }
        let mean = xs.iter().sum::<f64>() / xs.len() as f64;
        let se = dev / ((n * xs.len()) as f64).sqrt();
        // suboptimal exercise loses, in-sample regression gains: both shrink with the paths per date
        let bias = if m == 1 { 0.0 } else { dev * if m > 5 { 10.0 } else { 5.0 } / n as f64 * (m as f64).sqrt() + 0.01 * (want - 0.0).min(dev) };
        let tol = 5.0 * se + bias + 2e-3 * want.min(0.1 * s) + 1e-6 * s;
        c.close(mean, want, tol, 0.0, &format!("price:{}:{}", if call { "call" } else { "put" }, if m == 1 { "single date" } else { "dates" }), || format!("{h} seeds={seeds:?} se={se:.3e}"));
        c.check(mean >= euro - tol, "price:below european", || format!("{h} {mean} < {euro}"));
        // exercising everything at the first date is one admissible policy
        let first = if call { s - k * (-r * t / m as f64).exp() } else { k * (-r * t / m as f64).exp() - s };
        c.check(mean >= first - tol, "price:below exercise at the first date", || format!("{h} {mean} < {first}"));
        // without a regression, currency units do not matter under the same seed
        let z = *g.pick(&[2.0, 0.25, 100.0, 0.01]);
        if m == 1 { if let Some(x) = c.guard("generate_price", || format!("{h} scaled {z}"), || mk(z, Some(seeds[1])).generate_price()) {
            c.close(x / z, xs[1], 1e-9 * s, 1e-9, "price:units", || format!("{h} seed={} all amounts times {z}", seeds[1]));
        } }
        // no seed: different runs, same distribution
        if round % 4 == 0 {
            let mut ys = vec![];
            for _ in 0..4 { if let Some(x) = c.guard("generate_price", || format!("{h} no seed"), || mk(1.0, None).generate_price()) { ys.push(x) } }
            if ys.len() == 4 {
                let mean = ys.iter().sum::<f64>() / 4.0;
                c.close(mean, want, 5.5 * dev / ((n * 4) as f64).sqrt() + bias + 2e-3 * want.min(0.1 * s) + 1e-6 * s, 0.0, "price:unseeded", || format!("{h} {ys:?}"));
                if want > 3.0 * dev / (n as f64).sqrt() { c.check(ys.iter().any(|y| *y != ys[0]), "unseeded:repeats itself", || format!("{h} {ys:?}")); }
            }
        }
        if m > 1 && want > 5.0 * dev / (n as f64).sqrt() { c.case(if call { "call" } else { "put" }, &h) } else { c.trivial("single date or worthless") }
    }
    // with one exercise date the estimate is unbiased: deviations pooled over many contracts average out
    for (name, call, lo, hi) in [("call", true, 20, 360), ("put", false, 20, 360), ("call", true, 360, 1500), ("put", false, 360, 1500)] {
        let (mut z, mut num) = (0.0, 0.0);
        let cases = c.n(60);
        for _ in 0..cases {
            let mut g = c.fork();
            let (s, v, r, days) = (g.logr(0.5, 500.0), g.range(0.08, 0.5), g.range(0.005, 0.15), g.i(lo, hi));
            let t = days as f64 / 365.25;
            let k = s * (g.range(-0.5, 0.5) * v * t.sqrt()).exp();
            let d0 = Date::from_calendar_date(2020, Month::January, 1).unwrap() + Duration::days(g.i(0, 2000));
            let (n, seed) = (25000, g.u64());
            let h = format!("single date s={s} k={k} r={r} v={v} days={days} {name} num_simulations={n} seed={seed}");
            let o = LongstaffScwhartzPricer::new(s, k, r, v, Some(d0), d0 + Duration::days(days), 1, if call { TypeFlag::Call } else { TypeFlag::Put }, n, Some(seed));
            // without a date of its own the option is valued today
            let today = RustQuant_time::today();
            let got = [None, Some(today)].map(|at| c.guard("undated", || h.clone(), || LongstaffScwhartzPricer::new(s, k, r, v, at, today + Duration::days(days), 3, if call { TypeFlag::Call } else { TypeFlag::Put }, 200, Some(seed)).generate_price()));
            if today == RustQuant_time::today() { c.check(got[0].map(f64::to_bits) == got[1].map(f64::to_bits), "price:undated", || format!("{h}: undated {:?}, dated today {:?}", got[0], got[1])); }
            let Some(x) = c.guard("generate_price", || h.clone(), || o.generate_price()) else { continue };
            let want = jet::gbsm(&[s, k, t, r, r, v], call);
            let (_, dev) = bermudan(s, k, t, r, v, call, 1, 300);
            z += (x - want) / (dev / (n as f64).sqrt());
            num += 1.0;
            c.case("pooled", &h);
        }
        let z = z / f64::max(num, 1.0).sqrt();
        c.check(z.abs() < 5.5, "price:pooled", || format!("{name}s of {lo} to {hi} days, one exercise date: the pooled deviation from Black-Scholes is {z} standard errors"));
    }
    // several dates: suboptimal exercise loses and in-sample regression gains, both by an amount that
    // shrinks with the paths per date; pooled over contracts what remains is that bias alone
    for (kind, name) in [(0usize, "in-the-money puts"), (1, "puts"), (2, "far out-of-the-money puts"), (3, "calls"), (4, "long-dated calls nobody exercises early"), (5, "high-rate puts")] {
        let plan: &[(usize, usize, usize, f64, f64)] = match kind {
            1 => &[(2, 3000, 24, 0.015, 0.015), (5, 3000, 24, 0.015, 0.02), (20, 1500, 12, 0.02, 0.05), (140, 900, 16, 0.01, 0.05)],
            3 => &[(2, 3000, 24, 0.015, 0.015), (5, 3000, 24, 0.015, 0.02), (20, 1500, 12, 0.02, 0.05), (140, 900, 16, 0.012, 0.04)],
            4 => &[(2, 3000, 24, 0.015, 0.015), (5, 3000, 24, 0.015, 0.02), (20, 1500, 12, 0.02, 0.05), (140, 900, 5, 0.04, 0.04)],
            5 => &[(2, 6000, 40, 0.006, 0.011), (3, 5000, 40, 0.006, 0.01)],
            _ => &[(2, 3000, 24, 0.015, 0.015), (5, 3000, 24, 0.015, 0.02), (20, 1500, 12, 0.02, 0.05)],
        };
        for &(m, n, cases, down, up) in plan {
            let (mut sum, mut num) = (0.0, 0.0);
            for _ in 0..c.n(cases as u64) {
                let mut g = c.fork();
                let s = 10f64.powf(g.range(-1.0, 3.0));
                let (r, v) = if kind == 4 { (g.range(0.08, 0.12), g.range(0.08, 0.14)) } else if kind == 5 { (g.range(0.15, 0.3), g.range(0.2, 0.5)) } else { (g.range(0.02, 0.12), g.range(0.12, 0.5)) };
                let days = if kind == 4 { g.i(2000, 4000) } else if kind == 5 { g.i(1000, 2200) } else { g.i(100, 1000) };
                let t = days as f64 / 365.25;
                let sd = v * t.sqrt();
                let call = kind == 3 || kind == 4;
                let k = s * match kind { 0 => g.range(0.0, 0.6) * sd, 2 => g.range(-2.5, -1.5) * sd, 4 => g.range(0.5, 1.0) * r * t, 5 => r * t * g.range(0.0, 0.5), _ => g.range(-0.5, 0.5) * sd }.exp();
                let d0 = Date::from_calendar_date(2020, Month::January, 1).unwrap() + Duration::days(g.i(0, 2000));
                let h = format!("dates s={s} k={k} r={r} v={v} days={days} {name} time_steps={m} num_simulations={n}");
                let flag = if call { TypeFlag::Call } else { TypeFlag::Put };
                let mut x = 0.0;
                for _ in 0..4 {
                    let seed = g.u64();
                    let Some(y) = c.guard("generate_price", || format!("{h} seed={seed}"), || LongstaffScwhartzPricer::new(s, k, r, v, Some(d0), d0 + Duration::days(days), m as u32, flag, n as u64, Some(seed)).generate_price()) else { continue };
                    x += y / 4.0;
                }
                let (want, dev) = bermudan(s, k, t, r, v, call, m, (if kind == 4 { 480 } else { 240 } / m).max(4));
                sum += (x - want) / dev;
                num += 1.0;
                c.case("pooled_dates", &h);
            }
            let d = sum / f64::max(num, 1.0);
            let noise = 5.0 / f64::sqrt(n as f64 * 4.0 * f64::max(num, 1.0));
            let (down, up) = (down.max(noise), up.max(noise));
            if std::env::var_os("RQMON_SHOW").is_some() { println!("{name} m={m} d={d:.4} [{:.3},{up:.3}]", -down); }
            c.check(d > -down && d < up, "price:pooled dates", || format!("{name} with {m} exercise dates: the average deviation from the tree is {d} standard deviations of the payoff, outside [{}, {up}]", -down));
        }
    }
    // refused inputs
    let d = |y: i32| Date::from_calendar_date(y, Month::March, 1).unwrap();
    for (i, (s, k, r, v, d0, d1, m, n)) in [(0.0, 1.0, 0.1, 0.1, d(2020), d(2021), 5, 50), (1.0, 0.0, 0.1, 0.1, d(2020), d(2021), 5, 50), (1.0, 1.0, 0.0, 0.1, d(2020), d(2021), 5, 50), (1.0, 1.0, 0.1, -0.1, d(2020), d(2021), 5, 50), (1.0, 1.0, 0.1, 0.1, d(2021), d(2020), 5, 50), (1.0, 1.0, 0.1, 0.1, d(2020), d(2021), 0, 50), (1.0, 1.0, 0.1, 0.1, d(2020), d(2021), 5, 0)].into_iter().enumerate() {
        let x = c.call("new", || LongstaffScwhartzPricer::new(s, k, r, v, Some(d0), d1, m, TypeFlag::Put, n, Some(1)).strike_price);
        c.check(x.is_err(), "constructor:accepts invalid", || format!("invalid input {i}"));
        c.case("refused", &i.to_string());
    }
    c.finish()
}
