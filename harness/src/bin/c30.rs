//! C30: Nelson-Siegel-Svensson curves against their formulas and an integral of the forward rate.
use rqmon::*;
use time::{Date, Duration, Month};
use RustQuant_stochastics::*;
use RustQuant_time::today;

fn main() {
    let mut c = Ctx::new("C30", "decay scales 0.01 to 100 years, levels of both signs up to 1000, equal and very different scales, maturities from one day to the last representable date, past and present dates. Non-trivial: all four level parameters non-zero.");
    let last = Date::from_calendar_date(9999, Month::December, 31).unwrap();
    for _ in 0..c.n(20000) {
        let mut g = c.fork();
        let unit = g.logr(0.01, 100.0);
        let b: Vec<f64> = (0..4).map(|_| if g.chance(0.1) { 0.0 } else { unit * g.range(-1.0, 1.0) }).collect();
        let l1 = g.logr(0.01, 100.0);
        let l2 = if g.chance(0.1) { l1 } else { g.logr(0.01, 100.0) };
        let now = today();
        let span = (last - now).whole_days();
        let days = match g.below(6) { 0 => g.i(1, 30), 1 => g.i(1, span), 2 => *g.pick(&[1, 2, 365, 366, 3653, span]), _ => g.i(1, 365 * 60) };
        let date = now + Duration::days(days);
        let tau = days as f64 / 365.25;
        let m = NelsonSiegelSvensson::new(b[0], b[1], b[2], b[3], l1, l2);
        let h = || format!("levels {b:?} scales {l1} {l2}, {days} days ({tau} years)");
        let Some((f, s, d)) = c.guard("panic on a future date", h, || (m.forward_rate(date), m.spot_rate(date), m.discount_factor(date))) else { continue };
        if today() != now { continue }
        let size = b.iter().map(|x| x.abs()).sum::<f64>();
        let (x, y) = (tau / l1, tau / l2);
        let fwd = |t: f64| b[0] + (b[1] + b[2] * t / l1) * (-t / l1).exp() + b[3] * t / l2 * (-t / l2).exp();
        let avg = |z: f64| -(-z).exp_m1() / z; // average of exp over the maturity
        let spot = b[0] + (b[1] + b[2]) * avg(x) - b[2] * (-x).exp() + b[3] * (avg(y) - (-y).exp());
        let atol = 1e-13 * size;
        let satol = atol + 4e-16 * size * (1.0 / x + 1.0 / y);
        c.close(f, fwd(tau), atol, 1e-12, "forward", h);
        c.close(s, spot, satol, 1e-12, "spot", h);
        let want = (-spot * tau / 100.0).exp();
        if want.is_finite() && want > 1e-300 && want < 1e300 { c.close(d, want, 0.0, 1e-12 + (satol + 1e-15 * size) * tau / 100.0 * 4.0, "discount", || format!("{} spot {s}", h())); }
        // the spot rate is the average of the model's own forward rate
        if g.chance(0.1) {
            let mut cuts: Vec<f64> = vec![0.0];
            for k in [0.05, 0.3, 1.0, 3.0, 8.0, 20.0, 60.0] { for l in [l1, l2] { if k * l < tau { cuts.push(k * l) } } }
            cuts.push(tau);
            cuts.sort_by(|a, b| a.total_cmp(b));
            let int: f64 = cuts.windows(2).map(|w| num::quad(&fwd, w[0], w[1], 2)).sum();
            c.close(s, int / tau, 1e-8 * size, 1e-8, "spot is the average forward", h);
        }
        // limits
        if days == 1 && l1 > 3.0 && l2 > 3.0 {
            c.close(f, b[0] + b[1], 4e-3 * size, 0.0, "short limit", h);
            c.close(s, b[0] + b[1], 4e-3 * size, 0.0, "short limit", h);
        }
        if tau > 40.0 * f64::max(l1, l2) {
            c.close(f, b[0], 1e-9 * size, 0.0, "long limit", h);
            c.close(s, b[0], size * 2.0 * f64::max(l1, l2) / tau, 0.0, "long limit", h);
        }
        // between two dates the discount factor falls where the forward rate is positive throughout
        let more = g.i(1, 400);
        if days + more <= span {
            let lo = (0..=20).map(|k| fwd(tau + more as f64 / 365.25 * k as f64 / 20.0)).fold(f64::MAX, f64::min);
            let slack = size * (1.0 / l1 + 1.0 / l2) * more as f64 / 365.25 / 20.0;
            if lo > slack + 1e-6 * size && d > 1e-290 && d.is_finite() {
                if let Some(e) = c.guard("panic on a future date", h, || m.discount_factor(date + Duration::days(more))) {
                    let rounding = 1e-14 + 8e-16 * size * (tau + l1 + l2);
                    c.check(e < d * (1.0 + rounding), "discount not decreasing", || format!("{}: {d} then {e} after {more} days", h()));
                }
            }
        }
        if b.iter().all(|x| *x != 0.0) { c.case("curve", &h()) } else { c.trivial("degenerate level") }
        // dates that have no forward rate
        if g.chance(0.05) {
            let past = now - Duration::days(g.i(0, 4000));
            let r = (c.call("forward", || m.forward_rate(past)).is_err(), c.call("spot", || m.spot_rate(past)).is_err());
            if today() == now { c.check(r == (true, true), "past date accepted", || format!("{} on {past}: {r:?}", h())); }
        }
    }
    c.finish()
}
