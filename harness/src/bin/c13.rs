//! C13: gradient descent against an independent replay of the iteration.
use rqmon::*;
use RustQuant_autodiff::{overload::Powf, variable::Variable};
use RustQuant_math::optimization::GradientDescent;

fn main() {
    let mut c = Ctx::new("C13", "random convex quadratics (1-40 dimensions, curvatures of 1e-7 to 1e7, correlated, shifted), a quartic and a softplus-like objective, from random starts with stable learning rates, tolerances and iteration limits (0 and 1 included). The oracle replays the iteration with an analytic gradient. Non-trivial: at least one step taken.");
    for _ in 0..c.n(4000) {
        let mut r = c.fork();
        let n = if r.chance(0.04) { r.us(6, 40) } else { r.us(1, 5) };
        let sc = if r.chance(0.3) { 10f64.powf(r.range(-7.0, 7.0)) } else { 1.0 };
        let kind = r.below(3);
        // f = sum_i a_i (m_i.x - b_i)^2 with m unit lower triangular, or sum (x_i-b_i)^4, or sum exp + exp(-)
        let a: Vec<f64> = (0..n).map(|_| sc * r.range(0.3, 2.0)).collect();
        let b: Vec<f64> = (0..n).map(|_| r.range(-3.0, 3.0)).collect();
        let l: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else if j < i { r.range(-0.5, 0.5) / (n as f64 / 5.0).max(1.0) } else { 0.0 }).collect()).collect();
        let x0: Vec<f64> = (0..n).map(|_| r.range(-4.0, 4.0)).collect();
        let x0 = if r.chance(0.05) && kind == 0 { let mut z = vec![0.0; n]; for i in 0..n { let s: f64 = (0..i).map(|j| l[i][j] * z[j]).sum(); z[i] = b[i] - s; } z } else { x0 };
        let iters = match r.below(6) { 0 => r.us(0, 1), 1 => r.us(2, 8), _ => r.us(50, 800) };
        let tol = match r.below(4) { 0 => None, 1 => Some(1e-3), 2 => Some(1e-10), _ => Some(r.logr(1e-9, 1.0)) };
        let lr = match kind { 0 => r.range(0.005, 0.08), 1 => r.range(0.0005, 0.003), _ => r.range(0.002, 0.015) } / sc;
        let tol = if r.bool() { tol.map(|t| t * sc) } else { tol };
        let hist = format!("kind={kind} a={a:?} b={b:?} l={l:?} x0={x0:?} lr={lr} iters={iters} tol={tol:?}");
        let value = |x: &[f64]| -> f64 { match kind {
            0 => (0..n).map(|i| { let u: f64 = (0..=i).map(|j| l[i][j] * x[j]).sum::<f64>() - b[i]; a[i] * u * u }).sum(),
            1 => (0..n).map(|i| a[i] * (x[i] - b[i]).powi(2) * (1.0 + 0.1 * (x[i] - b[i]).powi(2))).sum(),
            _ => (0..n).map(|i| a[i] * ((0.5 * (x[i] - b[i])).exp() + (-0.5 * (x[i] - b[i])).exp())).sum(),
        } };
        let grad = |x: &[f64]| -> Vec<f64> { match kind {
            0 => { let u: Vec<f64> = (0..n).map(|i| (0..=i).map(|j| l[i][j] * x[j]).sum::<f64>() - b[i]).collect(); (0..n).map(|j| (j..n).map(|i| 2.0 * a[i] * u[i] * l[i][j]).sum()).collect() }
            1 => (0..n).map(|i| { let u = x[i] - b[i]; a[i] * (2.0 * u + 0.4 * u * u * u) }).collect(),
            _ => (0..n).map(|i| { let u = 0.5 * (x[i] - b[i]); a[i] * 0.5 * (u.exp() - (-u).exp()) }).collect(),
        } };
        let (aa, bb, ll) = (a.clone(), b.clone(), l.clone());
        fn typed<F>(f: F) -> F where F: for<'v> Fn(&[Variable<'v>]) -> Variable<'v> { f }
        let f = typed(move |x| {
            let term = |i: usize| match kind {
                0 => { let mut u = x[0] * ll[i][0]; for j in 1..=i { u = u + x[j] * ll[i][j]; } let u = u - bb[i]; u * u * aa[i] }
                1 => { let u = x[i] - bb[i]; u.powf(2.0) * (u.powf(2.0) * 0.1 + 1.0) * aa[i] }
                _ => { let u = (x[i] - bb[i]) * 0.5; (u.exp() + (u * -1.0).exp()) * aa[i] }
            };
            let mut s = term(0);
            for i in 1..x.len() { s = s + term(i); }
            s
        });
        let gd = GradientDescent::new(lr, iters, tol);
        let Some(res) = c.guard("panic", || hist.clone(), || gd.optimize(&f, &x0, false)) else { continue };
        // replay
        let t = tol.unwrap_or(f64::EPSILON.sqrt());
        let mut x = x0.clone();
        let mut trail = vec![x.clone()];
        let mut stopped = false; let mut near = false; let mut steps = 0;
        for _ in 0..iters {
            let g = grad(&x);
            let nrm = g.iter().map(|v| v * v).sum::<f64>().sqrt();
            if (nrm - t).abs() < 1e-6 * t + 1e-12 * sc * n as f64 { near = true }
            if nrm < t { stopped = true; break }
            for i in 0..n { x[i] -= lr * g[i]; }
            steps += 1;
            trail.push(x.clone());
        }
        let d = |u: &[f64], v: &[f64]| u.iter().zip(v).map(|(p, q)| (p - q).abs()).fold(0.0, f64::max);
        c.check(res.minimizer.len() == n, "dimension", || hist.clone());
        if res.minimizer.len() != n { continue }
        if !near {
            c.check(d(&res.minimizer, &x) < 1e-8, "minimizer", || format!("{hist} got {:?} want {x:?}", res.minimizer));
            let want = if iters == 0 { 0 } else if stopped { steps + 1 } else { steps };
            c.check(res.iterations == want, "iterations", || format!("{hist} got {} want {want}", res.iterations));
        }
        let v = value(&res.minimizer);
        c.close(res.minimum, v, 1e-12 * sc, 1e-10, "minimum_at_minimizer", || format!("{hist} minimizer {:?}", res.minimizer));
        // stopped early only at a stationary point
        if res.iterations < iters {
            let g = grad(&res.minimizer).iter().map(|v| v * v).sum::<f64>().sqrt();
            c.check(g <= t * (1.0 + 1e-6) + 1e-12 * sc * n as f64, "stopped_not_stationary", || format!("{hist} gradient {g} tol {t}"));
        }
        // descent: stable learning rates never increase a convex objective
        c.check(res.minimum <= value(&x0) * (1.0 + 1e-12) + 1e-12 * sc, "increased", || format!("{hist} {} > {}", res.minimum, value(&x0)));
        c.count("steps", steps as u64);
        if steps > 0 { c.case(["quadratic", "quartic", "cosh"][kind as usize], &hist) } else { c.trivial("no step") }
    }
    c.finish()
}
