//! C31: fitted linear models judged by the optimality conditions of their objective.
use nalgebra::{DMatrix, DVector};
use rqmon::*;
use RustQuant_ml::*;

struct Data { x: DMatrix<f64>, y: DVector<f64>, text: String, scale: Vec<f64> }
fn data(g: &mut Rng, p: usize, n: usize) -> Data {
    // columns of different scales and locations, optionally correlated, with bounded conditioning
    let scale: Vec<f64> = (0..p).map(|_| if g.chance(0.3) { g.logr(1e-2, 1e2) } else { g.range(0.5, 2.0) }).collect();
    let loc: Vec<f64> = (0..p).map(|_| if g.chance(0.5) { 0.0 } else { g.range(-3.0, 3.0) }).collect();
    let corr = if g.chance(0.3) { g.range(0.0, 0.95) } else { 0.0 };
    let ints = g.chance(0.15);
    let mut x = DMatrix::zeros(n, p);
    for i in 0..n {
        let common = g.normal();
        for j in 0..p { let z = corr * common + (1.0 - corr * corr).sqrt() * g.normal(); x[(i, j)] = if ints { g.i(-4, 4) as f64 } else { scale[j] * (loc[j] + z) } }
    }
    let beta: Vec<f64> = (0..p).map(|_| if g.chance(0.3) { 0.0 } else { g.range(-3.0, 3.0) }).collect();
    let (b0, noise) = (if g.chance(0.7) { g.range(-5.0, 5.0) } else { 0.0 }, if g.chance(0.2) { 0.0 } else { g.logr(1e-3, 3.0) });
    let y = DVector::from_fn(n, |i, _| b0 + (0..p).map(|j| x[(i, j)] * beta[j] / scale[j]).sum::<f64>());
    let y = y.map(|v| v + noise * g.normal());
    Data { x, y, text: format!("{n} rows, {p} columns, scales {scale:.3?}, locations {loc:.2?}, correlation {corr:.2}, noise {noise:.3}"), scale }
}
/// Gradient of half the squared residuals with respect to each coefficient, and the size of its terms.
fn grad(d: &Data, b0: f64, b: &[f64]) -> (f64, f64, Vec<(f64, f64)>) {
    let r: Vec<f64> = (0..d.y.len()).map(|i| d.y[i] - b0 - (0..b.len()).map(|j| d.x[(i, j)] * b[j]).sum::<f64>()).collect();
    let s: Vec<f64> = (0..d.y.len()).map(|i| d.y[i].abs() + b0.abs() + (0..b.len()).map(|j| (d.x[(i, j)] * b[j]).abs()).sum::<f64>()).collect();
    (r.iter().sum(), s.iter().sum(), (0..b.len()).map(|j| (r.iter().enumerate().map(|(i, r)| r * d.x[(i, j)]).sum::<f64>(), s.iter().enumerate().map(|(i, s)| (s * d.x[(i, j)]).abs()).sum::<f64>())).collect())
}
/// Condition number of the columns, with a constant one, each scaled to unit length.
fn cond(x: &DMatrix<f64>, constant: bool) -> f64 {
    let mut a = if constant { x.clone().insert_column(0, 1.0) } else { x.clone() };
    for mut col in a.column_iter_mut() { let n = col.norm(); if n > 0.0 { col /= n } }
    let s = a.svd(false, false).singular_values;
    s.max() / s.min()
}
fn rawcond(x: &DMatrix<f64>, constant: bool) -> f64 {
    let a = if constant { x.clone().insert_column(0, 1.0) } else { x.clone() };
    let s = a.svd(false, false).singular_values;
    s.max() / s.min()
}

/// Relative error to expect of an explicitly inverted matrix of condition k: inverses up to order four go by cofactors.
fn small(k: f64, order: usize, n: usize) -> f64 { if order <= 4 { 1e-14 * k * k + 1e-11 } else { 1e-14 * k * n as f64 + 1e-11 } }
/// The decomposition the library takes from its linear algebra crate does not reproduce this matrix.
fn inexact_svd(x: &DMatrix<f64>) -> bool {
    let a = x.clone().insert_column(0, 1.0);
    let s = a.clone().svd(true, true);
    (s.u.unwrap() * DMatrix::from_diagonal(&s.singular_values) * s.v_t.unwrap() - &a).norm() > 1e-11 * a.norm()
}

fn main() {
    let mut c = Ctx::new("C31", "1 to 8 columns, 2 to 2500 rows, columns of scales 0.01 to 100 and shifted means, correlated, integer-valued, with and without intercept and noise, penalties zero to large; least squares by the three decompositions, ridge and lasso. Non-trivial: at least two columns and noise.");
    for _ in 0..c.n(4000) {
        let mut g = c.fork();
        let p = g.us(1, 8);
        let wide = p > 2 && g.chance(0.12);
        let n = if wide { g.us(2, p) } else { p + 1 + if g.chance(0.2) { 0 } else { g.size(1, 70, 2500) } };
        let d = data(&mut g, p, n);
        let h = || format!("{} x={:?} y={:?}", d.text, (n * p <= 24).then(|| d.x.as_slice().to_vec()), (n <= 12).then(|| d.y.as_slice().to_vec()));
        let rc = rawcond(&d.x, true);
        if !wide && !(cond(&d.x, true) < 1e4 && rc < 1e5) { c.trivial("ill conditioned"); continue }
        // least squares
        let input = LinearRegressionInput::new(d.x.clone(), d.y.clone());
        let new = data(&mut g, p, 3);
        if !wide { for (name, m, k) in [("normal equations", Decomposition::None, rc * rc), ("qr", Decomposition::QR, rc), ("svd", Decomposition::SVD, rc)] {
            let hh = || format!("{name}: {}", h());
            let Some(out) = c.guard("least squares", hh, || input.fit(m)) else { continue };
            let Ok(out) = out else { c.violate("least squares:refused", hh); continue };
            if !c.check(out.coefficients.len() == p + 1 && out.coefficients[0] == out.intercept, "least squares:shape", hh) { continue }
            let b: Vec<f64> = out.coefficients.iter().skip(1).copied().collect();
            let (g0, s0, gr) = grad(&d, out.intercept, &b);
            let tol = match name { "svd" => 1e-14 * k * n as f64 + 1e-8, "qr" => 1e-14 * k * n as f64 + 1e-11, _ => small(k, p + 1, n) };
            if !(tol < 1e-5) { continue }
            let exact = g0.abs() <= tol * s0 && gr.iter().all(|(v, s)| v.abs() <= tol * s);
            if name == "svd" && !exact && inexact_svd(&d.x) { c.violate("least squares:svd:library decomposition inexact", || format!("{} residual sum {g0} of {s0}", hh())); continue }
            c.check(g0.abs() <= tol * s0, "least squares:normal equations", || format!("{} residual sum {g0} of {s0}", hh()));
            for (j, (v, s)) in gr.iter().enumerate() { c.check(v.abs() <= tol * s, "least squares:normal equations", || format!("{} column {j}: {v} of {s}", hh())); }
            let Some(Ok(pr)) = c.guard("predict", hh, || out.predict(new.x.clone())) else { c.violate("predict:refused", hh); continue };
            for i in 0..3 { let w = out.intercept + (0..p).map(|j| new.x[(i, j)] * b[j]).sum::<f64>(); let sz = out.intercept.abs() + (0..p).map(|j| (new.x[(i, j)] * b[j]).abs()).sum::<f64>(); c.close(pr[i], w, 1e-13 * sz, 1e-12, "least squares:prediction", hh); }
        }
        }
        // ridge
        let inter = g.bool();
        let lambda = match g.below(4) { 0 if !wide => 0.0, 1 => g.logr(1e2, 1e4), _ => g.logr(1e-3, 1e2) };
        let hh = || format!("ridge penalty {lambda} intercept {inter}: {}", h());
        if let Some(Ok(out)) = c.guard("ridge", hh, || RidgeRegressionInput::new(d.x.clone(), d.y.clone(), lambda, inter, 1000, 1e-9).fit()) {
            let b: Vec<f64> = out.coefficients.iter().skip(1).copied().collect();
            if c.check(b.len() == p && out.coefficients[0] == out.intercept && (inter || out.intercept == 0.0), "ridge:shape", hh) {
                let (g0, s0, gr) = grad(&d, out.intercept, &b);
                let rr = if wide {
                    let a = if inter { d.x.clone().insert_column(0, 1.0) } else { d.x.clone() };
                    let mut k = a.transpose() * a;
                    for j in usize::from(inter)..k.nrows() { k[(j, j)] += lambda }
                    let e = k.symmetric_eigenvalues();
                    e.max() / e.min()
                } else { rc * rc };
                let tol = small(rr, p + usize::from(inter), n);
                if !(tol < 1e-5) { c.trivial("ill conditioned"); continue }
                if inter { c.check(g0.abs() <= tol * s0, "ridge:intercept condition", || format!("{} residual sum {g0} of {s0}", hh())); }
                for (j, (v, s)) in gr.iter().enumerate() { let e = v - lambda * b[j]; c.check(e.abs() <= tol * (s + lambda * b[j].abs()), "ridge:normal equations", || format!("{} column {j}: {v} against penalty {}", hh(), lambda * b[j])); }
                if let Some(Ok(pr)) = c.guard("predict", hh, || out.predict(new.x.clone())) { for i in 0..3 { let w = out.intercept + (0..p).map(|j| new.x[(i, j)] * b[j]).sum::<f64>(); let sz = out.intercept.abs() + (0..p).map(|j| (new.x[(i, j)] * b[j]).abs()).sum::<f64>(); c.close(pr[i], w, 1e-13 * sz, 1e-12, "ridge:prediction", hh); } } else { c.violate("predict:refused", hh); }
            }
        } else { c.violate("ridge:refused", hh); }
        // lasso: half the mean squared residual plus the penalty on absolute coefficients
        let inter = g.bool();
        let top = { let my = if inter { d.y.mean() } else { 0.0 }; (0..p).map(|j| { let mx = if inter { d.x.column(j).mean() } else { 0.0 }; ((0..n).map(|i| (d.x[(i, j)] - mx) * (d.y[i] - my)).sum::<f64>() / n as f64).abs() }).fold(0.0, f64::max) };
        let lambda = match g.below(6) { 0 if !wide => 0.0, 1 => top * g.range(1.0, 1.5) + 1e-9, _ => top * g.logr(if wide { 0.02 } else { 1e-4 }, 1.0) };
        let (tol, maxit) = (*g.pick(&[1e-10, 1e-8, 1e-6]), 200_000);
        let hh = || format!("lasso penalty {lambda} intercept {inter} tolerance {tol}: {}", h());
        if !wide && cond(&d.x, inter) > 60.0 { c.trivial("slow descent"); continue }
        if let Some(Ok(out)) = c.guard("lasso", hh, || LassoInput::new(d.x.clone(), d.y.clone(), lambda, inter, maxit, tol).fit()) {
            let b: Vec<f64> = out.coefficients.iter().skip(1).copied().collect();
            if c.check(b.len() == p && out.coefficients[0] == out.intercept && (inter || out.intercept == 0.0), "lasso:shape", hh) {
                let (g0, s0, gr) = grad(&d, out.intercept, &b);
                let nn = n as f64;
                if inter { c.check(g0.abs() <= 1e-11 * s0, "lasso:intercept condition", || format!("{} residual sum {g0} of {s0}", hh())); }
                for (j, (v, s)) in gr.iter().enumerate() {
                    // moving every coefficient by the tolerance changes the gradient by at most this
                    let slack = tol * (0..p).map(|k| { let (mj, mk) = if inter { (d.x.column(j).mean(), d.x.column(k).mean()) } else { (0.0, 0.0) }; ((0..n).map(|i| (d.x[(i, j)] - mj) * (d.x[(i, k)] - mk)).sum::<f64>() / nn).abs() }).sum::<f64>() + 1e-11 * s / nn;
                    let v = v / nn;
                    let ok = if b[j] == 0.0 { v.abs() <= lambda + slack } else { (v - lambda * b[j].signum()).abs() <= slack };
                    c.check(ok, "lasso:optimality", || format!("{} column {j}: coefficient {} gradient {v} slack {slack}", hh(), b[j]));
                }
                if lambda > top * (1.0 + 1e-9) { c.check(b.iter().all(|v| *v == 0.0), "lasso:large penalty", || format!("{} {b:?}", hh())); }
                if let Some(Ok(pr)) = c.guard("predict", hh, || out.predict(new.x.clone())) { for i in 0..3 { let w = out.intercept + (0..p).map(|j| new.x[(i, j)] * b[j]).sum::<f64>(); let sz = out.intercept.abs() + (0..p).map(|j| (new.x[(i, j)] * b[j]).abs()).sum::<f64>(); c.close(pr[i], w, 1e-13 * sz, 1e-12, "lasso:prediction", hh); } } else { c.violate("predict:refused", hh); }
            }
        } else { c.violate("lasso:refused", hh); }
        // a column that says nothing (all zero, or constant next to an intercept) gets no weight and changes nothing
        if !wide && n <= 70 {
            let at = g.us(0, p);
            let (inter, flat) = (g.bool(), g.bool());
            let value = if inter && flat { g.i(-9, 9) as f64 } else { 0.0 };
            let x = d.x.clone().insert_column(at, value);
            let lambda = *g.pick(&[0.0, 0.3 * top, 0.01 * top]);
            let hh = || format!("lasso penalty {lambda} intercept {inter}, column {at} all {value}: {}", h());
            if cond(&d.x, inter) <= 60.0 {
                let fit = |x: &DMatrix<f64>| LassoInput::new(x.clone(), d.y.clone(), lambda, inter, 200_000, 1e-9).fit();
                if let Some((Ok(a), Ok(b))) = c.guard("lasso", hh, || (fit(&d.x), fit(&x))) {
                    let z = b.coefficients[at + 1];
                    c.check(z == 0.0 && b.coefficients.clone().remove_row(at + 1).iter().zip(a.coefficients.iter()).all(|(u, v)| (u - v).abs() <= 1e-7 * (1.0 + v.abs())), "lasso:empty column", || format!("{}: {:?} without it, {:?} with it", hh(), a.coefficients.as_slice(), b.coefficients.as_slice()));
                }
            }
            let x = d.x.clone().insert_column(at, 0.0);
            let lambda = g.logr(1e-3, 1e2);
            let hh = || format!("ridge penalty {lambda} intercept {inter}, column {at} all zero: {}", h());
            let fit = |x: &DMatrix<f64>| RidgeRegressionInput::new(x.clone(), d.y.clone(), lambda, inter, 1000, 1e-9).fit();
            if let Some((Ok(a), Ok(b))) = c.guard("ridge", hh, || (fit(&d.x), fit(&x))) {
                let tol = small(rc * rc, p + 2, n).max(1e-10);
                if tol < 1e-5 { c.check(b.coefficients[at + 1].abs() <= 1e-12 && b.coefficients.clone().remove_row(at + 1).iter().zip(a.coefficients.iter()).all(|(u, v)| (u - v).abs() <= tol * (1.0 + a.coefficients.amax())), "ridge:empty column", || format!("{}: {:?} without it, {:?} with it", hh(), a.coefficients.as_slice(), b.coefficients.as_slice())); }
            }
        }
        if p > 1 { c.case("regression", &d.text) } else { c.trivial("one column") }
        let _ = &d.scale;
    }
    // fixed search for a matrix whose singular values the linear algebra crate gets wrong
    let mut g = Rng::new(20240229);
    for _ in 0..20000 {
        let (p, n) = (g.us(1, 8), g.us(12, 60));
        let d = data(&mut g, p, n);
        if !(rawcond(&d.x, true) < 1e5 && inexact_svd(&d.x)) { continue }
        let Some(Ok(out)) = c.guard("least squares", || d.text.clone(), || LinearRegressionInput::new(d.x.clone(), d.y.clone()).fit(Decomposition::SVD)) else { continue };
        let b: Vec<f64> = out.coefficients.iter().skip(1).copied().collect();
        let (g0, s0, gr) = grad(&d, out.intercept, &b);
        if g0.abs() <= 1e-7 * s0 && gr.iter().all(|(v, s)| v.abs() <= 1e-7 * s) { continue }
        c.violate("least squares:svd:library decomposition inexact", || format!("{} residual sum {g0} of {s0}", d.text));
        break;
    }
    c.finish()
}
