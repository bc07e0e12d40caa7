//! C32: logistic fits judged by the likelihood equations at the returned point.
use nalgebra::{DMatrix, DVector};
use rqmon::*;
use RustQuant_ml::*;

fn sig(e: f64) -> f64 { if e >= 0.0 { 1.0 / (1.0 + (-e).exp()) } else { let z = e.exp(); z / (1.0 + z) } }

fn main() {
    let mut c = Ctx::new("C32", "1 to 6 features of scales 0.05 to 50 and shifted means, 10 to 3000 rows whose classes overlap by construction (enough points carry both labels), class means that coincide, classes that overlap only close to a boundary or only far from most rows (many iterations, step halving), rare classes, strong and weak effects, tolerances 1e-9 to 1e-4; labels and features that are invalid. Non-trivial: at least two features.");
    for _ in 0..c.n(4000) {
        let mut g = c.fork();
        let p = g.us(1, 6);
        let base = p + 2 + g.us(0, 6);
        let extra = g.size(0, 150, 3000);
        let wild = g.chance(0.4);
        let scale: Vec<f64> = (0..p).map(|_| if wild { g.logr(0.05, 50.0) } else { 1.0 }).collect();
        let loc: Vec<f64> = (0..p).map(|_| if g.chance(0.4) { g.range(-3.0, 3.0) } else { 0.0 }).collect();
        let strength = *g.pick(&[0.0, 0.3, 1.0, 3.0]);
        let beta: Vec<f64> = (0..p).map(|_| strength * g.normal()).collect();
        let b0 = g.range(-2.0, 2.0);
        let kind = g.below(16);
        // nearly separated: the classes overlap only close to a boundary (kinds 12 and 13),
        // or only through a few rows far away from the others (14 and 15, a step then overshoots)
        let near = match kind { 12 | 13 => g.logr(1e-4, 0.5), _ => 1.0 };
        let mut rows: Vec<Vec<f64>> = vec![];
        let mut y: Vec<f64> = vec![];
        for _ in 0..base { let r: Vec<f64> = (0..p).map(|j| scale[j] * (loc[j] + near * g.normal())).collect(); for l in [0.0, 1.0] { rows.push(r.clone()); y.push(l) } }
        if kind == 1 {
            // class means coincide although the classes differ
            for _ in 0..extra / 2 { let r: Vec<f64> = (0..p).map(|j| scale[j] * g.normal()).collect(); let l = f64::from(u8::from(g.bool())); rows.push(r.iter().map(|v| -v).collect()); y.push(l); rows.push(r); y.push(l) }
        } else if kind >= 12 {
            for _ in 0..extra { let z: Vec<f64> = (0..p).map(|_| g.normal()).collect(); let eta = (0..p).map(|j| beta[j] * z[j]).sum::<f64>(); rows.push((0..p).map(|j| scale[j] * (loc[j] + z[j])).collect()); y.push(f64::from(u8::from(eta > 0.0))) }
            if kind >= 14 { for _ in 0..g.us(1, 4) { let far = g.logr(3.0, 100.0); let z: Vec<f64> = (0..p).map(|_| far * g.normal()).collect(); let eta = (0..p).map(|j| beta[j] * z[j]).sum::<f64>(); rows.push((0..p).map(|j| scale[j] * (loc[j] + z[j])).collect()); y.push(f64::from(u8::from(eta <= 0.0))) } }
        } else if kind != 0 {
            for _ in 0..extra { let z: Vec<f64> = (0..p).map(|_| g.normal()).collect(); let eta = b0 + (0..p).map(|j| beta[j] * z[j]).sum::<f64>(); rows.push((0..p).map(|j| scale[j] * (loc[j] + z[j])).collect()); y.push(f64::from(u8::from(g.f() < sig(eta)))) }
        }
        let n = y.len();
        let mut order: Vec<usize> = (0..n).collect();
        g.shuffle(&mut order);
        let x = DMatrix::from_fn(n, p, |i, j| rows[order[i]][j]);
        let y = DVector::from_fn(n, |i, _| y[order[i]]);
        let a = x.clone().insert_column(0, 1.0);
        let s = { let mut a = a.clone(); for mut col in a.column_iter_mut() { let n = col.norm(); if n > 0.0 { col /= n } } a.svd(false, false).singular_values };
        if !(s.max() / s.min() < 50.0) { c.trivial("ill conditioned"); continue }
        let tol = f64::min(*g.pick(&[1e-9, 1e-8, 1.5e-8, 1e-6, 1e-4]) * if wild { 20.0 } else { 1.0 } / near, 2e-3);
        let h = || format!("{n} rows, scales {scale:.3?}, locations {loc:.2?}, strength {strength}, kind {kind}, tolerance {tol} x={:?} y={:?}", (n * p < 40).then(|| x.as_slice().to_vec()), (n < 40).then(|| y.as_slice().to_vec()));
        let input = LogisticRegressionInput::new(x.clone(), y.clone());
        let Some(out) = c.guard("fit", h, || input.fit(LogisticRegressionAlgorithm::IRLS, tol)) else { continue };
        let Ok(out) = out else { c.violate("fit:refused", h); continue };
        if !c.check(out.coefficients.len() == p + 1, "fit:shape", h) { continue }
        let b: Vec<f64> = out.coefficients.iter().copied().collect();
        if !c.check(b.iter().all(|v| v.is_finite()), "fit:not finite", || format!("{} {b:?}", h())) { continue }
        // likelihood equations: the step below the tolerance bounds the gradient by the curvature
        let mu: Vec<f64> = (0..n).map(|i| sig((0..=p).map(|j| a[(i, j)] * b[j]).sum())).collect();
        for j in 0..=p {
            let v: f64 = (0..n).map(|i| a[(i, j)] * (y[i] - mu[i])).sum();
            let size: f64 = (0..n).map(|i| a[(i, j)].abs()).sum();
            let curve: f64 = (0..n).map(|i| mu[i] * (1.0 - mu[i]) * a[(i, j)].abs() * (0..=p).map(|k| a[(i, k)].abs()).sum::<f64>()).sum();
            c.check(v.abs() <= 1e-10 * size + 2.0 * tol * curve, "fit:likelihood equations", || format!("{} component {j}: {v} of {size}, coefficients {b:?}", h()));
        }
        // predictions
        let m = g.us(1, 20);
        let nx = DMatrix::from_fn(m, p, |_, j| scale[j] * (loc[j] + 3.0 * g.normal()));
        let Some((pr, cl)) = c.guard("predict", h, || (out.predict_proba(&nx), out.predict(&nx))) else { continue };
        c.check(pr.len() == m && cl.len() == m, "predict:shape", h);
        for i in 0..m.min(pr.len()) {
            let e = b[0] + (0..p).map(|j| nx[(i, j)] * b[j + 1]).sum::<f64>();
            let sz = (0..p).map(|j| (nx[(i, j)] * b[j + 1]).abs()).sum::<f64>() + b[0].abs();
            c.check((0.0..=1.0).contains(&pr[i]), "predict:not a probability", || format!("{} {}", h(), pr[i]));
            c.close(pr[i], sig(e), 1e-13 * (1.0 + sz), 1e-12, "predict:probability", h);
            c.check(cl[i] == f64::from(u8::from(pr[i] > 0.5)), "predict:class", || format!("{} probability {} class {}", h(), pr[i], cl[i]));
        }
        // scores
        let yt = DVector::from_fn(m, |_, _| f64::from(u8::from(g.bool())));
        let wrong = (0..m).filter(|i| yt[*i] != cl[*i]).count() as f64 / m as f64;
        if let Some(v) = c.guard("score", h, || out.score_misclassification(&yt, &cl)) { c.close(v, wrong, 1e-15, 1e-12, "score:misclassification", h); }
        let pc = pr.map(|p| match g.below(10) { 0 => g.logr(1e-300, 1.0), 1 => 1.0 - g.logr(1e-15, 0.5), _ => p.clamp(1e-9, 1.0 - 1e-9) });
        let ce = -(0..m).map(|i| if yt[i] == 1.0 { pc[i].ln() } else { (1.0 - pc[i]).ln() }).sum::<f64>() / m as f64;
        if let Some(v) = c.guard("score", h, || out.score_cross_entropy(&yt, &pc)) { c.close(v, ce, 1e-12, 1e-12, "score:cross entropy", || format!("{} labels {yt:?} probabilities {pc:?}", h())); }
        // swapping the labels negates the fit
        if g.chance(0.2) {
            let flip = LogisticRegressionInput::new(x.clone(), y.map(|v| 1.0 - v));
            if let Some(Ok(o)) = c.guard("fit", h, || flip.fit(LogisticRegressionAlgorithm::IRLS, tol)) {
                for j in 0..=p { let s = if j == 0 { 1.0 } else { scale[j - 1] }; let close = (1e-6 + 1e2 * tol) * b.iter().map(|v| v.abs()).fold(1.0, f64::max); c.check((o.coefficients[j] + b[j]).abs() * s <= close * s.max(1.0) * 50.0, "fit:labels swapped", || format!("{} {b:?} and {:?}", h(), o.coefficients.as_slice())); }
            }
        }
        if p > 1 { c.case("fit", &h()) } else { c.trivial("one feature") }
        // invalid input
        if g.chance(0.3) {
            let mut bad = y.clone();
            let k = g.us(0, n - 1);
            bad[k] = *g.pick(&[2.0, 0.5, -1.0, 1e-3, 0.999, f64::NAN, f64::INFINITY, -0.5]);
            let r = c.call("fit", || LogisticRegressionInput::new(x.clone(), bad.clone()).fit(LogisticRegressionAlgorithm::IRLS, 1e-6).is_err());
            c.check(!matches!(r, Ok(false)), "invalid response accepted", || format!("{} label {} is {}", h(), k, bad[k]));
            let mut bx = x.clone();
            let (i, j) = (g.us(0, n - 1), g.us(0, p - 1));
            bx[(i, j)] = *g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            let r = c.call("fit", || LogisticRegressionInput::new(bx.clone(), y.clone()).fit(LogisticRegressionAlgorithm::IRLS, 1e-6).is_err());
            c.check(!matches!(r, Ok(false)), "invalid feature accepted", h);
            let r = c.call("new", || LogisticRegressionInput::new(x.clone(), DVector::from_element(n + 1, 1.0)).fit(LogisticRegressionAlgorithm::IRLS, 1e-6).is_err());
            c.check(!matches!(r, Ok(false)), "rows and responses differ", h);
            c.trivial("invalid input");
        }
    }
    c.finish()
}
