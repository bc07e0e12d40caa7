//! C33: nearest-neighbour votes against brute force, activations against their definitions.
use nalgebra::{DMatrix, DVector};
use rqmon::*;
use std::collections::BTreeMap;
use RustQuant_autodiff::*;
use RustQuant_ml::*;

type Act = (&'static str, fn(&f64) -> f64, fn(&DVector<f64>) -> DVector<f64>, for<'v> fn(&Variable<'v>) -> Variable<'v>, fn(f64) -> f64, fn(f64) -> f64);
fn lg(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let z = x.exp(); z / (1.0 + z) } }
fn dlg(x: f64) -> f64 { let z = (-x.abs()).exp(); z / ((1.0 + z) * (1.0 + z)) }
fn softplus(x: f64) -> f64 { x.max(0.0) + (-x.abs()).exp().ln_1p() }
const ACTS: [Act; 8] = [
    ("sigmoid", <f64 as ActivationFunction>::sigmoid, <DVector<f64> as ActivationFunction>::sigmoid, |v| ActivationFunction::sigmoid(v), lg, dlg),
    ("logistic", <f64 as ActivationFunction>::logistic, <DVector<f64> as ActivationFunction>::logistic, |v| ActivationFunction::logistic(v), lg, dlg),
    ("identity", <f64 as ActivationFunction>::identity, <DVector<f64> as ActivationFunction>::identity, |v| ActivationFunction::identity(v), |x| x, |_| 1.0),
    ("relu", <f64 as ActivationFunction>::relu, <DVector<f64> as ActivationFunction>::relu, |v| ActivationFunction::relu(v), |x| x.max(0.0), |x| f64::from(u8::from(x > 0.0))),
    ("gelu", <f64 as ActivationFunction>::gelu, <DVector<f64> as ActivationFunction>::gelu, |v| ActivationFunction::gelu(v), |x| x * num::ncdf(x), |x| num::ncdf(x) + x * num::npdf(x)),
    ("tanh", <f64 as ActivationFunction>::tanh, <DVector<f64> as ActivationFunction>::tanh, |v| ActivationFunction::tanh(v), f64::tanh, |x| 4.0 * dlg(2.0 * x)),
    ("softplus", <f64 as ActivationFunction>::softplus, <DVector<f64> as ActivationFunction>::softplus, |v| ActivationFunction::softplus(v), softplus, lg),
    ("gaussian", <f64 as ActivationFunction>::gaussian, <DVector<f64> as ActivationFunction>::gaussian, |v| ActivationFunction::gaussian(v), |x| (-x * x).exp(), |x| -2.0 * x * (-x * x).exp()),
];

// order-preserving integer keys of labels
fn key(v: f64) -> i64 { let b = (v + 0.0).to_bits() as i64; if b < 0 { i64::MIN.wrapping_sub(b) } else { b } }
fn unkey(k: i64) -> f64 { f64::from_bits(if k < 0 { i64::MIN.wrapping_sub(k) } else { k } as u64) }

fn main() {
    let mut c = Ctx::new("C33", "training sets of 1 to 2000 points in 1 to 60 dimensions, clustered, gridded and far apart, 1 to 6 integer, fractional, huge, tiny or almost equal labels (zeros of both signs) of either sign, the three metrics with powers 1 to 30, k from 1 to beyond the set; eight activations on scalars, vectors and tape variables from -800 to 800. Non-trivial: k above one and at least two labels among the neighbours.");
    for _ in 0..c.n(6000) {
        let mut g = c.fork();
        let (n, p) = (g.size(1, 60, 2000), g.size(1, 6, 60));
        let scale = g.logr(1e-3, 1e3);
        let grid = g.chance(0.15);
        let fractional = g.chance(0.25);
        let labels: Vec<f64> = (0..g.us(1, 6)).map(|_| if fractional { (if g.bool() { 1.0 } else { -1.0 }) * g.pick(&[0.2, 0.5, 0.7, 1.25, 1.75, 1e19, 2e19, 0.7 + 1e-12, 1e19 + 4096.0, 1e-310]) } else { g.i(-5, 5) as f64 }).collect();
        let centres: Vec<Vec<f64>> = labels.iter().map(|_| (0..p).map(|_| 2.0 * g.normal()).collect()).collect();
        let mut x = DMatrix::zeros(n, p);
        let mut y = DVector::zeros(n);
        for i in 0..n {
            let l = g.us(0, labels.len() - 1);
            y[i] = if labels[l] == 0.0 && g.bool() { -0.0 } else { labels[l] };
            for j in 0..p { x[(i, j)] = scale * if grid { g.i(-3, 3) as f64 } else { centres[l][j] + g.normal() }; }
        }
        let (metric, pow, name) = match g.below(5) { 0 => (Metric::Manhattan, 1, "manhattan".to_string()), 1 | 2 => { let q = if g.chance(0.3) { g.i(7, 30) } else { g.i(1, 6) } as i32; (Metric::Minkowski(q), q, format!("minkowski {q}")) } _ => (Metric::Euclidean, 2, "euclidean".to_string()) };
        let k = match g.below(6) { 0 => 1, 1 => n, 2 => n + g.us(1, 5), _ => g.us(1, n) };
        let m = g.us(1, 8);
        let q = DMatrix::from_fn(m, p, |_, j| if g.chance(0.1) { x[(g.us(0, n - 1), j)] } else { scale * if grid { g.i(-3, 3) as f64 } else { 2.5 * g.normal() } });
        let knn = KNearestClassifier::new(x.clone(), y.clone(), metric);
        let h = || format!("{name}, k={k}, {n} points of {p} features, points {:?} labels {:?} queries {:?}", (n * p <= 30).then(|| x.as_slice().to_vec()), (n <= 30).then(|| y.as_slice().to_vec()), q.as_slice());
        let Some(got) = c.guard("predict", h, || knn.predict(&q, &k)) else { continue };
        if !c.check(got.len() == m, "predict:number", h) { continue }
        for i in 0..m {
            let mut d: Vec<(f64, f64)> = (0..n).map(|r| ((0..p).map(|j| ((x[(r, j)] - q[(i, j)]) / scale).abs().powi(pow)).sum::<f64>().powf(1.0 / f64::from(pow)), y[r])).collect();
            d.sort_by(|a, b| a.0.total_cmp(&b.0));
            let kk = k.min(n);
            let mut count: BTreeMap<i64, usize> = BTreeMap::new();
            for v in &d[..kk] { *count.entry(key(v.1)).or_insert(0) += 1 }
            let top = *count.values().max().unwrap();
            let winners: Vec<f64> = count.iter().filter(|(_, v)| **v == top).map(|(k, _)| unkey(*k)).collect();
            // neighbours at the boundary that cannot be told apart
            let edge = kk < n && d[kk].0 - d[kk - 1].0 <= 1e-9 * (1.0 + d[kk].0);
            if edge {
                // only labels that some admissible choice of neighbours elects
                let r = d[kk - 1].0;
                let tied: Vec<f64> = d.iter().filter(|v| (v.0 - r).abs() <= 1e-8 * (1.0 + r)).map(|v| v.1).collect();
                let near: Vec<f64> = d.iter().filter(|v| v.0 < r - 1e-8 * (1.0 + r)).map(|v| v.1).collect();
                let free = kk - near.len().min(kk);
                let own = near.iter().filter(|l| **l == got[i]).count() + tied.iter().filter(|l| **l == got[i]).count().min(free);
                let needed = count.keys().filter(|l| unkey(**l) != got[i]).map(|l| near.iter().filter(|v| key(**v) == *l).count()).max().unwrap_or(0);
                c.check(own >= needed.max(1), "predict:not among the nearest", || format!("{} query {i}: {}", h(), got[i]));
                c.trivial("distance tie");
                continue;
            }
            c.check(winners.contains(&got[i]), "predict:not the majority", || format!("{} query {i}: {} among {count:?}", h(), got[i]));
            if kk > 1 && count.len() > 1 && winners.len() == 1 { c.case("vote", &format!("{name}{k}{:?}{i}", x.as_slice())) } else { c.trivial("one neighbour or one label") }
        }
        if g.chance(0.05) {
            let bad = c.call("predict", || knn.predict(&DMatrix::zeros(1, p + 1), &k)).is_err();
            let short = c.call("new", || KNearestClassifier::new(x.clone(), DVector::zeros(n + 1), Metric::Euclidean).y.len()).is_err();
            c.check(bad && short, "mismatched shapes accepted", h);
        }
    }
    for round in 0..c.n(12000) {
        let mut g = c.fork();
        let (name, f, fv, ft, want, dwant) = ACTS[(round % 8) as usize];
        let x = match g.below(8) { 0 => 0.0, 1 => *g.pick(&[800.0, -800.0, 720.0, -720.0, 40.0, -40.0, 1.0, -1.0]), 2 => g.range(-300.0, 300.0), 3 => (if g.bool() { 1.0 } else { -1.0 }) * g.logr(1e-12, 1.0), _ => g.range(-8.0, 8.0) };
        let h = || format!("{name}({x})");
        let tol = (1e-14 * (1.0 + x.abs()), 1e-12);
        let atol = if name == "gelu" { 1e-13 * (1.0 + x.abs()) } else { 1e-15 };
        let Some(v) = c.guard("activation", h, || f(&x)) else { continue };
        c.close(v, want(x), atol, 1e-12, &format!("scalar:{name}"), h);
        let len = g.us(0, 6);
        let vec = DVector::from_fn(len, |i, _| if i == 0 { x } else { g.range(-10.0, 10.0) });
        if let Some(w) = c.guard("activation", h, || fv(&vec)) {
            c.check(w.len() == len, &format!("vector:{name}:length"), h);
            for i in 0..len.min(w.len()) { c.close(w[i], want(vec[i]), atol.max(if name == "gelu" { 1e-12 } else { 0.0 }), 1e-12, &format!("vector:{name}"), || format!("{name} of {vec:?}")); }
        }
        let res = c.guard("activation", h, || { let gr = Graph::new(); let v = gr.var(x); let z = ft(&v); (z.value(), if name == "identity" { 1.0 } else { z.accumulate().wrt(&v) }) });
        if let Some((v, d)) = res {
            c.close(v, want(x), atol, 1e-12, &format!("variable:{name}"), h);
            let kink = name == "relu" && x.abs() < 1e-300;
            if !kink && x.abs() < 300.0 { c.close(d, dwant(x), tol.0, 1e-11, &format!("gradient:{name}"), h); }
        }
        if x != 0.0 { c.case(name, &format!("{x}")) } else { c.trivial("at zero") }
    }
    c.finish()
}
