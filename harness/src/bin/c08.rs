//! C08: interpolators against independent formulas.
use rqmon::*;
use time::{Duration, OffsetDateTime};
use RustQuant_math::interpolation::*;

/// B-spline value by de Boor's algorithm (not the Cox-de Boor basis recursion).
fn de_boor(t: &[f64], p: &[f64], k: usize, x: f64) -> f64 {
    // span: last index s in [k, n-1] with t[s] <= x, and t[s] < t[s+1]
    let n = p.len();
    let mut s = k;
    for i in k..n { if t[i] <= x && t[i] < t[i + 1] { s = i; } }
    let mut d: Vec<f64> = (0..=k).map(|j| p[j + s - k]).collect();
    for r in 1..=k {
        for j in (r..=k).rev() {
            let (a, b) = (t[j + s - k], t[j + 1 + s - r]);
            let w = if b > a { (x - a) / (b - a) } else { 0.0 };
            d[j] = (1.0 - w) * d[j - 1] + w * d[j];
        }
    }
    d[k]
}

fn main() {
    let mut c = Ctx::new("C08", "random knot sets (equal/unequal/tiny/huge spacing, supplied unsorted, added one by one) on f64, date and date-time axes for the linear, exponential and B-spline interpolators; queries at knots, between them, at both ends and outside. Non-trivial: strictly between knots, or outside the range.");
    let now = OffsetDateTime::from_unix_timestamp(1_500_000_000).unwrap();
    for round in 0..c.n(6000) {
        let mut r = c.fork();
        let exp = round % 2 == 1;
        let n = r.size(1, 12, 400);
        let scale = *r.pick(&[1e-6, 1.0, 1.0, 1e4]);
        let off = if r.bool() { 0.0 } else { r.range(-5.0, 5.0) * scale };
        let mut xs: Vec<f64> = vec![];
        let equal = r.chance(0.3);
        while xs.len() < n {
            let x = if equal { off + xs.len() as f64 * scale } else { off + r.range(-1.0, 1.0) * scale };
            if xs.iter().all(|y| (y - x).abs() > 1e-6 * scale) { xs.push(x) }
        }
        let pts: Vec<(f64, f64)> = xs.iter().map(|x| (*x, if exp { r.logr(1e-3, 50.0) } else { r.range(-3.0, 3.0) })).collect();
        let mut order = pts.clone();
        r.shuffle(&mut order);
        let k = r.us(1, n); // the first k at construction, the rest added
        let mut sorted = pts.clone();
        sorted.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let name = if exp { "exponential" } else { "linear" };
        let hist = format!("{name} n={n} built={k} {order:?}");
        let mk = |xs: Vec<f64>, ys: Vec<f64>| -> Result<Box<dyn Interpolator<f64, f64>>, String> {
            if exp { ExponentialInterpolator::new(xs, ys).map(|i| Box::new(i) as Box<dyn Interpolator<f64, f64>>).map_err(|e| e.to_string()) }
            else { LinearInterpolator::new(xs, ys).map(|i| Box::new(i) as Box<dyn Interpolator<f64, f64>>).map_err(|e| e.to_string()) }
        };
        let Some(it) = c.guard(&format!("{name}:new"), || hist.clone(), || mk(order[..k].iter().map(|p| p.0).collect(), order[..k].iter().map(|p| p.1).collect())) else { continue };
        let Ok(mut it) = it else { c.violate(&format!("{name}:new_error"), || hist.clone()); continue };
        if r.bool() { let _ = it.fit(); }
        for p in &order[k..] { it.add_point(*p); if r.chance(0.2) { let _ = it.interpolate(p.0); } }
        if r.bool() { let _ = it.fit(); }
        let (lo, hi) = (sorted[0].0, sorted[n - 1].0);
        c.check(it.range() == (lo, hi), &format!("{name}:range"), || format!("{hist} {:?}", it.range()));
        let ask = |c: &mut Ctx, x: f64| c.guard(&format!("{name}:interpolate"), || format!("{hist} x={x}"), || it.interpolate(x).map_err(|e| e.to_string()));
        for p in &sorted {
            if let Some(g) = ask(&mut c, p.0) { c.check(g == Ok(p.1), &format!("{name}:knot"), || format!("{hist} x={} {g:?}", p.0)); }
            c.trivial("knots");
        }
        for w in sorted.windows(2) {
            for f in [0.5, r.f(), 1e-9, 1.0 - 1e-9] {
                let x = w[0].0 + (w[1].0 - w[0].0) * f;
                if x <= w[0].0 || x >= w[1].0 { continue }
                let u = (x - w[0].0) / (w[1].0 - w[0].0);
                let want = if exp { (w[0].1.ln() * (1.0 - u) + w[1].1.ln() * u).exp() } else { w[0].1 * (1.0 - u) + w[1].1 * u };
                if let Some(g) = ask(&mut c, x) {
                    match g {
                        Ok(v) => { c.close(v, want, 1e-9, 1e-9, &format!("{name}:between"), || format!("{hist} x={x}")); }
                        Err(e) => c.violate(&format!("{name}:between_error"), || format!("{hist} x={x} {e}")),
                    }
                }
                c.case(&format!("{name}_between"), &format!("{hist} {x}"));
            }
        }
        for x in [lo - scale * 1e-3, hi + scale * 1e-3, lo - 10.0 * scale, hi + 10.0 * scale, f64::NEG_INFINITY, f64::INFINITY] {
            if let Some(g) = ask(&mut c, x) { c.check(g.is_err(), &format!("{name}:outside_range"), || format!("{hist} x={x} {g:?}")); }
            c.case(&format!("{name}_outside"), &format!("{hist} {x}"));
        }
        // malformed
        if let Some(g) = c.guard(&format!("{name}:unequal"), || hist.clone(), || mk(xs.clone(), vec![1.0; n + 1 - 2 * (r.bool() as usize)]).is_err()) {
            c.check(g, &format!("{name}:unequal_lengths_accepted"), || hist.clone());
        }
        // date-time axis (whole seconds); the same curve
        if n >= 2 && scale == 1e4 {
            let q = |x: f64| now + Duration::seconds(x as i64);
            let mut s2: Vec<(i64, f64)> = sorted.iter().map(|p| (p.0 as i64, p.1)).collect();
            s2.dedup_by_key(|p| p.0);
            let (a, b): (Vec<_>, Vec<_>) = s2.iter().rev().map(|p| (now + Duration::seconds(p.0), p.1)).unzip();
            let x = s2[0].0 as f64 + r.f() * (s2[s2.len() - 1].0 - s2[0].0) as f64;
            let got = c.guard(&format!("{name}:datetime"), || hist.clone(), || if exp { ExponentialInterpolator::new(a, b).unwrap().interpolate(q(x)).ok() } else { LinearInterpolator::new(a, b).unwrap().interpolate(q(x)).ok() }).flatten();
            let xi = (x as i64) as f64;
            let j = s2.iter().position(|p| p.0 as f64 >= xi).unwrap();
            let want = if j == 0 { s2[0].1 } else {
                let u = (xi - s2[j - 1].0 as f64) / (s2[j].0 - s2[j - 1].0) as f64;
                if exp { (s2[j - 1].1.ln() * (1.0 - u) + s2[j].1.ln() * u).exp() } else { s2[j - 1].1 * (1.0 - u) + s2[j].1 * u }
            };
            c.close(got.unwrap_or(f64::NAN), want, 1e-9, 1e-9, &format!("{name}:datetime"), || format!("{s2:?} x={xi}"));
            c.case(&format!("{name}_datetime"), &format!("{hist} {x}"));
        }
    }
    // B-splines
    for round in 0..c.n(4000) {
        let mut r = c.fork();
        let k = r.us(0, 4);
        let n = r.size(k + 1, k + 8, 80);
        let clamped = r.bool();
        let scale = *r.pick(&[1e-3, 1.0, 100.0]);
        let mut t: Vec<f64> = vec![];
        let mut x = r.range(-1.0, 1.0) * scale;
        if clamped {
            for _ in 0..=k { t.push(x); }
            for _ in 0..n - k - 1 { if !r.chance(0.12) || t.len() == k + 1 { x += r.range(0.05, 1.0) * scale; } t.push(x); }
            x += r.range(0.05, 1.0) * scale;
            for _ in 0..=k { t.push(x); }
        } else {
            for _ in 0..n + k + 1 { t.push(x); x += if round % 3 == 0 { scale } else { r.range(0.05, 1.0) * scale }; }
        }
        let p: Vec<f64> = (0..n).map(|_| r.range(-5.0, 5.0)).collect();
        let kind = if clamped { "clamped" } else { "open" };
        let hist = format!("bspline {kind} degree={k} t={t:?} p={p:?}");
        let mut shuffled = t.clone();
        r.shuffle(&mut shuffled);
        // optionally some knots, anywhere, are added afterwards; their control points go last
        let late = if n > k + 1 { r.us(0, n - k - 1) } else { 0 };
        let it = if late == 0 { c.guard("bspline:new", || hist.clone(), || BSplineInterpolator::new(shuffled.clone(), p.clone(), k)) }
            else { c.guard("bspline:new", || hist.clone(), || BSplineInterpolator::new(shuffled[..t.len() - late].to_vec(), p[..n - late].to_vec(), k)) };
        let Some(Ok(mut it)) = it else { c.violate("bspline:new_error", || hist.clone()); continue };
        for i in 0..late { it.add_point((shuffled[t.len() - late + i], p[n - late + i])); }
        let _ = it.fit();
        c.check(it.range() == (t[0], t[t.len() - 1]), "bspline:range", || hist.clone());
        let (lo, hi) = (t[k], t[n]);
        let mut xs = vec![lo, hi];
        for _ in 0..8 { xs.push(lo + (hi - lo) * r.f()); }
        xs.extend(&t[k..=n]);
        for x in xs {
            let Some(g) = c.guard("bspline:interpolate", || format!("{hist} x={x}"), || it.interpolate(x).map_err(|e| e.to_string())) else { continue };
            // at an interior knot of multiplicity > degree the curve jumps: right limit, as de_boor takes
            let want = de_boor(&t, &p, k, x);
            match g {
                Ok(v) => { c.close(v, want, 1e-8, 1e-8, if x == hi { "bspline:right_end" } else { "bspline:value" }, || format!("{hist} x={x}")); }
                Err(e) => c.violate("bspline:error_inside", || format!("{hist} x={x} {e}")),
            }
            c.case(&format!("bspline_{kind}"), &format!("{hist} {x}"));
        }
        let e = (hi - lo) * 1e-6;
        for x in [lo - e, hi + e, lo - scale * 50.0, hi + scale * 50.0] {
            if let Some(g) = c.guard("bspline:outside", || hist.clone(), || it.interpolate(x).is_err()) { c.check(g, "bspline:outside_range", || format!("{hist} x={x}")); }
            c.case("bspline_outside", &format!("{hist} {x}"));
        }
        let bad = if r.bool() { n + k } else { n + k + 2 };
        if let Some(g) = c.guard("bspline:bad", || hist.clone(), || BSplineInterpolator::new((0..bad).map(|i| i as f64).collect(), p.clone(), k).is_err()) {
            c.check(g, "bspline:wrong_knot_count_accepted", || hist.clone());
        }
    }
    c.finish()
}
