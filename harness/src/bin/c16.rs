//! C16: grids, repetitions and running sums, and the approximate-equality macro.
use rqmon::*;
use RustQuant_math::sequences::Sequence;
use RustQuant_utils::assert_approx_equal;

fn main() {
    let mut c = Ctx::new("C16", "random starts, ends, steps and lengths on f64, f32 and integer types; running sums of random vectors; the approximate-equality macro at and around its tolerance. Non-trivial: more than one element.");
    c.assume("linspace of one point is not a number by the library's own test; integer linspace is judged only when the span is divisible; seq is judged for a positive step, start not after end, and end + step representable");
    for _ in 0..c.n(30_000) {
        let mut r = c.fork();
        // linspace
        let sc = if r.chance(0.2) { 10f64.powf(r.range(-9.0, 9.0)) } else { 1.0 };
        let (a, w, n) = (sc * r.range(-1e3, 1e3), sc * r.logr(1e-3, 1e4), match r.below(4) { 0 => 2, 1 => 3, 2 => r.us(100, 1000), _ => r.size(2, 50, 200_000) });
        let b = a + w;
        let hist = format!("{a} {b} {n}");
        if let Some(v) = c.guard("linspace", || hist.clone(), || f64::linspace(a, b, n)) {
            c.check(v.len() == n, "linspace:len", || hist.clone());
            let t = 1e-15 * n as f64 * (a.abs() + w);
            c.check(v.first() == Some(&a) && v.last().is_some_and(|l| (l - b).abs() <= t), "linspace:ends", || format!("{hist} {:?} {:?}", v.first(), v.last()));
            c.check(v.iter().enumerate().all(|(i, x)| (x - (a + w * i as f64 / (n - 1) as f64)).abs() <= t), "linspace:spacing", || hist.clone());
            c.case("linspace", &hist);
        }
        let (ia, k, st) = (r.i(-1000, 1000), r.us(2, 60), r.i(1, 40));
        if let Some(v) = c.guard("linspace_int", || format!("{ia} {k} {st}"), || i64::linspace(ia, ia + st * (k as i64 - 1), k)) {
            c.check(v == (0..k as i64).map(|i| ia + st * i).collect::<Vec<_>>(), "linspace:int", || format!("{ia} {k} {st} {v:?}"));
        }
        for (x, y, m) in [(b, a, n), (a, a, n), (a, b, 0)] {
            let e = c.call("invalid", || f64::linspace(x, y, m)).is_err();
            c.check(e, "linspace:accepts_invalid", || format!("{x} {y} {m}"));
        }
        // seq
        let step = w / if r.chance(0.01) { r.range(200.0, 2e5) } else { r.range(0.7, 200.0) };
        if w >= 0.0 { let h = format!("seq {a} {b} {step}");
            if let Some(v) = c.guard("seq", || h.clone(), || f64::seq(a, b, step)) {
                let t = 1e-13 * (a.abs() + w) * (1.0 + v.len() as f64 / 10.0);
                c.check(v.first() == Some(&a), "seq:start", || h.clone());
                c.check(v.iter().enumerate().all(|(i, x)| (x - (a + step * i as f64)).abs() <= t), "seq:spacing", || h.clone());
                let l = v.last().copied().unwrap_or(f64::NAN);
                c.check(l <= b && l + step > b - t, "seq:end", || format!("{h} last {l}"));
                c.case("seq", &h);
            } }
        let (ib, is) = (ia + r.i(0, 500), r.i(1, 60));
        if let Some(v) = c.guard("seq_int", || format!("{ia} {ib} {is}"), || i32::seq(ia as i32, ib as i32, is as i32)) {
            c.check(v == (ia as i32..=ib as i32).step_by(is as usize).collect::<Vec<_>>(), "seq:int", || format!("{ia} {ib} {is} {v:?}"));
        }
        let (ua, ub, us) = (r.us(0, 100), r.us(100, 400), r.us(1, 30));
        if let Some(v) = c.guard("seq_uint", || format!("{ua} {ub} {us}"), || usize::seq(ua, ub, us)) { c.check(v == (ua..=ub).step_by(us).collect::<Vec<_>>(), "seq:uint", || format!("{ua} {ub} {us} {v:?}")); }
        // rep, cumsum
        let m = r.us(0, 200);
        if let Some((p, q)) = c.guard("rep", || format!("{a} {m}"), || (f64::rep(a, m), i32::rep(7, m))) { c.check(p == vec![a; m] && q == vec![7; m], "rep", || format!("{a} {m}")); }
        let m = if r.chance(0.003) { 20_000 } else { m };
        let x: Vec<f64> = (0..m).map(|_| sc * r.range(-5.0, 5.0)).collect();
        if let Some(v) = c.guard("cumsum", || format!("{x:?}"), || f64::cumsum(&x)) {
            let mut run = 0.0;
            let ok = v.len() == m && (0..m).all(|i| { run += x[i]; (v[i] - run).abs() <= 1e-12 * sc * (1.0 + i as f64) });
            c.check(ok, "cumsum", || format!("{x:?} {v:?}"));
        }
        let xi: Vec<i64> = (0..m).map(|_| r.i(-50, 50)).collect();
        if let Some(v) = c.guard("cumsum_int", || format!("{xi:?}"), || i64::cumsum(&xi)) { c.check(v.len() == m && { let mut run = 0; (0..m).all(|i| { run += xi[i]; v[i] == run }) }, "cumsum:int", || format!("{xi:?} {v:?}")); }
        let xf: Vec<f32> = (0..m).map(|_| r.i(-50, 50) as f32).collect();
        if let Some(v) = c.guard("cumsum_f32", || format!("{xf:?}"), || f32::cumsum(&xf)) { c.check(v.len() == m && { let mut run = 0.0f32; (0..m).all(|i| { run += xf[i]; v[i] == run }) }, "cumsum:f32", || format!("{xf:?} {v:?}")); }
        // the macro accepts exactly the pairs within the tolerance
        let (p, d, e) = (r.i(-100, 100) as f64, r.i(0, 8) as f64 / 8.0, r.i(-16, 16) as f64 / 8.0);
        let ok = c.call("macro", || { assert_approx_equal!(p, p + e, d); }).is_ok();
        c.check(ok == (e.abs() <= d), "approx_macro", || format!("{p} {} {d} accepted={ok}", p + e));
        let nan = c.call("macro", || { assert_approx_equal!(p, f64::NAN, d); }).is_ok();
        c.check(!nan, "approx_macro:nan", || format!("{p} {d}"));
    }
    c.finish()
}
