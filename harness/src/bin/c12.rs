//! C12: root finders, judged by substitution and sign change around the returned point.
use rqmon::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use RustQuant_math::rootfinding::{bisection::Bisection, brent::Brent, newton_raphson::NewtonRaphson, rootfinder::*};

type F = Rc<dyn Fn(f64) -> f64>;

fn main() {
    let mut c = Ctx::new("C12", "monotone increasing and decreasing functions with a known root (linear, cubic, exponential, saturating, logarithmic, triple root, kinked, steep, flat away from the root) and non-monotone ones (polynomials with several roots, sines), values scaled by 1e-13 to 1e13, roots out to ±1000, random guesses, bracketing steps, accuracies, enforced and free limits, and functions without a root. Non-trivial: the guess is not already a root.");
    for _ in 0..c.n(200_000) {
        let mut r = c.fork();
        let wide = r.chance(0.15);
        let root = if wide { r.range(-1000.0, 1000.0) } else { r.range(-8.0, 8.0) };
        let s = r.logr(0.05, 20.0);
        let sg = if r.bool() { 1.0 } else { -1.0 };
        let kind = r.below(12);
        let mono = kind <= 7 || kind == 11;
        let exists = kind != 10;
        let (name, f, df): (&str, F, F) = match kind {
            0 => ("linear", Rc::new(move |x| sg * s * (x - root)), Rc::new(move |_| sg * s)),
            1 => ("cubic", Rc::new(move |x: f64| { let u = x - root; sg * s * (u + u * u * u) }), Rc::new(move |x: f64| { let u = x - root; sg * s * (1.0 + 3.0 * u * u) })),
            2 => { let k = r.range(0.1, 1.5); ("exp", Rc::new(move |x: f64| sg * ((k * (x - root)).exp() - 1.0)), Rc::new(move |x: f64| sg * k * (k * (x - root)).exp())) }
            3 => ("atan", Rc::new(move |x: f64| sg * (s * (x - root)).atan()), Rc::new(move |x: f64| sg * s / (1.0 + (s * (x - root)).powi(2)))),
            4 => ("sinh", Rc::new(move |x: f64| sg * (x - root).sinh()), Rc::new(move |x: f64| sg * (x - root).cosh())),
            5 => ("triple", Rc::new(move |x: f64| sg * (x - root).powi(3)), Rc::new(move |x: f64| sg * 3.0 * (x - root).powi(2))),
            6 => ("kink", Rc::new(move |x: f64| { let u = x - root; sg * if u > 0.0 { s * u } else { u } }), Rc::new(move |x: f64| sg * if x > root { s } else { 1.0 })),
            7 => ("log", Rc::new(move |x: f64| { let u = x - root; sg * u.signum() * u.abs().ln_1p() }), Rc::new(move |x: f64| sg / (1.0 + (x - root).abs()))),
            8 => { let (p, q) = (root + r.range(0.5, 4.0), root - r.range(0.5, 4.0)); ("poly3", Rc::new(move |x: f64| sg * (x - root) * (x - p) * (x - q)), Rc::new(move |x: f64| sg * ((x - p) * (x - q) + (x - root) * (x - q) + (x - root) * (x - p)))) }
            9 => ("sine", Rc::new(move |x: f64| sg * (x - root).sin()), Rc::new(move |x: f64| sg * (x - root).cos())),
            11 => { let w = s.max(0.1); ("plateau", Rc::new(move |x: f64| sg * (w * (x - root)).clamp(-1.0, 1.0)), Rc::new(move |x: f64| if (w * (x - root)).abs() < 1.0 { sg * w } else { 0.0 })) }
            _ => ("rootless", Rc::new(move |x: f64| sg * (1.0 + (x - root) * (x - root))), Rc::new(move |x: f64| sg * 2.0 * (x - root))),
        };
        let amp = if r.chance(0.3) { 10f64.powf(r.range(-13.0, 13.0)) } else { 1.0 };
        let (f, df): (F, F) = if amp == 1.0 { (f, df) } else { (Rc::new(move |x| amp * f(x)), Rc::new(move |x| amp * df(x))) };
        let enforced = r.chance(0.6);
        let (lo, hi) = if enforced { (root - r.logr(0.02, 12.0), root + r.logr(0.02, 12.0)) } else { (-1e6, 1e6) };
        let mut guess = if enforced { r.range(lo, hi) } else { root + r.range(-10.0, 10.0) };
        if r.chance(0.05) { guess = root }
        if enforced { let m = 1e-3 * (hi - lo); if r.chance(0.1) { guess = if r.bool() { lo + m } else { hi - m } } guess = guess.clamp(lo + m, hi - m) }
        let mut step = r.logr(1e-4, 3.0);
        // a bisection step that lands exactly on the root
        let mut exact = false;
        if kind == 5 && r.chance(0.3) { step = 2.0 * (root - guess); exact = step > 0.0 && guess + 0.5 * step == root; if step <= 0.0 { step = r.logr(1e-4, 3.0) } }
        let acc = if wide { *r.pick(&[1e-2, 1e-5, 1e-8]) } else { *r.pick(&[1e-3, 1e-6, 1e-8, 1e-10, 1e-12]) };
        let hist = format!("{name} root={root} s={s} sg={sg} amp={amp:e} guess={guess} step={step} acc={acc} limits={:?}", if enforced { Some((lo, hi)) } else { None });
        for m in 0..3 {
            let method = ["bisection", "brent", "newton"][m];
            let n = Rc::new(Cell::new(0u64));
            let outside = Rc::new(RefCell::new(None));
            let (n2, o2, f2) = (n.clone(), outside.clone(), f.clone());
            let g = move |x: f64| { n2.set(n2.get() + 1); if n2.get() > 1_000_000 { panic!("does not terminate") } if enforced && !(x >= lo && x <= hi) { *o2.borrow_mut() = Some(x); } f2(x) };
            let d2 = df.clone();
            let data = RootfinderData::new(acc, step, lo, hi, enforced);
            let Some(x) = c.guard(&format!("{method}:panic"), || hist.clone(), || match m { 0 => Bisection::new(g, guess, data).solve(), 1 => Brent::new(g, guess, data).solve(), _ => NewtonRaphson::new(g, move |x| d2(x), guess, data).solve() }) else { continue };
            c.count("evaluations_of_f", n.get());
            if let Some(o) = *outside.borrow() { c.violate(&format!("{method}:leaves_limits"), || format!("{hist}: evaluated at {o}")); }
            if !exists { c.check(!x.is_finite(), &format!("{method}:rootless"), || format!("{hist}: returned {x}, value {}", f(x))); c.case(&format!("{method}_rootless"), &hist); continue }
            if x.is_nan() {
                // monotone with a root inside the limits must be found
                if mono { c.violate(&format!("{method}:not_found"), || hist.clone()); } else { c.count("not_bracketed", 1); }
                continue;
            }
            let slack = if m == 2 && kind == 5 { 4.0 } else { 1.05 };
            let tol = slack * acc + 1e-14 * (1.0 + x.abs());
            let tiny = f(x).abs() <= 1e-26;
            if mono { c.check((x - root).abs() <= tol || tiny, &format!("{method}:accuracy"), || format!("{hist} got {x} off {:e}", x - root)); }
            else { c.check(tiny || f(x - tol) * f(x + tol) <= 0.0, &format!("{method}:not_a_root"), || format!("{hist} got {x} f={:e}", f(x))); }
            if enforced { c.check(x >= lo && x <= hi, &format!("{method}:outside"), || format!("{hist} got {x}")); }
            if guess == root { c.trivial("guess_is_root") } else { c.case(&format!("{method}_{name}{}", if exact { "_exact_hit" } else { "" }), &hist) }
        }
    }
    c.finish()
}
