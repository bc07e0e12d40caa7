//! C14: FFT against the direct sum.
use ::num::Complex;
use rqmon::*;
use RustQuant_math::fft::*;

fn dft(x: &[Complex<f64>]) -> Vec<Complex<f64>> {
    let n = x.len();
    let tw: Vec<Complex<f64>> = (0..n).map(|k| { let a = -2.0 * std::f64::consts::PI * k as f64 / n as f64; Complex::new(a.cos(), a.sin()) }).collect();
    (0..n).map(|k| (0..n).map(|j| x[j] * tw[(j * k) % n]).sum()).collect()
}

fn main() {
    let mut c = Ctx::new("C14", "random complex and real vectors of every power-of-two length up to 4096: dense, sparse, impulses, constants, single tones, huge and tiny magnitudes; and lengths that are not powers of two. Non-trivial: length above 1.");
    let top = if c.thorough() { 11 } else { 10 };
    for round in 0..c.n(1500) {
        let mut r = c.fork();
        let n = 1usize << if round % 700 == 3 { 13 } else if round % 150 == 7 { r.us(11, 12) } else { r.us(0, if round % 10 == 0 { top } else { 7 }) };
        let s = *r.pick(&[1.0, 1.0, 1.0, 1e-9, 1e9, 1e-130, 1e130]);

        let shape = r.below(5);
        let (kk, ph) = (r.us(0, n - 1), r.range(0.0, 6.0));
        let x: Vec<Complex<f64>> = (0..n).map(|j| match shape {
            0 => if j == kk { Complex::new(s, 0.0) } else { Complex::new(0.0, 0.0) },
            1 => Complex::new(s, -s),
            2 => { let a = 2.0 * std::f64::consts::PI * (kk * j) as f64 / n as f64 + ph; Complex::new(s * a.cos(), s * a.sin()) }
            3 => if r.chance(0.1) { Complex::new(s * r.range(-1.0, 1.0), s * r.range(-1.0, 1.0)) } else { Complex::new(0.0, 0.0) },
            _ => Complex::new(s * r.range(-1.0, 1.0), s * r.range(-1.0, 1.0)),
        }).collect();
        let hist = format!("n={n} shape={shape} k={kk} scale={s} x={:?}", &x[..n.min(8)]);
        let tol = 1e-12 * s * n as f64;
        let want = dft(&x);
        if let Some(g) = c.guard("complex", || hist.clone(), || fft_complex(&x)) {
            c.check(g.len() == n && g.iter().zip(&want).all(|(a, b)| (a - b).norm() <= tol), "complex", || format!("{hist} got {:?} want {:?}", &g[..g.len().min(8)], &want[..n.min(8)]));
            let mut y = x.clone();
            if c.guard("inplace", || hist.clone(), || fft_complex_inplace(&mut y)).is_some() { c.check(y == g, "inplace", || hist.clone()); }
            // energy, and the conjugation trick as inverse
            let (e1, e2) = (x.iter().map(|z| z.norm_sqr()).sum::<f64>() * n as f64, g.iter().map(|z| z.norm_sqr()).sum::<f64>());
            c.close(e2, e1, tol * tol, 1e-10, "energy", || hist.clone());
            if g.len() == n { if let Some(back) = c.guard("complex", || hist.clone(), || fft_complex(&g.iter().map(|z| z.conj()).collect::<Vec<_>>())) {
                c.check(back.len() == n && back.iter().zip(&x).all(|(b, x)| (b.conj() / n as f64 - x).norm() <= tol), "roundtrip", || hist.clone());
            } }
        }
        let re: Vec<f64> = x.iter().map(|z| z.re).collect();
        let want: Vec<f64> = dft(&re.iter().map(|v| Complex::new(*v, 0.0)).collect::<Vec<_>>()).iter().map(|z| z.norm()).collect();
        if let Some(g) = c.guard("real", || hist.clone(), || fft_real(&re)) {
            c.check(g.len() == n && g.iter().zip(&want).all(|(a, b)| (a - b).abs() <= tol), "real", || format!("{hist} got {:?} want {:?}", &g[..g.len().min(8)], &want[..n.min(8)]));
            let mut y = re.clone();
            if c.guard("real_inplace", || hist.clone(), || fft_real_inplace(&mut y)).is_some() { c.check(y == g, "real_inplace", || hist.clone()); }
        }
        if n > 1 { c.case(&format!("n{n}"), &hist) } else { c.trivial("n1") }
        // lengths
        let m = r.us(1, 5000);
        let v = vec![0u8; m];
        c.check(is_valid_length(&v) == m.is_power_of_two(), "is_valid_length", || format!("length {m}"));
        if !m.is_power_of_two() && m < 600 {
            let z = vec![Complex::new(1.0, 0.0); m];
            c.check(c_call_err(|| fft_complex(&z)), "rejects", || format!("length {m} accepted"));
        }
    }
    c.finish()
}
fn c_call_err<T>(f: impl FnOnce() -> T) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
