//! Nested forward-mode duals: exact mixed partial derivatives up to order three of a
//! generically written reference formula.
use crate::num;
use std::ops::{Add, Div, Mul, Neg, Sub};

pub trait Real: Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self> {
    fn c(x: f64) -> Self;
    fn exp(self) -> Self;
    fn ln(self) -> Self;
    fn sqrt(self) -> Self;
    fn ncdf(self) -> Self;
    fn npdf(self) -> Self {
        (self * self * Self::c(-0.5)).exp() * Self::c(1.0 / (2.0 * std::f64::consts::PI).sqrt())
    }
}
impl Real for f64 {
    fn c(x: f64) -> f64 { x }
    fn exp(self) -> f64 { f64::exp(self) }
    fn ln(self) -> f64 { f64::ln(self) }
    fn sqrt(self) -> f64 { f64::sqrt(self) }
    fn ncdf(self) -> f64 { num::ncdf(self) }
}
#[derive(Clone, Copy)]
pub struct Du<T>(pub T, pub T);
impl<T: Real> Add for Du<T> { type Output = Self; fn add(self, o: Self) -> Self { Du(self.0 + o.0, self.1 + o.1) } }
impl<T: Real> Sub for Du<T> { type Output = Self; fn sub(self, o: Self) -> Self { Du(self.0 - o.0, self.1 - o.1) } }
impl<T: Real> Mul for Du<T> { type Output = Self; fn mul(self, o: Self) -> Self { Du(self.0 * o.0, self.0 * o.1 + self.1 * o.0) } }
impl<T: Real> Div for Du<T> { type Output = Self; fn div(self, o: Self) -> Self { let q = self.0 / o.0; Du(q, (self.1 - q * o.1) / o.0) } }
impl<T: Real> Neg for Du<T> { type Output = Self; fn neg(self) -> Self { Du(-self.0, -self.1) } }
impl<T: Real> Real for Du<T> {
    fn c(x: f64) -> Self { Du(T::c(x), T::c(0.0)) }
    fn exp(self) -> Self { let e = self.0.exp(); Du(e, e * self.1) }
    fn ln(self) -> Self { Du(self.0.ln(), self.1 / self.0) }
    fn sqrt(self) -> Self { let s = self.0.sqrt(); Du(s, self.1 / (s * T::c(2.0))) }
    fn ncdf(self) -> Self { Du(self.0.ncdf(), self.0.npdf() * self.1) }
}
pub type J3 = Du<Du<Du<f64>>>;

/// The mixed partial of `f` at `x` in the given directions (at most three, repeats allowed).
pub fn partial(f: &dyn Fn(&[J3]) -> J3, x: &[f64], dirs: &[usize]) -> f64 {
    let on = |l: usize, m: usize| (dirs.get(l) == Some(&m)) as u8 as f64;
    let xs: Vec<J3> = x
        .iter()
        .enumerate()
        .map(|(m, v)| Du(Du(Du(*v, on(0, m)), Du(on(1, m), 0.0)), Du(Du(on(2, m), 0.0), Du(0.0, 0.0))))
        .collect();
    let y = f(&xs);
    let a = if dirs.len() > 2 { y.1 } else { y.0 };
    let b = if dirs.len() > 1 { a.1 } else { a.0 };
    if dirs.is_empty() { b.0 } else { b.1 }
}

/// Generalised Black-Scholes-Merton value; arguments S, K, T, r, b, v.
pub fn gbsm<T: Real>(x: &[T], call: bool) -> T {
    let (s, k, t, r, b, v) = (x[0], x[1], x[2], x[3], x[4], x[5]);
    let sd = v * t.sqrt();
    let d1 = ((s / k).ln() + (b + v * v * T::c(0.5)) * t) / sd;
    let d2 = d1 - sd;
    let (fs, fk) = (s * ((b - r) * t).exp(), k * (-(r * t)).exp());
    if call { fs * d1.ncdf() - fk * d2.ncdf() } else { fk * (-d2).ncdf() - fs * (-d1).ncdf() }
}
/// Bachelier value; arguments F, K, T, r, v.
pub fn bachelier<T: Real>(x: &[T], call: bool) -> T {
    let (f, k, t, r, v) = (x[0], x[1], x[2], x[3], x[4]);
    let sd = v * t.sqrt();
    let d = (f - k) / sd;
    let df = (-(r * t)).exp();
    if call { df * ((f - k) * d.ncdf() + sd * d.npdf()) } else { df * ((k - f) * (-d).ncdf() + sd * d.npdf()) }
}
