//! Reference arithmetic: f64 values carrying a bound on the error an f32 evaluation of the
//! same formula may accumulate (running error analysis).  Tolerances used by the oracles are
//! derived from this bound instead of being guessed.
use crate::engine::{Res, Stop};
use std::ops::{Add, Div, Mul, Neg, Sub};

pub const U: f64 = 5.9604644775390625e-8; // 2^-24
pub const TINY: f64 = 1.401298464324817e-45; // 2^-149
pub const FMAX: f64 = f32::MAX as f64;

#[derive(Clone, Copy, Debug)]
pub struct R {
    pub v: f64,
    pub e: f64,
}
#[inline]
pub fn r(x: f32) -> R {
    R { v: x as f64, e: 0.0 }
}
/// A constant that the library represents in f32.
#[inline]
pub fn rc(x: f64) -> R {
    R { v: x, e: U * x.abs() }
}
impl R {
    pub const ZERO: R = R { v: 0.0, e: 0.0 };
    pub const ONE: R = R { v: 1.0, e: 0.0 };
    #[inline]
    pub fn new(v: f64, e: f64) -> R {
        R { v, e }
    }
    #[inline]
    fn rnd(v: f64, e: f64, mag: f64) -> R {
        let e = e + U * (mag + e) + TINY;
        // an intermediate may overflow in f32
        if mag + e > FMAX * 0.5 {
            R { v, e: f64::INFINITY }
        } else {
            R { v, e }
        }
    }
    pub fn sqrt(self) -> R {
        let v = self.v.max(0.0).sqrt();
        let e = if self.v <= 2.0 * self.e { (self.v.abs() + self.e).sqrt() } else { self.e / (self.v - self.e).sqrt() };
        R::rnd(v, e, v)
    }
    pub fn abs(self) -> R {
        R { v: self.v.abs(), e: self.e }
    }
    /// A value with extra relative error (for approximations).
    pub fn rel(self, k: f64) -> R {
        R { v: self.v, e: self.e + k * (self.v.abs() + self.e) }
    }
    pub fn plus(self, e: f64) -> R {
        R { v: self.v, e: self.e + e }
    }
    pub fn sin(self) -> R {
        R { v: self.v.sin(), e: self.e + 4.0 * U }
    }
    pub fn cos(self) -> R {
        R { v: self.v.cos(), e: self.e + 4.0 * U }
    }
    pub fn known(self) -> bool {
        self.e.is_finite() && self.v.is_finite()
    }
    pub fn lo(self) -> f64 {
        self.v - self.e
    }
    pub fn hi(self) -> f64 {
        self.v + self.e
    }
    /// Is this certainly > 0 / < 0 (with a safety factor)?
    pub fn pos(self) -> bool {
        self.known() && self.v > 4.0 * self.e
    }
    pub fn neg(self) -> bool {
        self.known() && -self.v > 4.0 * self.e
    }
}
impl Add for R {
    type Output = R;
    #[inline]
    fn add(self, o: R) -> R {
        R::rnd(self.v + o.v, self.e + o.e, self.v.abs() + o.v.abs())
    }
}
impl Sub for R {
    type Output = R;
    #[inline]
    fn sub(self, o: R) -> R {
        R::rnd(self.v - o.v, self.e + o.e, self.v.abs() + o.v.abs())
    }
}
impl Mul for R {
    type Output = R;
    #[inline]
    fn mul(self, o: R) -> R {
        let v = self.v * o.v;
        R::rnd(v, self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e, v.abs())
    }
}
impl Div for R {
    type Output = R;
    #[inline]
    fn div(self, o: R) -> R {
        let v = self.v / o.v;
        let d = o.v.abs() - o.e;
        if !(d > 0.0) || !self.known() || !o.known() {
            return R { v, e: f64::INFINITY };
        }
        R::rnd(v, (self.e + v.abs() * o.e) / d, v.abs())
    }
}
impl Neg for R {
    type Output = R;
    #[inline]
    fn neg(self) -> R {
        R { v: -self.v, e: self.e }
    }
}

pub const K: f64 = 4.0;

/// Does `got` agree with the reference within K times its error bound?
pub fn agrees(got: f32, want: R) -> bool {
    if !want.known() {
        return true;
    }
    let tol = K * want.e + 2.0 * U * want.v.abs() + TINY;
    (got as f64 - want.v).abs() <= tol
}
pub fn close(what: &str, got: f32, want: R) -> Res {
    if tracking() && want.known() {
        let d = (got as f64 - want.v).abs() / (K * want.e + 2.0 * U * want.v.abs() + TINY);
        track(what, if d.is_nan() { 1e9 } else { d });
    }
    if agrees(got, want) {
        Ok(())
    } else {
        Err(Stop::Fail(format!(
            "{}: got {:?}, expected {:?} +- {:e}",
            what,
            got,
            want.v,
            K * want.e + 2.0 * U * want.v.abs() + TINY
        )))
    }
}
pub fn close4(what: &str, got: [f32; 4], want: [R; 4]) -> Res {
    const L: [&str; 4] = [".x", ".y", ".z", ".w"];
    for i in 0..4 {
        if tracking() || !agrees(got[i], want[i]) {
            close(&format!("{}{} of {:?}", what, L[i], got), got[i], want[i])?;
        }
    }
    Ok(())
}
pub fn closen(what: &str, got: [f32; 4], want: [R; 4], n: usize) -> Res {
    const L: [&str; 4] = [".x", ".y", ".z", ".w"];
    for i in 0..n {
        if tracking() || !agrees(got[i], want[i]) {
            close(&format!("{}{} of {:?}", what, L[i], got), got[i], want[i])?;
        }
    }
    Ok(())
}
pub fn splat_close(what: &str, got: [f32; 4], want: R) -> Res {
    close4(what, got, [want; 4])
}
pub fn close44(what: &str, got: [[f32; 4]; 4], want: [[R; 4]; 4]) -> Res {
    for i in 0..4 {
        close4(&format!("{} row {}", what, i), got[i], want[i])?;
    }
    Ok(())
}

/// The sum of the products `t` with a NaN or infinity among the factors: every order of evaluation gives the same
/// class of result (NaN or a signed infinity).  Says nothing when all the products are finite.
pub fn class_sum(what: &str, got: f32, t: &[(f32, f32)]) -> Res {
    let p: Vec<f32> = t.iter().map(|(a, b)| if a.is_finite() && b.is_finite() { 0.0 } else { a * b }).collect();
    let w: f32 = p.iter().sum();
    // a finite product that overflows may or may not cancel an infinity
    let big = t.iter().any(|(a, b)| a.is_finite() && b.is_finite() && (*a as f64 * *b as f64).abs() > 1e37);
    if w.is_finite() || (big && !w.is_nan()) {
        return Ok(());
    }
    if (w.is_nan() && got.is_nan()) || w == got {
        Ok(())
    } else {
        Err(Stop::Fail(format!("{}: the sum of products {:?} is {:?}, got {:?}", what, t, w, got)))
    }
}
pub type RV = [R; 4];
pub type RM = [[R; 4]; 4];
pub fn rv(v: [f32; 4]) -> RV {
    [r(v[0]), r(v[1]), r(v[2]), r(v[3])]
}
pub fn rm(m: [[f32; 4]; 4]) -> RM {
    [rv(m[0]), rv(m[1]), rv(m[2]), rv(m[3])]
}
pub fn dotn(a: RV, b: RV, n: usize) -> R {
    let mut s = a[0] * b[0];
    for i in 1..n {
        s = s + a[i] * b[i];
    }
    s
}
pub fn addv(a: RV, b: RV) -> RV {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn subv(a: RV, b: RV) -> RV {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]]
}
pub fn mulv(a: RV, b: RV) -> RV {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2], a[3] * b[3]]
}
pub fn scale(a: RV, s: R) -> RV {
    [a[0] * s, a[1] * s, a[2] * s, a[3] * s]
}
pub fn cross3(a: RV, b: RV) -> RV {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
        R::ZERO,
    ]
}
/// row-vector times matrix, using the first n components of v and adding row 3 when `affine`
pub fn xform(v: RV, m: RM) -> RV {
    let mut o = [R::ZERO; 4];
    for j in 0..4 {
        o[j] = v[0] * m[0][j] + v[1] * m[1][j] + v[2] * m[2][j] + v[3] * m[3][j];
    }
    o
}
pub fn matmul(a: RM, b: RM) -> RM {
    [xform(a[0], b), xform(a[1], b), xform(a[2], b), xform(a[3], b)]
}
pub fn transpose(a: RM) -> RM {
    let mut o = a;
    for i in 0..4 {
        for j in 0..4 {
            o[i][j] = a[j][i];
        }
    }
    o
}
pub fn rident() -> RM {
    let mut o = [[R::ZERO; 4]; 4];
    for i in 0..4 {
        o[i][i] = R::ONE;
    }
    o
}

// ---- tolerance calibration (developer aid: DXTRACK=1 prints the largest error/tolerance ratio) ----
thread_local! {
    static TRACK: std::cell::RefCell<Option<std::collections::BTreeMap<String, f64>>> = std::cell::RefCell::new(
        if std::env::var("DXTRACK").is_ok() { Some(Default::default()) } else { None });
}
pub fn track(name: &str, ratio: f64) {
    TRACK.with(|t| {
        if let Some(m) = &mut *t.borrow_mut() {
            let name: String = name.split(" of ").next().unwrap().to_string();
            let e = m.entry(name).or_insert(0.0);
            if ratio > *e {
                *e = ratio;
            }
        }
    });
}
pub fn tracking() -> bool {
    TRACK.with(|t| t.borrow().is_some())
}
pub fn dump_track() {
    TRACK.with(|t| {
        if let Some(m) = &*t.borrow() {
            for (k, v) in m {
                eprintln!("TRACK {:10.4} {}", v, k);
            }
        }
    });
}
/// |got - want| <= tol
pub fn within(what: &str, got: f32, want: f64, tol: f64) -> Res {
    let d = (got as f64 - want).abs();
    if tracking() {
        track(what, if d.is_nan() { 1e9 } else { d / tol });
    }
    if d <= tol {
        Ok(())
    } else {
        Err(Stop::Fail(format!("{}: got {:?}, expected {:?} +- {:e}", what, got, want, tol)))
    }
}
