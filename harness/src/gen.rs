//! Generators.  All randomness goes through `Src`.
use crate::engine::Src;
use directx_math::*;

pub type V4 = [f32; 4];
pub type M4 = [[f32; 4]; 4];

#[inline]
pub fn vec(v: V4) -> XMVECTOR {
    unsafe { std::mem::transmute(v) }
}
#[inline]
pub fn vecu(v: [u32; 4]) -> XMVECTOR {
    unsafe { std::mem::transmute(v) }
}
#[inline]
pub fn arr(v: XMVECTOR) -> V4 {
    unsafe { std::mem::transmute(v) }
}
#[inline]
pub fn bits(v: XMVECTOR) -> [u32; 4] {
    unsafe { std::mem::transmute(v) }
}
#[inline]
pub fn mat(m: M4) -> XMMATRIX {
    unsafe { std::mem::transmute(m) }
}
#[inline]
pub fn marr(m: XMMATRIX) -> M4 {
    unsafe { std::mem::transmute(m) }
}
#[inline]
pub fn fb(v: [u32; 4]) -> V4 {
    [f32::from_bits(v[0]), f32::from_bits(v[1]), f32::from_bits(v[2]), f32::from_bits(v[3])]
}
#[inline]
pub fn tb(v: V4) -> [u32; 4] {
    [v[0].to_bits(), v[1].to_bits(), v[2].to_bits(), v[3].to_bits()]
}

pub const SPECIALS: &[u32] = &[
    0x00000000, 0x80000000, 0x3F800000, 0xBF800000, 0x3F000000, 0xBF000000, 0x7F800000, 0xFF800000, 0x7FC00000,
    0xFFC00000, 0x7F800001, 0xFF800001, 0x7FFFFFFF, 0xFFFFFFFF, 0x7FA12345, 0x00000001, 0x80000001, 0x007FFFFF,
    0x807FFFFF, 0x00800000, 0x80800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x00400000, 0x80400000,
    // pi and friends
    0x40490FDB, 0xC0490FDB, 0x40C90FDB, 0xC0C90FDB, 0x3FC90FDB, 0xBFC90FDB, 0x3F490FDB,
    // 2^22, 2^23, 2^24, 2^31, 2^32, and neighbours
    0x4A800000, 0xCA800000, 0x4AFFFFFF, 0x4B000000, 0xCB000000, 0x4B000001, 0x4B7FFFFF, 0x4B800000, 0xCB800000,
    0x4EFFFFFF, 0x4F000000, 0xCF000000, 0x4F7FFFFF, 0x4F800000, 0xCF000001,
    // half precision boundaries: 65504, 65519.996, 65520, 65536, 2^-14, 2^-24, 2^-25
    0x477FE000, 0x477FEFFF, 0x477FF000, 0x47800000, 0x38800000, 0x387FFFFF, 0x33800000, 0x33000000, 0x33000001,
    0x34000000, 0x43000000, 0xC3000000, 0xC3160000, 0xC2FC0000,
];

pub fn ulps(x: f32, n: i32) -> f32 {
    // monotone integer line
    let b = x.to_bits() as i32;
    let k = if b < 0 { i32::MIN.wrapping_sub(b) } else { b };
    let k = k.wrapping_add(n);
    let b = if k < 0 { i32::MIN.wrapping_sub(k) } else { k };
    f32::from_bits(b as u32)
}

impl Src {
    fn sgn(&mut self, x: f32) -> f32 {
        if self.bool() { -x } else { x }
    }
    pub fn mantissa(&mut self) -> u32 {
        match self.choice(5) {
            0 => 0,
            1 => self.choice(8) as u32,
            2 => 0x7FFFFF - self.choice(8) as u32,
            3 => (self.choice(256) as u32) << 15,
            _ => self.choice(1 << 23) as u32,
        }
    }
    fn remember(&mut self, b: u32) {
        if self.pool.len() < 64 {
            self.pool.push(b);
        }
    }
    fn reuse(&mut self) -> Option<u32> {
        if self.pool.is_empty() {
            return None;
        }
        let n = self.pool.len();
        let i = self.below(n);
        let x = self.pool[n - 1 - i];
        Some(match self.choice(6) {
            0 | 1 | 2 => x,
            3 => x ^ 0x80000000,
            4 => ulps(f32::from_bits(x), 1).to_bits(),
            _ => ulps(f32::from_bits(x), -1).to_bits(),
        })
    }
    /// Any bit pattern, with weight on everything a float routine could trip over.
    pub fn any_bits(&mut self) -> u32 {
        let r = match self.choice(10) {
            0 => (self.choice(17) as f32 - 8.0).to_bits(),
            1 => {
                let x = self.choice(1 << 24) as f32 / (1 << 24) as f32;
                self.sgn(x).to_bits()
            }
            2 => {
                let x = self.choice(1 << 24) as f32 / 4096.0;
                self.sgn(x).to_bits()
            }
            3 => {
                let e = self.choice(254) as u32;
                let m = self.mantissa();
                (self.choice(2) as u32) << 31 | e << 23 | m
            }
            4 => {
                // power of two plus or minus a few ulps
                let e = self.choice(255) as u32;
                let d = self.choice(5) as i32 - 2;
                let x = ulps(f32::from_bits(e << 23), d);
                self.sgn(x).to_bits()
            }
            5 => {
                // half integers of every size
                let k = self.choice(25) as u32;
                let n = self.choice(1u64 << k) as f32 + 0.5;
                let d = self.choice(5) as i32 - 2;
                let x = ulps(n, if d.abs() == 2 { 0 } else { d });
                self.sgn(x).to_bits()
            }
            6 | 7 => {
                let i = self.below(SPECIALS.len());
                SPECIALS[i]
            }
            8 => match self.reuse() {
                Some(x) => x,
                None => self.u32(),
            },
            _ => self.u32(),
        };
        self.remember(r);
        r
    }
    pub fn any(&mut self) -> f32 {
        f32::from_bits(self.any_bits())
    }
    pub fn finite(&mut self) -> f32 {
        let b = self.any_bits();
        let x = f32::from_bits(b);
        if x.is_finite() {
            x
        } else {
            // fold the non-finite patterns onto finite ones without rejection
            f32::from_bits(b & 0x807FFFFF | 0x3F800000)
        }
    }
    /// Finite, and not NaN-ish; magnitude zero or within 2^-e ..= 2^e.
    pub fn moderate(&mut self, e: u32) -> f32 {
        let e = e.min(120) as u64;
        let r = match self.choice(9) {
            0 => self.choice(9) as f32 - 4.0,
            1 => {
                let x = self.choice(1 << 24) as f32 / (1 << 24) as f32;
                self.sgn(x)
            }
            2 => {
                let x = self.choice(1 << 20) as f32 / 65536.0;
                self.sgn(x)
            }
            3 | 4 => {
                let ex = 127 + self.choice(2 * e) as u32 - e as u32;
                let m = self.mantissa();
                let x = f32::from_bits(ex << 23 | m);
                self.sgn(x)
            }
            5 => {
                let x = self.choice(257) as f32 / 16.0;
                self.sgn(x)
            }
            6 => match self.reuse() {
                Some(x) => f32::from_bits(x),
                None => 0.0,
            },
            7 => {
                let x = self.choice(1 << 24) as f32 / (1 << 22) as f32;
                self.sgn(x)
            }
            _ => {
                const C: [f32; 8] =
                    [0.0, 1.0, -1.0, 0.5, std::f32::consts::PI, -std::f32::consts::FRAC_PI_2, 2.0, -0.25];
                let i = self.below(8);
                C[i]
            }
        };
        let lim = f32::from_bits((127 + e as u32) << 23);
        let lo = 1.0 / lim;
        let r = if !r.is_finite() || r.abs() > lim || (r != 0.0 && r.abs() < lo) { r.signum() } else { r };
        let r = if r.is_nan() { 1.0 } else { r };
        self.remember(r.to_bits());
        r
    }
    /// Uniform in [lo, hi].
    pub fn range(&mut self, lo: f32, hi: f32) -> f32 {
        let t = self.choice((1 << 24) + 1) as f64 / (1 << 24) as f64;
        let x = (lo as f64 + (hi as f64 - lo as f64) * t) as f32;
        x.max(lo).min(hi)
    }
    /// Multiple of `step` in [-n*step, n*step]; 0 is the simplest.
    pub fn lattice(&mut self, n: u64, step: f32) -> f32 {
        let k = self.choice(2 * n + 1);
        let v = if k % 2 == 1 { (k as i64 + 1) / 2 } else { -(k as i64 / 2) };
        v as f32 * step
    }
    /// A vector drawn by `f` per component; now and then one with structure: a relative of an earlier vector of
    /// the case, equal components, mostly zeros.  `ok` says which components the caller accepts.
    fn shaped(&mut self, f: impl Fn(&mut Src) -> f32, ok: impl Fn(f32) -> bool) -> V4 {
        let mut v = match self.choice(12) {
            8 if !self.vpool.is_empty() => {
                let n = self.vpool.len();
                let i = self.below(n);
                let mut v = self.vpool[n - 1 - i];
                match self.choice(6) {
                    0 | 1 => (),
                    2 | 3 => v = [-v[0], -v[1], -v[2], -v[3]],
                    4 => {
                        let k = self.below(4);
                        v[k] = f(self);
                    }
                    _ => {
                        let k = if self.bool() { 0.5 } else { -2.0 };
                        v = [v[0] * k, v[1] * k, v[2] * k, v[3] * k]
                    }
                }
                v
            }
            9 => [f(self); 4],
            10 => {
                // one or two components, the rest zero
                let mut v = [0.0; 4];
                for _ in 0..1 + self.below(2) {
                    let k = self.below(4);
                    v[k] = f(self);
                }
                v
            }
            11 if self.one_in(4) => [0.0; 4],
            11 => {
                let mut v = [f(self), f(self), f(self), f(self)];
                let (i, j) = (self.below(4), self.below(4));
                v[i] = v[j];
                v
            }
            _ => [f(self), f(self), f(self), f(self)],
        };
        for x in v.iter_mut() {
            if !ok(*x) {
                *x = f(self);
            }
        }
        if self.vpool.len() < 16 {
            self.vpool.push(v);
        }
        v
    }
    /// A power of two within 2^-e ..= 2^e.
    pub fn exp2(&mut self, e: u32) -> f32 {
        let k = self.choice(2 * e as u64 + 1) as i64;
        2f32.powi((if k % 2 == 1 { (k + 1) / 2 } else { -(k / 2) }) as i32)
    }
    pub fn any_vec(&mut self, name: &str) -> V4 {
        let v = self.shaped(|s| s.any(), |_| true);
        self.show(name, v);
        v
    }
    pub fn fin_vec(&mut self, name: &str) -> V4 {
        let v = self.shaped(|s| s.finite(), |x| x.is_finite());
        self.show(name, v);
        v
    }
    pub fn mod_vec(&mut self, e: u32, name: &str) -> V4 {
        let (hi, lo) = (2f32.powi(e.min(120) as i32), 2f32.powi(-(e.min(120) as i32)));
        let v = if self.one_in(5) {
            // all components of one magnitude
            let k = self.exp2(e);
            self.shaped(move |s| s.moderate(3) * k, |x| x == 0.0 || x.abs() <= hi && x.abs() >= lo)
        } else {
            self.shaped(|s| s.moderate(e), |x| x == 0.0 || x.abs() <= hi && x.abs() >= lo)
        };
        let v = map4(v, |x| if x == 0.0 || x.abs() <= hi && x.abs() >= lo { x } else { x.signum() });
        self.show(name, v);
        v
    }
    pub fn show(&mut self, name: &str, v: V4) {
        self.note(|| format!("{}={}", name, sv(v)));
    }
    pub fn showf(&mut self, name: &str, v: f32) {
        self.note(|| format!("{}={}", name, sf(v)));
    }
    pub fn showm(&mut self, name: &str, m: M4) {
        self.note(|| format!("{}=[{}, {}, {}, {}]", name, sv(m[0]), sv(m[1]), sv(m[2]), sv(m[3])));
    }

    // ---- geometric generators ----
    /// A unit vector in f64, 3 components; axis directions are common.
    pub fn unit3(&mut self) -> [f64; 3] {
        match self.choice(4) {
            0 => {
                let i = self.below(3);
                let s = if self.bool() { -1.0 } else { 1.0 };
                let mut v = [0.0; 3];
                v[i] = s;
                v
            }
            1 => {
                let v = [self.lattice(3, 1.0) as f64, self.lattice(3, 1.0) as f64, self.lattice(3, 1.0) as f64];
                norm3(v)
            }
            _ => {
                // uniform on the sphere
                let z = self.range(-1.0, 1.0) as f64;
                let a = self.range(0.0, 6.2831855) as f64;
                let r = (1.0 - z * z).max(0.0).sqrt();
                norm3([r * a.cos(), r * a.sin(), z])
            }
        }
    }
    /// A unit quaternion (x, y, z, w) rounded to f32.
    pub fn unit_quat(&mut self) -> V4 {
        let q: [f64; 4] = match self.choice(6) {
            0 => [0.0, 0.0, 0.0, 1.0],
            1 => {
                // rotations by multiples of 90 degrees about an axis
                let i = self.below(3);
                let k = self.choice(8) as f64;
                let mut q = [0.0; 4];
                q[i] = (k * std::f64::consts::FRAC_PI_4).sin();
                q[3] = (k * std::f64::consts::FRAC_PI_4).cos();
                for x in q.iter_mut() {
                    if x.abs() < 1e-9 {
                        *x = 0.0
                    }
                }
                q
            }
            2 => {
                let ax = self.unit3();
                let a = self.range(-3.2, 3.2) as f64;
                [ax[0] * (a / 2.0).sin(), ax[1] * (a / 2.0).sin(), ax[2] * (a / 2.0).sin(), (a / 2.0).cos()]
            }
            3 => {
                // some components exactly zero (half turns when it is w), small integers
                let mut q = [0.0; 4];
                for x in q.iter_mut() {
                    *x = match self.choice(3) { 0 => 0.0, 1 => self.lattice(3, 1.0) as f64, _ => self.range(-1.0, 1.0) as f64 };
                }
                if q.iter().map(|x| x * x).sum::<f64>() < 1e-6 { [1.0, 0.0, 0.0, 0.0] } else { q }
            }
            _ => {
                let u1 = self.range(0.0, 1.0) as f64;
                let u2 = self.range(0.0, 6.2831855) as f64;
                let u3 = self.range(0.0, 6.2831855) as f64;
                let (a, b) = ((1.0 - u1).sqrt(), u1.sqrt());
                [a * u2.sin(), a * u2.cos(), b * u3.sin(), b * u3.cos()]
            }
        };
        let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
        [(q[0] / n) as f32, (q[1] / n) as f32, (q[2] / n) as f32, (q[3] / n) as f32]
    }
    /// Matrix with moderate entries (sparse and structured variants included).
    pub fn mod_mat(&mut self, e: u32, name: &str) -> M4 {
        let mut m = [[0.0f32; 4]; 4];
        match self.choice(6) {
            5 => {
                // all elements of one magnitude
                let k = self.exp2(e);
                for i in 0..4 {
                    for j in 0..4 {
                        m[i][j] = self.range(-1.0, 1.0) * k;
                    }
                }
            }
            0 => {
                for i in 0..4 {
                    m[i][i] = 1.0;
                }
                for _ in 0..self.below(4) {
                    let (i, j) = (self.below(4), self.below(4));
                    m[i][j] = self.moderate(e);
                }
            }
            1 => {
                for i in 0..4 {
                    for j in 0..4 {
                        m[i][j] = self.lattice(5, 1.0);
                    }
                }
            }
            2 => {
                for i in 0..4 {
                    for j in 0..4 {
                        m[i][j] = self.range(-4.0, 4.0);
                    }
                }
            }
            3 => {
                for i in 0..4 {
                    for j in 0..3 {
                        m[i][j] = self.moderate(e);
                    }
                }
                m[3][3] = 1.0;
            }
            _ => {
                for i in 0..4 {
                    for j in 0..4 {
                        m[i][j] = self.moderate(e);
                    }
                }
            }
        }
        self.showm(name, m);
        m
    }
}

pub fn map4(v: V4, f: impl Fn(f32) -> f32) -> V4 {
    [f(v[0]), f(v[1]), f(v[2]), f(v[3])]
}
pub fn norm3(v: [f64; 3]) -> [f64; 3] {
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    if n == 0.0 {
        return [1.0, 0.0, 0.0];
    }
    [v[0] / n, v[1] / n, v[2] / n]
}

pub fn sf(x: f32) -> String {
    if x.is_nan() {
        format!("NaN(0x{:08X})", x.to_bits())
    } else {
        format!("{:?}", x)
    }
}
pub fn sv(v: V4) -> String {
    format!("({}, {}, {}, {})", sf(v[0]), sf(v[1]), sf(v[2]), sf(v[3]))
}
pub fn su(v: [u32; 4]) -> String {
    format!("(0x{:08X}, 0x{:08X}, 0x{:08X}, 0x{:08X})", v[0], v[1], v[2], v[3])
}
