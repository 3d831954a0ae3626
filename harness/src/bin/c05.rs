//! C05: full-precision transcendental functions.
use dxcheck::prelude::*;
use dxcheck::rf::*;
use std::f64::consts::PI;

pub fn angle(s: &mut Src) -> f32 {
    match s.choice(6) {
        0 => s.range(-3.2, 3.2),
        1 => {
            let k = s.lattice(16, 1.0) as f64;
            let d = s.choice(9) as i32 - 4;
            ulps((k * PI / 4.0) as f32, d)
        }
        2 => s.range(-20.0, 20.0),
        3 => s.range(-3000.0, 3000.0),
        4 => if s.bool() { s.moderate(12) } else { s.moderate(40).clamp(-1e6, 1e6) },
        _ => {
            // close to a multiple of pi/2
            let k = s.lattice(8, 1.0) as f64;
            (k * PI / 2.0 + s.range(-0.02, 0.02) as f64) as f32
        }
    }
}
fn av(s: &mut Src) -> V4 {
    let v = match s.choice(4) {
        0 => [angle(s); 4],
        _ => [angle(s), angle(s), angle(s), angle(s)],
    };
    s.show("v", v);
    v
}
/// Any value at all, or one the function is meant for.
fn stray(s: &mut Src, f: fn(&mut Src) -> f32) -> V4 {
    let mut v = [0.0; 4];
    for x in v.iter_mut() {
        *x = match s.choice(4) {
            0 | 1 => f(s),
            2 => s.any(),
            _ => [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0, 1e-40, -1e-40, 1.0][s.below(8)],
        };
    }
    v
}
fn unit(s: &mut Src) -> f32 {
    let x = match s.choice(6) {
        0 => s.range(-1.0, 1.0),
        1 => {
            let k = s.choice(64) as i32;
            ulps(1.0, -k)
        }
        2 => s.moderate(24),
        3 => [0.0f32, 1.0, -1.0, 0.5, -0.5, 0.70710677, -0.0][s.below(7)],
        4 => 1.0 - s.moderate(20).abs(),
        _ => s.range(-0.01, 0.01),
    };
    let x = if x.abs() > 1.0 { 1.0 / x } else { x };
    if s.bool() { -x } else { x }
}

fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("sin_cos_tan", 200, |s| {
        let a = av(s);
        let x = vec(a);
        let (mut ps, mut pc) = (XMVectorZero(), XMVectorZero());
        XMVectorSinCos(&mut ps, &mut pc, x);
        let (sn, cs, tn, ps, pc) = (arr(XMVectorSin(x)), arr(XMVectorCos(x)), arr(XMVectorTan(x)), arr(ps), arr(pc));
        for i in 0..4 {
            let v = a[i] as f64;
            let tol = 5e-7 + 1.3e-7 * v.abs();
            within("XMVectorSin", sn[i], v.sin(), tol)?;
            within("XMVectorCos", cs[i], v.cos(), tol)?;
            within("XMVectorSinCos sin", ps[i], v.sin(), tol)?;
            within("XMVectorSinCos cos", pc[i], v.cos(), tol)?;
            // tan: propagate the argument-reduction error through the derivative
            let t = v.tan();
            let dx = 1.3e-7 * v.abs() + 1e-7;
            if v.cos().abs() > 20.0 * dx {
                within("XMVectorTan", tn[i], t, 1.5 * dx * (1.0 + t * t) + 4e-7 * t.abs())?;
            }
            // small arguments keep relative precision
            if v.abs() < 0.5 && v != 0.0 && v.abs() > 1e-30 {
                within("XMVectorSin relative", sn[i], v.sin(), 5e-7 * v.abs())?;
                within("XMVectorTan relative", tn[i], t, 5e-7 * v.abs())?;
            }
        }
        Ok(())
    }));
    c.push(check("scalar_sin_cos", 200, |s| {
        let a = angle(s);
        s.showf("x", a);
        let v = a as f64;
        let tol = 5e-7 + 1.3e-7 * v.abs();
        let (mut ps, mut pc) = (9.0f32, 9.0f32);
        XMScalarSinCos(&mut ps, &mut pc, a);
        within("XMScalarSin", XMScalarSin(a), v.sin(), tol)?;
        within("XMScalarCos", XMScalarCos(a), v.cos(), tol)?;
        within("XMScalarSinCos sin", ps, v.sin(), tol)?;
        within("XMScalarSinCos cos", pc, v.cos(), tol)
    }));
    c.push(check("asin_acos", 200, |s| {
        let a = [unit(s), unit(s), unit(s), unit(s)];
        s.show("v", a);
        let (p, q) = (arr(XMVectorASin(vec(a))), arr(XMVectorACos(vec(a))));
        for i in 0..4 {
            let v = a[i] as f64;
            within("XMVectorASin", p[i], v.asin(), 6e-7)?;
            within("XMVectorACos", q[i], v.acos(), 6e-7)?;
            within("XMScalarASin", XMScalarASin(a[i]), v.asin(), 6e-7)?;
            within("XMScalarACos", XMScalarACos(a[i]), v.acos(), 6e-7)?;
        }
        Ok(())
    }));
    c.push(check("asin_acos_clamped", 30, |s| {
        // arguments beyond the domain count as its edge
        let beyond = |s: &mut Src| {
            let m = match s.choice(4) {
                0 => f32::from_bits(0x3F800001 + s.below(200) as u32),
                1 => s.range(1.0, 1.01),
                2 => s.range(1.0, 100.0),
                _ => f32::exp2(s.range(0.0, 13.0)),
            };
            if s.bool() { m } else { -m }
        };
        let a = [beyond(s), beyond(s), unit(s), beyond(s)];
        s.show("v", a);
        let (p, q) = (arr(XMVectorASin(vec(a))), arr(XMVectorACos(vec(a))));
        for i in 0..4 {
            let v = (a[i] as f64).max(-1.0).min(1.0);
            if !p[i].is_nan() {
                // the portable vector form answers NaN outside the domain
                within("XMVectorASin beyond 1", p[i], v.asin(), 6e-7)?;
            }
            if !q[i].is_nan() {
                // the portable vector form answers NaN outside the domain
                within("XMVectorACos beyond 1", q[i], v.acos(), 6e-7)?;
            }
            within("XMScalarASin beyond 1", XMScalarASin(a[i]), v.asin(), 6e-7)?;
            within("XMScalarACos beyond 1", XMScalarACos(a[i]), v.acos(), 6e-7)?;
        }
        Ok(())
    }));
    c.push(check("atan", 200, |s| {
        let a = [s.moderate(40), s.moderate(4), s.moderate(2), s.range(-2.0, 2.0)];
        s.show("v", a);
        let g = arr(XMVectorATan(vec(a)));
        for i in 0..4 {
            within("XMVectorATan", g[i], (a[i] as f64).atan(), 5e-7)?;
        }
        let g = arr(XMVectorATan(vec([f32::INFINITY, f32::NEG_INFINITY, 0.0, 1.0])));
        within("XMVectorATan(inf)", g[0], PI / 2.0, 5e-7)?;
        within("XMVectorATan(-inf)", g[1], -PI / 2.0, 5e-7)
    }));
    c.push(check("atan2", 300, |s| {
        let mut f = |s: &mut Src| match s.choice(6) {
            0 => [0.0f32, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY][s.below(6)],
            1 => s.lattice(3, 1.0),
            2 => s.moderate(60),
            _ => s.moderate(8),
        };
        let y = [f(s), f(s), f(s), f(s)];
        let x = [f(s), f(s), f(s), f(s)];
        s.show("y", y);
        s.show("x", x);
        let g = arr(XMVectorATan2(vec(y), vec(x)));
        for i in 0..4 {
            if y[i].is_finite() && x[i].is_infinite() && y[i] != 0.0 {
                s.label("x infinite");
            }
            // f64 atan2 keeps the signed-zero and infinity conventions
            let w = (y[i] as f64).atan2(x[i] as f64);
            within("XMVectorATan2", g[i], w, 8e-7)?;
            // the sign of the result is the sign of y (atan2(+-0, positive) is +-0)
            ensure!(g[i] == 0.0 || g[i].is_sign_negative() == y[i].is_sign_negative(), "XMVectorATan2({}, {}) = {} has the wrong sign", sf(y[i]), sf(x[i]), sf(g[i]));
        }
        Ok(())
    }));
    c.push(check("exp2", 200, |s| {
        let mut f = |s: &mut Src| match s.choice(5) {
            0 => s.range(-20.0, 20.0),
            1 => s.range(-152.0, 130.0),
            2 => s.lattice(152, 1.0),
            3 => s.any(),
            _ => s.moderate(10),
        };
        let a = [f(s), f(s), f(s), f(s)];
        s.show("v", a);
        let (g, h) = (arr(XMVectorExp2(vec(a))), arr(XMVectorExp(vec(a))));
        for (what, g) in [("XMVectorExp2", g), ("XMVectorExp", h)] {
            for i in 0..4 {
                let w = (a[i] as f64).exp2();
                if a[i].is_nan() {
                    ensure!(g[i].is_nan(), "{}(NaN) = {}", what, sf(g[i]));
                } else if a[i] >= 128.0 {
                    ensure!(g[i] == f32::INFINITY, "{}({}) = {}", what, sf(a[i]), sf(g[i]));
                } else if a[i] <= -150.0 {
                    ensure!(g[i].abs() <= 1.5e-45, "{}({}) = {}", what, sf(a[i]), sf(g[i]));
                } else {
                    // negative arguments: the polynomial is evaluated outside the interval it was fitted on
                    within(what, g[i], w, if a[i] < 0.0 && a[i].fract() != 0.0 { 1.3e-5 } else { 5e-7 } * w + 1.5e-45)?;
                }
            }
        }
        Ok(())
    }));
    c.push(check("pow", 200, |s| {
        let mut b = [s.moderate(6), s.moderate(6), s.range(0.0, 4.0), s.moderate(3)];
        let mut e = [s.range(-8.0, 8.0), s.lattice(6, 1.0), s.moderate(3), s.lattice(9, 0.5)];
        match s.choice(4) {
            0 => b = [b[0]; 4],
            1 => {
                b = s.mod_vec(100, "base");
                for i in 0..4 { e[i] = match s.choice(3) { 0 => [0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0][s.below(6)], 1 => s.range(-2.0, 2.0), _ => e[i] }; }
            }
            _ => (),
        }
        s.show("base", b);
        s.show("exp", e);
        let g = arr(XMVectorPow(vec(b), vec(e)));
        for i in 0..4 {
            let w = (b[i] as f64).powf(e[i] as f64);
            if w.is_nan() {
                ensure!(g[i].is_nan(), "XMVectorPow({}, {}) = {}", sf(b[i]), sf(e[i]), sf(g[i]));
            } else if w.abs() < 1e38 {
                within("XMVectorPow", g[i], w, 4e-7 * w.abs() + 1e-44)?;
            } else if w.abs() > 1e39 {
                ensure!(g[i].is_infinite() && (g[i] > 0.0) == (w > 0.0), "XMVectorPow({}, {}) = {}", sf(b[i]), sf(e[i]), sf(g[i]));
            }
        }
        Ok(())
    }));
    c.push(check("hyperbolic", 200, |s| {
        let mut f = |s: &mut Src| match s.choice(4) {
            0 => s.range(-4.0, 4.0),
            1 => s.range(-80.0, 80.0),
            2 => s.range(-0.1, 0.1),
            _ => s.lattice(12, 0.5),
        };
        let a = [f(s), f(s), f(s), f(s)];
        s.show("v", a);
        let x = vec(a);
        let (p, q, t) = (arr(XMVectorSinH(x)), arr(XMVectorCosH(x)), arr(XMVectorTanH(x)));
        for i in 0..4 {
            let v = a[i] as f64;
            // the exponent carries a rounding error proportional to |v|
            let rel = 8e-7 + 2.4e-7 * v.abs();
            // 2^x for negative x is good to 1.3e-5 only
            let neg = 1.3e-5 * 0.5 * ((-v.abs()).exp() + if v.abs() < 0.7 { v.abs().exp() } else { 0.0 });
            within("XMVectorSinH", p[i], v.sinh(), rel * v.cosh() + neg)?;
            within("XMVectorCosH", q[i], v.cosh(), rel * v.cosh() + neg)?;
            within("XMVectorTanH", t[i], v.tanh(), 1e-6 + if v < 0.0 { 1.3e-5 * (2.0 * v).exp() } else { 0.0 })?;
        }
        Ok(())
    }));
    c.push(check("components_and_special_values", 200, |s| {
        macro_rules! lane { ($a:expr, $($f:ident),*) => {{ $(lanewise(stringify!($f), |x| $f(x), $a)?;
            let g = arr($f(vec($a)));
            for i in 0..4 { ensure!(!$a[i].is_nan() || g[i].is_nan(), "{}(NaN) = {}", stringify!($f), sf(g[i])); })* }} }
        let a = stray(s, angle);
        s.show("angles", a);
        lane!(a, XMVectorSin, XMVectorCos, XMVectorTan, XMVectorSinH, XMVectorCosH, XMVectorTanH, XMVectorExp2, XMVectorExp, XMVectorATan);
        let b = stray(s, unit);
        s.show("cosines", b);
        lane!(b, XMVectorASin, XMVectorACos);
        let d = stray(s, angle);
        s.show("second", d);
        lanewise2("XMVectorATan2", |x, y| XMVectorATan2(x, y), a, d)?;
        lanewise2("XMVectorPow", |x, y| XMVectorPow(x, y), a, b)?;
        lanewise("XMVectorSinCos sine", |x| { let (mut p, mut q) = (x, x); XMVectorSinCos(&mut p, &mut q, x); p }, a)?;
        lanewise("XMVectorSinCos cosine", |x| { let (mut p, mut q) = (x, x); XMVectorSinCos(&mut p, &mut q, x); q }, a)?;
        // the special results
        let inf = f32::INFINITY;
        let x = vec(a);
        let (mut ps, mut pc) = (x, x);
        XMVectorSinCos(&mut ps, &mut pc, x);
        let (sn, cs, tn, ps, pc) = (arr(XMVectorSin(x)), arr(XMVectorCos(x)), arr(XMVectorTan(x)), arr(ps), arr(pc));
        let (sh, ch, th, at) = (arr(XMVectorSinH(x)), arr(XMVectorCosH(x)), arr(XMVectorTanH(x)), arr(XMVectorATan(x)));
        let (y, z) = (arr(XMVectorASin(vec(b))), arr(XMVectorACos(vec(b))));
        for i in 0..4 {
            if !a[i].is_finite() {
                for (n, g) in [("XMVectorSin", sn[i]), ("XMVectorCos", cs[i]), ("XMVectorTan", tn[i]), ("XMVectorSinCos sine", ps[i]), ("XMVectorSinCos cosine", pc[i])] {
                    ensure!(g.is_nan(), "{}({}) = {}", n, sf(a[i]), sf(g));
                }
            }
            if a[i].is_infinite() {
                ensure!(sh[i] == a[i], "XMVectorSinH({}) = {}", sf(a[i]), sf(sh[i]));
                ensure!(ch[i] == inf, "XMVectorCosH({}) = {}", sf(a[i]), sf(ch[i]));
                ensure!(th[i] == a[i].signum(), "XMVectorTanH({}) = {}", sf(a[i]), sf(th[i]));
            }
            if !a[i].is_nan() {
                within("XMVectorATan", at[i], (a[i] as f64).atan(), 5e-7)?;
            }
            if a[i].abs() < 1e-6 {
                let v = a[i] as f64;
                within("XMVectorSin", sn[i], v, 1e-7 * v.abs() + 1.2e-38)?;
                within("XMVectorTan", tn[i], v, 3e-7 * v.abs() + 1.2e-38)?;
                within("XMVectorSinCos sine", ps[i], v, 1e-7 * v.abs() + 1.2e-38)?;
                for (n, g) in [("XMVectorCos", cs[i]), ("XMVectorSinCos cosine", pc[i])] {
                    within(n, g, 1.0, 5e-7)?;
                }
                // 2^x for negative x is good to 1.3e-5 only
                within("XMVectorCosH", ch[i], 1.0, 1.5e-5)?;
                within("XMVectorSinH", sh[i], v, 1.5e-5)?;
                within("XMVectorTanH", th[i], v, 1.5e-5)?;
            }
            if b[i].is_infinite() {
                ensure!(y[i].is_nan() && z[i].is_nan(), "arc functions of {}: {}, {}", sf(b[i]), sf(y[i]), sf(z[i]));
            }
            if b[i].abs() < 1e-6 {
                within("XMVectorASin", y[i], b[i] as f64, 6e-7)?;
                within("XMVectorACos", z[i], PI / 2.0 - b[i] as f64, 6e-7)?;
            }
        }
        Ok(())
    }));
    dxcheck::cli::main("C05", c);
}
