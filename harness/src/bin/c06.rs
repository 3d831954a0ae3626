//! C06: estimate functions stay within their advertised accuracy.
use dxcheck::prelude::*;
use dxcheck::rf::*;
use std::f64::consts::PI;

fn angle(s: &mut Src) -> f32 {
    match s.choice(5) {
        0 => s.range(-3.2, 3.2),
        1 => {
            let k = s.lattice(16, 1.0) as f64;
            let d = s.choice(9) as i32 - 4;
            ulps((k * PI / 4.0) as f32, d)
        }
        2 => s.range(-20.0, 20.0),
        3 => s.range(-1000.0, 1000.0),
        _ => if s.bool() { s.moderate(8) } else { s.moderate(40).clamp(-1e6, 1e6) },
    }
}
fn unit(s: &mut Src) -> f32 {
    let x = match s.choice(4) {
        0 => s.range(-1.0, 1.0),
        1 => {
            let k = s.choice(64) as i32;
            ulps(1.0, -k)
        }
        2 => [0.0f32, 1.0, -1.0, 0.5, -0.5, 0.70710677, -0.0][s.below(7)],
        _ => s.range(-0.01, 0.01),
    };
    if s.bool() { -x } else { x }
}
/// Any value at all, or one the function is meant for.
fn stray(s: &mut Src, f: fn(&mut Src) -> f32) -> V4 {
    let mut v = [0.0; 4];
    for x in v.iter_mut() {
        *x = match s.choice(4) {
            0 | 1 => f(s),
            2 => s.any(),
            _ => [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0, 1e-40, -1e-40, 1.0][s.below(8)],
        };
    }
    v
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("sin_cos", 200, |s| {
        let a = [angle(s), angle(s), angle(s), angle(s)];
        s.show("v", a);
        let x = vec(a);
        let (mut ps, mut pc) = (XMVectorZero(), XMVectorZero());
        XMVectorSinCosEst(&mut ps, &mut pc, x);
        let (sn, cs, ps, pc) = (arr(XMVectorSinEst(x)), arr(XMVectorCosEst(x)), arr(ps), arr(pc));
        for i in 0..4 {
            let v = a[i] as f64;
            let t = 1.5e-7 * v.abs();
            let (ts, tc) = (5e-6 + t, 3e-5 + t);
            within("XMVectorSinEst", sn[i], v.sin(), ts)?;
            within("XMVectorCosEst", cs[i], v.cos(), tc)?;
            within("XMVectorSinCosEst sin", ps[i], v.sin(), ts)?;
            within("XMVectorSinCosEst cos", pc[i], v.cos(), tc)?;
            let (mut p, mut q) = (9.0, 9.0);
            XMScalarSinCosEst(&mut p, &mut q, a[i]);
            within("XMScalarSinEst", XMScalarSinEst(a[i]), v.sin(), ts)?;
            within("XMScalarCosEst", XMScalarCosEst(a[i]), v.cos(), tc)?;
            within("XMScalarSinCosEst sin", p, v.sin(), ts)?;
            within("XMScalarSinCosEst cos", q, v.cos(), tc)?;
        }
        Ok(())
    }));
    c.push(check("tan", 100, |s| {
        let mut f = |s: &mut Src| {
            // at least 0.05 away from a pole
            let k = s.lattice(6, 1.0) as f64;
            match s.choice(5) {
                0 => s.moderate(30).clamp(-1.5, 1.5),
                1 => (k * PI) as f32,
                _ => (k * PI + s.range(-1.52, 1.52) as f64) as f32,
            }
        };
        let a = if s.one_in(5) { [f(s); 4] } else { [f(s), f(s), f(s), f(s)] };
        s.show("v", a);
        let g = arr(XMVectorTanEst(vec(a)));
        for i in 0..4 {
            let v = a[i] as f64;
            let t = v.tan();
            within("XMVectorTanEst", g[i], t, 0.01 * t.abs() + 4e-6)?;
        }
        Ok(())
    }));
    c.push(check("asin_acos_est_clamped", 30, |s| {
        let beyond = |s: &mut Src| {
            let m = match s.choice(4) {
                0 => f32::from_bits(0x3F800001 + s.below(200) as u32),
                1 => s.range(1.0, 1.01),
                2 => s.range(1.0, 100.0),
                _ => f32::exp2(s.range(0.0, 13.0)),
            };
            if s.bool() { m } else { -m }
        };
        let a = [beyond(s), beyond(s), beyond(s), beyond(s)];
        s.show("v", a);
        let (p, q) = (arr(XMVectorASinEst(vec(a))), arr(XMVectorACosEst(vec(a))));
        for i in 0..4 {
            let v = (a[i] as f64).max(-1.0).min(1.0);
            if !p[i].is_nan() {
                // the portable vector form answers NaN outside the domain
                within("XMVectorASinEst beyond 1", p[i], v.asin(), 8e-5)?;
            }
            if !q[i].is_nan() {
                // the portable vector form answers NaN outside the domain
                within("XMVectorACosEst beyond 1", q[i], v.acos(), 8e-5)?;
            }
            within("XMScalarASinEst beyond 1", XMScalarASinEst(a[i]), v.asin(), 8e-5)?;
            within("XMScalarACosEst beyond 1", XMScalarACosEst(a[i]), v.acos(), 8e-5)?;
        }
        Ok(())
    }));
    c.push(check("asin_acos", 100, |s| {
        let a = [unit(s), unit(s), unit(s), unit(s)];
        s.show("v", a);
        let (p, q) = (arr(XMVectorASinEst(vec(a))), arr(XMVectorACosEst(vec(a))));
        for i in 0..4 {
            let v = a[i] as f64;
            within("XMVectorASinEst", p[i], v.asin(), 8e-5)?;
            within("XMVectorACosEst", q[i], v.acos(), 8e-5)?;
            within("XMScalarASinEst", XMScalarASinEst(a[i]), v.asin(), 8e-5)?;
            within("XMScalarACosEst", XMScalarACosEst(a[i]), v.acos(), 8e-5)?;
        }
        Ok(())
    }));
    c.push(check("atan", 100, |s| {
        let a = [s.moderate(20), s.moderate(4), s.moderate(2), s.range(-2.0, 2.0)];
        s.show("v", a);
        let g = arr(XMVectorATanEst(vec(a)));
        for i in 0..4 {
            within("XMVectorATanEst", g[i], (a[i] as f64).atan(), 1.5e-5)?;
        }
        Ok(())
    }));
    c.push(check("atan2", 200, |s| {
        let mut f = |s: &mut Src| match s.choice(5) {
            0 => [0.0f32, -0.0, 1.0, -1.0][s.below(4)],
            1 => s.lattice(3, 1.0),
            2 => s.moderate(8),
            _ => s.moderate(40),
        };
        let y = [f(s), f(s), f(s), f(s)];
        let x = [f(s), f(s), f(s), f(s)];
        s.show("y", y);
        s.show("x", x);
        let g = arr(XMVectorATan2Est(vec(y), vec(x)));
        for i in 0..4 {
            within("XMVectorATan2Est", g[i], (y[i] as f64).atan2(x[i] as f64), 2.2e-4)?;
        }
        Ok(())
    }));
    c.push(check("recip_sqrt", 200, |s| {
        let mut a = s.mod_vec(120, "v");
        for x in a.iter_mut() {
            if *x == 0.0 {
                *x = 1.0
            }
        }
        let p = map(a, |x| x.abs());
        let (r, q, t) = (arr(XMVectorReciprocalEst(vec(a))), arr(XMVectorSqrtEst(vec(p))), arr(XMVectorReciprocalSqrtEst(vec(p))));
        for i in 0..4 {
            let (v, w) = (a[i] as f64, p[i] as f64);
            within("XMVectorReciprocalEst", r[i], 1.0 / v, 4e-4 / w)?;
            within("XMVectorSqrtEst", q[i], w.sqrt(), 4e-4 * w.sqrt())?;
            within("XMVectorReciprocalSqrtEst", t[i], 1.0 / w.sqrt(), 4e-4 / w.sqrt())?;
        }
        Ok(())
    }));
    c.push(check("lengths", 200, |s| {
        let k = if s.bool() { 1.0 } else { s.exp2(44) };
        let a = map(s.mod_vec(12, "v"), |x| x * k);
        s.showf("all times", k);
        let k = k as f64;
        let v: Vec<f64> = a.iter().map(|x| *x as f64).collect();
        macro_rules! dim { ($n:expr, $len:ident, $rl:ident, $nrm:ident) => {{
            let l = v[..$n].iter().map(|x| x * x).sum::<f64>().sqrt();
            if l > 1e-6 * k {
                let g = arr($len(vec(a)));
                let h = arr($rl(vec(a)));
                for i in 0..4 {
                    within(stringify!($len), g[i], l, 5e-4 * l)?;
                    within(stringify!($rl), h[i], 1.0 / l, 5e-4 / l)?;
                }
                let g = arr($nrm(vec(a)));
                for i in 0..$n {
                    within(stringify!($nrm), g[i], v[i] / l, 5e-4)?;
                }
            }
        }} }
        dim!(2, XMVector2LengthEst, XMVector2ReciprocalLengthEst, XMVector2NormalizeEst);
        dim!(3, XMVector3LengthEst, XMVector3ReciprocalLengthEst, XMVector3NormalizeEst);
        dim!(4, XMVector4LengthEst, XMVector4ReciprocalLengthEst, XMVector4NormalizeEst);
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 1e-6 * k {
            let g = arr(XMQuaternionNormalizeEst(vec(a)));
            for i in 0..4 {
                within("XMQuaternionNormalizeEst", g[i], v[i] / l, 5e-4)?;
            }
        }
        let l = v[..3].iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 1e-6 * k {
            let g = arr(XMPlaneNormalizeEst(vec(a)));
            for i in 0..4 {
                within("XMPlaneNormalizeEst", g[i], v[i] / l, 5e-4 * (v[i] / l).abs() + 1e-7)?;
            }
        }
        Ok(())
    }));
    c.push(check("angles_between_normals", 200, |s| {
        let (p, q) = (s.unit3(), s.unit3());
        macro_rules! dim { ($n:expr, $f:ident) => {{
            let nrm = |v: [f64; 3], s: f64| { let mut w = [v[0], v[1], v[2], s]; for i in $n..4 { w[i] = 0.0 }
                let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
                if l < 1e-9 { [1.0, 0.0, 0.0, 0.0] } else { [w[0] / l, w[1] / l, w[2] / l, w[3] / l] } };
            let (a, b) = (nrm(p, 0.3), nrm(q, -0.2));
            let d = a.iter().zip(b.iter()).map(|(x, y)| x * y).sum::<f64>().clamp(-1.0, 1.0);
            let f = |v: [f64; 4]| { let mut w = [v[0] as f32, v[1] as f32, v[2] as f32, v[3] as f32]; for i in $n..4 { w[i] = 7.5 } w };
            let (fa, fb) = (f(a), f(b));
            s.show("n1", fa);
            s.show("n2", fb);
            let g = arr($f(vec(fa), vec(fb)));
            // the arc cosine of any dot product within rounding of the exact one
            let (lo, hi) = ((d + 4e-7).min(1.0).acos(), (d - 4e-7).max(-1.0).acos());
            for i in 0..4 {
                within(stringify!($f), g[i], 0.5 * (lo + hi), 0.5 * (hi - lo) + 9e-5)?;
            }
        }} }
        dim!(2, XMVector2AngleBetweenNormalsEst);
        dim!(3, XMVector3AngleBetweenNormalsEst);
        dim!(4, XMVector4AngleBetweenNormalsEst);
        Ok(())
    }));
    c.push(check("components_and_special_values", 200, |s| {
        macro_rules! lane { ($a:expr, $($f:ident),*) => {{ $(lanewise(stringify!($f), |x| $f(x), $a)?;
            let g = arr($f(vec($a)));
            for i in 0..4 { ensure!(!$a[i].is_nan() || g[i].is_nan(), "{}(NaN) = {}", stringify!($f), sf(g[i])); })* }} }
        let a = stray(s, angle);
        s.show("angles", a);
        lane!(a, XMVectorSinEst, XMVectorCosEst, XMVectorTanEst, XMVectorATanEst, XMVectorReciprocalEst, XMVectorSqrtEst, XMVectorReciprocalSqrtEst);
        let b = stray(s, unit);
        s.show("cosines", b);
        lane!(b, XMVectorASinEst, XMVectorACosEst);
        let d = stray(s, angle);
        s.show("second", d);
        lanewise2("XMVectorATan2Est", |x, y| XMVectorATan2Est(x, y), a, d)?;
        lanewise("XMVectorSinCosEst sine", |x| { let (mut p, mut q) = (x, x); XMVectorSinCosEst(&mut p, &mut q, x); p }, a)?;
        lanewise("XMVectorSinCosEst cosine", |x| { let (mut p, mut q) = (x, x); XMVectorSinCosEst(&mut p, &mut q, x); q }, a)?;
        let x = vec(a);
        let (mut ps, mut pc) = (x, x);
        XMVectorSinCosEst(&mut ps, &mut pc, x);
        let (sn, cs, ps, pc, at) = (arr(XMVectorSinEst(x)), arr(XMVectorCosEst(x)), arr(ps), arr(pc), arr(XMVectorATanEst(x)));
        let (y, z) = (arr(XMVectorASinEst(vec(b))), arr(XMVectorACosEst(vec(b))));
        for i in 0..4 {
            if !a[i].is_finite() {
                for (n, g) in [("XMVectorSinEst", sn[i]), ("XMVectorCosEst", cs[i]), ("XMVectorSinCosEst sine", ps[i]), ("XMVectorSinCosEst cosine", pc[i])] {
                    ensure!(g.is_nan(), "{}({}) = {}", n, sf(a[i]), sf(g));
                }
            }
            if a[i].is_finite() {
                within("XMVectorATanEst", at[i], (a[i] as f64).atan(), 1.5e-5)?;
            }
            if a[i].abs() < 1e-6 {
                within("XMVectorSinEst", sn[i], a[i] as f64, 5e-6)?;
                within("XMVectorSinCosEst sine", ps[i], a[i] as f64, 5e-6)?;
                within("XMVectorCosEst", cs[i], 1.0, 3e-5)?;
                within("XMVectorSinCosEst cosine", pc[i], 1.0, 3e-5)?;
            }
            if b[i].abs() < 1e-6 {
                within("XMVectorASinEst", y[i], b[i] as f64, 8e-5)?;
                within("XMVectorACosEst", z[i], PI / 2.0, 8e-5)?;
            }
        }
        Ok(())
    }));
    dxcheck::cli::main("C06", c);
}
