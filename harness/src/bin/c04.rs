//! C04: angle wrapping and modulo.
use dxcheck::prelude::*;
use dxcheck::rf::*;
use std::f64::consts::PI;

/// An angle; multiples of pi (and their neighbours) are common.
fn angle(s: &mut Src, max: f32) -> f32 {
    let x = match s.choice(6) {
        0 => s.range(-7.0, 7.0),
        1 => {
            let k = s.lattice(40, 1.0) as f64;
            let d = s.choice(7) as i32 - 3;
            ulps((k * PI / 2.0) as f32, d)
        }
        2 => s.range(-100.0, 100.0),
        3 => s.range(-max, max),
        4 => {
            let k = s.range(-max, max) as f64;
            ((k / PI).round() * PI) as f32
        }
        _ => s.moderate(20),
    };
    if x.abs() > max { x % max } else { x }
}
/// r must be x reduced modulo 2 pi into [-pi, pi], up to tolerance.
fn reduced(what: &str, r: f32, x: f64, tol: f64) -> Res {
    let k = ((x - r as f64) / (2.0 * PI)).round();
    let d = (x - r as f64 - k * 2.0 * PI).abs();
    track(what, d / tol);
    if d <= tol && (r.abs() as f64) <= PI + tol {
        return Ok(());
    }
    Err(Stop::Fail(format!("{}: {:?} reduced to {:?} (off a multiple of 2pi by {:e}, tolerance {:e})", what, x, r, d, tol)))
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("mod_angles", 200, |s| {
        let a = [angle(s, 1e6), angle(s, 1e6), angle(s, 1e6), angle(s, 1e6)];
        s.show("angles", a);
        let g = arr(XMVectorModAngles(vec(a)));
        for i in 0..4 {
            reduced("XMVectorModAngles", g[i], a[i] as f64, 6e-7 + 1.5e-7 * a[i].abs() as f64)?;
            reduced("XMScalarModAngle", XMScalarModAngle(a[i]), a[i] as f64, 1.2e-6 + 3.0e-7 * a[i].abs() as f64)?;
            if a[i].abs() < 3.1415 {
                // angles already in range are returned unchanged (to rounding)
                within("XMVectorModAngles in range", g[i], a[i] as f64, 1e-7)?;
                within("XMScalarModAngle in range", XMScalarModAngle(a[i]), a[i] as f64, 8e-7)?;
            }
        }
        Ok(())
    }));
    c.push(check("add_subtract_angles", 200, |s| {
        // V1 in [-pi, pi), V2 in [-2pi, 2pi): the result is in [-pi, pi)
        let mut f = |s: &mut Src| {
            let x = if s.one_in(8) { -XM_PI } else { angle(s, 3.1415925) };
            if x >= XM_PI { -x } else { x }
        };
        let a = [f(s), f(s), f(s), f(s)];
        let mut b = [0.0f32; 4];
        for i in 0..4 {
            b[i] = match s.choice(5) {
                // a sum or difference of exactly (or next to) plus or minus pi
                0 => {
                    let t = if s.bool() { XM_PI } else { -XM_PI };
                    let d = s.choice(3) as i32 - 1;
                    let x = ulps(t - a[i], d);
                    if s.bool() { x } else { -x }
                }
                1 => angle(s, XM_2PI),
                _ => f(s),
            };
            if !(b[i].abs() < XM_2PI) { b[i] = 0.0; }
        }
        s.show("a", a);
        s.show("b", b);
        let g = arr(XMVectorAddAngles(vec(a), vec(b)));
        let h = arr(XMVectorSubtractAngles(vec(a), vec(b)));
        for i in 0..4 {
            reduced("XMVectorAddAngles", g[i], a[i] as f64 + b[i] as f64, 1.6e-6)?;
            reduced("XMVectorSubtractAngles", h[i], a[i] as f64 - b[i] as f64, 1.6e-6)?;
            ensure!(g[i] < XM_PI && g[i] >= -XM_PI - 1e-6, "XMVectorAddAngles: {:?} is not in [-pi, pi)", g[i]);
            ensure!(h[i] < XM_PI && h[i] >= -XM_PI - 1e-6, "XMVectorSubtractAngles: {:?} is not in [-pi, pi)", h[i]);
        }
        Ok(())
    }));
    c.push(check("mod", 200, |s| {
        let b = {
            let e = [10, 10, 10, 40, 100][s.below(5)];
            let mut b = s.mod_vec(e, "v2");
            for x in b.iter_mut() {
                if *x == 0.0 {
                    *x = 1.0
                }
            }
            b
        };
        let mut a = [0.0f32; 4];
        for i in 0..4 {
            a[i] = match s.choice(3) {
                0 => {
                    // close to a multiple of the divisor
                    let k = s.lattice(1000, 1.0);
                    let d = s.choice(5) as i32 - 2;
                    ulps(k * b[i], d)
                }
                1 => s.range(-1000.0, 1000.0) * b[i],
                _ if b[i].abs() > 1e9 || b[i].abs() < 1e-9 => s.range(-4.0, 4.0) * b[i],
                _ => s.moderate(8),
            };
        }
        s.show("v1", a);
        let g = arr(XMVectorMod(vec(a), vec(b)));
        for i in 0..4 {
            let (x, y, r) = (a[i] as f64, b[i] as f64, g[i] as f64);
            let tol = 1.3e-7 * x.abs() + 1e-7 * y.abs() + 1e-44;
            let k = ((x - r) / y).round();
            let d = (x - r - k * y).abs();
            track("XMVectorMod", d / tol);
            // congruent, smaller than the divisor, with the sign of the dividend
            ensure!(
                d <= tol && r.abs() <= y.abs() + tol && (r * x >= 0.0 || r.abs() <= tol),
                "XMVectorMod: {} mod {} gave {}", sf(a[i]), sf(b[i]), sf(g[i])
            );
            // away from a multiple of the divisor the quotient is unambiguous
            let q = x / y;
            if (q - q.round()).abs() > 1e-6 * (1.0 + q.abs()) {
                within("XMVectorMod value", g[i], x - y * q.trunc(), tol)?;
            }
        }
        Ok(())
    }));
    c.push(check("components_and_special_values", 200, |s| {
        let (mut a, mut b) = (s.any_vec("v1"), s.any_vec("v2"));
        for i in 0..4 {
            if s.bool() { a[i] = angle(s, 1e6); }
            match s.choice(6) {
                0 => b[i] = angle(s, 1e6),
                1 => b[i] = a[i],
                2 => b[i] = -a[i],
                3 => b[i] = 0.0,
                _ => (),
            }
        }
        s.show("a", a);
        s.show("b", b);
        lanewise("XMVectorModAngles", |x| XMVectorModAngles(x), a)?;
        lanewise2("XMVectorMod", |x, y| XMVectorMod(x, y), a, b)?;
        lanewise2("XMVectorAddAngles", |x, y| XMVectorAddAngles(x, y), a, b)?;
        lanewise2("XMVectorSubtractAngles", |x, y| XMVectorSubtractAngles(x, y), a, b)?;
        let (g, m) = (arr(XMVectorModAngles(vec(a))), arr(XMVectorMod(vec(a), vec(b))));
        for i in 0..4 {
            ensure!(a[i].is_finite() || g[i].is_nan(), "XMVectorModAngles({}) = {}", sf(a[i]), sf(g[i]));
            if a[i].abs() < 1e-6 {
                ensure!(g[i] == a[i], "XMVectorModAngles({}) = {}", sf(a[i]), sf(g[i]));
            }
            if a[i].is_nan() || b[i].is_nan() || a[i].is_infinite() || b[i] == 0.0 {
                ensure!(m[i].is_nan(), "XMVectorMod({}, {}) = {}", sf(a[i]), sf(b[i]), sf(m[i]));
            } else if b[i].is_finite() && (a[i] == b[i] || a[i] == -b[i] || a[i] == 0.0) {
                ensure!(m[i] == 0.0, "XMVectorMod({}, {}) = {}", sf(a[i]), sf(b[i]), sf(m[i]));
            }
        }
        Ok(())
    }));
    c.push(check("degrees_radians", 100, |s| {
        for (n, c, w) in [("XM_PI", XM_PI, PI), ("XM_2PI", XM_2PI, 2.0 * PI), ("XM_1DIVPI", XM_1DIVPI, 1.0 / PI), ("XM_1DIV2PI", XM_1DIV2PI, 0.5 / PI), ("XM_PIDIV2", XM_PIDIV2, PI / 2.0), ("XM_PIDIV4", XM_PIDIV4, PI / 4.0)] {
            within(n, c, w, w * 1.2e-7)?;
        }
        let x = s.moderate(30);
        s.showf("x", x);
        within("XMConvertToRadians", XMConvertToRadians(x), x as f64 * PI / 180.0, 1.5e-7 * (x as f64 * PI / 180.0).abs() + 1e-44)?;
        within("XMConvertToDegrees", XMConvertToDegrees(x), x as f64 * 180.0 / PI, 1.5e-7 * (x as f64 * 180.0 / PI).abs() + 1e-44)
    }));
    dxcheck::cli::main("C04", c);
}
