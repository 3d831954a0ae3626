//! C17: quaternion algebra and its agreement with rotations and matrices.
use dxcheck::prelude::*;
use dxcheck::rf::*;

/// Hamilton product a*b
fn ham(a: RV, b: RV) -> RV {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
        a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
fn conj(a: V4) -> V4 {
    [-a[0], -a[1], -a[2], a[3]]
}
fn quat(s: &mut Src, name: &str) -> V4 {
    let q = s.unit_quat();
    s.show(name, q);
    q
}
fn rot64(q: [f64; 4]) -> [[f64; 3]; 3] {
    let n: f64 = q.iter().map(|x| x * x).sum();
    let (x, y, z, w) = (q[0], q[1], q[2], q[3]);
    let k = 2.0 / n;
    [
        [1.0 - k * (y * y + z * z), k * (x * y + z * w), k * (x * z - y * w)],
        [k * (x * y - z * w), 1.0 - k * (x * x + z * z), k * (y * z + x * w)],
        [k * (x * z + y * w), k * (y * z - x * w), 1.0 - k * (x * x + y * y)],
    ]
}
fn angle(s: &mut Src, name: &str) -> f32 {
    let a = match s.choice(5) {
        0 => s.range(-3.2, 3.2),
        1 => s.choice(17) as f32 * std::f32::consts::FRAC_PI_4 - std::f32::consts::PI,
        2 => s.range(-40.0, 40.0),
        3 => if s.bool() { s.moderate(14) } else { s.moderate(30).clamp(-1.0, 1.0) },
        _ => s.lattice(40, 0.25),
    };
    s.showf(name, a);
    a
}
fn half(a: f32) -> (R, R) {
    let h = a as f64 * 0.5;
    let e = 4.0 * U + 4.0 * U * h.abs();
    (R::new(h.sin(), e), R::new(h.cos(), e))
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("multiply", 150, |s| {
        let (a, b) = { let e = [30, 30, 60, 110][s.below(4)]; (s.mod_vec(e, "q1"), s.mod_vec(e, "q2")) };
        if s.one_in(4) {
            // NaN and infinities
            let wild = |s: &mut Src, v: V4| { let mut v = v; for x in v.iter_mut() { match s.choice(6) { 0 => *x = f32::INFINITY, 1 => *x = f32::NEG_INFINITY, 2 => *x = f32::NAN, _ => () } } v };
            let (p, q) = (wild(s, a), wild(s, b));
            s.show("wild q1", p);
            s.show("wild q2", q);
            let (m, d) = (arr(XMQuaternionMultiply(vec(p), vec(q))), arr(XMQuaternionDot(vec(p), vec(q))));
            class_sum("XMQuaternionMultiply x", m[0], &[(q[3], p[0]), (q[0], p[3]), (q[1], p[2]), (-q[2], p[1])])?;
            class_sum("XMQuaternionMultiply y", m[1], &[(q[3], p[1]), (-q[0], p[2]), (q[1], p[3]), (q[2], p[0])])?;
            class_sum("XMQuaternionMultiply z", m[2], &[(q[3], p[2]), (q[0], p[1]), (-q[1], p[0]), (q[2], p[3])])?;
            class_sum("XMQuaternionMultiply w", m[3], &[(q[3], p[3]), (-q[0], p[0]), (-q[1], p[1]), (-q[2], p[2])])?;
            for i in 0..4 {
                class_sum("XMQuaternionDot", d[i], &[(p[0], q[0]), (p[1], q[1]), (p[2], q[2]), (p[3], q[3])])?;
            }
        }
        close4("XMQuaternionMultiply", arr(XMQuaternionMultiply(vec(a), vec(b))), ham(rv(b), rv(a)))
    }));
    c.push(check("multiply_exact", 50, |s| {
        let mut a = [0.0f32; 4];
        let mut b = a;
        for i in 0..4 {
            a[i] = s.lattice(1000, 1.0);
            b[i] = s.lattice(1000, 1.0);
        }
        s.show("q1", a);
        s.show("q2", b);
        let w = ham(rv(b), rv(a));
        eqn("XMQuaternionMultiply", arr(XMQuaternionMultiply(vec(a), vec(b))), [w[0].v as f32, w[1].v as f32, w[2].v as f32, w[3].v as f32])
    }));
    c.push(check("conjugate_inverse", 100, |s| {
        let a = s.any_vec("q");
        let g = arr(XMQuaternionConjugate(vec(a)));
        eqn("XMQuaternionConjugate", g, conj(a))?;
        let e = [12, 12, 50][s.below(3)];
        let q = s.mod_vec(e, "p");
        let l = dotn(rv(q), rv(q), 4);
        let eps = 1.192092896e-7f64;
        let g = arr(XMQuaternionInverse(vec(q)));
        if l.v > eps * 1.01 {
            let k = rv(conj(q));
            close4("XMQuaternionInverse", g, [k[0] / l, k[1] / l, k[2] / l, k[3] / l])?;
        } else if l.v < eps * 0.99 {
            s.label("too short to invert");
            eqn("XMQuaternionInverse", g, [0.0; 4])?;
        }
        Ok(())
    }));
    c.push(check("lengths", 100, |s| {
        let (p, q) = { let e = [20, 20, 60, 110][s.below(4)]; (s.mod_vec(e, "p"), s.mod_vec(e, "q")) };
        splat_close("XMQuaternionDot", arr(XMQuaternionDot(vec(p), vec(q))), dotn(rv(p), rv(q), 4))?;
        let l = dotn(rv(q), rv(q), 4);
        splat_close("XMQuaternionLengthSq", arr(XMQuaternionLengthSq(vec(q))), l)?;
        splat_close("XMQuaternionLength", arr(XMQuaternionLength(vec(q))), l.sqrt())?;
        if l.v > 0.0 {
            let k = R::ONE / l.sqrt();
            splat_close("XMQuaternionReciprocalLength", arr(XMQuaternionReciprocalLength(vec(q))), k)?;
            let w = [r(q[0]) / l.sqrt(), r(q[1]) / l.sqrt(), r(q[2]) / l.sqrt(), r(q[3]) / l.sqrt()];
            close4("XMQuaternionNormalize", arr(XMQuaternionNormalize(vec(q))), w)?;
            // the hardware estimate of 1/sqrt is only defined for normal floats
            if l.v > 1e-37 && l.v < 1e37 {
                close4("XMQuaternionNormalizeEst", arr(XMQuaternionNormalizeEst(vec(q))), [w[0].rel(1e-4), w[1].rel(1e-4), w[2].rel(1e-4), w[3].rel(1e-4)])?;
            }
        }
        if s.one_in(8) {
            let z = [[0.0, -0.0][s.below(2)], [0.0, -0.0][s.below(2)], 0.0, 0.0];
            s.label("zero");
            eqn("XMQuaternionNormalize of zero", arr(XMQuaternionNormalize(vec(z))), [0.0; 4])?;
        }
        Ok(())
    }));
    c.push(check("predicates", 100, |s| {
        let a = match s.choice(3) {
            0 => s.any_vec("a"),
            1 => {
                let mut a = [0.0, 0.0, 0.0, 1.0];
                if s.bool() {
                    let i = s.below(4);
                    a[i] = if s.bool() { ulps(a[i], 1) } else { s.any() };
                }
                s.show("a", a);
                a
            }
            _ => s.fin_vec("a"),
        };
        let mut b = a;
        match s.choice(3) {
            0 => {}
            1 => {
                let i = s.below(4);
                b[i] = ulps(b[i], 1);
            }
            _ => {
                let i = s.below(4);
                b[i] = s.any();
            }
        }
        s.show("b", b);
        let eq = (0..4).all(|i| a[i] == b[i]);
        s.label(if eq { "equal" } else { "different" });
        ensure!(XMQuaternionEqual(vec(a), vec(b)) == eq, "XMQuaternionEqual: expected {}", eq);
        ensure!(XMQuaternionNotEqual(vec(a), vec(b)) != eq, "XMQuaternionNotEqual: expected {}", !eq);
        let n = a.iter().any(|x| x.is_nan());
        ensure!(XMQuaternionIsNaN(vec(a)) == n, "XMQuaternionIsNaN: expected {}", n);
        let n = a.iter().any(|x| x.is_infinite());
        ensure!(XMQuaternionIsInfinite(vec(a)) == n, "XMQuaternionIsInfinite: expected {}", n);
        let n = a == [0.0, 0.0, 0.0, 1.0];
        ensure!(XMQuaternionIsIdentity(vec(a)) == n, "XMQuaternionIsIdentity: expected {}", n);
        eqn("XMQuaternionIdentity", arr(XMQuaternionIdentity()), [0.0, 0.0, 0.0, 1.0])
    }));
    c.push(check("axis_angle", 120, |s| {
        let a = angle(s, "angle");
        let u = s.unit3();
        let j = [0.0, 1.0, -7.5, f32::NAN][s.below(4)];
        let n = [u[0] as f32, u[1] as f32, u[2] as f32, j];
        s.show("axis", n);
        let (sn, cs) = half(a);
        let w = [r(n[0]) * sn, r(n[1]) * sn, r(n[2]) * sn, cs];
        close4("XMQuaternionRotationNormal", arr(XMQuaternionRotationNormal(vec(n), a)), w)?;
        let k = if s.bool() { s.moderate(12).abs().max(1e-3) } else { s.exp2(50) };
        let b = [n[0] * k, n[1] * k, n[2] * k, j];
        s.show("scaled axis", b);
        let l = dotn(rv(b), rv(b), 3).sqrt();
        let w = [r(b[0]) / l * sn, r(b[1]) / l * sn, r(b[2]) / l * sn, cs];
        close4("XMQuaternionRotationAxis", arr(XMQuaternionRotationAxis(vec(b), a)), w)
    }));
    c.push(check("roll_pitch_yaw", 120, |s| {
        let (p, y, k) = (angle(s, "pitch"), angle(s, "yaw"), angle(s, "roll"));
        let z = R::ZERO;
        let q = |i: usize, a: f32| {
            let (sn, cs) = half(a);
            let mut o = [z, z, z, cs];
            o[i] = sn;
            o
        };
        // roll about z first, then pitch about x, then yaw about y
        let w = ham(q(1, y), ham(q(0, p), q(2, k)));
        close4("XMQuaternionRotationRollPitchYaw", arr(XMQuaternionRotationRollPitchYaw(p, y, k)), w)?;
        let v = vec([p, y, k, [0.0, 3.0][s.below(2)]]);
        close4("XMQuaternionRotationRollPitchYawFromVector", arr(XMQuaternionRotationRollPitchYawFromVector(v)), w)
    }));
    c.push(check("from_matrix", 200, |s| {
        // all branches: the largest component of the quaternion selects the formula
        let q: [f64; 4] = match s.choice(3) {
            0 => s.unit_quat().map(|x| x as f64),
            1 => {
                // two or more components of nearly the same magnitude: next to a branch change
                let mut q = [0.0f64; 4];
                for x in q.iter_mut() {
                    *x = [1.0, -1.0, 0.0, 1.0 + 1e-4][s.below(4)] + s.lattice(4, 1e-5) as f64;
                }
                if q.iter().all(|x| x.abs() < 0.5) {
                    q[3] = 1.0;
                }
                q
            }
            _ => {
                let mut q = [0.0f64; 4];
                for x in q.iter_mut() {
                    *x = s.range(-1.0, 1.0) as f64;
                }
                let i = s.below(4);
                q[i] = [2.0, -2.0][s.below(2)];
                q
            }
        };
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        let q = q.map(|x| x / n);
        let rr = rot64(q);
        let mut m = [[0.0f32; 4]; 4];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = rr[i][j] as f32;
            }
        }
        if s.one_in(4) {
            // only the rotation part matters
            m[3] = [5.0, -6.0, 7.0, 1.0];
        } else {
            m[3][3] = 1.0;
        }
        s.showm("m", m);
        let g = arr(XMQuaternionRotationMatrix(mat(m)));
        let d: f64 = (0..4).map(|i| g[i] as f64 * q[i]).sum();
        let sg = if d < 0.0 { -1.0 } else { 1.0 };
        for i in 0..4 {
            within(&format!("XMQuaternionRotationMatrix of {:?} (expected +-{:?})", g, q), g[i], sg * q[i], 1e-6)?;
        }
        Ok(())
    }));
    c.push(check("to_axis_angle", 60, |s| {
        let q = if s.one_in(4) { let q = s.mod_vec(0, "q"); q } else { quat(s, "q") };
        let mut ax = vec([f32::NAN; 4]);
        let mut an = f32::NAN;
        XMQuaternionToAxisAngle(&mut ax, &mut an, vec(q));
        eqb("axis", ax, tb(q))?;
        within("XMQuaternionToAxisAngle angle", an, 2.0 * (q[3] as f64).max(-1.0).min(1.0).acos(), 1.4e-6)
    }));
    c.push(check("composition", 150, |s| {
        // rotating by q1 then by q2 is rotating by the product, in vectors and in matrices
        let (a, b) = (quat(s, "q1"), quat(s, "q2"));
        let v = [s.range(-4.0, 4.0), s.range(-4.0, 4.0), s.range(-4.0, 4.0), 0.0];
        let v = if s.bool() { v } else { s.mod_vec(2, "v") };
        let v = [v[0], v[1], v[2], [0.0, 1.0, f32::NAN][s.below(3)]];
        s.show("v", v);
        let p = XMQuaternionMultiply(vec(a), vec(b));
        let one = arr(XMVector3Rotate(vec(v), p));
        let two = arr(XMVector3Rotate(XMVector3Rotate(vec(v), vec(a)), vec(b)));
        let viam = arr(XMVector3TransformNormal(vec(v), XMMatrixRotationQuaternion(p)));
        let mm = XMMatrixMultiply(XMMatrixRotationQuaternion(vec(a)), &XMMatrixRotationQuaternion(vec(b)));
        let viamm = arr(XMVector3TransformNormal(vec(v), mm));
        let back = arr(XMVector3InverseRotate(XMVector3Rotate(vec(v), vec(a)), vec(a)));
        let inv = arr(XMVector3Rotate(XMVector3Rotate(vec(v), vec(a)), XMQuaternionInverse(vec(a))));
        for i in 0..3 {
            within("one after the other", two[i], one[i] as f64, 2e-5)?;
            within("through the matrix", viam[i], one[i] as f64, 2e-5)?;
            within("through the matrix product", viamm[i], one[i] as f64, 2e-5)?;
            within("rotate and rotate back", back[i], v[i] as f64, 2e-5)?;
            within("rotate by the inverse", inv[i], v[i] as f64, 2e-5)?;
        }
        let l: f64 = (0..3).map(|i| (one[i] as f64).powi(2)).sum::<f64>().sqrt();
        let l0: f64 = (0..3).map(|i| (v[i] as f64).powi(2)).sum::<f64>().sqrt();
        ensure!((l - l0).abs() <= 2e-5, "rotation changed the length from {} to {}", l0, l);
        Ok(())
    }));
    dxcheck::cli::main("C17", c);
}
