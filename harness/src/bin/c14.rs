//! C14: matrix constructors and the transformations they denote.
use dxcheck::prelude::*;
use dxcheck::rf::*;

fn sc(a: f32) -> (R, R) {
    // range reduction and a minimax polynomial in f32: absolute error a few ulps of 1, growing with |a|
    let e = 4.0 * U + 4.0 * U * (a as f64).abs();
    (R::new((a as f64).sin(), e), R::new((a as f64).cos(), e))
}
fn rtrans(t: RV) -> RM {
    let mut m = rident();
    m[3] = [t[0], t[1], t[2], R::ONE];
    m
}
fn rscale(t: RV) -> RM {
    let mut m = rident();
    for i in 0..3 {
        m[i][i] = t[i];
    }
    m
}
fn rotx(a: f32) -> RM {
    let (s, c) = sc(a);
    let mut m = rident();
    m[1][1] = c;
    m[1][2] = s;
    m[2][1] = -s;
    m[2][2] = c;
    m
}
fn roty(a: f32) -> RM {
    let (s, c) = sc(a);
    let mut m = rident();
    m[0][0] = c;
    m[0][2] = -s;
    m[2][0] = s;
    m[2][2] = c;
    m
}
fn rotz(a: f32) -> RM {
    let (s, c) = sc(a);
    let mut m = rident();
    m[0][0] = c;
    m[0][1] = s;
    m[1][0] = -s;
    m[1][1] = c;
    m
}
fn rotn(n: RV, a: f32) -> RM {
    let (s, c) = sc(a);
    let k = R::ONE - c;
    let mut m = rident();
    let (x, y, z) = (n[0], n[1], n[2]);
    m[0] = [c + k * x * x, k * x * y + s * z, k * x * z - s * y, R::ZERO];
    m[1] = [k * x * y - s * z, c + k * y * y, k * y * z + s * x, R::ZERO];
    m[2] = [k * x * z + s * y, k * y * z - s * x, c + k * z * z, R::ZERO];
    m
}
fn rotq(q: RV) -> RM {
    let (x, y, z, w) = (q[0], q[1], q[2], q[3]);
    let two = rc(2.0);
    let mut m = rident();
    m[0] = [R::ONE - two * (y * y + z * z), two * (x * y + z * w), two * (x * z - y * w), R::ZERO];
    m[1] = [two * (x * y - z * w), R::ONE - two * (x * x + z * z), two * (y * z + x * w), R::ZERO];
    m[2] = [two * (x * z + y * w), two * (y * z - x * w), R::ONE - two * (x * x + y * y), R::ZERO];
    m
}
fn norm3r(v: RV) -> RV {
    let l = dotn(v, v, 3).sqrt();
    [v[0] / l, v[1] / l, v[2] / l, v[3] / l]
}
fn angle(s: &mut Src, name: &str) -> f32 {
    let a = match s.choice(5) {
        0 => s.range(-3.2, 3.2),
        1 => s.choice(17) as f32 * std::f32::consts::FRAC_PI_4 - std::f32::consts::PI,
        2 => s.range(-40.0, 40.0),
        3 => if s.bool() { s.moderate(14) } else { s.moderate(30).clamp(-1.0, 1.0) },
        _ => s.lattice(40, 0.25),
    };
    s.showf(name, a);
    a
}
fn v3(s: &mut Src, e: u32, n: usize, name: &str) -> V4 {
    let mut v = s.mod_vec(e, name);
    for i in n..4 {
        v[i] = [0.0, 1.0, -7.5, f32::NAN, f32::INFINITY][s.below(5)];
    }
    s.show(name, v);
    v
}
fn cut(v: V4, n: usize, fill: f32) -> RV {
    let mut o = [r(fill); 4];
    for i in 0..n {
        o[i] = r(v[i]);
    }
    o
}
fn negv(v: RV) -> RV {
    [-v[0], -v[1], -v[2], -v[3]]
}
fn quat(s: &mut Src, name: &str) -> V4 {
    let q = s.unit_quat();
    s.show(name, q);
    q
}
/// rounding of a unit quaternion or axis leaves its length off by a few ulps; the library's
/// formulas may be any that agree for exactly normalized input
fn slack(m: RM, e: f64) -> RM {
    let mut o = m;
    for i in 0..4 {
        for j in 0..4 {
            o[i][j] = o[i][j].plus(e);
        }
    }
    o
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("translation_scaling", 80, |s| {
        let v = s.any_vec("v");
        let mut t = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [v[0], v[1], v[2], 1.0]];
        let cmp = |what: &str, m: XMMATRIX, w: M4| -> Res {
            let g = marr(m);
            for i in 0..4 {
                eqn(&format!("{} row {}", what, i), g[i], w[i])?;
            }
            Ok(())
        };
        cmp("XMMatrixTranslation", XMMatrixTranslation(v[0], v[1], v[2]), t)?;
        cmp("XMMatrixTranslationFromVector", XMMatrixTranslationFromVector(vec(v)), t)?;
        t = [[v[0], 0.0, 0.0, 0.0], [0.0, v[1], 0.0, 0.0], [0.0, 0.0, v[2], 0.0], [0.0, 0.0, 0.0, 1.0]];
        cmp("XMMatrixScaling", XMMatrixScaling(v[0], v[1], v[2]), t)?;
        cmp("XMMatrixScalingFromVector", XMMatrixScalingFromVector(vec(v)), t)
    }));
    c.push(check("axis_rotations", 100, |s| {
        let a = angle(s, "angle");
        close44("XMMatrixRotationX", marr(XMMatrixRotationX(a)), rotx(a))?;
        close44("XMMatrixRotationY", marr(XMMatrixRotationY(a)), roty(a))?;
        close44("XMMatrixRotationZ", marr(XMMatrixRotationZ(a)), rotz(a))
    }));
    c.push(check("axis_angle", 100, |s| {
        let a = angle(s, "angle");
        let n = s.unit3();
        let j = [0.0, 1.0, -7.5, f32::NAN][s.below(4)];
        let n = [n[0] as f32, n[1] as f32, n[2] as f32, j];
        s.show("axis", n);
        let w = rotn(cut(n, 3, 0.0), a);
        close44("XMMatrixRotationNormal", marr(XMMatrixRotationNormal(vec(n), a)), w)?;
        let k = if s.bool() { s.moderate(12).abs().max(1e-3) } else { s.exp2(50) };
        let b = [n[0] * k, n[1] * k, n[2] * k, j];
        s.show("scaled axis", b);
        let w = rotn(norm3r(cut(b, 3, 0.0)), a);
        close44("XMMatrixRotationAxis", marr(XMMatrixRotationAxis(vec(b), a)), w)
    }));
    c.push(check("quaternion", 100, |s| {
        let q = quat(s, "q");
        close44("XMMatrixRotationQuaternion", marr(XMMatrixRotationQuaternion(vec(q))), slack(rotq(rv(q)), 2.0 * U))
    }));
    c.push(check("roll_pitch_yaw", 100, |s| {
        let (p, y, r0) = (angle(s, "pitch"), angle(s, "yaw"), angle(s, "roll"));
        let w = slack(matmul(matmul(rotz(r0), rotx(p)), roty(y)), 4.0 * U);
        close44("XMMatrixRotationRollPitchYaw", marr(XMMatrixRotationRollPitchYaw(p, y, r0)), w)?;
        let v = vec([p, y, r0, [0.0, 2.0][s.below(2)]]);
        close44("XMMatrixRotationRollPitchYawFromVector", marr(XMMatrixRotationRollPitchYawFromVector(v)), w)
    }));
    c.push(check("transformation", 120, |s| {
        let (so, sv_, ro, t) =
            { let e = [6, 6, 20, 40][s.below(4)]; (v3(s, e, 3, "scaling origin"), v3(s, e, 3, "scaling"), v3(s, e, 3, "rotation origin"), v3(s, e, 3, "translation")) };
        let (sq, rq) = (quat(s, "scaling orientation"), quat(s, "rotation"));
        let (a, b, d) = (cut(so, 3, 0.0), cut(ro, 3, 0.0), cut(t, 3, 0.0));
        let rs = slack(rotq(rv(sq)), 2.0 * U);
        let rr = slack(rotq(rv(rq)), 2.0 * U);
        let sm = rscale(cut(sv_, 3, 1.0));
        let mut w = matmul(rtrans(negv(a)), transpose(rs));
        w = matmul(matmul(w, sm), rs);
        w = matmul(matmul(w, rtrans(a)), rtrans(negv(b)));
        w = matmul(matmul(w, rr), rtrans(b));
        w = matmul(w, rtrans(d));
        let g = XMMatrixTransformation(vec(so), vec(sq), vec(sv_), vec(ro), vec(rq), vec(t));
        close44("XMMatrixTransformation", marr(g), w)?;
        let w = matmul(matmul(matmul(matmul(sm, rtrans(negv(b))), rr), rtrans(b)), rtrans(d));
        let g = XMMatrixAffineTransformation(vec(sv_), vec(ro), vec(rq), vec(t));
        close44("XMMatrixAffineTransformation", marr(g), w)
    }));
    c.push(check("transformation_2d", 120, |s| {
        let (so, sv_, ro, t) =
            { let e = [6, 6, 20, 40][s.below(4)]; (v3(s, e, 2, "scaling origin"), v3(s, e, 2, "scaling"), v3(s, e, 2, "rotation origin"), v3(s, e, 2, "translation")) };
        let (sa, ra) = (angle(s, "scaling orientation"), angle(s, "rotation"));
        let (a, b, d) = (cut(so, 2, 0.0), cut(ro, 2, 0.0), cut(t, 2, 0.0));
        let sm = rscale(cut(sv_, 2, 1.0));
        let mut w = matmul(rtrans(negv(a)), transpose(rotz(sa)));
        w = matmul(matmul(w, sm), rotz(sa));
        w = matmul(matmul(w, rtrans(a)), rtrans(negv(b)));
        w = matmul(matmul(w, rotz(ra)), rtrans(b));
        w = matmul(w, rtrans(d));
        let g = XMMatrixTransformation2D(vec(so), sa, vec(sv_), vec(ro), ra, vec(t));
        close44("XMMatrixTransformation2D", marr(g), w)?;
        let w = matmul(matmul(matmul(matmul(sm, rtrans(negv(b))), rotz(ra)), rtrans(b)), rtrans(d));
        let g = XMMatrixAffineTransformation2D(vec(sv_), vec(ro), ra, vec(t));
        close44("XMMatrixAffineTransformation2D", marr(g), w)
    }));
    c.push(check("reflect_shadow", 120, |s| {
        let n = s.unit3();
        let k = if s.bool() { s.moderate(6).abs().max(0.05) } else { s.exp2(30) };
        let p = [n[0] as f32 * k, n[1] as f32 * k, n[2] as f32 * k, s.moderate(6) * if s.bool() { 1.0 } else { k }];
        s.show("plane", p);
        let u = norm3r(rv(p));
        let mut w = rident();
        let m2 = rc(-2.0);
        for i in 0..4 {
            for j in 0..3 {
                w[i][j] = u[i] * (u[j] * m2) + w[i][j];
            }
        }
        close44("XMMatrixReflect", marr(XMMatrixReflect(vec(p))), w)?;
        let e = [6, 6, 30][s.below(3)];
        let mut l = s.mod_vec(e, "light");
        l[3] = [0.0, 1.0][s.below(2)];
        if s.one_in(4) {
            l[3] = s.moderate(4);
        }
        s.show("light", l);
        let d = dotn(u, rv(l), 4);
        let mut w = [[R::ZERO; 4]; 4];
        for i in 0..4 {
            for j in 0..4 {
                w[i][j] = -(u[i] * r(l[j]));
                if i == j {
                    w[i][j] = w[i][j] + d;
                }
            }
        }
        close44("XMMatrixShadow", marr(XMMatrixShadow(vec(p), vec(l))), w)
    }));
    dxcheck::cli::main("C14", c);
}
