//! C10: transforming vectors by matrices and quaternions; projection.
use dxcheck::prelude::*;
use dxcheck::rf::*;

fn junk(s: &mut Src, v: V4, n: usize) -> V4 {
    let mut o = v;
    for i in n..4 {
        o[i] = [0.0, 1.0, -3.25, f32::NAN, f32::INFINITY][s.below(5)];
    }
    o
}
fn nvec(s: &mut Src, e: u32, n: usize, name: &str) -> V4 {
    let v = s.mod_vec(e, name);
    let v = junk(s, v, n);
    s.show(name, v);
    v
}
fn point(v: V4, n: usize, w: R) -> RV {
    let mut o = [R::ZERO, R::ZERO, R::ZERO, w];
    for i in 0..n {
        o[i] = r(v[i]);
    }
    o
}
fn persp(v: RV) -> RV {
    [v[0] / v[3], v[1] / v[3], v[2] / v[3], v[3] / v[3]]
}
/// q* (v, 0) q for a row-vector convention, on reference values
fn qmul(a: RV, b: RV) -> RV {
    // Hamilton product a*b
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
        a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
fn conj(a: RV) -> RV {
    [-a[0], -a[1], -a[2], a[3]]
}
/// A matrix that behaves like a camera/world matrix: rotation, scale and translation.
fn trs(s: &mut Src, name: &str) -> M4 {
    let style = s.choice(8);
    let q = if style <= 2 { [0.0, 0.0, 0.0, 1.0] } else { s.unit_quat() };
    let (sc, t);
    if style == 0 {
        sc = [1.0; 3];
        t = [0.0; 3];
    } else if style <= 3 {
        // simple scales (mirrors, equal ones, none) and translations (none, along an axis)
        let mut one = || [1.0, 2.0, -1.0, 0.5, -2.0, 1.5][s.below(6)];
        sc = [one(), one(), one()];
        let mut off = || [0.0, 0.0, 1.0, -3.0][s.below(4)];
        t = [off(), off(), off()];
    } else {
        sc = [s.range(0.5, 2.0), s.range(0.5, 2.0), s.range(0.5, 2.0)];
        t = if s.one_in(4) { [0.0; 3] } else { [s.range(-4.0, 4.0), s.range(-4.0, 4.0), s.range(-4.0, 4.0)] };
    }
    let (x, y, z, w) = (q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64);
    let rr = [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y + z * w), 2.0 * (x * z - y * w)],
        [2.0 * (x * y - z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z + x * w)],
        [2.0 * (x * z + y * w), 2.0 * (y * z - x * w), 1.0 - 2.0 * (x * x + y * y)],
    ];
    let mut m = [[0.0f32; 4]; 4];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = (rr[i][j] * sc[i] as f64) as f32;
        }
    }
    m[3] = [t[0], t[1], t[2], 1.0];
    s.showm(name, m);
    m
}
fn proj(s: &mut Src) -> M4 {
    let mut m = [[0.0f32; 4]; 4];
    m[0][0] = s.range(0.5, 2.0);
    m[1][1] = s.range(0.5, 2.0);
    m[2][2] = s.range(1.0, 1.5);
    if s.bool() {
        m[2][3] = 1.0;
        m[3][2] = -s.range(0.1, 1.0);
    } else {
        m[3][3] = 1.0;
        m[3][2] = s.range(-1.0, 1.0);
    }
    if s.one_in(3) {
        // off-centre
        let row = if m[2][3] != 0.0 { 2 } else { 3 };
        m[row][0] = s.range(-1.0, 1.0);
        m[row][1] = s.range(-1.0, 1.0);
    }
    if s.one_in(3) {
        // right-handed
        for j in 0..4 {
            m[2][j] = -m[2][j];
        }
    }
    if s.one_in(12) {
        m = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
    }
    s.showm("projection", m);
    m
}
fn viewport(s: &mut Src) -> [f32; 6] {
    let v = [
        [0.0, s.range(-100.0, 100.0)][s.below(2)],
        [0.0, s.range(-100.0, 100.0)][s.below(2)],
        s.range(1.0, 2000.0),
        s.range(1.0, 2000.0),
        [0.0, s.range(0.0, 0.4)][s.below(2)],
        [1.0, s.range(0.5, 1.0)][s.below(2)],
    ];
    let v = if s.one_in(6) { [v[0], v[1], v[2], v[3], v[5], v[4]] } else { v };
    s.note(|| format!("viewport={:?}", v));
    v
}
fn mm64(a: [[f64; 4]; 4], b: [[f64; 4]; 4]) -> [[f64; 4]; 4] {
    let mut o = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
fn m64(a: M4) -> [[f64; 4]; 4] {
    let mut o = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            o[i][j] = a[i][j] as f64;
        }
    }
    o
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("transform", 150, |s| {
        let e = [30, 30, 60, 110][s.below(4)];
        let m = s.mod_mat(e, "m");
        let (a, b, d) = (nvec(s, e, 2, "v2"), nvec(s, e, 3, "v3"), nvec(s, e, 4, "v4"));
        close4("XMVector2Transform", arr(XMVector2Transform(vec(a), mat(m))), xform(point(a, 2, R::ONE), rm(m)))?;
        close4("XMVector3Transform", arr(XMVector3Transform(vec(b), mat(m))), xform(point(b, 3, R::ONE), rm(m)))?;
        close4("XMVector4Transform", arr(XMVector4Transform(vec(d), mat(m))), xform(rv(d), rm(m)))
    }));
    c.push(check("transform_coord", 150, |s| {
        let e = [12, 12, 40][s.below(3)];
        let m = s.mod_mat(e, "m");
        let (a, b) = (nvec(s, e, 2, "v2"), nvec(s, e, 3, "v3"));
        let g = arr(XMVector2TransformCoord(vec(a), mat(m)));
        closen("XMVector2TransformCoord", g, persp(xform(point(a, 2, R::ONE), rm(m))), 3)?;
        let g = arr(XMVector3TransformCoord(vec(b), mat(m)));
        closen("XMVector3TransformCoord", g, persp(xform(point(b, 3, R::ONE), rm(m))), 3)?;
        let w = xform(point(b, 3, R::ONE), rm(m))[3];
        if w.v.abs() > 8.0 * w.e {
            ensure!(g[3] == 1.0, "XMVector3TransformCoord: w is {:?}", g[3]);
        }
        Ok(())
    }));
    c.push(check("transform_normal", 150, |s| {
        let e = [30, 30, 60, 110][s.below(4)];
        let m = s.mod_mat(e, "m");
        let (a, b) = (nvec(s, e, 2, "v2"), nvec(s, e, 3, "v3"));
        let g = arr(XMVector2TransformNormal(vec(a), mat(m)));
        closen("XMVector2TransformNormal", g, xform(point(a, 2, R::ZERO), rm(m)), 3)?;
        let g = arr(XMVector3TransformNormal(vec(b), mat(m)));
        closen("XMVector3TransformNormal", g, xform(point(b, 3, R::ZERO), rm(m)), 3)
    }));
    c.push(check("transform_non_finite", 60, |s| {
        let wild = |s: &mut Src| match s.choice(8) { 0 => f32::INFINITY, 1 => f32::NEG_INFINITY, 2 => f32::NAN, 3 => 0.0, _ => s.moderate(20) };
        let mut m = s.mod_mat(20, "m");
        for _ in 0..s.below(3) {
            let (i, j) = (s.below(4), s.below(4));
            m[i][j] = wild(s);
        }
        let v = [wild(s), wild(s), wild(s), wild(s)];
        s.showm("m", m);
        s.show("v", v);
        let col = |n: usize, w: f32, j: usize| { let mut t: Vec<(f32, f32)> = (0..n).map(|i| (v[i], m[i][j])).collect(); if w != 0.0 { t.push((w, m[3][j])) } t };
        let (x, y) = (vec(v), mat(m));
        let (a, b, d, e, f) = (arr(XMVector2Transform(x, y)), arr(XMVector3Transform(x, y)), arr(XMVector4Transform(x, y)), arr(XMVector2TransformNormal(x, y)), arr(XMVector3TransformNormal(x, y)));
        for j in 0..4 {
            class_sum("XMVector2Transform", a[j], &col(2, 1.0, j))?;
            class_sum("XMVector3Transform", b[j], &col(3, 1.0, j))?;
            class_sum("XMVector4Transform", d[j], &col(4, 0.0, j))?;
            class_sum("XMVector2TransformNormal", e[j], &col(2, 0.0, j))?;
            class_sum("XMVector3TransformNormal", f[j], &col(3, 0.0, j))?;
        }
        Ok(())
    }));
    c.push(check("rotate", 150, |s| {
        let e = [12, 12, 40, 110][s.below(4)];
        let v = nvec(s, e, 3, "v");
        let q = if s.one_in(4) { s.mod_vec(4, "q") } else { let q = s.unit_quat(); s.show("q", q); q };
        let (p, qq) = (point(v, 3, R::ZERO), rv(q));
        closen("XMVector3Rotate", arr(XMVector3Rotate(vec(v), vec(q))), qmul(qmul(qq, p), conj(qq)), 3)?;
        closen("XMVector3InverseRotate", arr(XMVector3InverseRotate(vec(v), vec(q))), qmul(qmul(conj(qq), p), qq), 3)
    }));
    c.push(check("project", 150, |s| {
        let (w, v, p, vp) = (trs(s, "world"), trs(s, "view"), proj(s), viewport(s));
        let x = nvec(s, 4, 3, "v");
        let t = matmul(matmul(rm(w), rm(v)), rm(p));
        let h = xform(point(x, 3, R::ONE), t);
        if h[3].v.abs() < 0.05 {
            s.trivial();
            return Ok(());
        }
        let n = persp(h);
        let k = |x: f64| R::new(x, 0.0);
        let (hw, hh) = (r(vp[2]) * k(0.5), r(vp[3]) * k(0.5));
        let want = [n[0] * hw + (r(vp[0]) + hw), -(n[1] * hh) + (r(vp[1]) + hh), n[2] * (r(vp[5]) - r(vp[4])) + r(vp[4]), R::ZERO];
        let g = arr(XMVector3Project(vec(x), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], mat(p), &mat(v), &mat(w)));
        closen("XMVector3Project", g, want, 3)
    }));
    c.push(check("unproject", 150, |s| {
        // Unproject inverts the (f64) projection of a point
        let (w, v, p, vp) = (trs(s, "world"), trs(s, "view"), proj(s), viewport(s));
        let x = [s.range(-4.0, 4.0), s.range(-4.0, 4.0), s.range(-4.0, 4.0), 1.0];
        s.show("point", x);
        let t = mm64(mm64(m64(w), m64(v)), m64(p));
        let mut h = [0.0f64; 4];
        for j in 0..4 {
            h[j] = x[0] as f64 * t[0][j] + x[1] as f64 * t[1][j] + x[2] as f64 * t[2][j] + t[3][j];
        }
        if h[3].abs() < 0.5 {
            s.trivial();
            return Ok(());
        }
        let (hw, hh) = (vp[2] as f64 / 2.0, vp[3] as f64 / 2.0);
        let sc = [
            h[0] / h[3] * hw + vp[0] as f64 + hw,
            -h[1] / h[3] * hh + vp[1] as f64 + hh,
            h[2] / h[3] * (vp[5] as f64 - vp[4] as f64) + vp[4] as f64,
        ];
        let screen = junk(s, [sc[0] as f32, sc[1] as f32, sc[2] as f32, 0.0], 3);
        s.show("screen", screen);
        let g = arr(XMVector3Unproject(vec(screen), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], mat(p), &mat(v), &mat(w)));
        // conditioning: screen coordinates carry an error of half an ulp, amplified by depth
        let near = if p[2][3] != 0.0 { -p[3][2] as f64 } else { 1.0 };
        let zamp = if p[2][3] != 0.0 { h[3] * h[3] / near.abs() } else { 1.0 };
        let amp = 1.0 + zamp / (vp[5] - vp[4]).abs() as f64 + h[3].abs();
        let off = 1.0 + (vp[0].abs() / vp[2] + vp[1].abs() / vp[3]) as f64 * 2.0;
        let tol = 1.2e-5 * amp * off * 4.0;
        for i in 0..3 {
            within("XMVector3Unproject", g[i], x[i] as f64, tol)?;
        }
        if tol > 0.5 {
            s.trivial();
        }
        Ok(())
    }));
    dxcheck::cli::main("C10", c);
}
