//! C08: 2D/3D/4D vector geometry.
use dxcheck::prelude::*;
use dxcheck::rf::*;
use std::f64::consts::PI;

/// The n components that matter come from `v`; the rest is arbitrary junk that must not matter.
fn junk(s: &mut Src, v: V4, n: usize) -> V4 {
    let mut o = v;
    for i in n..4 {
        o[i] = match s.choice(5) {
            0 => 0.0,
            1 => 1.0,
            2 => s.moderate(30),
            3 => if s.bool() { f32::INFINITY } else { f32::NEG_INFINITY },
            _ => f32::NAN,
        };
    }
    o
}
fn nvec(s: &mut Src, e: u32, n: usize, name: &str) -> V4 {
    let v = s.mod_vec(e, name);
    let v = junk(s, v, n);
    s.show(name, v);
    v
}
/// Finite, infinite and NaN components.
fn wild(s: &mut Src, name: &str) -> V4 {
    let mut v = [0.0; 4];
    for x in v.iter_mut() {
        *x = match s.choice(5) {
            0 => [0.0, 1.0, -1.0, 1e-40][s.below(4)],
            1 => f32::INFINITY,
            2 => f32::NEG_INFINITY,
            3 => f32::NAN,
            _ => s.moderate(40),
        };
    }
    s.show(name, v);
    v
}
/// the components that matter, the rest zero
fn used(v: V4, n: usize) -> RV {
    let mut o = [R::ZERO; 4];
    for i in 0..n {
        o[i] = r(v[i]);
    }
    o
}
fn len64(v: V4, n: usize) -> f64 {
    v[..n].iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt()
}
fn dot64(a: V4, b: V4, n: usize) -> f64 {
    (0..n).map(|i| a[i] as f64 * b[i] as f64).sum::<f64>()
}
fn angle64(a: V4, b: V4, n: usize) -> f64 {
    // accurate for nearly parallel vectors: 2 atan2(|u-v|, |u+v|)
    let (la, lb) = (len64(a, n), len64(b, n));
    let (mut d, mut p) = (0.0, 0.0);
    for i in 0..n {
        let (x, y) = (a[i] as f64 / la, b[i] as f64 / lb);
        d += (x - y) * (x - y);
        p += (x + y) * (x + y);
    }
    2.0 * d.sqrt().atan2(p.sqrt())
}
fn cosdiff(what: &str, got: f32, want: f64, tol: f64) -> Res {
    // an angle computed as acos(c): compare cosines (acos is ill conditioned at the ends)
    let g = got as f64;
    let d = (g.cos() - want.cos()).abs();
    let e = (g - want).abs();
    if tracking() {
        track(what, d.min(e) / tol);
    }
    ensure!(g >= -1e-6 && g <= PI + 1e-6 && (d <= tol || e <= tol), "{}: got {:?}, expected {:?}", what, got, want);
    Ok(())
}
macro_rules! dims {
    ($c:ident, $n:expr, $p:expr, $dot:ident, $lsq:ident, $len:ident, $rlen:ident, $norm:ident, $clamp:ident, $clampv:ident,
     $abn:ident, $abv:ident, $orth:ident) => {
        $c.push(check(concat!($p, "_dot_length"), 100, |s| {
            let n = $n;
            let e = [60, 60, 120][s.below(3)];
            let (a, b) = (nvec(s, e, n, "a"), nvec(s, e, n, "b"));
            splat_close(stringify!($dot), arr($dot(vec(a), vec(b))), dotn(rv(a), rv(b), n))?;
            let sq = dotn(rv(a), rv(a), n);
            splat_close(stringify!($lsq), arr($lsq(vec(a))), sq)?;
            splat_close(stringify!($len), arr($len(vec(a))), sq.sqrt())?;
            splat_close(stringify!($rlen), arr($rlen(vec(a))), R::ONE / sq.sqrt())?;
            Ok(())
        }));
        $c.push(check(concat!($p, "_normalize"), 100, |s| {
            let n = $n;
            let mut a = nvec(s, 60, n, "v");
            if s.one_in(16) {
                for i in 0..n {
                    a[i] = if s.bool() { -0.0 } else { 0.0 };
                }
                for i in n..4 {
                    if a[i].is_nan() { a[i] = 3.0 }
                }
                s.show("v", a);
            }
            let g = arr($norm(vec(a)));
            let l = dotn(rv(a), rv(a), n).sqrt();
            if len64(a, n) == 0.0 {
                for i in 0..n {
                    eqf(concat!(stringify!($norm), " of the zero vector"), g[i], 0.0)?;
                }
                return Ok(());
            }
            let w = used(a, n);
            closen(stringify!($norm), g, [w[0] / l, w[1] / l, w[2] / l, w[3] / l], n)?;
            within(concat!(stringify!($norm), " length"), len64(g, n) as f32, 1.0, 6e-7)
        }));
        $c.push(check(concat!($p, "_clamp_length"), 100, |s| {
            let n = $n;
            let k = if s.bool() { 1.0 } else { s.exp2(40) };
            let a = map(s.mod_vec(8, "v"), |x| x * k);
            let a = junk(s, a, n);
            s.show("v", a);
            let l = len64(a, n);
            let mut lo = match s.choice(4) { 0 => 0.0, 1 => (l * s.range(0.0, 2.0) as f64) as f32, _ => s.moderate(8).abs() * k };
            let mut hi = match s.choice(4) { 0 => lo, 1 => (l * s.range(0.0, 2.0) as f64) as f32, _ => s.moderate(8).abs() * k };
            if lo > hi { std::mem::swap(&mut lo, &mut hi) }
            s.showf("min", lo);
            s.showf("max", hi);
            let want = l.max(lo as f64).min(hi as f64);
            for (name, g) in [(stringify!($clamp), arr($clamp(vec(a), lo, hi))), (stringify!($clampv), arr($clampv(vec(a), vec([lo; 4]), vec([hi; 4]))))] {
                if l == 0.0 {
                    // a vector without direction cannot be stretched
                    for i in 0..n { eqf(&format!("{} of the zero vector", name), g[i], 0.0)?; }
                    continue;
                }
                for i in 0..n {
                    let w = a[i] as f64 / l * want;
                    within(name, g[i], w, 1e-6 * w.abs() + 1e-40)?;
                    if l > lo as f64 * 1.00001 && l < hi as f64 * 0.99999 {
                        ensure!(g[i] == a[i], "{}: length {} is within [{}, {}] but the vector changed: {}", name, l, lo, hi, sv(g));
                    }
                }
            }
            Ok(())
        }));
        $c.push(check(concat!($p, "_angles"), 100, |s| {
            let n = $n;
            let (ka, kb) = if s.bool() { (1.0, 1.0) } else { (s.exp2(25), s.exp2(25)) };
            let mut a = nvec(s, 6, n, "a");
            let mut b = if s.one_in(4) {
                // parallel or antiparallel
                let k = s.lattice(3, 1.0);
                let b = junk(s, map(a, |x| x * k), n);
                s.show("b", b);
                b
            } else { nvec(s, 6, n, "b") };
            if len64(a, n) < 1e-3 { a[0] = 1.0 }
            if len64(b, n) < 1e-3 { b[0] = -1.0 }
            let (a, b) = (map(a, |x| x * ka), map(b, |x| x * kb));
            s.show("a", a);
            s.show("b", b);
            let want = angle64(a, b, n);
            let g = arr($abv(vec(a), vec(b)));
            for i in 0..4 { cosdiff(stringify!($abv), g[i], want, 1.5e-6)?; }
            let u = |v: V4| { let l = len64(v, n); let mut o = v; for i in 0..n { o[i] = (v[i] as f64 / l) as f32 } o };
            let (na, nb) = (u(a), u(b));
            let g = arr($abn(vec(na), vec(nb)));
            for i in 0..4 { cosdiff(stringify!($abn), g[i], want, 1.2e-6)?; }
            Ok(())
        }));
        $c.push(check(concat!($p, "_non_finite"), 60, |s| {
            // NaN and infinities propagate, and only from the components of the dimension
            let n = $n;
            let (a, b) = (wild(s, "a"), wild(s, "b"));
            let g = arr($dot(vec(a), vec(b)));
            let t: Vec<(f32, f32)> = (0..n).map(|i| (a[i], b[i])).collect();
            let sq: Vec<(f32, f32)> = (0..n).map(|i| (a[i], a[i])).collect();
            let nan = a[..n].iter().any(|x| x.is_nan());
            let inf = a[..n].iter().any(|x| x.is_infinite());
            let (l2, l, rl, nm) = (arr($lsq(vec(a))), arr($len(vec(a))), arr($rlen(vec(a))), arr($norm(vec(a))));
            for i in 0..4 {
                class_sum(stringify!($dot), g[i], &t)?;
                class_sum(stringify!($lsq), l2[i], &sq)?;
                if nan {
                    ensure!(l[i].is_nan() && rl[i].is_nan(), "length of {}: {}, reciprocal {}", sv(a), sv(l), sv(rl));
                } else if inf {
                    ensure!(l[i] == f32::INFINITY && rl[i] == 0.0, "length of {}: {}, reciprocal {}", sv(a), sv(l), sv(rl));
                }
            }
            for i in 0..n {
                ensure!(!(nan || a[i].is_infinite()) || nm[i].is_nan(), "{} of {} is {}", stringify!($norm), sv(a), sv(nm));
            }
            Ok(())
        }));
        $c.push(check(concat!($p, "_orthogonal"), 100, |s| {
            let n = $n;
            let a = nvec(s, 100, n, "v");
            let g = arr($orth(vec(a)));
            let (lg, la) = (len64(g, n), len64(a, n));
            ensure!(dot64(a, g, n).abs() <= 4e-7 * la * lg + 1e-40, "{}: {} is not orthogonal to {}", stringify!($orth), sv(g), sv(a));
            ensure!(lg >= 0.5 * la && lg <= 2.1 * la, "{}: |{}| = {} for input of length {}", stringify!($orth), sv(g), lg, la);
            Ok(())
        }));
    };
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    dims!(c, 2, "v2", XMVector2Dot, XMVector2LengthSq, XMVector2Length, XMVector2ReciprocalLength, XMVector2Normalize,
        XMVector2ClampLength, XMVector2ClampLengthV, XMVector2AngleBetweenNormals, XMVector2AngleBetweenVectors, XMVector2Orthogonal);
    dims!(c, 3, "v3", XMVector3Dot, XMVector3LengthSq, XMVector3Length, XMVector3ReciprocalLength, XMVector3Normalize,
        XMVector3ClampLength, XMVector3ClampLengthV, XMVector3AngleBetweenNormals, XMVector3AngleBetweenVectors, XMVector3Orthogonal);
    dims!(c, 4, "v4", XMVector4Dot, XMVector4LengthSq, XMVector4Length, XMVector4ReciprocalLength, XMVector4Normalize,
        XMVector4ClampLength, XMVector4ClampLengthV, XMVector4AngleBetweenNormals, XMVector4AngleBetweenVectors, XMVector4Orthogonal);
    c.push(check("cross", 200, |s| {
        let e = [60, 60, 120][s.below(3)];
        let (a, b) = (nvec(s, e, 3, "a"), nvec(s, e, 3, "b"));
        let g = arr(XMVector3Cross(vec(a), vec(b)));
        closen("XMVector3Cross", g, cross3(rv(a), rv(b)), 3)?;
        if a[3].is_finite() && b[3].is_finite() {
            eqf("XMVector3Cross w", g[3], 0.0)?;
        }
        let g = arr(XMVector2Cross(vec(a), vec(b)));
        splat_close("XMVector2Cross", g, r(a[0]) * r(b[1]) - r(a[1]) * r(b[0]))?;
        let (p, q, t) = (s.mod_vec(40, "p"), s.mod_vec(40, "q"), s.mod_vec(40, "t"));
        let g = arr(XMVector4Cross(vec(p), vec(q), vec(t)));
        // generalised cross product: dot(x, cross(p, q, t)) = det[x; p; q; t]
        let det3 = |i: usize, j: usize, k: usize| {
            let (p, q, t) = (rv(p), rv(q), rv(t));
            p[i] * (q[j] * t[k] - q[k] * t[j]) - p[j] * (q[i] * t[k] - q[k] * t[i]) + p[k] * (q[i] * t[j] - q[j] * t[i])
        };
        close4("XMVector4Cross", g, [det3(1, 2, 3), -det3(0, 2, 3), det3(0, 1, 3), -det3(0, 1, 2)])
    }));
    c.push(check("cross_non_finite", 60, |s| {
        let (a, b) = (wild(s, "a"), wild(s, "b"));
        let g = arr(XMVector3Cross(vec(a), vec(b)));
        for (i, j, k) in [(0, 1, 2), (1, 2, 0), (2, 0, 1)] {
            class_sum("XMVector3Cross", g[i], &[(a[j], b[k]), (-a[k], b[j])])?;
        }
        let g = arr(XMVector2Cross(vec(a), vec(b)));
        for i in 0..4 {
            class_sum("XMVector2Cross", g[i], &[(a[0], b[1]), (-a[1], b[0])])?;
        }
        Ok(())
    }));
    c.push(check("orthogonal2", 50, |s| {
        let a = nvec(s, 100, 2, "v");
        let g = arr(XMVector2Orthogonal(vec(a)));
        ensure!(g[0] == -a[1] && g[1] == a[0], "XMVector2Orthogonal: got {} expected ({:?}, {:?})", sv(g), -a[1], a[0]);
        Ok(())
    }));
    c.push(check("line_point_distance", 150, |s| {
        let k = if s.bool() { 1.0 } else { s.exp2(22) };
        let (p, q, x) = (nvec(s, 8, 3, "l1"), nvec(s, 8, 3, "l2"), nvec(s, 8, 3, "p"));
        let (p, q, x) = (map(p, |x| x * k), map(q, |x| x * k), map(x, |x| x * k));
        s.showf("all times", k);
        for n in [2usize, 3] {
            let (pv, lv) = (subv(used(x, n), used(p, n)), subv(used(q, n), used(p, n)));
            let l2 = dotn(lv, lv, n);
            if l2.v < 1e-6 * k as f64 * k as f64 {
                s.trivial();
                continue;
            }
            let t = dotn(pv, lv, n) / l2;
            let d = subv(pv, scale(lv, t));
            let want = dotn(d, d, n).sqrt();
            let g = if n == 2 { arr(XMVector2LinePointDistance(vec(p), vec(q), vec(x))) } else { arr(XMVector3LinePointDistance(vec(p), vec(q), vec(x))) };
            // the true distance, in f64
            splat_close(if n == 2 { "XMVector2LinePointDistance" } else { "XMVector3LinePointDistance" }, g, want)?;
        }
        Ok(())
    }));
    c.push(check("components_from_normal", 100, |s| {
        let e = [12, 12, 60, 120][s.below(4)];
        let a = nvec(s, e, 3, "v");
        let u = s.unit3();
        let nn = junk(s, [u[0] as f32, u[1] as f32, u[2] as f32, 0.0], 3);
        s.show("normal", nn);
        let (mut par, mut perp) = (vec([f32::NAN; 4]), vec([f32::NAN; 4]));
        XMVector3ComponentsFromNormal(&mut par, &mut perp, vec(a), vec(nn));
        let w = scale(used(nn, 3), dotn(rv(a), rv(nn), 3));
        closen("parallel", arr(par), w, 3)?;
        closen("perpendicular", arr(perp), subv(used(a, 3), w), 3)
    }));
    c.push(check("intersect_line", 150, |s| {
        let mut pt = |s: &mut Src, name: &str| {
            let v = if s.bool() { [s.lattice(6, 1.0), s.lattice(6, 1.0), 0.0, 0.0] } else { [s.range(-8.0, 8.0), s.range(-8.0, 8.0), 0.0, 0.0] };
            let v = junk(s, v, 2);
            s.show(name, v);
            v
        };
        let (p1, p2, q1) = (pt(s, "p1"), pt(s, "p2"), pt(s, "q1"));
        let q2 = match s.choice(4) {
            0 => {
                // parallel lines on an exact lattice
                let k = s.lattice(2, 1.0);
                let v = junk(s, [q1[0] + k * (p2[0] - p1[0]), q1[1] + k * (p2[1] - p1[1]), 0.0, 0.0], 2);
                s.show("q2", v);
                v
            }
            _ => pt(s, "q2"),
        };
        let lattice = [p1, p2, q1, q2].iter().all(|v| v[0] == v[0].round() && v[1] == v[1].round());
        // at any scale; below about 1e-3 the absolute threshold for parallel lines matters
        let k = if s.bool() { 1.0 } else if s.bool() { s.exp2(10) } else { s.exp2(25).max(1.0) };
        s.showf("all times", k);
        let sc = |v: V4| map(v, |x| x * k);
        let (p1, p2, q1, q2) = (sc(p1), sc(p2), sc(q1), sc(q2));
        let g = arr(XMVector2IntersectLine(vec(p1), vec(p2), vec(q1), vec(q2)));
        let v1 = subv(used(p2, 2), used(p1, 2));
        let v2 = subv(used(q2, 2), used(q1, 2));
        let v3 = subv(used(p1, 2), used(q1, 2));
        let cr = |a: RV, b: RV| a[0] * b[1] - a[1] * b[0];
        let (c1, c2) = (cr(v1, v2), cr(v2, v3));
        if lattice && c1.v == 0.0 {
            s.label("parallel");
            for i in 0..2 {
                if c2.v == 0.0 {
                    ensure!(g[i] == f32::INFINITY, "coincident lines: expected +infinity, got {}", sv(g));
                } else {
                    ensure!(g[i].is_nan(), "parallel lines: expected NaN, got {}", sv(g));
                }
            }
            return Ok(());
        }
        if c1.v.abs() < 1e-2 * k as f64 * k as f64 || c1.v.abs() < 1e-6 {
            s.trivial();
            return Ok(());
        }
        let t = c2 / c1;
        closen("XMVector2IntersectLine", g, addv(used(p1, 2), scale(v1, t)), 2)
    }));
    dxcheck::cli::main("C08", c);
}
