//! C19: planes.
use dxcheck::prelude::*;
use dxcheck::rf::*;

const EPS: f64 = 1.192092896e-7;
fn p3(s: &mut Src, e: u32, name: &str) -> V4 {
    let j = [0.0, 1.0, -7.5, f32::NAN, f32::INFINITY][s.below(5)];
    let v = if s.one_in(3) {
        [s.lattice(6, 1.0), s.lattice(6, 1.0), s.lattice(6, 1.0), j]
    } else {
        let v = s.mod_vec(e, name);
        [v[0], v[1], v[2], j]
    };
    s.show(name, v);
    v
}
fn plane(s: &mut Src, e: u32, name: &str) -> V4 {
    let v = if s.one_in(3) {
        [s.lattice(6, 1.0), s.lattice(6, 1.0), s.lattice(6, 1.0), s.lattice(9, 1.0)]
    } else {
        s.mod_vec(e, name)
    };
    s.show(name, v);
    v
}
fn pt(v: V4) -> RV {
    [r(v[0]), r(v[1]), r(v[2]), R::ZERO]
}
fn normalize(p: V4) -> Option<RV> {
    let l = dotn(rv(p), rv(p), 3).sqrt();
    if !(l.v > 1e-18) {
        return None;
    }
    let p = rv(p);
    Some([p[0] / l, p[1] / l, p[2] / l, p[3] / l])
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("predicates", 100, |s| {
        let a = if s.bool() { s.any_vec("a") } else { s.fin_vec("a") };
        let mut b = a;
        if s.bool() {
            let i = s.below(4);
            b[i] = if s.bool() { ulps(b[i], 1) } else { s.any() };
        }
        s.show("b", b);
        let eq = (0..4).all(|i| a[i] == b[i]);
        s.label(if eq { "equal" } else { "different" });
        ensure!(XMPlaneEqual(vec(a), vec(b)) == eq, "XMPlaneEqual: expected {}", eq);
        ensure!(XMPlaneNotEqual(vec(a), vec(b)) != eq, "XMPlaneNotEqual: expected {}", !eq);
        let n = a.iter().any(|x| x.is_nan());
        ensure!(XMPlaneIsNaN(vec(a)) == n, "XMPlaneIsNaN: expected {}", n);
        let n = a.iter().any(|x| x.is_infinite());
        ensure!(XMPlaneIsInfinite(vec(a)) == n, "XMPlaneIsInfinite: expected {}", n);
        Ok(())
    }));
    c.push(check("near_equal", 100, |s| {
        let a = plane(s, 4, "a");
        let k = [1.0f32, 2.0, 0.5, 3.0, -1.0][s.below(5)];
        let mut b = a.map(|x| x * k);
        if s.choice(3) != 0 {
            let i = s.below(4);
            b[i] += s.range(-0.2, 0.2) * k;
        }
        let (ka, kb) = if s.bool() { (1.0, 1.0) } else { (s.exp2(24), s.exp2(24)) };
        let (a, b) = (a.map(|x| x * ka), b.map(|x| x * kb));
        s.show("a", a);
        s.show("b", b);
        let mut e = [s.range(0.0, 0.2), s.range(0.0, 0.2), s.range(0.0, 0.2), s.range(0.0, 0.2)];
        if s.one_in(4) {
            // larger tolerances, no tolerance, an impossible one, one for all
            for x in e.iter_mut() {
                *x = match s.choice(6) { 0 => 1.0, 1 => 2.5, 2 => -0.1, 3 => s.range(0.0, 4.0), _ => *x };
            }
            if s.bool() {
                e = [e[0]; 4];
            }
        }
        s.show("epsilon", e);
        let (p, q) = match (normalize(a), normalize(b)) {
            (Some(p), Some(q)) => (p, q),
            _ => {
                s.trivial();
                return Ok(());
            }
        };
        let mut want = true;
        for i in 0..4 {
            let d = p[i] - q[i];
            let m = d.v.abs() - e[i] as f64;
            if m.abs() <= 8.0 * d.e {
                s.trivial();
                return Ok(());
            }
            want &= m < 0.0;
        }
        s.label(if want { "near" } else { "apart" });
        ensure!(XMPlaneNearEqual(vec(a), vec(b), vec(e)) == want, "XMPlaneNearEqual: expected {}", want);
        Ok(())
    }));
    c.push(check("dots", 120, |s| {
        let e = [30, 30, 60, 110][s.below(4)];
        let p = plane(s, e, "p");
        let v = s.mod_vec(e, "v");
        splat_close("XMPlaneDot", arr(XMPlaneDot(vec(p), vec(v))), dotn(rv(p), rv(v), 4))?;
        let w = p3(s, e, "w");
        if s.one_in(4) {
            let wild = |s: &mut Src, v: V4| { let mut v = v; for x in v.iter_mut() { match s.choice(6) { 0 => *x = f32::INFINITY, 1 => *x = f32::NEG_INFINITY, 2 => *x = f32::NAN, _ => () } } v };
            let (p, q) = (wild(s, p), wild(s, v));
            s.show("wild p", p);
            s.show("wild v", q);
            let (a, b, d) = (arr(XMPlaneDot(vec(p), vec(q))), arr(XMPlaneDotCoord(vec(p), vec(q))), arr(XMPlaneDotNormal(vec(p), vec(q))));
            let t = [(p[0], q[0]), (p[1], q[1]), (p[2], q[2])];
            for i in 0..4 {
                class_sum("XMPlaneDot", a[i], &[t[0], t[1], t[2], (p[3], q[3])])?;
                class_sum("XMPlaneDotCoord", b[i], &[t[0], t[1], t[2], (p[3], 1.0)])?;
                class_sum("XMPlaneDotNormal", d[i], &t)?;
            }
        }
        let mut q = pt(w);
        q[3] = R::ONE;
        splat_close("XMPlaneDotCoord", arr(XMPlaneDotCoord(vec(p), vec(w))), dotn(rv(p), q, 4))?;
        splat_close("XMPlaneDotNormal", arr(XMPlaneDotNormal(vec(p), vec(w))), dotn(rv(p), pt(w), 3))
    }));
    c.push(check("normalize", 120, |s| {
        let e = [20, 20, 40, 58][s.below(4)];
        let p = plane(s, e, "p");
        match normalize(p) {
            None => s.trivial(),
            Some(w) => {
                close4("XMPlaneNormalize", arr(XMPlaneNormalize(vec(p))), w)?;
                let (e, l) = (1e-4, dotn(rv(p), rv(p), 3).v);
                // the hardware estimate of 1/sqrt is only defined for normal floats
                if l > 1e-37 && l < 1e37 {
                    close4("XMPlaneNormalizeEst", arr(XMPlaneNormalizeEst(vec(p))), [w[0].rel(e), w[1].rel(e), w[2].rel(e), w[3].rel(e)])?;
                }
            }
        }
        Ok(())
    }));
    c.push(check("intersect_line", 150, |s| {
        let e = [8, 8, 20, 40][s.below(4)];
        let p = plane(s, e, "p");
        let a = p3(s, e, "a");
        let mut b = p3(s, e, "b");
        if s.one_in(4) {
            // a line parallel to the plane
            let t = s.lattice(4, 1.0);
            b = [a[0] + p[1] * t, a[1] - p[0] * t, a[2], b[3]];
            s.show("b", b);
        }
        let d = dotn(rv(p), pt(a), 3) - dotn(rv(p), pt(b), 3);
        let g = arr(XMPlaneIntersectLine(vec(p), vec(a), vec(b)));
        if d.v.abs() + 4.0 * d.e < EPS {
            s.label("parallel");
            ensure!(g[0].is_nan() && g[1].is_nan() && g[2].is_nan(), "a parallel line meets the plane at {}", sv(g));
        } else if d.v.abs() - 4.0 * d.e > EPS * 1.01 {
            s.label("meets");
            let mut q = pt(a);
            q[3] = R::ONE;
            let t = dotn(rv(p), q, 4) / d;
            let w = addv(pt(a), scale(subv(pt(b), pt(a)), t));
            closen("XMPlaneIntersectLine", g, w, 3)?;
        } else {
            s.trivial();
        }
        Ok(())
    }));
    c.push(check("intersect_plane", 150, |s| {
        let e = [6, 6, 12, 20][s.below(4)];
        let p = plane(s, e, "p1");
        let mut q = plane(s, e, "p2");
        if s.one_in(5) {
            let k = [1.0f32, -1.0, 2.0, 0.5][s.below(4)];
            q = [p[0] * k, p[1] * k, p[2] * k, q[3]];
            s.show("p2", q);
        }
        let (mut a, mut b) = (vec([0.0; 4]), vec([0.0; 4]));
        XMPlaneIntersectPlane(&mut a, &mut b, vec(p), vec(q));
        let (a, b) = (arr(a), arr(b));
        let n = cross3(pt(q), pt(p));
        let l = dotn(n, n, 3);
        if l.v + 4.0 * l.e < EPS {
            s.label("parallel");
            ensure!(
                a[..3].iter().all(|x| x.is_nan()) && b[..3].iter().all(|x| x.is_nan()),
                "parallel planes meet at {} {}",
                sv(a),
                sv(b)
            );
        } else if l.v - 4.0 * l.e > EPS * 1.01 {
            s.label("line");
            let x = addv(scale(cross3(pt(q), n), r(p[3])), scale(cross3(n, pt(p)), r(q[3])));
            let w = [x[0] / l, x[1] / l, x[2] / l, R::ZERO];
            closen("XMPlaneIntersectPlane point 1", a, w, 3)?;
            closen("XMPlaneIntersectPlane point 2", b, addv(w, n), 3)?;
        } else {
            s.trivial();
        }
        Ok(())
    }));
    c.push(check("transform", 120, |s| {
        let e = [20, 20, 60, 110][s.below(4)];
        let p = plane(s, e, "p");
        let m = s.mod_mat(e, "m");
        close4("XMPlaneTransform", arr(XMPlaneTransform(vec(p), mat(m))), xform(rv(p), rm(m)))
    }));
    c.push(check("transform_geometry", 60, |s| {
        // a point on the plane, moved by M, is on the plane moved by the inverse transpose of M
        let q = s.unit_quat();
        s.show("q", q);
        let t = [s.range(-4.0, 4.0), s.range(-4.0, 4.0), s.range(-4.0, 4.0), 0.0];
        let k = [s.range(0.5, 2.0), s.range(0.5, 2.0), s.range(0.5, 2.0), 0.0];
        s.show("t", t);
        s.show("k", k);
        let m = XMMatrixAffineTransformation(vec(k), vec([0.0; 4]), vec(q), vec(t));
        let n = s.unit3();
        let x = [s.range(-4.0, 4.0), s.range(-4.0, 4.0), s.range(-4.0, 4.0), 1.0];
        s.show("point", x);
        let p = XMPlaneFromPointNormal(vec(x), vec([n[0] as f32, n[1] as f32, n[2] as f32, 0.0]));
        let y = XMVector3Transform(vec(x), m);
        let p2 = XMPlaneTransform(p, XMMatrixTranspose(XMMatrixInverse(None, m)));
        within("distance of the moved point", arr(XMPlaneDotCoord(p2, y))[0], 0.0, 3e-5)
    }));
    c.push(check("from_points", 150, |s| {
        let (x, n) = { let e = [10, 10, 40, 110][s.below(4)]; (p3(s, e, "point"), p3(s, e, "normal")) };
        let mut w = pt(n);
        w[3] = -dotn(pt(x), pt(n), 3);
        close4("XMPlaneFromPointNormal", arr(XMPlaneFromPointNormal(vec(x), vec(n))), w)?;
        let (a, b, d) = { let e = [6, 6, 12, 25][s.below(4)]; (p3(s, e, "a"), p3(s, e, "b"), p3(s, e, "c")) };
        let k = cross3(subv(pt(a), pt(b)), subv(pt(a), pt(d)));
        let l = dotn(k, k, 3);
        if l.v < 64.0 * l.e || l.v == 0.0 {
            s.trivial();
            return Ok(());
        }
        let l = l.sqrt();
        let u = [k[0] / l, k[1] / l, k[2] / l, R::ZERO];
        let w = [u[0], u[1], u[2], -dotn(u, pt(a), 3)];
        close4("XMPlaneFromPoints", arr(XMPlaneFromPoints(vec(a), vec(b), vec(d))), w)
    }));
    dxcheck::cli::main("C19", c);
}
