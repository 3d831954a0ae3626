//! C23: rays against the bounding volumes and triangles.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;

fn call(s: &mut Src, x: &Shape, o: F3, d: F3) -> (bool, f32) {
    let mut dist = [f32::NAN, -1.0, 7.0][s.below(3)];
    // the fourth components do not belong to the ray
    let (po, pd) = (s.pt(o), s.pt(d));
    let hit = match x.kind() {
        Kind::Sphere => x.sphere().IntersectsRay(po, pd, &mut dist),
        Kind::Box => x.aabb().IntersectsRay(po, pd, &mut dist),
        Kind::Obb => x.obb().IntersectsRay(po, pd, &mut dist),
        Kind::Frustum => x.frustum().IntersectsRay(po, pd, &mut dist),
        Kind::Tri => match *x {
            Shape::Tri(v) => {
                let (a, b, c) = (s.pt(v[0]), s.pt(v[1]), s.pt(v[2]));
                triangle_tests::IntersectsRay(po, pd, a, b, c, &mut dist)
            }
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    (hit, dist)
}
/// axis-aligned rays on the lattice: everything is exact
fn lattice(a: Kind) -> impl Fn(&mut Src) -> Res {
    move |s: &mut Src| {
        let k = s.unit(true);
        let x = s.shape(a, true, k);
        let o = [s.lattice(8, k), s.lattice(8, k), s.lattice(8, k)];
        let i = s.below(3);
        let mut d = [0.0f32; 3];
        for k in 0..3 {
            if s.one_in(3) {
                d[k] = -0.0;
            }
        }
        d[i] = if s.bool() { -1.0 } else { 1.0 };
        x.show(s, "a");
        s.note(|| format!("origin={:?} direction={:?}", o, d));
        let (hit, dist) = call(s, &x, o, d);
        let (po, pd) = (d3(o), d3(d));
        // (hit, distance): None = left open
        let want: Option<Option<f64>> = match a {
            Kind::Tri => {
                let v = x.verts();
                let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
                let det = dot(n, pd);
                if det == 0.0 {
                    s.label("parallel to the triangle");
                    Some(None)
                } else {
                    let t = dot(n, sub(v[0], po)) / det;
                    // inside test scaled to integers: p = o + t d with t = k / det
                    let inside = (0..3).all(|j| {
                        let e = sub(v[(j + 1) % 3], v[j]);
                        // side = (e x (o - v)) . n + t (e x d) . n, times det^2 > 0
                        let w = dot(cross(e, sub(po, v[j])), n) * det + dot(n, sub(v[0], po)) * dot(cross(e, pd), n);
                        w * det.signum() >= 0.0
                    });
                    if t >= 0.0 && inside {
                        Some(Some(t))
                    } else {
                        Some(None)
                    }
                }
            }
            _ => match line_hit(&x, po, pd, 0.0, 0.0) {
                None => Some(None),
                Some((t0, t1)) => {
                    if t1 < 0.0 {
                        Some(None)
                    } else if a == Kind::Sphere {
                        let l = sub(x.center(), po);
                        let r = x.sphere().Radius as f64;
                        let inside = dot(l, l) <= r * r;
                        if !inside && dot(l, pd) < 0.0 {
                            Some(None)
                        } else {
                            Some(Some(if inside { t1 } else { t0 }))
                        }
                    } else {
                        Some(Some(t0))
                    }
                }
            },
        };
        match want {
            None => s.trivial(),
            Some(None) => {
                s.label("miss");
                ensure!(!hit, "{:?}.IntersectsRay: hit at {} although the ray misses", a, dist);
                ensure!(dist == 0.0, "{:?}.IntersectsRay: distance {} for a ray that misses", a, dist);
            }
            Some(Some(t)) => {
                s.label("hit");
                ensure!(hit, "{:?}.IntersectsRay: missed, expected a hit at {}", a, t);
                if t.is_finite() {
                    let tol = 1e-6 * (k as f64 + t.abs());
                    ensure!((dist as f64 - t).abs() <= tol, "{:?}.IntersectsRay: distance {}, expected {}", a, dist, t);
                }
            }
        }
        Ok(())
    }
}
fn solid(a: Kind) -> impl Fn(&mut Src) -> Res {
    move |s: &mut Src| {
        let k = s.scale();
        let x = s.shape(a, false, k);
        let (o, d) = s.ray(&x);
        x.show(s, "a");
        s.note(|| format!("origin={:?} direction={:?}", o, d));
        let (hit, dist) = call(s, &x, o, d);
        let (po, pd) = (d3(o), d3(d));
        let size = Judge::new(false, &[&x, &Shape::Point(o)]).size * 2.0;
        let (e, e2) = (EPS * size, EPS * size * size);
        let grown = line_hit(&x, po, pd, e, e2).filter(|t| t.1 >= -e);
        let shrunk = line_hit(&x, po, pd, -e, -e2).filter(|t| t.1 >= e);
        let what = format!("{:?}.IntersectsRay", a);
        if !hit {
            ensure!(dist == 0.0, "{}: distance {} for a ray that misses", what, dist);
        }
        match (grown, shrunk) {
            (None, _) => {
                s.label("miss");
                ensure!(!hit, "{}: hit at {} although the ray misses", what, dist);
            }
            (Some(g), Some(h)) => {
                ensure!(hit, "{}: missed, expected a hit between {} and {}", what, g.0, h.0);
                let inside = h.0 < -e && h.1 > e;
                let near_surface = !inside && g.0 < e;
                let (lo, hi) = if near_surface {
                    s.label("from the surface");
                    return Ok(());
                } else if !inside {
                    s.label("hit from outside");
                    (g.0 - e, h.0 + e)
                } else {
                    s.label("hit from inside");
                    match a {
                        Kind::Sphere => (h.1 - e, g.1 + e),
                        Kind::Frustum => (0.0, 0.0),
                        _ => (g.0 - e, h.0 + e),
                    }
                };
                let dd = dist as f64;
                ensure!(dd >= lo && dd <= hi, "{}: distance {}, expected {} to {}", what, dist, lo, hi);
            }
            _ => s.trivial(),
        }
        Ok(())
    }
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    for a in [Kind::Sphere, Kind::Box, Kind::Obb, Kind::Tri] {
        c.push(check(format!("{:?}_lattice", a), 100, lattice(a)));
    }
    for a in [Kind::Sphere, Kind::Box, Kind::Obb, Kind::Frustum] {
        c.push(check(format!("{:?}_ray", a), 200, solid(a)));
    }
    c.push(check("Tri_ray", 200, |s| {
        let k = s.scale();
        let x = s.shape(Kind::Tri, false, k);
        let (o, d) = s.ray(&x);
        x.show(s, "a");
        s.note(|| format!("origin={:?} direction={:?}", o, d));
        let (hit, dist) = call(s, &x, o, d);
        if !hit {
            ensure!(dist == 0.0, "triangle IntersectsRay: distance {} for a ray that misses", dist);
        }
        let (po, pd) = (d3(o), d3(d));
        let size = Judge::new(false, &[&x, &Shape::Point(o)]).size * 2.0;
        let v = x.verts();
        let n = unit(cross(sub(v[1], v[0]), sub(v[2], v[0])));
        let cosn = dot(n, pd);
        let e = EPS * size / cosn.abs().max(1e-9);
        let t = dot(n, sub(v[0], po)) / cosn;
        if cosn.abs() < 1e-3 || !t.is_finite() {
            s.trivial();
            return Ok(());
        }
        let p = add(po, mul(pd, t));
        // signed distance inside the three edges; thin triangles amplify rounding
        let mut m = f64::INFINITY;
        for j in 0..3 {
            let ed = unit(sub(v[(j + 1) % 3], v[j]));
            m = m.min(dot(cross(n, ed), sub(p, v[j])));
        }
        let thin = len(cross(unit(sub(v[1], v[0])), unit(sub(v[2], v[0])))).max(0.02);
        let e = e * 4.0 / thin;
        if m < -e || t < -e {
            s.label("miss");
            ensure!(!hit, "triangle IntersectsRay: hit at {} although the ray misses (t={}, inside by {})", dist, t, m);
        } else if m > e && t > e {
            s.label("hit");
            ensure!(hit, "triangle IntersectsRay: missed, expected a hit at {} (inside by {})", t, m);
            ensure!((dist as f64 - t).abs() <= e, "triangle IntersectsRay: distance {}, expected {} +- {}", dist, t, e);
        } else {
            s.trivial();
        }
        Ok(())
    }));
    dxcheck::cli::main("C23", c);
}
