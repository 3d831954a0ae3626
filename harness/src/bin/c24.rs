//! C24: classification of volumes and triangles against planes.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;

/// A unit plane (n, d): n.x + d = 0, near the shape.
fn plane(s: &mut Src, x: &Shape, exact: bool, unit_len: f32) -> [f32; 4] {
    if exact {
        let mut n = [0.0f32; 4];
        n[s.below(3)] = if s.bool() { -1.0 } else { 1.0 };
        n[3] = s.lattice(24, 0.5 * unit_len);
        return n;
    }
    let p = x.poly();
    let n = match s.choice(3) {
        0 if !p.n.is_empty() => unit(p.n[s.below(p.n.len())]),
        1 if !p.e.is_empty() => {
            let u = s.unit3();
            let w = cross(p.e[s.below(p.e.len())], u);
            if len(w) < 1e-6 { u } else { unit(w) }
        }
        _ => s.unit3(),
    };
    let n = f3(if s.bool() { mul(n, -1.0) } else { n });
    let (lo, hi) = match x {
        Shape::Sphere { c, r } => {
            let d = dot(d3(*c), d3(n));
            (d - *r as f64, d + *r as f64)
        }
        _ => span(&x.verts(), d3(n)),
    };
    let size = x.size();
    let g = match s.choice(4) {
        0 => 0.0,
        1 => s.range(-0.5, 0.5) as f64 * size,
        _ => {
            let k = s.range(-15.0, -2.0) as f64;
            (if s.bool() { 1.0 } else { -1.0 }) * k.exp2() * size
        }
    };
    let k = if s.bool() { lo } else { hi };
    [n[0], n[1], n[2], -(k + g) as f32]
}
/// signed distances (min, max) of the shape from the plane
fn range(x: &Shape, p: [f32; 4]) -> (f64, f64) {
    let n = [p[0] as f64, p[1] as f64, p[2] as f64];
    let (lo, hi) = match x {
        Shape::Sphere { c, r } => {
            let d = dot(d3(*c), n);
            (d - *r as f64, d + *r as f64)
        }
        _ => span(&x.verts(), n),
    };
    (lo + p[3] as f64, hi + p[3] as f64)
}
fn tri(s: &mut Src, x: &Shape) -> [XMVECTOR; 3] {
    match *x {
        Shape::Tri(v) => [s.pt(v[0]), s.pt(v[1]), s.pt(v[2])],
        _ => unreachable!(),
    }
}
fn main() {
    let mut c: Vec<Check> = Vec::new();
    for a in [Kind::Sphere, Kind::Box, Kind::Obb, Kind::Frustum, Kind::Tri] {
        for exact in [true, false] {
            let m = if exact { "lattice" } else { "contact" };
            c.push(check(format!("{:?}_plane_{}", a, m), 100, move |s| {
                let k = s.unit(exact);
                let x = s.shape(a, exact, k);
                let p = plane(s, &x, exact, k);
                x.show(s, "a");
                s.show("plane", p);
                let (lo, hi) = range(&x, p);
                let e = if exact { 0.0 } else { EPS * x.size().max(p[3].abs() as f64) };
                let q = vec(p);
                let g = match a {
                    Kind::Sphere => x.sphere().IntersectsPlane(q),
                    Kind::Box => x.aabb().IntersectsPlane(q),
                    Kind::Obb => x.obb().IntersectsPlane(q),
                    Kind::Frustum => x.frustum().IntersectsPlane(q),
                    _ => {
                        let [u, v, w] = tri(s, &x);
                        triangle_tests::IntersectsPlane(u, v, w, q)
                    }
                };
                use PlaneIntersectionType::*;
                let ok = match g {
                    FRONT => lo > -e,
                    BACK => hi < e,
                    INTERSECTING => lo <= e && hi >= -e,
                };
                s.label(if lo > e {
                    "in front"
                } else if hi < -e {
                    "behind"
                } else if lo < -e && hi > e {
                    "across"
                } else {
                    "touching"
                });
                if !exact && (lo.abs() <= e || hi.abs() <= e) {
                    s.trivial();
                }
                ensure!(ok, "{:?}.IntersectsPlane: got {:?}; signed distances are {} to {}", a, g, lo, hi);
                Ok(())
            }));
            c.push(check(format!("{:?}_contained_by_{}", a, m), 100, move |s| {
                let k = s.unit(exact);
                let x = s.shape(a, exact, k);
                let mut ps = [[0.0f32; 4]; 6];
                let mut e = 0.0f64;
                let (mut out, mut inn) = (f64::NEG_INFINITY, f64::NEG_INFINITY);
                // one of the planes is made to matter; the others mostly leave the shape inside
                let key = s.below(6);
                for i in 0..6 {
                    let mut p = plane(s, &x, exact, k);
                    if i != key && s.choice(4) > 0 {
                        let (_, hi) = range(&x, p);
                        let push = if exact { hi.max(0.0) + k as f64 } else { hi.max(0.0) + 0.1 * x.size() };
                        p[3] -= push as f32;
                    }
                    ps[i] = p;
                    if !exact {
                        e = e.max(EPS * x.size().max(p[3].abs() as f64));
                    }
                    let (lo, hi) = range(&x, p);
                    out = out.max(lo);
                    inn = inn.max(hi);
                }
                x.show(s, "a");
                s.note(|| format!("planes={:?}", ps));
                let q = ps.map(vec);
                let g = match a {
                    Kind::Sphere => x.sphere().ContainedBy(q[0], q[1], q[2], q[3], q[4], q[5]),
                    Kind::Box => x.aabb().ContainedBy(q[0], q[1], q[2], q[3], q[4], q[5]),
                    Kind::Obb => x.obb().ContainedBy(q[0], q[1], q[2], q[3], q[4], q[5]),
                    Kind::Frustum => x.frustum().ContainedBy(q[0], q[1], q[2], q[3], q[4], q[5]),
                    _ => {
                        let [u, v, w] = tri(s, &x);
                        triangle_tests::ContainedBy(u, v, w, q[0], q[1], q[2], &q[3], &q[4], &q[5])
                    }
                };
                s.label(if out > e {
                    "outside a plane"
                } else if inn < -e {
                    "inside all planes"
                } else {
                    "across a plane"
                });
                if !exact && (out.abs() <= e || inn.abs() <= e) {
                    s.trivial();
                }
                use ContainmentType::*;
                let ok = match g {
                    DISJOINT => out > -e,
                    CONTAINS => inn < e,
                    INTERSECTS => out <= e && inn >= -e,
                };
                ensure!(ok, "{:?}.ContainedBy: got {:?}; furthest minimum {}, furthest maximum {}", a, g, out, inn);
                Ok(())
            }));
        }
    }
    dxcheck::cli::main("C24", c);
}
