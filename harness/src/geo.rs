//! Reference geometry for the collision properties: shapes generated as f32 parameters, judged
//! in f64 by separating axes, point distances and plane distances.
//!
//! On lattice inputs (small integers, rotations of the tetrahedral group) the f64 evaluation is
//! exact and so is any sensible f32 evaluation: there the verdict covers exact contact.  On other
//! inputs a configuration closer to contact than the f32 rounding allows is `Unclear`.
use crate::engine::{Res, Src, Stop};
use directx_math::collision::*;
use directx_math::*;

pub type P3 = [f64; 3];
pub type F3 = [f32; 3];

#[inline]
pub fn add(a: P3, b: P3) -> P3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
#[inline]
pub fn sub(a: P3, b: P3) -> P3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
#[inline]
pub fn mul(a: P3, k: f64) -> P3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
#[inline]
pub fn dot(a: P3, b: P3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
#[inline]
pub fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: P3) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: P3) -> P3 {
    let l = len(a);
    if l == 0.0 {
        a
    } else {
        mul(a, 1.0 / l)
    }
}
pub fn d3(a: F3) -> P3 {
    [a[0] as f64, a[1] as f64, a[2] as f64]
}
pub fn f3(a: P3) -> F3 {
    [a[0] as f32, a[1] as f32, a[2] as f32]
}
/// The axes of a rotation quaternion (normalized in f64), as images of x, y and z.
pub fn axes(q: [f32; 4]) -> [P3; 3] {
    let n = q.iter().map(|x| *x as f64 * *x as f64).sum::<f64>();
    let (x, y, z, w) = (q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64);
    let k = 2.0 / n;
    [
        [1.0 - k * (y * y + z * z), k * (x * y + z * w), k * (x * z - y * w)],
        [k * (x * y - z * w), 1.0 - k * (x * x + z * z), k * (y * z + x * w)],
        [k * (x * z + y * w), k * (y * z - x * w), 1.0 - k * (x * x + y * y)],
    ]
}
pub fn local(ax: &[P3; 3], p: P3) -> P3 {
    add(add(mul(ax[0], p[0]), mul(ax[1], p[1])), mul(ax[2], p[2]))
}

pub fn xf3(a: F3) -> XMFLOAT3 {
    XMFLOAT3 { x: a[0], y: a[1], z: a[2] }
}
pub fn xf4(a: [f32; 4]) -> XMFLOAT4 {
    XMFLOAT4 { x: a[0], y: a[1], z: a[2], w: a[3] }
}
pub fn fx3(a: XMFLOAT3) -> F3 {
    [a.x, a.y, a.z]
}
pub fn fx4(a: XMFLOAT4) -> [f32; 4] {
    [a.x, a.y, a.z, a.w]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Sphere { c: F3, r: f32 },
    Box { c: F3, e: F3 },
    Obb { c: F3, e: F3, q: [f32; 4] },
    /// slopes: right, left, top, bottom
    Frustum { o: F3, q: [f32; 4], s: [f32; 4], near: f32, far: f32 },
    Tri([F3; 3]),
    Point(F3),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Sphere,
    Box,
    Obb,
    Frustum,
    Tri,
    Point,
}

/// A convex polytope: vertices, candidate face normals, edge directions, outward planes, surface.
#[derive(Clone, Debug, Default)]
pub struct Poly {
    pub v: Vec<P3>,
    pub n: Vec<P3>,
    pub e: Vec<P3>,
    /// outward planes n.x <= d (unit normals unless exact)
    pub planes: Vec<(P3, f64)>,
    pub tris: Vec<[usize; 3]>,
}

impl Shape {
    pub fn kind(&self) -> Kind {
        match self {
            Shape::Sphere { .. } => Kind::Sphere,
            Shape::Box { .. } => Kind::Box,
            Shape::Obb { .. } => Kind::Obb,
            Shape::Frustum { .. } => Kind::Frustum,
            Shape::Tri(_) => Kind::Tri,
            Shape::Point(_) => Kind::Point,
        }
    }
    pub fn sphere(&self) -> BoundingSphere {
        match *self {
            Shape::Sphere { c, r } => BoundingSphere { Center: xf3(c), Radius: r },
            _ => unreachable!(),
        }
    }
    pub fn aabb(&self) -> BoundingBox {
        match *self {
            Shape::Box { c, e } => BoundingBox { Center: xf3(c), Extents: xf3(e) },
            _ => unreachable!(),
        }
    }
    pub fn obb(&self) -> BoundingOrientedBox {
        match *self {
            Shape::Obb { c, e, q } => BoundingOrientedBox { Center: xf3(c), Extents: xf3(e), Orientation: xf4(q) },
            _ => unreachable!(),
        }
    }
    pub fn frustum(&self) -> BoundingFrustum {
        match *self {
            Shape::Frustum { o, q, s, near, far } => BoundingFrustum {
                Origin: xf3(o),
                Orientation: xf4(q),
                RightSlope: s[0],
                LeftSlope: s[1],
                TopSlope: s[2],
                BottomSlope: s[3],
                Near: near,
                Far: far,
            },
            _ => unreachable!(),
        }
    }
    pub fn of_sphere(b: &BoundingSphere) -> Shape {
        Shape::Sphere { c: fx3(b.Center), r: b.Radius }
    }
    pub fn of_box(b: &BoundingBox) -> Shape {
        Shape::Box { c: fx3(b.Center), e: fx3(b.Extents) }
    }
    pub fn of_obb(b: &BoundingOrientedBox) -> Shape {
        Shape::Obb { c: fx3(b.Center), e: fx3(b.Extents), q: fx4(b.Orientation) }
    }
    pub fn of_frustum(b: &BoundingFrustum) -> Shape {
        Shape::Frustum {
            o: fx3(b.Origin),
            q: fx4(b.Orientation),
            s: [b.RightSlope, b.LeftSlope, b.TopSlope, b.BottomSlope],
            near: b.Near,
            far: b.Far,
        }
    }
    pub fn center(&self) -> P3 {
        match *self {
            Shape::Sphere { c, .. } | Shape::Box { c, .. } | Shape::Obb { c, .. } => d3(c),
            _ => {
                let v = self.verts();
                let mut s = [0.0; 3];
                for p in &v {
                    s = add(s, *p);
                }
                mul(s, 1.0 / v.len() as f64)
            }
        }
    }
    pub fn translate(&mut self, d: P3) {
        let mv = |c: &mut F3| *c = f3(add(d3(*c), d));
        match self {
            Shape::Sphere { c, .. } | Shape::Box { c, .. } | Shape::Obb { c, .. } => mv(c),
            Shape::Frustum { o, .. } => mv(o),
            Shape::Tri(v) => v.iter_mut().for_each(mv),
            Shape::Point(p) => mv(p),
        }
    }
    pub fn verts(&self) -> Vec<P3> {
        match *self {
            Shape::Sphere { c, .. } => vec![d3(c)],
            Shape::Box { c, e } => box_verts(d3(c), d3(e), &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
            Shape::Obb { c, e, q } => box_verts(d3(c), d3(e), &axes(q)),
            Shape::Frustum { o, q, s, near, far } => {
                let ax = axes(q);
                let mut v = Vec::with_capacity(8);
                for z in [near as f64, far as f64] {
                    for y in [s[2] as f64, s[3] as f64] {
                        for x in [s[0] as f64, s[1] as f64] {
                            v.push(add(d3(o), local(&ax, [x * z, y * z, z])));
                        }
                    }
                }
                v
            }
            Shape::Tri(v) => v.iter().map(|p| d3(*p)).collect(),
            Shape::Point(p) => vec![d3(p)],
        }
    }
    /// Largest magnitude taking part in the computation.
    pub fn size(&self) -> f64 {
        let mut m = 0.0f64;
        for p in self.verts() {
            for x in p {
                m = m.max(x.abs());
            }
        }
        match *self {
            Shape::Sphere { c, r } => {
                for x in c {
                    m = m.max(x.abs() as f64 + r as f64);
                }
            }
            Shape::Frustum { o, near, far, .. } => {
                for x in o {
                    m = m.max(x.abs() as f64);
                }
                m = m.max(far.abs() as f64).max(near.abs() as f64);
            }
            _ => {}
        }
        m
    }
    pub fn poly(&self) -> Poly {
        let v = self.verts();
        let id = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
        match *self {
            Shape::Sphere { .. } | Shape::Point(_) => Poly { v, ..Default::default() },
            Shape::Box { c, e } => box_poly(v, d3(c), d3(e), &id),
            Shape::Obb { c, e, q } => box_poly(v, d3(c), d3(e), &axes(q)),
            Shape::Frustum { o, q, s, near, far } => {
                let ax = axes(q);
                let (r, l, t, b) = (s[0] as f64, s[1] as f64, s[2] as f64, s[3] as f64);
                let loc = [
                    ([0.0, 0.0, -1.0], -near as f64),
                    ([0.0, 0.0, 1.0], far as f64),
                    ([1.0, 0.0, -r], 0.0),
                    ([-1.0, 0.0, l], 0.0),
                    ([0.0, 1.0, -t], 0.0),
                    ([0.0, -1.0, b], 0.0),
                ];
                let mut planes = Vec::with_capacity(6);
                let mut n = Vec::with_capacity(6);
                for (i, (pn, d)) in loc.iter().enumerate() {
                    let w = local(&ax, *pn);
                    planes.push((w, d + dot(w, d3(o))));
                    if i != 1 {
                        n.push(w);
                    }
                }
                let e = vec![
                    ax[0],
                    ax[1],
                    local(&ax, [r, t, 1.0]),
                    local(&ax, [r, b, 1.0]),
                    local(&ax, [l, t, 1.0]),
                    local(&ax, [l, b, 1.0]),
                ];
                Poly { v, n, e, planes, tris: HEXA.to_vec() }
            }
            Shape::Tri(_) => {
                let e = vec![sub(v[1], v[0]), sub(v[2], v[1]), sub(v[0], v[2])];
                let nn = cross(e[0], e[1]);
                let n = vec![nn, cross(nn, e[0]), cross(nn, e[1]), cross(nn, e[2])];
                Poly { v, n, e, planes: vec![], tris: vec![[0, 1, 2]] }
            }
        }
    }
    pub fn show(&self, s: &mut Src, name: &str) {
        let t = *self;
        s.note(|| format!("{}={:?}", name, t));
    }
}
/// vertex order: bit 0 = x side, bit 1 = y side, bit 2 = z side
const HEXA: [[usize; 3]; 12] = [
    [0, 1, 3],
    [0, 3, 2],
    [4, 5, 7],
    [4, 7, 6],
    [0, 1, 5],
    [0, 5, 4],
    [2, 3, 7],
    [2, 7, 6],
    [0, 2, 6],
    [0, 6, 4],
    [1, 3, 7],
    [1, 7, 5],
];
fn box_verts(c: P3, e: P3, ax: &[P3; 3]) -> Vec<P3> {
    let mut v = Vec::with_capacity(8);
    for z in [-1.0, 1.0] {
        for y in [-1.0, 1.0] {
            for x in [-1.0, 1.0] {
                v.push(add(c, local(ax, [x * e[0], y * e[1], z * e[2]])));
            }
        }
    }
    v
}
fn box_poly(v: Vec<P3>, c: P3, e: P3, ax: &[P3; 3]) -> Poly {
    let mut planes = Vec::with_capacity(6);
    for i in 0..3 {
        planes.push((ax[i], dot(ax[i], c) + e[i]));
        planes.push((mul(ax[i], -1.0), e[i] - dot(ax[i], c)));
    }
    Poly { v, n: ax.to_vec(), e: ax.to_vec(), planes, tris: HEXA.to_vec() }
}

pub fn span(v: &[P3], a: P3) -> (f64, f64) {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for p in v {
        let d = dot(*p, a);
        lo = lo.min(d);
        hi = hi.max(d);
    }
    (lo, hi)
}
/// Largest gap over all separating-axis candidates; positive: disjoint.  Axes are normalized
/// unless `exact` (then only the sign is meaningful).
pub fn gap(a: &Poly, b: &Poly, exact: bool) -> f64 {
    gaps(a, b, exact, 0.0).0
}
/// The largest gap, and the largest one that f32 arithmetic can be relied on to see: the direction
/// of a cross product of nearly parallel edges is uncertain, so its gap is discounted by
/// `noise` over the sine of the angle between the edges.
pub fn gaps(a: &Poly, b: &Poly, exact: bool, noise: f64) -> (f64, f64) {
    let mut best = f64::NEG_INFINITY;
    let mut sure = f64::NEG_INFINITY;
    let mut test = |ax: P3, noise: f64, least: f64| {
        let l2 = dot(ax, ax);
        if l2 == 0.0 || (!exact && l2 < least) {
            return;
        }
        let (al, ah) = span(&a.v, ax);
        let (bl, bh) = span(&b.v, ax);
        let mut g = (bl - ah).max(al - bh);
        if !exact {
            let l = l2.sqrt();
            g /= l;
            sure = f64::max(sure, g - noise / l);
        } else {
            sure = f64::max(sure, g);
        }
        if g > best {
            best = g;
        }
    };
    for n in &a.n {
        test(*n, 0.0, 0.0);
    }
    for n in &b.n {
        test(*n, 0.0, 0.0);
    }
    for ea in &a.e {
        let ea = if exact { *ea } else { unit(*ea) };
        for eb in &b.e {
            let eb = if exact { *eb } else { unit(*eb) };
            test(cross(ea, eb), noise, 1e-14);
        }
    }
    (best, sure)
}
pub fn seg_point(a: P3, b: P3, p: P3) -> P3 {
    let d = sub(b, a);
    let l = dot(d, d);
    let t = if l > 0.0 { (dot(sub(p, a), d) / l).max(0.0).min(1.0) } else { 0.0 };
    add(a, mul(d, t))
}
/// squared distance from p to a triangle
pub fn tri_dist2(t: [P3; 3], p: P3) -> f64 {
    let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
    let n2 = dot(n, n);
    let mut best = f64::INFINITY;
    for i in 0..3 {
        let q = seg_point(t[i], t[(i + 1) % 3], p);
        best = best.min(dot(sub(p, q), sub(p, q)));
    }
    if n2 > 0.0 {
        let inside = (0..3).all(|i| dot(cross(sub(t[(i + 1) % 3], t[i]), sub(p, t[i])), n) >= 0.0);
        if inside {
            let h = dot(sub(p, t[0]), n);
            best = best.min(h * h / n2);
        }
    }
    best
}
/// squared distance from p to the solid (0 inside)
pub fn dist2(a: &Poly, p: P3) -> f64 {
    if !a.planes.is_empty() && a.planes.iter().all(|(n, d)| dot(*n, p) <= *d) {
        return 0.0;
    }
    let mut best = f64::INFINITY;
    for t in &a.tris {
        best = best.min(tri_dist2([a.v[t[0]], a.v[t[1]], a.v[t[2]]], p));
    }
    best
}
/// exact squared distance from a point to a box given in lattice coordinates
fn box_dist2(s: &Shape, p: P3) -> Option<f64> {
    let (c, e, ax) = match *s {
        Shape::Box { c, e } => (d3(c), d3(e), [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
        Shape::Obb { c, e, q } => (d3(c), d3(e), axes(q)),
        _ => return None,
    };
    let d = sub(p, c);
    let mut r = 0.0;
    for i in 0..3 {
        let x = (dot(d, ax[i]).abs() - e[i]).max(0.0);
        r += x * x;
    }
    Some(r)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Yes,
    No,
    Unclear,
}
use Verdict::*;
/// x <= 0 with an uncertainty of eps
pub fn le0(x: f64, eps: f64) -> Verdict {
    if eps == 0.0 {
        return if x <= 0.0 { Yes } else { No };
    }
    if x.is_nan() {
        Unclear
    } else if x < -eps {
        Yes
    } else if x > eps {
        No
    } else {
        Unclear
    }
}
/// relative tolerance of geometric decisions taken in f32
pub const EPS: f64 = 2e-5;

pub struct Judge {
    pub exact: bool,
    pub size: f64,
}
impl Judge {
    pub fn new(exact: bool, shapes: &[&Shape]) -> Judge {
        Judge { exact, size: shapes.iter().map(|s| s.size()).fold(1e-30, f64::max) }
    }
    pub fn eps(&self) -> f64 {
        if self.exact {
            0.0
        } else {
            EPS * self.size
        }
    }
    pub fn eps2(&self) -> f64 {
        if self.exact {
            0.0
        } else {
            EPS * self.size * self.size
        }
    }
    /// do the closed solids have a point in common?
    pub fn meets(&self, a: &Shape, b: &Shape) -> Verdict {
        match (a, b) {
            (Shape::Sphere { c, r }, Shape::Sphere { c: c2, r: r2 }) => {
                let d = sub(d3(*c), d3(*c2));
                let rr = *r as f64 + *r2 as f64;
                le0(dot(d, d) - rr * rr, self.eps2())
            }
            (Shape::Sphere { c, r }, o) | (o, Shape::Sphere { c, r }) => {
                let r = *r as f64;
                let p = d3(*c);
                let d2 = match (o, box_dist2(o, p)) {
                    (_, Some(x)) => x,
                    (Shape::Point(q), _) => {
                        let d = sub(d3(*q), p);
                        dot(d, d)
                    }
                    _ => {
                        if self.exact {
                            return Unclear;
                        }
                        dist2(&o.poly(), p)
                    }
                };
                if d2 == 0.0 && !self.exact && o.kind() != Kind::Tri {
                    // the centre is inside; unless the sphere is a point near the boundary this is clear
                    if r > self.eps() {
                        return Yes;
                    }
                    return self.holds(o, &Shape::Point(*c));
                }
                le0(d2 - r * r, self.eps2())
            }
            _ => {
                let (pa, pb) = (a.poly(), b.poly());
                if self.exact && a.kind() == Kind::Tri && b.kind() == Kind::Tri {
                    let n = pa.n[0];
                    if pb.v.iter().all(|p| dot(*p, n) == dot(pa.v[0], n)) {
                        // in one plane: only the in-plane axes count, and mere contact is left open
                        let flat = |p: &Poly| Poly { v: p.v.clone(), n: p.n[1..].to_vec(), ..Default::default() };
                        let g = gap(&flat(&pa), &flat(&pb), true);
                        return if g < 0.0 { Yes } else if g > 0.0 { No } else { Unclear };
                    }
                }
                if !self.exact && a.kind() == Kind::Tri && b.kind() == Kind::Tri {
                    // within rounding of being coplanar: left open
                    for (x, y) in [(&pa, &pb), (&pb, &pa)] {
                        let n = unit(x.n[0]);
                        if y.v.iter().all(|p| dot(sub(*p, x.v[0]), n).abs() < 50.0 * self.eps()) {
                            return Unclear;
                        }
                    }
                    // an edge within rounding of the other triangle's plane: where that edge crosses the
                    // plane is uncertain, so only separation by a plane of one triangle is clear
                    let grazes = |x: &Poly, y: &Poly| {
                        let n = unit(x.n[0]);
                        y.v.iter().filter(|p| dot(sub(**p, x.v[0]), n).abs() < 50.0 * self.eps()).count() >= 2
                    };
                    if grazes(&pa, &pb) || grazes(&pb, &pa) {
                        let side = |x: &Poly, y: &Poly| {
                            let n = unit(x.n[0]);
                            let (lo, hi) = span(&y.v, n);
                            let d = dot(x.v[0], n);
                            (lo - d).max(d - hi)
                        };
                        let g = gap(&pa, &pb, false);
                        if g > 0.0 && side(&pa, &pb).max(side(&pb, &pa)) < self.eps() {
                            return Unclear;
                        }
                    }
                }
                if !self.exact && a.kind() == Kind::Tri && b.kind() == Kind::Tri {
                    // where an edge crosses the other plane is known to the rounding of the distances over the
                    // sine of the edge against that plane; a gap or overlap smaller than that is left open
                    let mut u = 0.0f64;
                    for (x, y) in [(&pa, &pb), (&pb, &pa)] {
                        let n = unit(x.n[0]);
                        let e = |i: usize| len(sub(x.v[(i + 1) % 3], x.v[i]));
                        let long = e(0).max(e(1)).max(e(2));
                        let area = len(cross(sub(x.v[1], x.v[0]), sub(x.v[2], x.v[0])));
                        let noise = 1e-6 * self.size * (long * long / area).max(1.0);
                        for i in 0..3 {
                            let (p, q) = (y.v[i], y.v[(i + 1) % 3]);
                            let (d, f) = (dot(sub(p, x.v[0]), n), dot(sub(q, x.v[0]), n));
                            if d.min(f) < noise && d.max(f) > -noise {
                                u = u.max(noise * len(sub(p, q)) / (d - f).abs().max(1e-30));
                            }
                        }
                    }
                    if gap(&pa, &pb, false).abs() < u {
                        return Unclear;
                    }
                }
                let (g, sure) = gaps(&pa, &pb, self.exact, 1e-5 * self.size);
                match le0(g, self.eps()) {
                    No if le0(sure, self.eps()) != No => Unclear,
                    v => v,
                }
            }
        }
    }
    /// does the closed solid a contain all of b?
    pub fn holds(&self, a: &Shape, b: &Shape) -> Verdict {
        match a {
            Shape::Sphere { c, r } => {
                let (c, r) = (d3(*c), *r as f64);
                match b {
                    Shape::Sphere { c: c2, r: r2 } => {
                        let d = sub(d3(*c2), c);
                        let rr = r - *r2 as f64;
                        if self.exact {
                            return if rr >= 0.0 && dot(d, d) <= rr * rr { Yes } else { No };
                        }
                        le0(dot(d, d).sqrt() - rr, self.eps())
                    }
                    _ => {
                        let m = b.verts().iter().map(|p| dot(sub(*p, c), sub(*p, c))).fold(0.0, f64::max);
                        le0(m - r * r, self.eps2())
                    }
                }
            }
            _ => {
                if let (Shape::Box { e, .. } | Shape::Obb { e, .. }, Shape::Sphere { r, .. }) = (a, b) {
                    // a flat box and a sphere of radius zero: left open
                    if *r == 0.0 && e.contains(&0.0) {
                        return Unclear;
                    }
                }
                le0(self.worst_plane(a, b), self.eps())
            }
        }
    }
    /// the largest signed distance by which b sticks out of a plane of a
    pub fn worst_plane(&self, a: &Shape, b: &Shape) -> f64 {
        let pa = a.poly();
        let mut w = f64::NEG_INFINITY;
        for (n, d) in &pa.planes {
            w = w.max(self.beyond(*n, *d, b).1);
        }
        w
    }
    /// signed distances (min, max) of b beyond the plane n.x = d
    pub fn beyond(&self, n: P3, d: f64, b: &Shape) -> (f64, f64) {
        let l = if self.exact { 1.0 } else { len(n) };
        if let Shape::Sphere { c, r } = b {
            let x = (dot(n, d3(*c)) - d) / l;
            return (x - *r as f64, x + *r as f64);
        }
        let (lo, hi) = span(&b.verts(), n);
        ((lo - d) / l, (hi - d) / l)
    }
    /// is b entirely beyond one of the planes of a (the test a plane-based classification can make)?
    pub fn cut_off(&self, a: &Shape, b: &Shape) -> Verdict {
        let pa = a.poly();
        let mut m = f64::NEG_INFINITY;
        for (n, d) in &pa.planes {
            m = m.max(self.beyond(*n, *d, b).0);
        }
        match le0(m, self.eps()) {
            Yes => No,
            No => Yes,
            Unclear => Unclear,
        }
    }
}

pub fn expect_bool(what: &str, got: bool, want: Verdict) -> Res {
    match (got, want) {
        (true, No) => Err(Stop::Fail(format!("{}: true, but the solids are disjoint", what))),
        (false, Yes) => Err(Stop::Fail(format!("{}: false, but the solids have a common point", what))),
        _ => Ok(()),
    }
}
pub fn expect_containment(what: &str, got: ContainmentType, meets: Verdict, holds: Verdict) -> Res {
    use ContainmentType::*;
    let bad = match got {
        DISJOINT => meets == Yes,
        INTERSECTS => meets == No || holds == Yes,
        CONTAINS => meets == No || holds == No,
    };
    if bad {
        return Err(Stop::Fail(format!("{}: got {:?}; common point: {:?}, contained: {:?}", what, got, meets, holds)));
    }
    Ok(())
}

// ---------------------------------------------------------------- generators
pub const EXACT_QUATS: [[f32; 4]; 12] = [
    [0.0, 0.0, 0.0, 1.0],
    [1.0, 0.0, 0.0, 0.0],
    [0.0, 1.0, 0.0, 0.0],
    [0.0, 0.0, 1.0, 0.0],
    [0.5, 0.5, 0.5, 0.5],
    [-0.5, 0.5, 0.5, 0.5],
    [0.5, -0.5, 0.5, 0.5],
    [0.5, 0.5, -0.5, 0.5],
    [-0.5, -0.5, 0.5, 0.5],
    [-0.5, 0.5, -0.5, 0.5],
    [0.5, -0.5, -0.5, 0.5],
    [-0.5, -0.5, -0.5, 0.5],
];
impl Src {
    pub fn exact_quat(&mut self) -> [f32; 4] {
        let q = EXACT_QUATS[self.below(12)];
        if self.one_in(4) {
            q.map(|x| -x)
        } else {
            q
        }
    }
    fn pos3(&mut self, exact: bool, scale: f32) -> F3 {
        if exact {
            [self.lattice(5, scale), self.lattice(5, scale), self.lattice(5, scale)]
        } else {
            let k = if self.one_in(8) { 12.0 } else { 2.0 };
            let mut p = [self.range(-k, k) * scale, self.range(-k, k) * scale, self.range(-k, k) * scale];
            if self.one_in(6) {
                // on an axis or a diagonal
                let (i, j) = (self.below(3), self.below(3));
                p[i] = [0.0, -0.0, p[j], -p[j]][self.below(4)];
                if self.bool() {
                    p[j] = 0.0;
                }
            }
            if self.one_in(12) {
                p = match self.choice(3) {
                    0 => [0.0; 3],
                    1 => [p[0]; 3],
                    _ => p.map(|x| -x.abs()),
                };
            }
            p
        }
    }
    fn ext(&mut self, exact: bool, scale: f32) -> f32 {
        if exact {
            return self.choice(5) as f32 * scale;
        }
        match self.choice(6) {
            0 => scale,
            1 => self.range(0.0, 0.1) * scale,
            2 => {
                if self.one_in(4) {
                    0.0
                } else {
                    scale * 0.5
                }
            }
            _ => self.range(0.05, 2.0) * scale,
        }
    }
    pub fn quat(&mut self, exact: bool) -> [f32; 4] {
        if exact {
            return self.exact_quat();
        }
        match self.choice(6) {
            0 => self.exact_quat(),
            1 => {
                // nearly axis aligned
                let q = self.exact_quat();
                let a = self.unit3();
                let t = 10f64.powi(-(self.choice(5) as i32) - 1);
                let p = [(a[0] * t) as f32, (a[1] * t) as f32, (a[2] * t) as f32, 0.0];
                let v = [q[0] + p[0], q[1] + p[1], q[2] + p[2], q[3]];
                let n = v.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
                v.map(|x| (x as f64 / n) as f32)
            }
            _ => self.unit_quat(),
        }
    }
    pub fn shape(&mut self, k: Kind, exact: bool, scale: f32) -> Shape {
        match k {
            Kind::Sphere => Shape::Sphere { c: self.pos3(exact, scale), r: self.ext(exact, scale) },
            Kind::Box => Shape::Box {
                c: self.pos3(exact, scale),
                e: [self.ext(exact, scale), self.ext(exact, scale), self.ext(exact, scale)],
            },
            Kind::Obb => Shape::Obb {
                c: self.pos3(exact, scale),
                e: [self.ext(exact, scale), self.ext(exact, scale), self.ext(exact, scale)],
                q: self.quat(exact),
            },
            Kind::Frustum => {
                let o = self.pos3(exact, scale);
                let q = self.quat(exact);
                if exact {
                    let near = (1.0 + self.choice(3) as f32) * scale;
                    let far = near + (1.0 + self.choice(4) as f32) * scale;
                    let l = self.lattice(3, 0.5);
                    let b = self.lattice(3, 0.5);
                    let r = l + 0.5 * (1.0 + self.choice(4) as f32);
                    let t = b + 0.5 * (1.0 + self.choice(4) as f32);
                    if self.one_in(4) {
                        // looking down -z (right-handed projection)
                        return Shape::Frustum { o, q, s: [-r, -l, -t, -b], near: -far, far: -near };
                    }
                    return Shape::Frustum { o, q, s: [r, l, t, b], near, far };
                }
                // now and then far smaller than what it is tested against
                let scale = if self.one_in(8) { scale * self.range(-8.0, 0.0).exp2() } else { scale };
                let (near, far) = match self.choice(8) {
                    // as a camera's: the far plane many times further than the near plane
                    0 => {
                        let near = if self.one_in(3) { 0.0 } else { self.range(-10.0, 0.0).exp2() * scale };
                        (near, near + self.range(0.1, 3.0) * scale)
                    }
                    // a thin slab
                    1 => {
                        let near = self.range(0.05, 1.0) * scale;
                        (near, near * (1.0 + self.range(0.01, 0.1)))
                    }
                    _ => {
                        let near = self.range(0.05, 1.0) * scale;
                        (near, near + self.range(0.1, 3.0) * scale)
                    }
                };
                let s = match self.choice(4) {
                    3 => {
                        // narrow or wide
                        let (x, y) = (self.range(-7.0, 3.0).exp2(), self.range(-7.0, 3.0).exp2());
                        [x, -x, y, -y]
                    }
                    0 => {
                        let (x, y) = (self.range(0.1, 1.5), self.range(0.1, 1.5));
                        [x, -x, y, -y]
                    }
                    1 => {
                        let (x, y) = (self.range(0.1, 1.5), self.range(0.1, 1.5));
                        [x, -self.range(0.1, 1.5), y, -self.range(0.1, 1.5)]
                    }
                    _ => {
                        let (x, y) = (self.range(-1.5, 1.0), self.range(-1.5, 1.0));
                        [x + self.range(0.1, 2.0), x, y + self.range(0.1, 2.0), y]
                    }
                };
                if self.one_in(4) {
                    return Shape::Frustum { o, q, s: s.map(|x| -x), near: -far, far: -near };
                }
                Shape::Frustum { o, q, s, near, far }
            }
            Kind::Tri => loop {
                let p = self.pos3(exact, scale);
                let (a, b) = if exact {
                    (
                        [self.lattice(4, scale), self.lattice(4, scale), self.lattice(4, scale)],
                        [self.lattice(4, scale), self.lattice(4, scale), self.lattice(4, scale)],
                    )
                } else {
                    let ka = self.range(0.1, 3.0) * scale;
                    let kb = self.range(0.1, 3.0) * scale;
                    let (u, v) = (self.unit3(), self.unit3());
                    (f3(mul(u, ka as f64)), f3(mul(v, kb as f64)))
                };
                let n = cross(d3(a), d3(b));
                let bad = if exact { dot(n, n) == 0.0 } else { len(n) < 0.05 * len(d3(a)) * len(d3(b)) };
                if bad {
                    // replace the second edge by a fixed perpendicular one
                    let i = (0..3).min_by(|i, j| a[*i].abs().partial_cmp(&a[*j].abs()).unwrap()).unwrap();
                    let mut e = [0.0f32; 3];
                    e[i] = if exact { 2.0 * scale } else { scale };
                    let a = if a == [0.0; 3] { let mut z = [0.0; 3]; z[(i + 1) % 3] = scale; z } else { a };
                    break Shape::Tri([p, f3(add(d3(p), d3(a))), f3(add(d3(p), d3(e)))]);
                }
                break Shape::Tri([p, f3(add(d3(p), d3(a))), f3(add(d3(p), d3(b)))]);
            },
            Kind::Point => Shape::Point(self.pos3(exact, scale)),
        }
    }
    pub fn scale(&mut self) -> f32 {
        match self.choice(4) {
            0 | 1 => 1.0,
            2 => {
                let k = [8, 14][self.below(2)];
                2f32.powi(self.choice(2 * k + 1) as i32 - k as i32)
            }
            _ => self.range(0.3, 30.0),
        }
    }
    /// The unit of a scene: a power of two for lattice scenes, which stay exact.
    pub fn unit(&mut self, exact: bool) -> f32 {
        if !exact {
            self.scale()
        } else if self.choice(3) == 2 {
            2f32.powi(self.choice(25) as i32 - 12)
        } else {
            1.0
        }
    }
    /// Now and then, let b share the centre, the orientation or the dimensions of a.
    pub fn relate(&mut self, a: &Shape, b: &mut Shape) -> bool {
        if !self.one_in(8) {
            return false;
        }
        let (what, mut hit) = (self.choice(4), true);
        match (a, &mut *b) {
            (Shape::Sphere { c, r }, Shape::Sphere { c: c2, r: r2 }) => {
                if what != 1 { *c2 = *c }
                if what != 0 { *r2 = *r }
            }
            (Shape::Box { c, e }, Shape::Box { c: c2, e: e2 }) => {
                if what != 1 { *c2 = *c }
                if what != 0 { *e2 = *e }
            }
            (Shape::Obb { c, e, q }, Shape::Obb { c: c2, e: e2, q: q2 }) => {
                if what != 1 { *c2 = *c }
                if what != 0 { *e2 = *e }
                if what != 2 { *q2 = if self.one_in(4) { q.map(|x| -x) } else { *q } }
            }
            (Shape::Frustum { o, q, s, near, far }, Shape::Frustum { o: o2, q: q2, s: s2, near: n2, far: f2 }) => {
                if what != 1 { *o2 = *o }
                if what != 0 { *s2 = *s; *n2 = *near; *f2 = *far }
                if what != 2 { *q2 = if self.one_in(4) { q.map(|x| -x) } else { *q } }
            }
            (Shape::Tri(v), Shape::Tri(w)) => {
                // a common corner, or the same triangle
                if what == 3 { *w = *v } else {
                    let d = sub(d3(v[what as usize]), d3(w[self.below(3)]));
                    b.translate(d);
                }
            }
            (Shape::Sphere { c, .. } | Shape::Box { c, .. } | Shape::Obb { c, .. } | Shape::Frustum { o: c, .. },
             Shape::Sphere { c: c2, .. } | Shape::Box { c: c2, .. } | Shape::Obb { c: c2, .. } | Shape::Frustum { o: c2, .. } | Shape::Point(c2)) => *c2 = *c,
            _ => hit = false,
        }
        hit
    }
    /// Now and then, move the whole scene so that one of the two sits at the origin, on an axis or on a diagonal.
    pub fn site(&mut self, a: &mut Shape, b: &mut Shape, unit: f32) {
        if !self.one_in(8) {
            return;
        }
        let at = match if self.bool() { &*a } else { &*b } {
            Shape::Sphere { c, .. } | Shape::Box { c, .. } | Shape::Obb { c, .. } | Shape::Frustum { o: c, .. } | Shape::Point(c) => d3(*c),
            Shape::Tri(v) => d3(v[self.below(3)]),
        };
        let (x, y) = ((self.lattice(4, unit)) as f64, (self.lattice(4, unit)) as f64);
        let to = match self.choice(6) {
            0 | 1 => [0.0; 3],
            2 => [x, x, x],
            3 => [x, x, y],
            4 => [y, x, x],
            _ => [[x, 0.0, 0.0], [0.0, x, 0.0], [0.0, 0.0, x], [-x.abs() - unit as f64, -y.abs() - unit as f64, -unit as f64]][self.below(4)],
        };
        let d = sub(to, at);
        a.translate(d);
        b.translate(d);
    }
    /// Move b so that it is in (or near) contact with a, along one of the directions in which the
    /// two can touch.
    pub fn contact(&mut self, a: &Shape, b: &mut Shape) {
        let (pa, pb) = (a.poly(), b.poly());
        let na = pa.n.len() as u64;
        let nb = pb.n.len() as u64;
        let (ea, eb) = (pa.e.len() as u64, pb.e.len() as u64);
        let pick = self.choice(4);
        let mut n = if pick == 0 && na > 0 {
            pa.n[self.choice(na) as usize]
        } else if pick == 1 && nb > 0 {
            pb.n[self.choice(nb) as usize]
        } else if pick == 2 && ea * eb > 0 {
            cross(unit(pa.e[self.choice(ea) as usize]), unit(pb.e[self.choice(eb) as usize]))
        } else {
            self.unit3()
        };
        if len(n) < 1e-6 {
            n = self.unit3();
        }
        n = unit(n);
        if self.bool() {
            n = mul(n, -1.0);
        }
        let inner = self.one_in(4);
        let sup = |s: &Shape, p: &Poly, n: P3| -> P3 {
            if let Shape::Sphere { c, r } = s {
                return add(d3(*c), mul(n, *r as f64));
            }
            let (_, hi) = span(&p.v, n);
            let (mut c, mut k) = ([0.0; 3], 0.0);
            for v in &p.v {
                if dot(*v, n) >= hi - 1e-5 * (1.0 + hi.abs()) {
                    c = add(c, *v);
                    k += 1.0;
                }
            }
            mul(c, 1.0 / k)
        };
        let size = a.size().max(b.size());
        let g = match self.choice(8) {
            0 => 0.0,
            1 | 2 | 3 => self.range(-0.3, 0.3) as f64 * size,
            _ => {
                let k = self.range(-15.0, -2.0) as f64;
                let sg = if self.bool() { 1.0 } else { -1.0 };
                sg * k.exp2() * size
            }
        };
        let x = sup(a, &pa, n);
        let y = if inner { sup(b, &pb, n) } else { sup(b, &pb, mul(n, -1.0)) };
        b.translate(add(sub(x, y), mul(n, g)));
    }
    /// A vector holding a point; its fourth component is arbitrary.
    pub fn pt(&mut self, p: F3) -> XMVECTOR {
        let w = [0.0, 1.0, -3.5, f32::NAN, f32::INFINITY, 1e30][self.below(6)];
        crate::gen::vec([p[0], p[1], p[2], w])
    }
}

// ---------------------------------------------------------------- rays
/// Interval of line parameters inside the solid grown by `grow`.
pub fn line_hit(sh: &Shape, o: P3, d: P3, grow: f64, grow2: f64) -> Option<(f64, f64)> {
    if let Shape::Sphere { c, r } = sh {
        let l = sub(d3(*c), o);
        let dd = dot(d, d);
        let s = dot(l, d) / dd;
        let m = sub(l, mul(d, s));
        let q2 = (*r as f64) * (*r as f64) + grow2 - dot(m, m);
        if q2 < 0.0 {
            return None;
        }
        let q = (q2 / dd).sqrt();
        return Some((s - q, s + q));
    }
    let (mut t0, mut t1) = (f64::NEG_INFINITY, f64::INFINITY);
    for (n, k) in &sh.poly().planes {
        let l = len(*n);
        let (n, k) = (mul(*n, 1.0 / l), *k / l + grow);
        let a = dot(n, d);
        let b = k - dot(n, o);
        if a == 0.0 {
            if b < 0.0 {
                return None;
            }
        } else if a > 0.0 {
            t1 = t1.min(b / a);
        } else {
            t0 = t0.max(b / a);
        }
    }
    if t0 <= t1 {
        Some((t0, t1))
    } else {
        None
    }
}
impl Src {
    /// A point on, in or near a shape.
    pub fn near_point(&mut self, sh: &Shape) -> P3 {
        let v = sh.verts();
        let c = sh.center();
        let p = if let Shape::Sphere { c, r } = sh {
            let u = self.unit3();
            add(d3(*c), mul(u, *r as f64))
        } else {
            let k = 1 + self.below(4);
            let mut w = [0.0; 3];
            let mut t = 0.0;
            for _ in 0..k {
                let x = self.range(0.0, 1.0) as f64 + 1e-3;
                w = add(w, mul(v[self.below(v.len())], x));
                t += x;
            }
            mul(w, 1.0 / t)
        };
        let g = match self.choice(5) {
            0 => 0.0,
            1 => self.range(-1.0, 1.0) as f64,
            2 => self.range(-0.1, 0.1) as f64,
            3 => self.range(-0.01, 0.01) as f64,
            _ => self.range(-0.001, 0.001) as f64,
        };
        add(c, mul(sub(p, c), 1.0 + g))
    }
    /// A ray that has to do with the shape; unit direction rounded to f32.
    pub fn ray(&mut self, sh: &Shape) -> (F3, F3) {
        let size = sh.size();
        let o = match self.choice(5) {
            0 => self.near_point(sh),
            1 => {
                let p = self.near_point(sh);
                let u = self.unit3();
                add(p, mul(u, self.range(-4.0, 4.0) as f64 * size))
            }
            _ => {
                let u = self.unit3();
                add(sh.center(), mul(u, self.range(0.0, 6.0) as f64 * size))
            }
        };
        let o = f3(o);
        let t = self.near_point(sh);
        let mut d = match self.choice(6) {
            0 => self.unit3(),
            _ => {
                let d = sub(t, d3(o));
                if len(d) <= 1e-6 * size { self.unit3() } else { unit(d) }
            }
        };
        if self.one_in(8) {
            d = mul(d, -1.0);
        }
        let e = sh.poly().e;
        if self.one_in(8) && !e.is_empty() {
            // along an edge
            let u = e[self.below(e.len())];
            if len(u) > 0.0 {
                d = mul(unit(u), if self.bool() { -1.0 } else { 1.0 });
            }
        }
        if self.one_in(8) {
            // nearly parallel to a coordinate plane
            let i = self.below(3);
            d[i] = [0.0, -0.0, 1e-25, -1e-30, 1e-15][self.below(5)];
            d = if len(d) < 0.1 { [1.0, 0.0, 0.0] } else { unit(d) };
        }
        (o, f3(d))
    }
}
