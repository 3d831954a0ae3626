//! C26: transforming bounding volumes.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;
use dxcheck::rf::within;

const J3: XMFLOAT3 = XMFLOAT3 { x: f32::NAN, y: 7e9, z: f32::NAN };
const J4: XMFLOAT4 = XMFLOAT4 { x: f32::NAN, y: 7e9, z: f32::NAN, w: -7e9 };

fn near3(what: &str, got: F3, want: P3, tol: f64) -> Res {
    for i in 0..3 {
        within(what, got[i], want[i], tol)?;
    }
    Ok(())
}
/// An affine map on row vectors: rows x, y, z, translation.
struct Map {
    m: M4,
    d: [P3; 4],
}
impl Map {
    fn of(m: M4) -> Map {
        Map { m, d: m.map(|r| [r[0] as f64, r[1] as f64, r[2] as f64]) }
    }
    fn at(&self, p: P3) -> P3 {
        add(local(&[self.d[0], self.d[1], self.d[2]], p), self.d[3])
    }
    /// magnitude of the numbers in play when mapping something of magnitude z
    fn size(&self, z: f64) -> f64 {
        let r = self.d[..3].iter().map(|r| len(*r)).fold(0.0, f64::max);
        let t = self.d[3].iter().fold(0.0f64, |m, x| m.max(x.abs()));
        z * r * 1.8 + t
    }
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Uniform,
    Axes,
    Mirrored,
    Affine,
}
fn factor(s: &mut Src) -> f64 {
    match s.choice(4) {
        0 => 1.0,
        1 => s.range(0.05, 1.0) as f64,
        2 => s.range(1.0, 20.0) as f64,
        _ => 2f64.powi(s.choice(13) as i32 - 6),
    }
}
fn shift(s: &mut Src, k: f32) -> F3 {
    match s.choice(4) {
        0 => [0.0; 3],
        1 => f3(mul(s.unit3(), 10.0 * k as f64)),
        _ => f3(mul(s.unit3(), k as f64)),
    }
}
/// scale (uniform or per axis), then rotate, then translate; or any affine map
fn map_of(s: &mut Src, how: How, k: f32) -> Map {
    let mut m: M4 = [[0.0; 4]; 4];
    m[3][3] = 1.0;
    let t = shift(s, k);
    m[3][..3].copy_from_slice(&t);
    if how == How::Affine {
        let z = s.one_in(4);
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = if z { s.lattice(2, 1.0) } else { s.range(-2.0, 2.0) };
            }
        }
        return finish(s, m);
    }
    let q = s.quat(false);
    let ax = axes(q);
    let f = factor(s);
    let mut e = [f, f, f];
    if how == How::Axes || how == How::Mirrored {
        e = [f, factor(s), factor(s)];
    }
    if how == How::Mirrored {
        for x in e.iter_mut() {
            if s.bool() { *x = -*x }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = (ax[i][j] * e[i]) as f32;
        }
    }
    finish(s, m)
}
fn finish(s: &mut Src, m: M4) -> Map {
    s.showm("m", m);
    Map::of(m)
}
fn bounds(v: &[P3]) -> (P3, P3) {
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for p in v {
        for i in 0..3 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    (lo, hi)
}
fn unit_q(q: [f32; 4]) -> Res {
    let n = q.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
    ensure!((n - 1.0).abs() < 1e-4, "orientation {:?} has length {}", q, n);
    Ok(())
}
/// The two sets of eight vertices are equal, in the order of the vertices.
fn same_verts(what: &str, got: &Shape, want: &[P3], tol: f64) -> Res {
    for (i, (g, w)) in got.verts().iter().zip(want).enumerate() {
        for j in 0..3 {
            let d = (g[j] - w[j]).abs();
            if dxcheck::rf::tracking() {
                dxcheck::rf::track(what, d / tol);
            }
            ensure!(d <= tol, "{}: vertex {} is {:?}, expected {:?} +- {:e}; result {:?}", what, i, g, w, tol, got);
        }
    }
    Ok(())
}
/// The decomposed form of a uniform map.
fn decomposed(s: &mut Src, k: f32) -> (f32, [f32; 4], F3, Map) {
    let f = factor(s) as f32;
    let q = s.quat(false);
    let t = shift(s, k);
    let ax = axes(q);
    let mut m: M4 = [[0.0; 4]; 4];
    let mut d = [[0.0; 3]; 4];
    for i in 0..3 {
        d[i] = mul(ax[i], f as f64);
        for j in 0..3 {
            m[i][j] = d[i][j] as f32;
        }
    }
    d[3] = d3(t);
    s.note(|| format!("scale={} rotation={:?} translation={:?}", f, q, t));
    (f, q, t, Map { m, d })
}
const T: f64 = 4e-6;
fn sphere_is(g: &BoundingSphere, x: &BoundingSphere, m: &Map, z: f64) -> Res {
    near3("sphere centre", fx3(g.Center), m.at(d3(fx3(x.Center))), T * z)?;
    let k = m.d[..3].iter().map(|r| len(*r)).fold(0.0, f64::max);
    within("sphere radius", g.Radius, x.Radius as f64 * k, T * x.Radius as f64 * k)
}
fn box_is(g: &BoundingBox, x: &Shape, m: &Map, z: f64) -> Res {
    let v: Vec<P3> = x.verts().iter().map(|p| m.at(*p)).collect();
    let (lo, hi) = bounds(&v);
    near3("box centre", fx3(g.Center), mul(add(lo, hi), 0.5), T * z)?;
    near3("box extents", fx3(g.Extents), mul(sub(hi, lo), 0.5), T * z)
}
fn obb_is(g: &BoundingOrientedBox, x: &Shape, m: &Map, z: f64) -> Res {
    unit_q(fx4(g.Orientation))?;
    let v: Vec<P3> = x.verts().iter().map(|p| m.at(*p)).collect();
    same_verts("oriented box", &Shape::of_obb(g), &v, T * z)
}
fn frustum_is(g: &BoundingFrustum, x: &Shape, m: &Map, z: f64) -> Res {
    unit_q(fx4(g.Orientation))?;
    let v: Vec<P3> = x.verts().iter().map(|p| m.at(*p)).collect();
    near3("frustum origin", fx3(g.Origin), m.at(d3(fx3(x.frustum().Origin))), T * z)?;
    same_verts("frustum", &Shape::of_frustum(g), &v, T * z)
}

fn main() {
    let mut c: Vec<Check> = Vec::new();
    for how in [How::Uniform, How::Axes, How::Mirrored] {
        let n = if how == How::Uniform { "uniform" } else if how == How::Axes { "axes" } else { "mirrored" };
        c.push(check(format!("sphere_matrix_{}", n), 100, move |s| {
            let k = s.scale();
            let a = s.shape(Kind::Sphere, false, k);
            a.show(s, "a");
            let m = map_of(s, how, k);
            let mut g = BoundingSphere { Center: J3, Radius: f32::NAN };
            a.sphere().TransformMatrix(&mut g, mat(m.m));
            sphere_is(&g, &a.sphere(), &m, m.size(a.size()))
        }));
    }
    for how in [How::Axes, How::Mirrored, How::Affine] {
        let n = if how == How::Affine { "affine" } else if how == How::Axes { "axes" } else { "mirrored" };
        c.push(check(format!("box_matrix_{}", n), 100, move |s| {
            let k = s.scale();
            let a = s.shape(Kind::Box, false, k);
            a.show(s, "a");
            let m = map_of(s, how, k);
            let mut g = BoundingBox { Center: J3, Extents: J3 };
            a.aabb().TransformMatrix(&mut g, mat(m.m));
            box_is(&g, &a, &m, m.size(a.size()))
        }));
    }
    c.push(check("obb_matrix_uniform", 100, |s| {
        let k = s.scale();
        let a = s.shape(Kind::Obb, false, k);
        a.show(s, "a");
        let m = map_of(s, How::Uniform, k);
        let mut g = BoundingOrientedBox { Center: J3, Extents: J3, Orientation: J4 };
        a.obb().TransformMatrix(&mut g, mat(m.m));
        obb_is(&g, &a, &m, m.size(a.size()))
    }));
    c.push(check("obb_matrix_axes", 100, |s| {
        // different factors per axis keep a box a box when it is aligned to the axes
        let k = s.scale();
        let mut a = s.shape(Kind::Obb, false, k);
        if let Shape::Obb { q, .. } = &mut a {
            let w = if s.bool() { 1.0 } else { -1.0 };
            *q = [0.0, 0.0, 0.0, w];
        }
        a.show(s, "a");
        let m = map_of(s, How::Axes, k);
        let mut g = BoundingOrientedBox { Center: J3, Extents: J3, Orientation: J4 };
        a.obb().TransformMatrix(&mut g, mat(m.m));
        obb_is(&g, &a, &m, m.size(a.size()))
    }));
    c.push(check("frustum_matrix_uniform", 100, |s| {
        let k = s.scale();
        let a = s.shape(Kind::Frustum, false, k);
        a.show(s, "a");
        let m = map_of(s, How::Uniform, k);
        let mut g = Shape::Frustum { o: [f32::NAN; 3], q: [f32::NAN; 4], s: [f32::NAN; 4], near: f32::NAN, far: f32::NAN }.frustum();
        a.frustum().TransformMatrix(&mut g, mat(m.m));
        frustum_is(&g, &a, &m, m.size(a.size()))
    }));
    c.push(check("sphere_decomposed", 100, |s| {
        let k = s.scale();
        let a = s.shape(Kind::Sphere, false, k);
        a.show(s, "a");
        let (f, q, t, m) = decomposed(s, k);
        let mut g = BoundingSphere { Center: J3, Radius: f32::NAN };
        a.sphere().TransformDecomposed(&mut g, f, vec(q), s.pt(t));
        sphere_is(&g, &a.sphere(), &m, m.size(a.size()))
    }));
    c.push(check("box_decomposed", 100, |s| {
        let k = s.scale();
        let a = s.shape(Kind::Box, false, k);
        a.show(s, "a");
        let (f, q, t, m) = decomposed(s, k);
        let mut g = BoundingBox { Center: J3, Extents: J3 };
        a.aabb().TransformDecomposed(&mut g, f, vec(q), s.pt(t));
        box_is(&g, &a, &m, m.size(a.size()))
    }));
    c.push(check("obb_decomposed", 100, |s| {
        let k = s.scale();
        let a = s.shape(Kind::Obb, false, k);
        a.show(s, "a");
        let (f, q, t, m) = decomposed(s, k);
        let mut g = BoundingOrientedBox { Center: J3, Extents: J3, Orientation: J4 };
        a.obb().TransformDecomposed(&mut g, f, vec(q), s.pt(t));
        obb_is(&g, &a, &m, m.size(a.size()))
    }));
    c.push(check("frustum_decomposed", 100, |s| {
        let k = s.scale();
        let a = s.shape(Kind::Frustum, false, k);
        a.show(s, "a");
        let (f, q, t, m) = decomposed(s, k);
        let mut g = Shape::Frustum { o: [f32::NAN; 3], q: [f32::NAN; 4], s: [f32::NAN; 4], near: f32::NAN, far: f32::NAN }.frustum();
        a.frustum().TransformDecomposed(&mut g, f, vec(q), s.pt(t));
        frustum_is(&g, &a, &m, m.size(a.size()))
    }));
    dxcheck::cli::main("C26", c);
}
