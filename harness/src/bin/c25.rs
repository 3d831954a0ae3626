//! C25: construction of bounding volumes: points, merging, conversion, corners, planes.
use directx_math::collision::*;
use dxcheck::geo::*;
use dxcheck::prelude::*;
use dxcheck::rf::within;

const J3: XMFLOAT3 = XMFLOAT3 { x: f32::NAN, y: 7e9, z: f32::NAN };
const J4: XMFLOAT4 = XMFLOAT4 { x: f32::NAN, y: 7e9, z: f32::NAN, w: -7e9 };
fn junk_sphere() -> BoundingSphere {
    BoundingSphere { Center: J3, Radius: f32::NAN }
}
fn junk_box() -> BoundingBox {
    BoundingBox { Center: J3, Extents: J3 }
}
fn junk_obb() -> BoundingOrientedBox {
    BoundingOrientedBox { Center: J3, Extents: J3, Orientation: J4 }
}
fn junk_frustum() -> BoundingFrustum {
    let n = f32::NAN;
    BoundingFrustum { Origin: J3, Orientation: J4, RightSlope: n, LeftSlope: n, TopSlope: n, BottomSlope: n, Near: n, Far: n }
}

/// The generated point clouds; `wide` adds magnitudes from 1e-6 to 1e6.
fn cloud(s: &mut Src, wide: bool) -> Vec<F3> {
    let n = match s.choice(9) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => 16 + if s.one_in(20) { 45 + s.below(600) } else { s.below(45) },
        _ => 4 + s.below(12),
    };
    let k = if wide && s.one_in(3) { 10f32.powi(s.choice(13) as i32 - 6) * s.range(1.0, 9.0) } else { s.scale() };
    let ax = axes(s.quat(false));
    let o = match s.choice(4) {
        0 => [0.0; 3],
        1 => mul(s.unit3(), 10.0 * k as f64),
        _ => mul(s.unit3(), k as f64),
    };
    let mut e = [1.0f64; 3];
    let mut v: Vec<F3> = Vec::with_capacity(n);
    let style = s.choice(8);
    match style {
        1 => e = [s.range(0.1, 3.0) as f64, s.range(0.1, 3.0) as f64, 0.0],
        2 => e = [s.range(0.1, 3.0) as f64, 0.0, 0.0],
        3 => e = [s.range(0.1, 3.0) as f64, s.range(0.1, 3.0) as f64, s.range(0.001, 0.1) as f64],
        _ => {}
    }
    let i = s.below(3);
    e.swap(0, i);
    // per axis: a constant tiny offset, tiny noise, or full size (at least one)
    let mut thin: [(u64, f64); 3] = if style == 7 { core::array::from_fn(|_| (s.choice(3), (-(s.choice(60) as f64)).exp2())) } else { [(0, 0.0); 3] };
    thin[i].0 = 0;
    for _ in 0..n {
        let p = match style {
            4 => [s.lattice(3, 1.0) as f64, s.lattice(3, 1.0) as f64, s.lattice(3, 1.0) as f64],
            5 => {
                // corners of an oriented box
                let sg = |b: bool| if b { 1.0 } else { -1.0 };
                [sg(s.bool()), 0.6 * sg(s.bool()), 0.3 * sg(s.bool())]
            }
            6 => {
                // on a sphere
                s.unit3()
            }
            7 => thin.map(|(how, m)| match how {
                0 => s.range(-1.0, 1.0) as f64,
                1 => m * 1.299213,
                _ => m * s.range(-1.0, 1.0) as f64,
            }),
            _ => [
                e[0] * s.range(-1.0, 1.0) as f64,
                e[1] * s.range(-1.0, 1.0) as f64,
                e[2] * s.range(-1.0, 1.0) as f64,
            ],
        };
        let p = if style == 4 { p } else if style == 7 { mul(p, k as f64) } else { add(o, mul(local(&ax, p), k as f64)) };
        if s.one_in(10) && !v.is_empty() {
            let d = v[s.below(v.len())];
            v.push(d);
        } else {
            v.push(f3(p));
        }
    }
    let t = v.clone();
    s.note(|| format!("points={:?}", t));
    s.label(match v.len() {
        1 => "one point",
        2 => "two points",
        _ => "cloud",
    });
    v
}
fn size(v: &[P3]) -> f64 {
    v.iter().flat_map(|p| p.iter()).fold(0.0, |m, x| m.max(x.abs()))
}
fn diameter(v: &[P3]) -> f64 {
    let mut m = 0.0f64;
    for a in v {
        for b in v {
            m = m.max(len(sub(*a, *b)));
        }
    }
    m
}
fn unit_q(q: [f32; 4]) -> Result<(), Stop> {
    let n = q.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
    ensure!((n - 1.0).abs() < 1e-4, "orientation {:?} has length {}", q, n);
    Ok(())
}
fn near3(what: &str, got: F3, want: P3, tol: f64) -> Res {
    for i in 0..3 {
        within(what, got[i], want[i], tol)?;
    }
    Ok(())
}
/// The sphere encloses the points, touches the furthest of them and is at most as large as the
/// diameter of the set.
fn sphere_of(v: &[P3], b: &BoundingSphere) -> Res {
    let z = size(v);
    let tol = 1e-5 * z;
    let c = d3(fx3(b.Center));
    let r = b.Radius as f64;
    ensure!(r >= 0.0 && r.is_finite() && c.iter().all(|x| x.is_finite()), "sphere {:?}", b);
    let far = v.iter().map(|p| len(sub(*p, c))).fold(0.0, f64::max);
    ensure!(far <= r + tol, "a point is {} from the centre of {:?}", far, b);
    ensure!(far >= r - tol, "radius of {:?} is larger than the furthest point needs ({})", b, far);
    let d = diameter(v);
    ensure!(r <= d + tol, "radius of {:?} is larger than the diameter {} of the points", b, d);
    Ok(())
}
fn bounds(v: &[P3]) -> (P3, P3) {
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for p in v {
        for i in 0..3 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    (lo, hi)
}
fn box_is(what: &str, b: &BoundingBox, lo: P3, hi: P3, tol: f64) -> Res {
    near3(&format!("{} centre", what), fx3(b.Center), mul(add(lo, hi), 0.5), tol)?;
    near3(&format!("{} extents", what), fx3(b.Extents), mul(sub(hi, lo), 0.5), tol)
}
const ORDER: [[f64; 3]; 8] = [
    [-1.0, -1.0, 1.0],
    [1.0, -1.0, 1.0],
    [1.0, 1.0, 1.0],
    [-1.0, 1.0, 1.0],
    [-1.0, -1.0, -1.0],
    [1.0, -1.0, -1.0],
    [1.0, 1.0, -1.0],
    [-1.0, 1.0, -1.0],
];
/// The corners are the eight combinations, in the documented order.
fn corners_are(what: &str, got: &[XMFLOAT3; 8], c: P3, e: P3, ax: &[P3; 3], tol: f64) -> Res {
    for (i, o) in ORDER.iter().enumerate() {
        let w = add(c, local(ax, [o[0] * e[0], o[1] * e[1], o[2] * e[2]]));
        near3(&format!("{} corner {}", what, i), fx3(got[i]), w, tol)?;
    }
    Ok(())
}
fn identity() -> [P3; 3] {
    [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
}
fn any_shape(s: &mut Src, k: Kind) -> (Shape, bool) {
    let exact = s.one_in(4);
    let sc = s.unit(exact);
    let x = s.shape(k, exact, sc);
    x.show(s, "a");
    (x, exact)
}

fn main() {
    let mut c: Vec<Check> = Vec::new();
    c.push(check("sphere_from_points", 150, |s| {
        let p = cloud(s, true);
        let xs: Vec<XMFLOAT3> = p.iter().map(|p| xf3(*p)).collect();
        let mut b = junk_sphere();
        BoundingSphere::CreateFromPoints(&mut b, xs.iter());
        let v: Vec<P3> = p.iter().map(|p| d3(*p)).collect();
        if p.len() == 1 {
            near3("centre", fx3(b.Center), v[0], 0.0)?;
            return within("radius", b.Radius, 0.0, 0.0);
        }
        sphere_of(&v, &b)
    }));
    c.push(check("sphere_of_antipodal_pair", 80, |s| {
        // two points span the set: every other point lies well inside the sphere on that diameter
        let k = s.scale() as f64;
        let c = mul(s.unit3(), k * s.range(0.0, 3.0) as f64);
        let d = mul(s.unit3(), k * s.range(0.2, 2.0) as f64);
        let mut p = vec![f3(add(c, d)), f3(sub(c, d))];
        for _ in 0..s.choice(6) {
            p.push(f3(add(c, mul(s.unit3(), len(d) * s.range(0.0, 0.5) as f64))));
        }
        let n = p.len();
        let (i, j) = (s.below(n), s.below(n));
        p.swap(0, i);
        p.swap(1, j);
        s.note(|| format!("points={:?}", p));
        let xs: Vec<XMFLOAT3> = p.iter().map(|p| xf3(*p)).collect();
        let mut b = junk_sphere();
        BoundingSphere::CreateFromPoints(&mut b, xs.iter());
        let tol = 1e-5 * (len(c) + len(d));
        near3("centre of the smallest sphere", fx3(b.Center), c, tol)?;
        within("radius of the smallest sphere", b.Radius, len(d), tol)
    }));
    c.push(check("box_from_points", 150, |s| {
        let p = cloud(s, true);
        let xs: Vec<XMFLOAT3> = p.iter().map(|p| xf3(*p)).collect();
        let mut b = junk_box();
        BoundingBox::CreateFromPoints(&mut b, xs.iter());
        let v: Vec<P3> = p.iter().map(|p| d3(*p)).collect();
        let (lo, hi) = bounds(&v);
        box_is("CreateFromPoints", &b, lo, hi, 4e-7 * size(&v))
    }));
    c.push(check("obb_from_points", 200, |s| {
        let p = cloud(s, true);
        let xs: Vec<XMFLOAT3> = p.iter().map(|p| xf3(*p)).collect();
        let mut b = junk_obb();
        BoundingOrientedBox::CreateFromPoints(&mut b, xs.iter());
        let v: Vec<P3> = p.iter().map(|p| d3(*p)).collect();
        let tol = 1e-5 * size(&v);
        unit_q(fx4(b.Orientation))?;
        let ax = axes(fx4(b.Orientation));
        let (c, e) = (d3(fx3(b.Center)), d3(fx3(b.Extents)));
        for i in 0..3 {
            ensure!(e[i] >= 0.0 && e[i].is_finite(), "extents of {:?}", b);
            let m = dot(c, ax[i]);
            let (lo, hi) = span(&v, ax[i]);
            ensure!(lo >= m - e[i] - tol && hi <= m + e[i] + tol, "axis {}: the points span {} to {} but {:?} spans {} to {}", i, lo, hi, b, m - e[i], m + e[i]);
            ensure!(lo <= m - e[i] + tol && hi >= m + e[i] - tol, "axis {}: the points span only {} to {} but {:?} spans {} to {}", i, lo, hi, b, m - e[i], m + e[i]);
        }
        Ok(())
    }));
    c.push(check("obb_fits_box_cloud", 100, |s| {
        // a cloud symmetric about three axes with clearly different spreads: the box is aligned to it
        let k = if s.one_in(3) { 10f32.powi(s.choice(9) as i32 - 4) * s.range(1.0, 9.0) } else { s.scale() } as f64;
        // (f32 eigenvectors are poor when the cloud is almost, but not quite, aligned to the axes)
        let skewed = |a: &[P3; 3]| a.iter().all(|a| a.iter().all(|x| x.abs() > 0.15));
        let mut ax = axes([0.4, 0.2, -0.3, 0.8]);
        for _ in 0..12 {
            let q = [s.range(-1.0, 1.0), s.range(-1.0, 1.0), s.range(-1.0, 1.0), s.range(-1.0, 1.0)];
            if q.iter().all(|x| x.abs() < 1e-3) {
                continue;
            }
            let a = axes(q);
            if skewed(&a) {
                ax = a;
                break;
            }
        }
        let mut e = [1.0, s.range(0.4, 0.6) as f64, s.range(0.15, 0.25) as f64];
        e.swap(0, s.below(3));
        e.swap(1, 1 + s.below(2));
        let o = mul(s.unit3(), s.range(0.0, 2.0) as f64 * k);
        let mut xs = Vec::new();
        for (i, m) in ORDER.iter().enumerate() {
            xs.push(xf3(f3(add(o, mul(local(&ax, [m[0] * e[0], m[1] * e[1], m[2] * e[2]]), k)))));
            let j = s.below(i + 1);
            xs.swap(i, j);
        }
        let t = xs.clone();
        s.note(|| format!("points={:?}", t));
        let mut b = junk_obb();
        BoundingOrientedBox::CreateFromPoints(&mut b, xs.iter());
        unit_q(fx4(b.Orientation))?;
        let mut got = d3(fx3(b.Extents));
        got.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let mut want = mul(e, k);
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        near3("CreateFromPoints centre", fx3(b.Center), o, 1e-3 * k)?;
        for i in 0..3 {
            within("CreateFromPoints extent", got[i] as f32, want[i], 1e-2 * k)?;
        }
        Ok(())
    }));
    c.push(check("obb_fits_aligned_cloud", 60, |s| {
        // the corners of an axis-aligned box with small integer coordinates: exactly that box
        let e = [s.below(7) as f64, s.below(7) as f64, s.below(7) as f64];
        let o = [s.lattice(8, 1.0) as f64, s.lattice(8, 1.0) as f64, s.lattice(8, 1.0) as f64];
        let mut xs = Vec::new();
        for (i, m) in ORDER.iter().enumerate() {
            xs.push(xf3(f3(add(o, [m[0] * e[0], m[1] * e[1], m[2] * e[2]]))));
            let j = s.below(i + 1);
            xs.swap(i, j);
        }
        let t = xs.clone();
        s.note(|| format!("points={:?}", t));
        let mut b = junk_obb();
        BoundingOrientedBox::CreateFromPoints(&mut b, xs.iter());
        unit_q(fx4(b.Orientation))?;
        let mut got = d3(fx3(b.Extents));
        got.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        let mut want = e;
        want.sort_by(|a, b| a.partial_cmp(b).unwrap());
        near3("CreateFromPoints centre", fx3(b.Center), o, 1e-4)?;
        for i in 0..3 {
            within("CreateFromPoints extent", got[i] as f32, want[i], 1e-4)?;
        }
        Ok(())
    }));
    c.push(check("sphere_merged", 150, |s| {
        let exact = s.one_in(3);
        let k = s.unit(exact);
        let a = s.shape(Kind::Sphere, exact, k);
        let mut b = s.shape(Kind::Sphere, exact, k);
        match s.choice(6) {
            0 | 1 => s.contact(&a, &mut b),
            2 => b = a,
            3 => {
                if let (Shape::Sphere { c, .. }, Shape::Sphere { c: c2, .. }) = (&a, &mut b) {
                    *c2 = *c;
                }
            }
            _ => {}
        }
        a.show(s, "a");
        b.show(s, "b");
        let mut m = junk_sphere();
        BoundingSphere::CreateMerged(&mut m, &a.sphere(), &b.sphere());
        let (x, y) = (a.sphere(), b.sphere());
        let (c1, r1, c2, r2) = (d3(fx3(x.Center)), x.Radius as f64, d3(fx3(y.Center)), y.Radius as f64);
        let d = len(sub(c2, c1));
        let tol = 2e-6 * a.size().max(b.size());
        let want = r1.max(r2).max(0.5 * (d + r1 + r2));
        s.label(if want == r1 || want == r2 { "nested" } else if d > r1 + r2 { "apart" } else { "overlapping" });
        let (c, r) = (d3(fx3(m.Center)), m.Radius as f64);
        ensure!(len(sub(c, c1)) + r1 <= r + tol, "{:?} does not contain the first sphere", m);
        ensure!(len(sub(c, c2)) + r2 <= r + tol, "{:?} does not contain the second sphere", m);
        within("CreateMerged radius", m.Radius, want, tol)
    }));
    c.push(check("box_merged", 150, |s| {
        let exact = s.one_in(3);
        let k = s.unit(exact);
        let a = s.shape(Kind::Box, exact, k);
        let mut b = s.shape(Kind::Box, exact, k);
        if !s.relate(&a, &mut b) && !exact && s.bool() {
            s.contact(&a, &mut b);
        }
        a.show(s, "a");
        b.show(s, "b");
        let mut m = junk_box();
        BoundingBox::CreateMerged(&mut m, &a.aabb(), &b.aabb());
        let mut v = a.verts();
        v.extend(b.verts());
        let (lo, hi) = bounds(&v);
        let tol = if exact { 0.0 } else { 5e-7 * a.size().max(b.size()) };
        box_is("CreateMerged", &m, lo, hi, tol)
    }));
    c.push(check("box_from_sphere", 80, |s| {
        let (a, exact) = any_shape(s, Kind::Sphere);
        let x = a.sphere();
        let mut m = junk_box();
        BoundingBox::CreateFromSphere(&mut m, &x);
        let r = [x.Radius as f64; 3];
        let c = d3(fx3(x.Center));
        box_is("CreateFromSphere", &m, sub(c, r), add(c, r), if exact { 0.0 } else { 5e-7 * a.size() })
    }));
    c.push(check("sphere_from_box", 80, |s| {
        let k = if s.bool() { Kind::Box } else { Kind::Obb };
        let (a, _) = any_shape(s, k);
        let mut m = junk_sphere();
        let (c, e) = match k {
            Kind::Box => {
                BoundingSphere::CreateFromBoundingBox(&mut m, &a.aabb());
                (a.aabb().Center, a.aabb().Extents)
            }
            _ => {
                BoundingSphere::CreateFromBoundingOrientedBox(&mut m, &a.obb());
                (a.obb().Center, a.obb().Extents)
            }
        };
        near3("centre", fx3(m.Center), d3(fx3(c)), 0.0)?;
        let r = len(d3(fx3(e)));
        within("radius", m.Radius, r, 5e-7 * r)
    }));
    c.push(check("sphere_from_frustum", 80, |s| {
        let (a, _) = any_shape(s, Kind::Frustum);
        let mut m = junk_sphere();
        BoundingSphere::CreateFromFrustum(&mut m, &a.frustum());
        sphere_of(&a.verts(), &m)
    }));
    c.push(check("obb_from_box", 50, |s| {
        let (a, _) = any_shape(s, Kind::Box);
        let x = a.aabb();
        let mut m = junk_obb();
        BoundingOrientedBox::CreateFromBoundingBox(&mut m, &x);
        near3("centre", fx3(m.Center), d3(fx3(x.Center)), 0.0)?;
        near3("extents", fx3(m.Extents), d3(fx3(x.Extents)), 0.0)?;
        // any quaternion of the identity rotation will do
        unit_q(fx4(m.Orientation))?;
        let ax = axes(fx4(m.Orientation));
        for i in 0..3 {
            near3("axis", f3(ax[i]), identity()[i], 1e-6)?;
        }
        Ok(())
    }));
    c.push(check("box_corners", 80, |s| {
        let (a, exact) = any_shape(s, Kind::Box);
        let x = a.aabb();
        let mut v = [J3; 8];
        x.GetCorners(&mut v);
        let tol = if exact { 0.0 } else { 4e-7 * a.size() };
        corners_are("box", &v, d3(fx3(x.Center)), d3(fx3(x.Extents)), &identity(), tol)
    }));
    c.push(check("obb_corners", 80, |s| {
        let (a, exact) = any_shape(s, Kind::Obb);
        let x = a.obb();
        let mut v = [J3; 8];
        x.GetCorners(&mut v);
        let tol = if exact { 0.0 } else { 2e-6 * a.size() };
        corners_are("oriented box", &v, d3(fx3(x.Center)), d3(fx3(x.Extents)), &axes(fx4(x.Orientation)), tol)
    }));
    c.push(check("frustum_corners", 80, |s| {
        let (a, exact) = any_shape(s, Kind::Frustum);
        let x = a.frustum();
        let mut v = [J3; 8];
        x.GetCorners(&mut v);
        let tol = if exact { 0.0 } else { 2e-6 * a.size() };
        let ax = axes(fx4(x.Orientation));
        let (l, r, t, b) = (x.LeftSlope as f64, x.RightSlope as f64, x.TopSlope as f64, x.BottomSlope as f64);
        for (i, z) in [x.Near as f64, x.Far as f64].iter().enumerate() {
            for (j, (u, w)) in [(l, t), (r, t), (r, b), (l, b)].iter().enumerate() {
                let p = add(d3(fx3(x.Origin)), local(&ax, [u * z, w * z, *z]));
                near3(&format!("frustum corner {}", 4 * i + j), fx3(v[4 * i + j]), p, tol)?;
            }
        }
        Ok(())
    }));
    c.push(check("frustum_planes", 150, |s| {
        let (a, _) = any_shape(s, Kind::Frustum);
        let x = a.frustum();
        let junk = [7e9f32, f32::NAN, 7e9, f32::NAN];
        let mut p = [vec(junk); 6];
        let ask = if s.bool() { 63 } else { s.choice(64) };
        s.note(|| format!("requested planes (bits near, far, right, left, top, bottom): {:06b}", ask));
        {
            let [n, f, r, l, t, b] = &mut p;
            let o = |i: u64| ask >> i & 1 == 1;
            x.GetPlanes(
                if o(0) { Some(n) } else { None },
                if o(1) { Some(f) } else { None },
                if o(2) { Some(r) } else { None },
                if o(3) { Some(l) } else { None },
                if o(4) { Some(t) } else { None },
                if o(5) { Some(b) } else { None },
            );
        }
        let w = a.poly().planes;
        let z = a.size();
        for i in 0..6 {
            let g = arr(p[i]);
            if ask >> i & 1 == 0 {
                ensure!(bits(p[i]) == tb(junk), "plane {} was not asked for but written", i);
                continue;
            }
            let l = len(w[i].0);
            let what = format!("plane {}", ["near", "far", "right", "left", "top", "bottom"][i]);
            near3(&what, [g[0], g[1], g[2]], mul(w[i].0, 1.0 / l), 4e-6)?;
            within(&what, g[3], -w[i].1 / l, 4e-6 * z)?;
        }
        Ok(())
    }));
    c.push(check("frustum_from_matrix", 150, |s| {
        let rh = s.bool();
        let near = s.range(0.05, 2.0) * s.scale().max(0.02);
        let ratio = if s.one_in(4) { s.range(2.0, 200.0) } else { s.range(1.3, 20.0) };
        let far = near * ratio;
        let (n, f) = (near as f64, far as f64);
        let (m, l, r, b, t);
        match s.choice(3) {
            0 => {
                let (a, asp) = (s.range(0.2, 2.5), s.range(0.3, 3.0));
                m = if rh { XMMatrixPerspectiveFovRH(a, asp, near, far) } else { XMMatrixPerspectiveFovLH(a, asp, near, far) };
                t = (a as f64 / 2.0).tan();
                b = -t;
                r = t * asp as f64;
                l = -r;
            }
            1 => {
                let (w, h) = (s.range(0.2, 3.0) * near, s.range(0.2, 3.0) * near);
                m = if rh { XMMatrixPerspectiveRH(w, h, near, far) } else { XMMatrixPerspectiveLH(w, h, near, far) };
                r = w as f64 / n / 2.0;
                l = -r;
                t = h as f64 / n / 2.0;
                b = -t;
            }
            _ => {
                let (x, y) = (s.range(-1.5, 1.0), s.range(-1.5, 1.0));
                let (vl, vr, vb, vt) = (x * near, (x + s.range(0.3, 2.0)) * near, y * near, (y + s.range(0.3, 2.0)) * near);
                m = if rh { XMMatrixPerspectiveOffCenterRH(vl, vr, vb, vt, near, far) } else { XMMatrixPerspectiveOffCenterLH(vl, vr, vb, vt, near, far) };
                l = vl as f64 / n;
                r = vr as f64 / n;
                b = vb as f64 / n;
                t = vt as f64 / n;
            }
        }
        s.showm("projection", marr(m));
        s.note(|| format!("right-handed={} near={} far={}", rh, near, far));
        let mut x = junk_frustum();
        BoundingFrustum::CreateFromMatrix(&mut x, m, rh);
        near3("origin", fx3(x.Origin), [0.0; 3], 0.0)?;
        unit_q(fx4(x.Orientation))?;
        let ax = axes(fx4(x.Orientation));
        for i in 0..3 {
            near3("axis", f3(ax[i]), identity()[i], 1e-6)?;
        }
        // right-handed: z is negative in front of the eye, so near and far swap and slopes change sign
        let sg = if rh { -1.0 } else { 1.0 };
        let q = ratio as f64;
        let (zn, zf) = if rh { (-f, -n) } else { (n, f) };
        let (tn, tf) = if rh { (f * q, n) } else { (n, f * q) };
        within("near", x.Near, zn, 4e-6 * tn)?;
        within("far", x.Far, zf, 4e-6 * tf)?;
        let k = 4e-6 * (1.0 + [l, r, t, b].iter().fold(0.0f64, |m, x| m.max(x.abs())));
        within("right slope", x.RightSlope, sg * r, k)?;
        within("left slope", x.LeftSlope, sg * l, k)?;
        within("top slope", x.TopSlope, sg * t, k)?;
        within("bottom slope", x.BottomSlope, sg * b, k)?;
        Ok(())
    }));
    dxcheck::cli::main("C25", c);
}
