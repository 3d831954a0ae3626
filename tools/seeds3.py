import os, runpy
_S2 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
PRE, SAT = _S2["PRE"], _S2["SAT"]
V, M, X, CV, PV, CO = "src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/convert.rs", "src/packed_vector.rs", "src/collision.rs"
SEEDS = [
 dict(id="s27_decompose_two_flat_axes", property="C15", configs="ni sse2 avx2",
  needs="a matrix with two basis rows of (near) zero length whose remaining row lies along one particular axis",
  what="the replacement for the second flat axis is built from an axis that may be parallel to the first, so the rotation is not a rotation",
  after="pub fn XMMatrixDecompose(",
  edits=[(M, "*ppvBasis[b] = XMVector3Cross(*ppvBasis[a], *pvCanonicalBasis[cc]);", "*ppvBasis[b] = XMVector3Cross(*ppvBasis[a], *pvCanonicalBasis[b]);\n            let _ = cc;")],
  demo=PRE + r'''
fn main() { unsafe {
    for flat in 0..3 { for dir in 0..3 {
        let mut m = XMMatrixIdentity();
        for k in 0..3 { m.r[k] = v(0.0, 0.0, 0.0, 0.0); }
        m.r[flat] = match dir { 0 => v(2.0, 0.0, 0.0, 0.0), 1 => v(0.0, 2.0, 0.0, 0.0), _ => v(0.0, 0.0, 2.0, 0.0) };
        let (mut s, mut q, mut t) = (XMVectorZero(), XMVectorZero(), XMVectorZero());
        if XMMatrixDecompose(&mut s, &mut q, &mut t, m) {
            let l = f(XMVector4Length(q))[0];
            if !near(l, 1.0, 1e-3) { fail(&format!("row {} along {}: |q| = {}", flat, dir, l)) }
            let b = XMMatrixMultiply(XMMatrixScalingFromVector(s), &XMMatrixRotationQuaternion(q));
            for k in 0..3 { let (x, y) = (f(b.r[k]), f(m.r[k])); for j in 0..3 { if !near(x[j], y[j], 1e-3) { fail(&format!("{:?} {:?}", x, y)) } } }
        } else { fail("not decomposed") }
    } }
} }'''),
 dict(id="s28_slerp_near_threshold", property="C18", configs="sse2 avx2",
  needs="SSE path; interpolation between two rotations a few degrees apart",
  what="the angle below which the interpolation falls back to unnormalised linear blending is far too wide, so results leave the unit sphere",
  after="    #[cfg(_XM_SSE_INTRINSICS_)]\n    unsafe {\n        // TODO: PERFORMANCE These are defined as static const\n        const OneMinusEpsilon",
  edits=[(X, "f: [ 1.0 - 0.00001, 1.0 - 0.00001, 1.0 - 0.00001, 1.0 - 0.00001 ]", "f: [ 1.0 - 0.001, 1.0 - 0.001, 1.0 - 0.001, 1.0 - 0.001 ]")],
  demo=PRE + r'''
fn main() {
    let a = v(0.0, 0.0, 0.0, 1.0); let h = 0.04f32; let b = v(h.sin(), 0.0, 0.0, h.cos());
    let l = f(XMVector4Length(XMQuaternionSlerp(a, b, 0.5)))[0];
    if !near(l, 1.0, 5e-5) { fail(&format!("length {}", l)) }
}'''),
 dict(id="s29_half_underflow_limit", property="C12", configs="ni sse2 avx",
  needs="the one float just above half of the smallest denormal half (no F16C)",
  what="a value that has to round up to the smallest denormal becomes zero",
  after="pub fn XMConvertFloatToHalf(",
  edits=[(PV, "IValue <= 0x33000000u32", "IValue <= 0x33000001u32")],
  demo=PRE + r'''
fn main() { let h = XMConvertFloatToHalf(f32::from_bits(0x33000001)); if h != 1 { fail(&format!("{:#x}", h)) } }'''),
 dict(id="s30_frustum_ray_last_plane", property="C23", configs="ni sse2 avx2",
  needs="a ray that misses a frustum and whose miss shows only at the bottom plane, entered after the ray left through an earlier one",
  what="a ray that enters the last half space after leaving another is reported as a hit",
  after="pub fn IntersectsRay(&self, rayOrigin",
  edits=[(CO, "if (t > tfar)", "if (i < 5 && t > tfar)")],
  demo=PRE + r'''
use directx_math::collision::*;
fn main() {
    let mut b = BoundingFrustum::default(); b.Origin = XMFLOAT3 { x: 0.0, y: 0.0, z: 0.0 }; b.Orientation = XMFLOAT4 { x: 0.0, y: 0.0, z: 0.0, w: 1.0 };
    b.RightSlope = 1.0; b.LeftSlope = -1.0; b.TopSlope = 1.0; b.BottomSlope = -1.0; b.Near = 1.0; b.Far = 3.0;
    // passes below the frustum: leaves the far half space before it would rise above the bottom plane
    let mut d = -1.0; let hit = b.IntersectsRay(v(0.0, -6.0, 0.5, 0.0), XMVector3Normalize(v(0.0, 0.5, 1.0, 0.0)), &mut d);
    if hit { fail(&format!("hit at {}", d)) }
}'''),
 dict(id="s31_frustum_sphere_adjacent", property="C21", configs="ni sse2 avx2",
  needs="a sphere above the top plane of a frustum, beyond its left plane, touching the top plane but not the frustum",
  what="one of the neighbours of the top face is not consulted, so the face looks like the nearest feature",
  after="// The faces adjacent to each face are:",
  edits=[(CO, "[ 0, 1, 2, 3 ],    // 4", "[ 0, 1, 2, 2 ],    // 4")],
  demo=PRE + r'''
use directx_math::collision::*;
fn main() {
    let mut b = BoundingFrustum::default(); b.Origin = XMFLOAT3 { x: 0.0, y: 0.0, z: 0.0 }; b.Orientation = XMFLOAT4 { x: 0.0, y: 0.0, z: 0.0, w: 1.0 };
    b.RightSlope = 0.5; b.LeftSlope = -0.5; b.TopSlope = 0.5; b.BottomSlope = -0.5; b.Near = 1.0; b.Far = 20.0;
    // edge of the top and left planes at depth 10 is (-5, 5, 10)
    let mut s = BoundingSphere::default(); s.Radius = 1.0;
    for k in 0..30 { s.Center = XMFLOAT3 { x: -5.0 - 0.85, y: 5.0 + 0.85, z: 8.0 + k as f32 * 0.1 };
        let c = [s.Center.x as f64, s.Center.y as f64, s.Center.z as f64];
        // distance to the frustum, by sampling the top-left edge (the nearest feature here)
        let best = (0..20000).map(|i| { let z = 1.0 + 19.0 * i as f64 / 20000.0; ((c[0] + 0.5 * z).powi(2) + (c[1] - 0.5 * z).powi(2) + (c[2] - z).powi(2)).sqrt() }).fold(1e9, f64::min);
        if best > 1.01 && b.IntersectsSphere(&s) { fail(&format!("distance {} radius 1, yet intersects", best)) } }
}'''),
 dict(id="s32_plane_pair_narrow", property="C19", configs="ni sse2 avx2",
  needs="two planes that meet at less than about two degrees",
  what="planes at a small angle are taken to be parallel and yield no line",
  after="pub fn XMPlaneIntersectPlane(",
  edits=[(X, "XMVectorLessOrEqual(LengthSq, g_XMEpsilon.v)", "XMVectorLessOrEqual(LengthSq, XMVectorReplicate(0.001))")],
  demo=PRE + r'''
fn main() {
    let p = XMPlaneNormalize(v(0.0, 1.0, 0.0, -1.0)); let q = XMPlaneNormalize(v(0.02, 1.0, 0.0, -2.0));
    let (mut a, mut b) = (XMVectorZero(), XMVectorZero());
    XMPlaneIntersectPlane(&mut a, &mut b, p, q);
    for x in [a, b] { for w in [p, q] { if !near(f(XMPlaneDotCoord(w, x))[0], 0.0, 1e-3) { fail("point is not on both planes") } } }
}'''),
 dict(id="s33_inverse_small_quaternion", property="C17", configs="ni sse2 avx2",
  needs="a quaternion of small but representable length (squared length between the documented epsilon and 1e-3)",
  what="its inverse is zero",
  after="pub fn XMQuaternionInverse(",
  edits=[(X, "XMVectorLessOrEqual(L, g_XMEpsilon.v)", "XMVectorLessOrEqual(XMVectorMultiply(L, L), g_XMEpsilon.v)")],
  demo=PRE + r'''
fn main() {
    let q = v(0.005, -0.01, 0.002, 0.007);
    let e = f(XMQuaternionMultiply(q, XMQuaternionInverse(q)));
    if !near(e[3], 1.0, 1e-4) || !near(e[0], 0.0, 1e-4) { fail(&format!("{:?}", e)) }
}'''),
 dict(id="s34_barycentric_negative_weights", property="C18", configs="ni sse2 avx2",
  needs="barycentric interpolation of quaternions with a negative weight sum",
  what="negative weights collapse to the first quaternion instead of extrapolating",
  after="pub fn XMQuaternionBaryCentric(",
  edits=[(X, "if ((s < 0.00001) && (s > -0.00001))", "if (s < 0.00001)")],
  demo=PRE + r'''
fn rot(a: f32) -> XMVECTOR { v((a / 2.0).sin(), 0.0, 0.0, (a / 2.0).cos()) }
fn main() {
    // Q1 = Q2: the result is the rotation extrapolated by f + g
    let g = f(XMQuaternionBaryCentric(rot(0.0), rot(1.0), rot(1.0), -0.25, -0.25)); let w = f(rot(-0.5));
    for k in 0..4 { if !near(g[k], w[k], 1e-3) { fail(&format!("{:?} {:?}", g, w)) } }
}'''),
 dict(id="s35_unproject_viewport_y", property="C10", configs="ni sse2 avx2",
  needs="unprojection with a viewport whose top edge is not zero",
  what="the viewport's y origin is added instead of subtracted",
  after="pub fn XMVector3Unproject(",
  edits=[(V, "-ViewportX, -ViewportY,", "-ViewportX, ViewportY,")],
  demo=PRE + r'''
fn main() {
    let p = XMMatrixPerspectiveFovLH(1.0, 1.5, 1.0, 10.0); let w = XMMatrixTranslation(0.5, 0.25, 4.0); let i = XMMatrixIdentity();
    let x = v(0.1, 0.2, 0.3, 0.0);
    let s = XMVector3Project(x, 8.0, 16.0, 640.0, 480.0, 0.0, 1.0, p, &i, &w);
    let g = f(XMVector3Unproject(s, 8.0, 16.0, 640.0, 480.0, 0.0, 1.0, p, &i, &w));
    for k in 0..3 { if !near(g[k], f(x)[k], 1e-2) { fail(&format!("{:?}", g)) } }
}'''),
 dict(id="s36_fov_reversed_depth", property="C16", configs="ni sse2 avx2",
  needs="a perspective projection with reversed depth (near distance beyond the far one)",
  what="the depth range is taken as a magnitude, so reversed depth maps near and far to the wrong values",
  after="pub fn XMMatrixPerspectiveFovLH(",
  edits=[(M, "let fRange: f32 = FarZ / (FarZ - NearZ);", "let fRange: f32 = FarZ / XMMax(FarZ - NearZ, NearZ - FarZ);")],
  demo=PRE + r'''
fn main() {
    let m = XMMatrixPerspectiveFovLH(1.0, 1.0, 100.0, 1.0);
    let n = f(XMVector3TransformCoord(v(0.0, 0.0, 100.0, 1.0), m))[2]; let g = f(XMVector3TransformCoord(v(0.0, 0.0, 1.0, 1.0), m))[2];
    if !near(n, 0.0, 1e-3) || !near(g, 1.0, 1e-3) { fail(&format!("near -> {}, far -> {}", n, g)) }
}'''),
 dict(id="s37_box_affine_last_corner", property="C26", configs="ni sse2 avx2",
  needs="a bounding box transformed by a map for which only the last corner is extreme",
  what="the last corner is left out when the box is transformed",
  after="impl BoundingBox {",
  edits=[(CO, "for i in 1 .. BoundingBox::CORNER_COUNT", "for i in 1 .. BoundingBox::CORNER_COUNT - 1")],
  demo=PRE + r'''
use directx_math::collision::*;
fn main() {
    let mut b = BoundingBox::default(); b.Center = XMFLOAT3 { x: 0.0, y: 0.0, z: 0.0 }; b.Extents = XMFLOAT3 { x: 1.0, y: 2.0, z: 3.0 };
    let mut r = 1u64; let mut n = || { r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((r >> 40) as f32) / 8388608.0 - 1.0 };
    for _ in 0..500 {
        let mut m = XMMatrixRotationRollPitchYaw(n() * 3.0, n() * 3.0, n() * 3.0);
        m = XMMatrixMultiply(m, &XMMatrixTranslation(n(), n(), n()));
        let mut o = BoundingBox::default(); b.TransformMatrix(&mut o, m);
        let mut c: [XMFLOAT3; 8] = Default::default(); b.GetCorners(&mut c);
        for p in c.iter() { let t = f(XMVector3Transform(XMLoadFloat3(p), m));
            let (c, e) = ([o.Center.x, o.Center.y, o.Center.z], [o.Extents.x, o.Extents.y, o.Extents.z]);
            for k in 0..3 { if (t[k] - c[k]).abs() > e[k] + 1e-3 { fail("a transformed corner lies outside the transformed box") } } }
    }
}'''),
 dict(id="s38_plane_frustum_corner", property="C24", configs="ni sse2 avx2",
  needs="a frustum and a plane for which one particular far corner is the only point in front",
  what="one corner no longer raises the maximum distance to the plane",
  after="pub fn FastIntersectFrustumPlane(",
  edits=[(CO, "        Dist = XMVector3Dot(Plane, Point7);\n        Min = XMVectorMin(Min, Dist);\n        Max = XMVectorMax(Max, Dist);", "        Dist = XMVector3Dot(Plane, Point7);\n        Min = XMVectorMin(Min, Dist);\n        Max = XMVectorMax(Max, Min);")],
  demo=SAT + r'''
fn main() {
    let mut r = R(3);
    for _ in 0..100000 {
        let a = fru(&mut r); let c = cf(&a); let n = norm([r.u(-1.0, 1.0) as f64, r.u(-1.0, 1.0) as f64, r.u(-1.0, 1.0) as f64]);
        let n = match n { Some(n) => n, None => continue };
        let t: Vec<f64> = c.iter().map(|p| dot(*p, n)).collect(); let hi = t.iter().cloned().fold(-1e9, f64::max); let lo = t.iter().cloned().fold(1e9, f64::min);
        let off = hi - 0.1 * (hi - lo);
        if (hi - off) < 0.01 { continue }
        if a.IntersectsPlane(v(n[0] as f32, n[1] as f32, n[2] as f32, -off as f32)) != PlaneIntersectionType::INTERSECTING { fail("plane cuts the frustum, reported otherwise") }
    }
}'''),
]
