PRE = r'''
fn v(a: f32, b: f32, c: f32, d: f32) -> XMVECTOR { XMVectorSet(a, b, c, d) }
fn f(x: XMVECTOR) -> [f32; 4] { [XMVectorGetX(x), XMVectorGetY(x), XMVectorGetZ(x), XMVectorGetW(x)] }
fn near(a: f32, b: f32, e: f32) -> bool { (a - b).abs() <= e }
fn fail(m: &str) -> ! { println!("{}", m); std::process::exit(1) }
'''
SAT = PRE + r'''
use directx_math::collision::*;
type P = [f64; 3];
struct R(u64);
impl R {
    fn n(&mut self) -> f32 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 40) as f32) / 16777216.0 }
    fn u(&mut self, a: f32, b: f32) -> f32 { a + (b - a) * self.n() }
    fn q(&mut self) -> XMFLOAT4 { let q = XMQuaternionRotationRollPitchYaw(self.u(-3.0, 3.0), self.u(-3.0, 3.0), self.u(-3.0, 3.0)); let mut o = XMFLOAT4::default(); XMStoreFloat4(&mut o, XMQuaternionNormalize(q)); o }
    fn p(&mut self, s: f32) -> XMFLOAT3 { XMFLOAT3 { x: self.u(-s, s), y: self.u(-s, s), z: self.u(-s, s) } }
}
fn d(a: XMFLOAT3) -> P { [a.x as f64, a.y as f64, a.z as f64] }
fn sub(a: P, b: P) -> P { [a[0]-b[0], a[1]-b[1], a[2]-b[2]] }
fn cross(a: P, b: P) -> P { [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]] }
fn dot(a: P, b: P) -> f64 { a[0]*b[0]+a[1]*b[1]+a[2]*b[2] }
fn norm(a: P) -> Option<P> { let l = dot(a, a).sqrt(); if l < 1e-3 { None } else { Some([a[0]/l, a[1]/l, a[2]/l]) } }
/// Largest separation of two convex hulls over face normals and edge cross products (negative: overlap depth).
fn gap(a: &[P], ea: &[P], b: &[P], eb: &[P]) -> f64 {
    let mut ax = vec![];
    for e in [ea, eb] { for i in 0..e.len() { for j in 0..i { ax.push(cross(e[i], e[j])); } } }
    for x in ea { for y in eb { ax.push(cross(*x, *y)); } }
    let mut best = f64::NEG_INFINITY;
    for x in ax { if let Some(n) = norm(x) {
        let r = |s: &[P]| { let mut lo = f64::INFINITY; let mut hi = -lo; for p in s { let t = dot(*p, n); lo = lo.min(t); hi = hi.max(t); } (lo, hi) };
        let (al, ah) = r(a); let (bl, bh) = r(b);
        best = best.max((bl - ah).max(al - bh));
    } }
    best
}
fn nrm(e: Vec<P>) -> Vec<P> { e.into_iter().map(|x| norm(x).unwrap()).collect() }
fn boxe(c: &[P]) -> Vec<P> { nrm(vec![sub(c[1], c[0]), sub(c[3], c[0]), sub(c[4], c[0])]) }
fn frue(c: &[P]) -> Vec<P> { nrm(vec![sub(c[4], c[0]), sub(c[5], c[1]), sub(c[6], c[2]), sub(c[7], c[3]), sub(c[1], c[0]), sub(c[3], c[0])]) }
fn obb(r: &mut R) -> BoundingOrientedBox { let mut b = BoundingOrientedBox::default(); b.Center = r.p(3.0); b.Extents = XMFLOAT3 { x: r.u(0.1, 3.0), y: r.u(0.1, 3.0), z: r.u(0.1, 3.0) }; b.Orientation = r.q(); b }
fn fru(r: &mut R) -> BoundingFrustum { let mut b = BoundingFrustum::default(); b.Origin = r.p(3.0); b.Orientation = r.q(); b.RightSlope = r.u(0.2, 1.5); b.LeftSlope = -r.u(0.2, 1.5); b.TopSlope = r.u(0.2, 1.5); b.BottomSlope = -r.u(0.2, 1.5); b.Near = r.u(0.2, 1.0); b.Far = b.Near + r.u(0.5, 4.0); b }
fn co(b: &BoundingOrientedBox) -> Vec<P> { let mut c: [XMFLOAT3; 8] = Default::default(); b.GetCorners(&mut c); c.iter().map(|x| d(*x)).collect() }
fn cb(b: &BoundingBox) -> Vec<P> { let mut c: [XMFLOAT3; 8] = Default::default(); b.GetCorners(&mut c); c.iter().map(|x| d(*x)).collect() }
fn cf(b: &BoundingFrustum) -> Vec<P> { let mut c: [XMFLOAT3; 8] = Default::default(); b.GetCorners(&mut c); c.iter().map(|x| d(*x)).collect() }
fn judge(got: bool, g: f64, what: &str) { if (g > 0.01 && got) || (g < -0.01 && !got) { fail(&format!("{}: separation {} but intersects = {}", what, g, got)) } }
'''
V, M, X, CV, PV, CO = "src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/convert.rs", "src/packed_vector.rs", "src/collision.rs"
SEEDS = [
 dict(id="s07_hermite_extrapolate", property="C07", configs="sse2 avx2",
  needs="SSE path, Hermite spline evaluated outside [0, 1]",
  what="the parameter of the spline is clamped to the unit interval, so extrapolation stops at the end points",
  after="pub fn XMVectorHermite(",
  edits=[(V, "    unsafe {\n        let t2: f32 = t * t;\n", "    unsafe {\n        let t: f32 = t.max(0.0).min(1.0);\n        let t2: f32 = t * t;\n")],
  demo=PRE + r'''
fn main() {
    let g = f(XMVectorHermite(v(1.0,1.0,1.0,1.0), v(1.0,0.0,0.0,0.0), v(2.0,3.0,1.0,0.0), v(1.0,0.0,0.0,1.0), 2.0));
    // basis at 2: 5, 2, -4, 4
    let w = [5.0 + 2.0 - 8.0 + 4.0, 5.0 - 12.0, 5.0 - 4.0, 5.0 + 4.0];
    for k in 0..4 { if !near(g[k], w[k], 1e-4) { fail(&format!("{:?} want {:?}", g, w)) } }
}'''),
 dict(id="s10_coord_negative_w", property="C10", configs="ni sse2 avx2",
  needs="a projective matrix and a point whose transformed w is negative",
  what="the homogeneous divide uses the magnitude of w, so points behind the eye are mirrored",
  after="pub fn XMVector3TransformCoord(",
  edits=[(V, "        return XMVectorDivide(Result, W);", "        return XMVectorDivide(Result, XMVectorAbs(W));")],
  demo=PRE + r'''
fn main() {
    let m = XMMatrixPerspectiveFovLH(1.0, 1.5, 1.0, 10.0);
    let p = v(1.0, 2.0, -4.0, 0.0);
    let h = f(XMVector3Transform(p, m));
    let g = f(XMVector3TransformCoord(p, m));
    for k in 0..3 { if !near(g[k], h[k] / h[3], 1e-4) { fail(&format!("{:?} {:?}", g, h)) } }
}'''),
 dict(id="s19_plane_pair_point", property="C19", configs="ni sse2 avx2",
  needs="two oblique planes (not perpendicular), so the squared length of the line direction is not one",
  what="the second point of the intersection line is built from the point before it is divided by the squared length",
  after="pub fn XMPlaneIntersectPlane(",
  edits=[(X, "let LinePoint2: XMVECTOR = XMVectorAdd(LinePoint1, V1);", "let LinePoint2: XMVECTOR = XMVectorAdd(Point, V1);")],
  demo=PRE + r'''
fn main() {
    let p = XMPlaneNormalize(v(1.0, 1.0, 0.0, -2.0)); let q = XMPlaneNormalize(v(1.0, 0.2, 0.3, 1.0));
    let (mut a, mut b) = (XMVectorZero(), XMVectorZero());
    XMPlaneIntersectPlane(&mut a, &mut b, p, q);
    for x in [a, b] { for w in [p, q] { if !near(f(XMPlaneDotCoord(w, x))[0], 0.0, 1e-3) { fail("point is not on both planes") } } }
}'''),
 dict(id="s20_obb_edge_axis", property="C20", configs="ni sse2 avx2",
  needs="two oriented boxes whose only separating axis is the cross product of the third edge of one and the second edge of the other",
  what="one edge-edge axis of the oriented box test uses the extents of the wrong edges",
  after="pub fn IntersectsOrientedBox(&self, box_: &BoundingOrientedBox) -> bool {\n",
  edits=[(CO, "        // l = a(w) x b(v) = (-r11, r01, 0)\n        // d(A) = h(A) dot abs(r11, r01, 0)\n        // d(B) = h(B) dot abs(r22, 0, r20)\n        d = XMVector3Dot(t, <(XM_PERMUTE_1Y, XM_PERMUTE_0X, XM_PERMUTE_0W, XM_PERMUTE_0Z)>::XMVectorPermute(RX1, XMVectorNegate(RX1)));\n        d_A = XMVector3Dot(h_A, <(XM_SWIZZLE_Y, XM_SWIZZLE_X, XM_SWIZZLE_W, XM_SWIZZLE_Z)>::XMVectorSwizzle(ARX1));\n        d_B = XMVector3Dot(h_B, <(XM_SWIZZLE_Z, XM_SWIZZLE_W, XM_SWIZZLE_X, XM_SWIZZLE_Y)>::XMVectorSwizzle(AR2X));",
                 "        // l = a(w) x b(v) = (-r11, r01, 0)\n        // d(A) = h(A) dot abs(r11, r01, 0)\n        // d(B) = h(B) dot abs(r22, 0, r20)\n        d = XMVector3Dot(t, <(XM_PERMUTE_1Y, XM_PERMUTE_0X, XM_PERMUTE_0W, XM_PERMUTE_0Z)>::XMVectorPermute(RX1, XMVectorNegate(RX1)));\n        d_A = XMVector3Dot(h_A, <(XM_SWIZZLE_Y, XM_SWIZZLE_X, XM_SWIZZLE_W, XM_SWIZZLE_Z)>::XMVectorSwizzle(ARX1));\n        d_B = XMVector3Dot(h_B, <(XM_SWIZZLE_Z, XM_SWIZZLE_Y, XM_SWIZZLE_X, XM_SWIZZLE_W)>::XMVectorSwizzle(AR2X));")],
  demo=SAT + r'''
fn main() {
    let mut r = R(7);
    for _ in 0..200000 { let a = obb(&mut r); let b = obb(&mut r); let (ca, cb) = (co(&a), co(&b)); judge(a.IntersectsOrientedBox(&b), gap(&ca, &boxe(&ca), &cb, &boxe(&cb)), "obb obb"); }
}'''),
 dict(id="s21_frustum_obb_edge", property="C21", configs="ni sse2 avx2",
  needs="a frustum and an oriented box separated only by an axis built from the frustum's vertical near/far edge",
  what="the last frustum edge is left out of the edge-edge tests", after="pub fn IntersectsOrientedBox(&self, box_: &BoundingOrientedBox) -> bool {\n        const SelectY",
  edits=[(CO, "                //for (let j: size_t = 0; j < 6; j++)\n                for j in 0 .. 6\n                {\n                    // Compute the axis we are going to test.\n                    let Axis: XMVECTOR = XMVector3Cross(R.r[i], FrustumEdgeAxis[j]);",
                 "                //for (let j: size_t = 0; j < 6; j++)\n                for j in 0 .. 5\n                {\n                    // Compute the axis we are going to test.\n                    let Axis: XMVECTOR = XMVector3Cross(R.r[i], FrustumEdgeAxis[j]);")],
  demo=SAT + r'''
fn main() {
    let mut r = R(7);
    for _ in 0..200000 { let a = fru(&mut r); let b = obb(&mut r); let (ca, cb) = (cf(&a), co(&b)); judge(a.IntersectsOrientedBox(&b), gap(&ca, &frue(&ca), &cb, &boxe(&cb)), "frustum obb"); }
}'''),
 dict(id="s22_box_triangle_axis", property="C22", configs="ni sse2 avx2",
  needs="a box and a triangle separated only along y cross the triangle's third edge",
  what="one of the nine edge axes of the box-triangle test projects an edge whose end points coincide, so the triangle looks flat there",
  after="pub fn IntersectsTriangle(&self, V0: FXMVECTOR, V1: FXMVECTOR, V2: FXMVECTOR) -> bool {",
  edits=[(CO, "::XMVectorPermute(e2, XMVectorNegate(e2));\n        p0 = XMVector3Dot(TV0, Axis);\n        p1 = XMVector3Dot(TV1, Axis);\n        // p2 = XMVector3Dot( V2, Axis ); // p2 = p0;\n        Min = XMVectorMin(p0, p1);\n        Max = XMVectorMax(p0, p1);\n        Radius = XMVector3Dot(vExtents, XMVectorAbs(Axis));\n        NoIntersection = XMVectorOrInt(NoIntersection, XMVectorGreater(Min, Radius));\n        NoIntersection = XMVectorOrInt(NoIntersection, XMVectorLess(Max, XMVectorNegate(Radius)));\n\n        return",
                 "::XMVectorPermute(e2, XMVectorNegate(e2));\n        p0 = XMVector3Dot(TV0, Axis);\n        p1 = XMVector3Dot(TV2, Axis);\n        // p2 = XMVector3Dot( V2, Axis ); // p2 = p0;\n        Min = XMVectorMin(p0, p1);\n        Max = XMVectorMax(p0, p1);\n        Radius = XMVector3Dot(vExtents, XMVectorAbs(Axis));\n        NoIntersection = XMVectorOrInt(NoIntersection, XMVectorGreater(Min, Radius));\n        NoIntersection = XMVectorOrInt(NoIntersection, XMVectorLess(Max, XMVectorNegate(Radius)));\n\n        return")],
  demo=SAT + r'''
fn main() {
    let mut r = R(7);
    for _ in 0..200000 {
        let mut b = BoundingBox::default(); b.Center = r.p(2.0); b.Extents = XMFLOAT3 { x: r.u(0.1, 2.0), y: r.u(0.1, 2.0), z: r.u(0.1, 2.0) };
        let t = [r.p(4.0), r.p(4.0), r.p(4.0)]; let c = cb(&b); let tt: Vec<P> = t.iter().map(|x| d(*x)).collect();
        let e = vec![sub(tt[1], tt[0]), sub(tt[2], tt[1]), sub(tt[0], tt[2])];
        if e.iter().any(|x| dot(*x, *x) < 0.1) || dot(cross(e[0], e[1]), cross(e[0], e[1])) < 0.1 { continue }
        let got = b.IntersectsTriangle(XMLoadFloat3(&t[0]), XMLoadFloat3(&t[1]), XMLoadFloat3(&t[2]));
        let e = nrm(e);
        judge(got, gap(&c, &boxe(&c), &tt, &e), "box triangle");
    }
}'''),
 dict(id="s23_ray_behind_sphere", property="C23", configs="ni sse2 avx2",
  needs="a ray that starts just outside a sphere, within one radius past the centre along its direction, and points away",
  what="a sphere behind the ray origin is still reported as hit when the origin is near its surface",
  after="pub fn IntersectsRay(&self, Origin: FXMVECTOR, Direction: FXMVECTOR, Dist: &mut f32) -> bool {",
  edits=[(CO, "XMVectorAndInt(XMVectorLess(s, XMVectorZero()), XMVectorGreater(l2, r2));", "XMVectorAndInt(XMVectorLess(s, XMVectorNegate(vRadius)), XMVectorGreater(l2, r2));")],
  demo=PRE + r'''
use directx_math::collision::*;
fn main() {
    let mut s = BoundingSphere::default(); s.Center = XMFLOAT3 { x: 0.0, y: 0.0, z: 0.0 }; s.Radius = 2.0;
    let mut t = 9.0;
    if s.IntersectsRay(v(1.5, 1.5, 0.0, 0.0), v(1.0, 0.0, 0.0, 0.0), &mut t) { fail("hit behind the origin") }
    if !s.IntersectsRay(v(-4.5, 1.5, 0.0, 0.0), v(1.0, 0.0, 0.0, 0.0), &mut t) { fail("missed") }
}'''),
 dict(id="s24_containedby_last_plane", property="C24", configs="ni sse2 avx2",
  needs="an oriented box inside five planes that straddles only the sixth",
  what="the last plane is left out of the all-inside conjunction, so a straddling box counts as contained",
  after="let BoxOrientation: XMVECTOR = XMLoadFloat4(&self.Orientation);\n\n        debug_assert!(internal::XMQuaternionIsUnit(BoxOrientation));\n\n        // Set w of the center to one so we can dot4 with a plane.\n        // TODO: template\n        vCenter = XMVectorInsert(vCenter, XMVectorSplatOne(), 0, 0, 0, 0, 1);\n\n        // Build the 3x3 rotation matrix that defines the box axes.\n        let R: XMMATRIX = XMMatrixRotationQuaternion(BoxOrientation);\n\n        unsafe {\n            let mut Outside",
  edits=[(CO, "Plane5, &mut Outside, &mut Inside);\n            AnyOutside = XMVectorOrInt(AnyOutside, Outside);\n            AllInside = XMVectorAndInt(AllInside, Inside);",
                 "Plane5, &mut Outside, &mut Inside);\n            AnyOutside = XMVectorOrInt(AnyOutside, Outside);\n            AllInside = XMVectorAndInt(AllInside, XMVectorOrInt(Inside, AllInside));")],
  demo=PRE + r'''
use directx_math::collision::*;
fn main() {
    let mut b = BoundingOrientedBox::default(); b.Orientation = XMFLOAT4 { x: 0.0, y: 0.0, z: 0.0, w: 1.0 }; b.Center = XMFLOAT3 { x: 0.0, y: 0.0, z: -4.5 }; b.Extents = XMFLOAT3 { x: 1.0, y: 1.0, z: 1.0 };
    let p = [v(1.0,0.0,0.0,-5.0), v(-1.0,0.0,0.0,-5.0), v(0.0,1.0,0.0,-5.0), v(0.0,-1.0,0.0,-5.0), v(0.0,0.0,1.0,-5.0), v(0.0,0.0,-1.0,-5.0)];
    if b.ContainedBy(p[0], p[1], p[2], p[3], p[4], p[5]) != ContainmentType::INTERSECTS { fail("straddles the last plane") }
}'''),
 dict(id="s25_getplanes_offcentre", property="C25", configs="ni sse2 avx2",
  needs="a frustum whose top and bottom slopes are not opposite", what="the top plane is built from the bottom slope",
  after="pub fn GetPlanes(",
  edits=[(CO, "XMVectorSet(0.0, 1.0, -self.TopSlope, 0.0);", "XMVectorSet(0.0, 1.0, self.BottomSlope, 0.0);")],
  demo=SAT + r'''
fn main() {
    let mut r = R(3); let a = fru(&mut r); let c = cf(&a);
    let mut t = XMVectorZero(); a.GetPlanes(None, None, None, None, Some(&mut t), None);
    for k in [0usize, 1, 4, 5] { let p = v(c[k][0] as f32, c[k][1] as f32, c[k][2] as f32, 1.0); if !near(f(XMPlaneDotCoord(t, p))[0], 0.0, 1e-3) { fail("top plane misses the top corners") } }
}'''),
 dict(id="s26_frustum_transform_origin", property="C26", configs="ni sse2 avx2",
  needs="a frustum away from the origin transformed with a scale other than one", what="the origin of the frustum is not scaled",
  after="impl BoundingFrustum {",
  edits=[(CO, "XMVectorAdd(XMVector3Rotate(XMVectorScale(vOrigin, Scale), Rotation), Translation);", "XMVectorAdd(XMVector3Rotate(vOrigin, Rotation), Translation);")],
  demo=SAT + r'''
fn main() {
    let mut r = R(5);
    let a = fru(&mut r); let q = r.q(); let s = 2.5f32; let t = r.p(3.0);
    let mut o = BoundingFrustum::default(); a.TransformDecomposed(&mut o, s, XMLoadFloat4(&q), XMLoadFloat3(&t));
    let (c, e) = (cf(&a), cf(&o));
    for k in 0..8 { let p = v(c[k][0] as f32 * s, c[k][1] as f32 * s, c[k][2] as f32 * s, 0.0);
        let w = f(XMVectorAdd(XMVector3Rotate(p, XMLoadFloat4(&q)), XMLoadFloat3(&t)));
        for j in 0..3 { if !near(w[j], e[k][j] as f32, 1e-3) { fail("corner is not the transformed corner") } } }
}'''),
]
