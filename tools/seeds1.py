PRE = r'''
fn v(a: f32, b: f32, c: f32, d: f32) -> XMVECTOR { XMVectorSet(a, b, c, d) }
fn f(x: XMVECTOR) -> [f32; 4] { [XMVectorGetX(x), XMVectorGetY(x), XMVectorGetZ(x), XMVectorGetW(x)] }
fn near(a: f32, b: f32, e: f32) -> bool { (a - b).abs() <= e }
fn fail(m: &str) -> ! { println!("{}", m); std::process::exit(1) }
'''
V, M, X, CV, PV, CO = "src/vector.rs", "src/matrix.rs", "src/misc.rs", "src/convert.rs", "src/packed_vector.rs", "src/collision.rs"
SEEDS = [
 dict(id="s01_select_blend", property="C01", configs="sse41 avx2",
  needs="an SSE4.1 build and a control word that is neither all zeros nor all ones",
  what="select takes whole components by the sign bit of the control instead of merging bit by bit",
  after="pub fn XMVectorSelect(",
  edits=[(V, "        let vTemp1: XMVECTOR = _mm_andnot_ps(Control, V1);\n        let vTemp2: XMVECTOR = _mm_and_ps(V2, Control);\n        return _mm_or_ps(vTemp1, vTemp2);",
             "        #[cfg(_XM_SSE4_INTRINSICS_)]\n        return _mm_blendv_ps(V1, V2, Control);\n\n        #[cfg(not(_XM_SSE4_INTRINSICS_))]\n        {\n            let vTemp1: XMVECTOR = _mm_andnot_ps(Control, V1);\n            let vTemp2: XMVECTOR = _mm_and_ps(V2, Control);\n            return _mm_or_ps(vTemp1, vTemp2);\n        }")],
  demo=PRE + r'''
fn main() {
    let a = XMVectorSetInt(0x12345678, 0xFFFFFFFF, 0, 0x0F0F0F0F);
    let b = XMVectorSetInt(0x9ABCDEF0, 0, 0xFFFFFFFF, 0x33333333);
    let c = XMVectorSetInt(0x80000000, 0x7FFFFFFF, 0x0000FFFF, 0xFFFF0000);
    let r = XMVectorSelect(a, b, c);
    let w = [(0x12345678u32 & 0x7FFFFFFF) | (0x9ABCDEF0 & 0x80000000), 0x80000000, 0x0000FFFF, (0x0F0F0F0F & 0xFFFF) | (0x33333333 & 0xFFFF0000)];
    let g = [XMVectorGetIntX(r), XMVectorGetIntY(r), XMVectorGetIntZ(r), XMVectorGetIntW(r)];
    if g != w { fail(&format!("select {:x?} want {:x?}", g, w)) }
}'''),
 dict(id="s02_inboundsr_edge", property="C02", configs="sse2 avx2",
  needs="a component exactly equal to the negated bound",
  what="the in-bounds record excludes the lower bound", after="pub fn XMVectorInBoundsR(",
  edits=[(V, "        vTemp2 = _mm_cmple_ps(vTemp2, V);", "        vTemp2 = _mm_cmplt_ps(vTemp2, V);")],
  demo=PRE + r'''
fn main() {
    let mut cr = 0;
    let r = XMVectorInBoundsR(&mut cr, v(-1.0, 2.0, 0.0, -4.0), v(1.0, 2.0, 3.0, 4.0));
    if !XMComparisonAllInBounds(cr) || XMVectorGetIntX(r) != !0 { fail("lower bound is in bounds") }
}'''),
 dict(id="s03_ceil_negative", property="C03", configs="sse2 sse3",
  needs="a build without SSE4.1 and a negative component below -2^31",
  what="ceiling of large negative values goes through a 32-bit integer", after="pub fn XMVectorCeiling(",
  edits=[(V, "        let mut vTest: __m128i = _mm_and_si128(_mm_castps_si128(V), g_XMAbsMask.m128i());\n        vTest = _mm_cmplt_epi32(vTest, g_XMNoFraction.m128i());",
             "        let mut vTest: __m128i = _mm_castps_si128(V);\n        vTest = _mm_cmplt_epi32(vTest, g_XMNoFraction.m128i());")],
  demo=PRE + r'''
fn main() {
    let x = [-3.0e9f32, -1.0e20, -8388609.0, -0.5];
    let g = f(XMVectorCeiling(v(x[0], x[1], x[2], x[3])));
    for i in 0..4 { if g[i] != x[i].ceil() { fail(&format!("ceil {} = {}", x[i], g[i])) } }
}'''),
 dict(id="s04_addangles_boundary", property="C04", configs="sse2 avx2",
  needs="a sum of exactly pi", what="adding angles that sum to pi returns pi instead of wrapping to -pi", after="pub fn XMVectorAddAngles(",
  edits=[(V, "        vOffset = _mm_cmpge_ps(vResult, g_XMPi.v);", "        vOffset = _mm_cmpgt_ps(vResult, g_XMPi.v);")],
  demo=PRE + r'''
fn main() {
    let g = f(XMVectorAddAngles(v(XM_PIDIV2, 0.0, 1.0, -XM_PI), v(XM_PIDIV2, 0.0, 1.0, 0.0)));
    if !(g[0] < XM_PI && near(g[0], -XM_PI, 1e-5)) { fail(&format!("pi/2 + pi/2 -> {}", g[0])) }
}'''),
 dict(id="s05_atan2_infinite_quadrant", property="C05", configs="sse2 avx2",
  needs="both arguments infinite, X negative and Y negative", what="the -3pi/4 special value loses its sign", after="pub fn XMVectorATan2(",
  edits=[(V, "        ThreePiOverFour = XMVectorOrInt(ThreePiOverFour, YSign);\n", "        ThreePiOverFour = XMVectorOrInt(ThreePiOverFour, XMVectorZero());\n")],
  demo=PRE + r'''
fn main() {
    let i = f32::INFINITY;
    let g = f(XMVectorATan2(v(-i, i, -i, i), v(-i, -i, i, i)));
    let w = [-2.3561945, 2.3561945, -0.7853982, 0.7853982];
    for k in 0..4 { if !near(g[k], w[k], 1e-5) { fail(&format!("{:?}", g)) } }
}'''),
 dict(id="s06_asinest_order", property="C06", configs="sse2 avx2",
  needs="a negative argument in the middle of the range", what="the reflected half of the arc sine estimate is computed from a clamped root",
  after="pub fn XMVectorASinEst(",
  edits=[(V, "        t0 = _mm_mul_ps(t0, root);\n\n        let mut t1: __m128 = _mm_sub_ps(g_XMPi.v, t0);", "        t0 = _mm_mul_ps(t0, root);\n\n        let mut t1: __m128 = _mm_sub_ps(g_XMPi.v, _mm_min_ps(t0, g_XMOne.v));")],
  demo=PRE + r'''
fn main() {
    for k in 0..=100 { let x = -1.0 + k as f32 / 50.0;
        let g = f(XMVectorASinEst(v(x, x, x, x)))[0];
        if !near(g, x.asin(), 1e-3) { fail(&format!("asin {} = {}", x, g)) } }
}'''),
 dict(id="s08_intersect_parallel", property="C08", configs="sse2 avx2",
  needs="parallel, non-coincident lines whose offset cross product is negative", what="parallel lines are reported as coincident",
  after="pub fn XMVector2IntersectLine(",
  edits=[(V, "        vFailMask = _mm_max_ps(vFailMask, C2);\n", "        vFailMask = _mm_min_ps(_mm_max_ps(vFailMask, C2), C2);\n")],
  demo=PRE + r'''
fn main() {
    for s in [1.0f32, -1.0] {
        let g = f(XMVector2IntersectLine(v(0.0,0.0,0.0,0.0), v(1.0,0.0,0.0,0.0), v(0.0,s,0.0,0.0), v(1.0,s,0.0,0.0)));
        if !g[0].is_nan() || !g[1].is_nan() { fail(&format!("parallel {} -> {:?}", s, g)) }
    }
}'''),
 dict(id="s09_fresnel_abs", property="C09", configs="ni",
  needs="portable path; refraction index below one with grazing incidence", what="the radicand's absolute value is dropped, giving NaN or 0 instead of 1",
  after="pub fn XMFresnelTerm(",
  edits=[(X, "        G = XMVectorAbs(G);\n", "        G = XMVectorMax(G, XMVectorZero());\n")],
  demo=PRE + r'''
fn main() {
    // c=0.1, n=0.5: g = sqrt(|0.01+0.25-1|)
    let (c, n) = (0.1f64, 0.5f64);
    let g = (c*c + n*n - 1.0).abs().sqrt();
    let w = 0.5 * ((g-c)/(g+c)).powi(2) * (((c*(g+c)-1.0)/(c*(g-c)+1.0)).powi(2) + 1.0);
    let w = w.min(1.0).max(0.0) as f32;
    let r = f(XMFresnelTerm(v(0.1,0.1,0.1,0.1), v(0.5,0.5,0.5,0.5)))[0];
    if !near(r, w, 1e-3) { fail(&format!("{} want {}", r, w)) }
}'''),
 dict(id="s11_store3_overrun", property="C11", configs="sse41 avx2",
  needs="SSE4.1 build; the four bytes after the destination belong to something else", what="storing a 3-vector writes 16 bytes",
  after="pub fn XMStoreFloat3(",
  edits=[(CV, "        *mem::transmute::<_, *mut i32>(&mut pDestination.x) = _mm_extract_ps(V, 0);\n        *mem::transmute::<_, *mut i32>(&mut pDestination.y) = _mm_extract_ps(V, 1);\n        *mem::transmute::<_, *mut i32>(&mut pDestination.z) = _mm_extract_ps(V, 2);\n",
              "        _mm_storeu_ps(mem::transmute::<_, *mut f32>(pDestination), V);\n")],
  demo=PRE + r'''
fn main() {
    let mut a = [XMFLOAT3 { x: 0.0, y: 0.0, z: 0.0 }, XMFLOAT3 { x: 7.0, y: 8.0, z: 9.0 }];
    let p = a.as_mut_ptr();
    XMStoreFloat3(unsafe { &mut *p }, v(1.0, 2.0, 3.0, 4.0));
    let x = unsafe { std::ptr::read_volatile(&(*p.add(1)).x) };
    if x != 7.0 { fail(&format!("neighbour overwritten: {}", x)) }
}'''),
 dict(id="s12_half_denormal_tie", property="C12", configs="ni sse2 avx",
  needs="no F16C; a denormal half exactly half way between two values with an odd lower neighbour", what="ties between denormal halves are rounded down",
  after="pub fn XMConvertFloatToHalf(",
  edits=[(PV, "            Result += (Result | s) & ((IValue >> Shift) & 1u32);", "            Result += s & ((IValue >> Shift) & 1u32);")],
  demo=PRE + r'''
fn main() {
    // 3.5 * 2^-24 is half way between 3 and 4: rounds to even (4)
    let x = 3.5f32 * (0.5f32).powi(24);
    let h = XMConvertFloatToHalf(x);
    if h != 4 { fail(&format!("{:#x}", h)) }
}'''),
 dict(id="s13_isinfinite_row", property="C13", configs="sse2 avx2",
  needs="a negative infinity, and no positive one, in the third row", what="the infinity predicate misses negative infinities in the third row",
  after="pub fn XMMatrixIsInfinite(",
  edits=[(M, "        let mut vTemp3: XMVECTOR = _mm_and_ps(M.r[2], *g_XMAbsMask);\n        let mut vTemp4: XMVECTOR = _mm_and_ps(M.r[3], *g_XMAbsMask);\n        // Compare to inf", "        let mut vTemp3: XMVECTOR = M.r[2];\n        let mut vTemp4: XMVECTOR = _mm_and_ps(M.r[3], *g_XMAbsMask);\n        // Compare to inf")],
  demo=PRE + r'''
fn main() {
    let mut m = XMMatrixIdentity();
    unsafe { m.r[2] = v(0.0, f32::NEG_INFINITY, 1.0, 0.0); }
    if !XMMatrixIsInfinite(m) { fail("row 2 ignored") }
}'''),
 dict(id="s14_transformation_w", property="C14", configs="ni sse2 avx2",
  needs="a translation vector whose unused w component is not zero", what="the ignored w component of the translation leaks into the matrix",
  after="pub fn XMMatrixTransformation(",
  edits=[(M, "        let VTranslation: XMVECTOR = XMVectorSelect(g_XMSelect1110.v, Translation, g_XMSelect1110.v);\n", "        let VTranslation: XMVECTOR = Translation;\n")],
  demo=PRE + r'''
fn main() {
    let z = v(0.0,0.0,0.0,0.0); let q = v(0.0,0.0,0.0,1.0);
    let m = XMMatrixTransformation(z, q, v(1.0,1.0,1.0,1.0), z, q, v(1.0,2.0,3.0,5.0));
    let r = f(unsafe { m.r[3] });
    if r != [1.0,2.0,3.0,1.0] { fail(&format!("{:?}", r)) }
}'''),
 dict(id="s15_decompose_rank", property="C15", configs="ni sse2 avx2",
  needs="a mirrored matrix whose largest scale is y and whose smallest is z", what="the rank of the three scales is wrong for one ordering, so a tiny axis is treated as significant",
  after="macro_rules! XM3RANKDECOMPOSE",
  edits=[(M, "                    if $x < $z {\n                        $b = 2;\n                        $c = 0;\n                    } else {\n                        $b = 0;\n                        $c = 2;\n                    }",
             "                    if $x < $y {\n                        $b = 2;\n                        $c = 0;\n                    } else {\n                        $b = 0;\n                        $c = 2;\n                    }")],
  demo=PRE + r'''
fn main() {
    // x=1, y=2, z=0: decomposable
    let m = XMMatrixMultiply(XMMatrixScaling(1.0, 2.0, 0.0), &XMMatrixRotationRollPitchYaw(0.3, 0.4, 0.5));
    let (mut s, mut q, mut t) = (XMVectorZero(), XMVectorZero(), XMVectorZero());
    let ok = XMMatrixDecompose(&mut s, &mut q, &mut t, m);
    if !ok { fail("rejected") }
    let g = XMMatrixMultiply(XMMatrixScalingFromVector(s), &XMMatrixRotationQuaternion(q));
    for i in 0..3 { let (a, b) = unsafe { (f(g.r[i]), f(m.r[i])) }; for k in 0..3 { if !near(a[k], b[k], 1e-4) { fail("not reproduced") } } }
}'''),
 dict(id="s16_offcenter_rh", property="C16", configs="sse2 avx2",
  needs="a right-handed off-centre frustum that is vertically asymmetric", what="the vertical skew is normalised by the width",
  after="pub fn XMMatrixPerspectiveOffCenterRH(",
  edits=[(M, "            (ViewTop + ViewBottom) * ReciprocalHeight,\n            fRange,\n            -1.0);", "            (ViewTop + ViewBottom) * ReciprocalWidth,\n            fRange,\n            -1.0);")],
  demo=PRE + r'''
fn main() {
    let m = XMMatrixPerspectiveOffCenterRH(-1.0, 2.0, -0.5, 1.5, 1.0, 10.0);
    let p = f(XMVector3TransformCoord(v(2.0, 1.5, -1.0, 0.0), m));
    if !near(p[0], 1.0, 1e-4) || !near(p[1], 1.0, 1e-4) || !near(p[2], 0.0, 1e-4) { fail(&format!("{:?}", p)) }
}'''),
 dict(id="s17_rotmat_zbranch", property="C17", configs="ni",
  needs="portable path; a rotation by nearly 180 degrees about an axis close to z", what="the sign of w is flipped in one branch of matrix-to-quaternion",
  after="pub fn XMQuaternionRotationMatrix(",
  edits=[(X, "                q.f[3] = (M.m[0][1] - M.m[1][0]) * inv4z;", "                q.f[3] = (M.m[1][0] - M.m[0][1]) * inv4z;")],
  demo=PRE + r'''
fn main() {
    let q = XMQuaternionRotationAxis(v(0.1, 0.2, 1.0, 0.0), 2.8);
    let m = XMMatrixRotationQuaternion(q);
    let r = XMQuaternionRotationMatrix(m);
    let d = f(XMQuaternionDot(q, r))[0];
    if !near(d.abs(), 1.0, 1e-4) { fail(&format!("dot {}", d)) }
}'''),
 dict(id="s18_squad_setup", property="C18", configs="ni sse2 avx2",
  needs="consecutive keys on opposite hemispheres so that the third key is negated", what="the fourth key's hemisphere is chosen against the original third key instead of the adjusted one",
  after="pub fn XMQuaternionSquadSetup(",
  edits=[(X, "    let LS23: XMVECTOR = XMQuaternionLengthSq(XMVectorAdd(SQ2, Q3));\n    let LD23: XMVECTOR = XMQuaternionLengthSq(XMVectorSubtract(SQ2, Q3));",
             "    let LS23: XMVECTOR = XMQuaternionLengthSq(XMVectorAdd(Q2, Q3));\n    let LD23: XMVECTOR = XMQuaternionLengthSq(XMVectorSubtract(Q2, Q3));")],
  demo=PRE + r'''
fn q(a: f32) -> XMVECTOR { XMQuaternionRotationAxis(v(0.0, 0.0, 1.0, 0.0), a) }
fn main() {
    let (mut a1, mut b1, mut c1) = (XMVectorZero(), XMVectorZero(), XMVectorZero());
    let (mut a2, mut b2, mut c2) = (XMVectorZero(), XMVectorZero(), XMVectorZero());
    // negating a key (same rotation) must not change the control rotations
    XMQuaternionSquadSetup(&mut a1, &mut b1, &mut c1, q(0.0), q(0.4), q(1.0), q(1.3));
    XMQuaternionSquadSetup(&mut a2, &mut b2, &mut c2, q(0.0), q(0.4), XMVectorNegate(q(1.0)), q(1.3));
    for (x, y) in [(a1, a2), (b1, b2), (c1, c2)] { if !near(f(XMQuaternionDot(x, y))[0].abs(), 1.0, 1e-4) { fail("control quaternion changed") } }
}'''),
]
