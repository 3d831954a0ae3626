From 57f449d1bd928e29a983c6552ad4988f84a6568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 01/16] fix: XMConvertHalfToFloat normalizes denormal halves

The normalization loop stopped at the first iteration without the hidden bit
instead of the first one with it, so subnormal halves decoded wrongly without F16C.
---
 src/packed_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packed_vector.rs b/src/packed_vector.rs
index 3a62443..8712e1e 100644
--- a/src/packed_vector.rs
+++ b/src/packed_vector.rs
@@ -30,7 +30,7 @@ pub fn XMConvertHalfToFloat(Value: HALF) -> f32 {
             {
                 Exponent = Exponent.wrapping_sub(1);
                 Mantissa <<= 1;
-                if ((Mantissa & 0x0400) == 0) {
+                if ((Mantissa & 0x0400) != 0) {
                     break;
                 }
             }
-- 
2.43.0


From 7d5bb878193bdd84053d3fe1e938ebfaed59b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 02/16] fix: XMVectorSetBinaryConstant tests bit 0 of every
 component

The SSE mask was [1, 2, 3, 4] and the scalar version overflowed in debug builds.
---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e1edfda..b5cc253 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2808,10 +2808,10 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
         let mut vResult: XMVECTORU32 = crate::undefined();
-        vResult.u[0] = (0 - (C0 & 1)) & 0x3F800000;
-        vResult.u[1] = (0 - (C1 & 1)) & 0x3F800000;
-        vResult.u[2] = (0 - (C2 & 1)) & 0x3F800000;
-        vResult.u[3] = (0 - (C3 & 1)) & 0x3F800000;
+        vResult.u[0] = 0u32.wrapping_sub(C0 & 1) & 0x3F800000;
+        vResult.u[1] = 0u32.wrapping_sub(C1 & 1) & 0x3F800000;
+        vResult.u[2] = 0u32.wrapping_sub(C2 & 1) & 0x3F800000;
+        vResult.u[3] = 0u32.wrapping_sub(C3 & 1) & 0x3F800000;
         return vResult.v;
     }
 
@@ -2822,7 +2822,7 @@ pub fn XMVectorSetBinaryConstant(C0: u32, C1: u32, C2: u32, C3: u32) -> XMVECTOR
 
     #[cfg(_XM_SSE_INTRINSICS_)]
     unsafe {
-        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 2, 3, 4] };
+        const g_vMask1: XMVECTORU32 = XMVECTORU32 { u: [1, 1, 1, 1] };
         let mut vTemp = _mm_set_epi32(C3 as i32, C2 as i32, C1 as i32, C0 as i32);
         // Mask off the low bits
         vTemp = _mm_and_si128(vTemp, g_vMask1.m128i());
-- 
2.43.0


From 0f496561b9232a9e0dd0e1acc4d1c33485f12862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 03/16] fix: XMVectorRound rounds every component without
 intrinsics

---
 src/vector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 704b728..b08d3f8 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -3152,9 +3152,9 @@ pub fn XMVectorRound(V: FXMVECTOR) -> XMVECTOR {
         let Result = XMVECTORF32 {
             f: [
                 round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
-                round_to_nearest(V.vector4_f32[0]),
+                round_to_nearest(V.vector4_f32[1]),
+                round_to_nearest(V.vector4_f32[2]),
+                round_to_nearest(V.vector4_f32[3]),
             ]
         };
         return Result.v;
-- 
2.43.0


From 0b2b8c5c0d3e6f239e8afe2dfb7b1047c3a34435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 04/16] fix: XMVectorInBoundsR reports XM_CRMASK_CR6BOUNDS
 without intrinsics

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index b08d3f8..b8093fd 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -2913,7 +2913,7 @@ pub fn XMVectorInBoundsR(pCR: &mut u32, V: FXMVECTOR, Bounds: FXMVECTOR) -> XMVE
         let mut CR = 0;
         if ubool(ux & uy & uz & uw) {
             // All elements are in bounds
-            CR = XM_CRMASK_CR6TRUE;
+            CR = XM_CRMASK_CR6BOUNDS;
         }
         *pCR = CR;
 
-- 
2.43.0


From 8754d491a6e6e2ec617aae3d44e672e38a42ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 05/16] fix: XMConvertVectorIntToFloat is signed and scales
 without intrinsics

The scale shifted the wrong way (infinite for any DivExponent > 0) and the
components were read as unsigned.
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index cb5e66e..6e198cf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -13,10 +13,10 @@ pub fn XMConvertVectorIntToFloat(VInt: FXMVECTOR, DivExponent: u32) -> XMVECTOR
 
     #[cfg(_XM_NO_INTRINSICS_)]
     unsafe {
-        let fScale = 1.0 / (1 >> DivExponent) as f32;
+        let fScale = 1.0 / (1u32 << DivExponent) as f32;
         let mut Result: XMVECTOR = crate::undefined();
         for ElementIndex in 0..4 {
-            let iTemp = VInt.vector4_u32[ElementIndex];
+            let iTemp = VInt.vector4_u32[ElementIndex] as i32;
             Result.vector4_f32[ElementIndex] = iTemp as f32 * fScale;
         }
         return Result;
-- 
2.43.0


From f4fb08d7c620e1ce58ed38fd1b6f6979871ac970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:00 +0000
Subject: [PATCH 06/16] fix: XMMatrix += and -= update every row

AddAssign and SubAssign stored the sums of rows 1, 2 and 3 in row 0 and left
the other rows unchanged, so 'a += b' was not 'a = a + b'.
---
 src/matrix.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 4c78e25..fa4d8f8 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -3785,9 +3785,9 @@ impl std::ops::AddAssign for XMMatrix {
     fn add_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorAdd(self.r[0], M.r[0]);
-            self.r[0] = XMVectorAdd(self.r[1], M.r[1]);
-            self.r[0] = XMVectorAdd(self.r[2], M.r[2]);
-            self.r[0] = XMVectorAdd(self.r[3], M.r[3]);
+            self.r[1] = XMVectorAdd(self.r[1], M.r[1]);
+            self.r[2] = XMVectorAdd(self.r[2], M.r[2]);
+            self.r[3] = XMVectorAdd(self.r[3], M.r[3]);
         }
     }
 }
@@ -3812,9 +3812,9 @@ impl std::ops::SubAssign for XMMatrix {
     fn sub_assign(&mut self, M: XMMatrix) {
         unsafe {
             self.r[0] = XMVectorSubtract(self.r[0], M.r[0]);
-            self.r[0] = XMVectorSubtract(self.r[1], M.r[1]);
-            self.r[0] = XMVectorSubtract(self.r[2], M.r[2]);
-            self.r[0] = XMVectorSubtract(self.r[3], M.r[3]);
+            self.r[1] = XMVectorSubtract(self.r[1], M.r[1]);
+            self.r[2] = XMVectorSubtract(self.r[2], M.r[2]);
+            self.r[3] = XMVectorSubtract(self.r[3], M.r[3]);
         }
     }
 }
-- 
2.43.0


From 6d9a7bf17c4538c07de74f600640c83b45fb7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:57 +0000
Subject: [PATCH 07/16] fix: XMMatrixDecompose uses the x, y and z axes as
 canonical basis

---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index fa4d8f8..9d6c763 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1370,8 +1370,8 @@ pub fn XMMatrixDecompose(
         // PERFORMANCE: We're using a static here insteads of const due to the references
         static pvCanonicalBasis: [&XMVECTOR; 3] = unsafe {[
             &g_XMIdentityR0.v,
+            &g_XMIdentityR1.v,
             &g_XMIdentityR2.v,
-            &g_XMIdentityR3.v,
         ]};
 
         // Get the translation
-- 
2.43.0


From 1d46ffd3e1141a77f671cb27c1f397373859f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:43 +0000
Subject: [PATCH 08/16] fix: BoundingOrientedBox intersection ignores the axes
 of parallel edges

---
 src/collision.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index a7f8cfc..cba9dfe 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -2800,6 +2800,16 @@ impl BoundingOrientedBox {
         NoIntersection = XMVectorOrInt(NoIntersection,
             XMVectorGreater(XMVectorAbs(d), XMVectorAdd(d_A, d_B)));
 
+        // The cross product of two (nearly) parallel edges is no more than rounding error.
+        // Keep such an axis from being mistaken for a separating one.
+        let Epsilon: XMVECTOR = XMVectorReplicate(1.0e-6);
+        let AR0X: XMVECTOR = XMVectorAdd(AR0X, Epsilon);
+        let AR1X: XMVECTOR = XMVectorAdd(AR1X, Epsilon);
+        let AR2X: XMVECTOR = XMVectorAdd(AR2X, Epsilon);
+        let ARX0: XMVECTOR = XMVectorAdd(ARX0, Epsilon);
+        let ARX1: XMVECTOR = XMVectorAdd(ARX1, Epsilon);
+        let ARX2: XMVECTOR = XMVectorAdd(ARX2, Epsilon);
+
         // l = a(u) x b(u) = (0, -r20, r10)
         // d(A) = h(A) dot abs(0, r20, r10)
         // d(B) = h(B) dot abs(0, r02, r01)
-- 
2.43.0


From 1835fcf6dfc20d22e07797b32e0d8a3cac49ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:59 +0000
Subject: [PATCH 09/16] fix: BoundingFrustum::IntersectsTriangle tests the
 triangle in the frustum's space

---
 src/collision.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index cba9dfe..6d07b52 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -4444,8 +4444,8 @@ impl BoundingFrustum {
        Corners[7] = XMVectorMultiply(vLeftBottom, vFar);
 
        // Test the plane of the triangle.
-       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(V1, V0), XMVectorSubtract(V2, V0));
-       let Dist: XMVECTOR = XMVector3Dot(Normal, V0);
+       let Normal: XMVECTOR = XMVector3Cross(XMVectorSubtract(TV1, TV0), XMVectorSubtract(TV2, TV0));
+       let Dist: XMVECTOR = XMVector3Dot(Normal, TV0);
 
        let mut MinDist: XMVECTOR;
        let mut MaxDist: XMVECTOR;
@@ -4467,9 +4467,9 @@ impl BoundingFrustum {
 
        // Check the edge/edge axes (3*6).
        let mut TriangleEdgeAxis: [XMVECTOR; 3] = unsafe { undefined() };
-       TriangleEdgeAxis[0] = XMVectorSubtract(V1, V0);
-       TriangleEdgeAxis[1] = XMVectorSubtract(V2, V1);
-       TriangleEdgeAxis[2] = XMVectorSubtract(V0, V2);
+       TriangleEdgeAxis[0] = XMVectorSubtract(TV1, TV0);
+       TriangleEdgeAxis[1] = XMVectorSubtract(TV2, TV1);
+       TriangleEdgeAxis[2] = XMVectorSubtract(TV0, TV2);
 
        let mut FrustumEdgeAxis: [XMVECTOR; 6] = unsafe { undefined() };
        FrustumEdgeAxis[0] = vRightTop;
@@ -4490,9 +4490,9 @@ impl BoundingFrustum {
                let mut MinA: XMVECTOR;
                let mut MaxA: XMVECTOR;
 
-               let Dist0: XMVECTOR = XMVector3Dot(V0, Axis);
-               let Dist1: XMVECTOR = XMVector3Dot(V1, Axis);
-               let Dist2: XMVECTOR = XMVector3Dot(V2, Axis);
+               let Dist0: XMVECTOR = XMVector3Dot(TV0, Axis);
+               let Dist1: XMVECTOR = XMVector3Dot(TV1, Axis);
+               let Dist2: XMVECTOR = XMVector3Dot(TV2, Axis);
 
                MinA = XMVectorMin(Dist0, Dist1);
                MinA = XMVectorMin(MinA, Dist2);
-- 
2.43.0


From 860472bc162809616cb0a44a14dc7e167a91f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:59 +0000
Subject: [PATCH 10/16] fix: triangle intersection finds the points of A on the
 plane of B from their own distances

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 6d07b52..2ca28b4 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5281,7 +5281,7 @@ pub mod triangle_tests {
 
         // Ensure robustness with co-planar triangles by zeroing small distances.
         let mut ADistIsZeroCR: u32 = unsafe { undefined() };
-        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(BDist));
+        let ADistIsZero: XMVECTOR = XMVectorGreaterR(&mut ADistIsZeroCR, g_RayEpsilon.v(), XMVectorAbs(ADist));
         ADist = XMVectorSelect(ADist, Zero, ADistIsZero);
 
         let mut ADistIsLessCR: u32 = unsafe { undefined() };
-- 
2.43.0


From fc300512af9fab8f5c6beac5fd94349354371021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:59 +0000
Subject: [PATCH 11/16] fix: co-planar triangle intersection uses outward edge
 axes

---
 src/collision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 2ca28b4..ee1f640 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -5303,7 +5303,7 @@ pub mod triangle_tests {
             let mut MinDist: XMVECTOR;
 
             // Compute an axis perpindicular to the edge (points out).
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A1, A0));
+            Axis = XMVector3Cross(XMVectorSubtract(A1, A0), N1);
             Dist = XMVector3Dot(Axis, A0);
 
             // Test points of B against the axis.
@@ -5315,7 +5315,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A1, A2)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A2, A1));
+            Axis = XMVector3Cross(XMVectorSubtract(A2, A1), N1);
             Dist = XMVector3Dot(Axis, A1);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5326,7 +5326,7 @@ pub mod triangle_tests {
             }
 
             // Edge (A2, A0)
-            Axis = XMVector3Cross(N1, XMVectorSubtract(A0, A2));
+            Axis = XMVector3Cross(XMVectorSubtract(A0, A2), N1);
             Dist = XMVector3Dot(Axis, A2);
 
             MinDist = XMVector3Dot(B0, Axis);
@@ -5337,7 +5337,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B0, B1)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B1, B0));
+            Axis = XMVector3Cross(XMVectorSubtract(B1, B0), N2);
             Dist = XMVector3Dot(Axis, B0);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5348,7 +5348,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B1, B2)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B2, B1));
+            Axis = XMVector3Cross(XMVectorSubtract(B2, B1), N2);
             Dist = XMVector3Dot(Axis, B1);
 
             MinDist = XMVector3Dot(A0, Axis);
@@ -5359,7 +5359,7 @@ pub mod triangle_tests {
             }
 
             // Edge (B2,B0)
-            Axis = XMVector3Cross(N2, XMVectorSubtract(B0, B2));
+            Axis = XMVector3Cross(XMVectorSubtract(B0, B2), N2);
             Dist = XMVector3Dot(Axis, B2);
 
             MinDist = XMVector3Dot(A0, Axis);
-- 
2.43.0


From 75a196659907fdb2b493df7925a5d4dcf60f6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:57 +0000
Subject: [PATCH 12/16] fix: BoundingOrientedBox::CreateFromPoints rotates
 every point into the box's space

---
 src/collision.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index ee1f640..b2b93a3 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -3283,11 +3283,11 @@ impl BoundingOrientedBox {
         //for (let i: size_t = 1; i < Count; ++i)
         for (i, point) in pPoints.enumerate()
         {
-            let Point: XMVECTOR = XMLoadFloat3(point);
+            let Point: XMVECTOR = XMVector3TransformNormal(XMLoadFloat3(point), InverseR);
 
             if i == 0 {
-                vMin = XMVector3TransformNormal(Point, InverseR);
-                vMax = vMin;
+                vMin = Point;
+                vMax = Point;
             } else {
                 vMin = XMVectorMin(vMin, Point);
                 vMax = XMVectorMax(vMax, Point);
-- 
2.43.0


From ff3752b2ce66e82d4cc75138211b2401dca81558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:11 +0000
Subject: [PATCH 13/16] fix: BoundingOrientedBox::CreateFromPoints scales the
 covariance matrix before solving it

---
 src/collision.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/collision.rs b/src/collision.rs
index b2b93a3..c53bef8 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -464,6 +464,13 @@ mod internal {
         pV3: &mut XMVECTOR,
 
     ) -> bool {
+        // The eigenvectors do not depend on the scale of the matrix. Scale it so that the
+        // coefficients of the cubic neither overflow nor underflow.
+        let Max: f32 = [Cxx, Cyy, Czz, Cxy, Cxz, Cyz].iter().fold(0.0, |Max: f32, C| Max.max(fabsf(*C)));
+        let Scale: f32 = if (Max > 0.0) { Max } else { 1.0 };
+        let (Cxx, Cyy, Czz) = (Cxx / Scale, Cyy / Scale, Czz / Scale);
+        let (Cxy, Cxz, Cyz) = (Cxy / Scale, Cxz / Scale, Cyz / Scale);
+
         // Calculate the eigenvalues by solving a cubic equation.
         let e: f32 = -(Cxx + Cyy + Czz);
         let f: f32 = Cxx * Cyy + Cyy * Czz + Czz * Cxx - Cxy * Cxy - Cxz * Cxz - Cyz * Cyz;
-- 
2.43.0


From f716e191b12e4ea7af5a556160b1e5ecdf037115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:28 +0000
Subject: [PATCH 14/16] fix: XMVector{2,3,4}Greater(OrEqual)R report all-false
 for NaN without intrinsics

---
 src/vector.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index b8093fd..4016684 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7542,8 +7542,8 @@ pub fn XMVector2GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -7615,8 +7615,8 @@ pub fn XMVector2GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9359,9 +9359,9 @@ pub fn XMVector3GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] <= V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] <= V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] <= V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -9435,9 +9435,9 @@ pub fn XMVector3GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11497,10 +11497,10 @@ pub fn XMVector4GreaterR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if (V1.vector4_f32[0] <= V2.vector4_f32[0] &&
-            V1.vector4_f32[1] <= V2.vector4_f32[1] &&
-            V1.vector4_f32[2] <= V2.vector4_f32[2] &&
-            V1.vector4_f32[3] <= V2.vector4_f32[3])
+        else if (!(V1.vector4_f32[0] > V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] > V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] > V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] > V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
@@ -11578,10 +11578,10 @@ pub fn XMVector4GreaterOrEqualR(
         {
             CR = XM_CRMASK_CR6TRUE;
         }
-        else if ((V1.vector4_f32[0] < V2.vector4_f32[0]) &&
-            (V1.vector4_f32[1] < V2.vector4_f32[1]) &&
-            (V1.vector4_f32[2] < V2.vector4_f32[2]) &&
-            (V1.vector4_f32[3] < V2.vector4_f32[3]))
+        else if (!(V1.vector4_f32[0] >= V2.vector4_f32[0]) &&
+            !(V1.vector4_f32[1] >= V2.vector4_f32[1]) &&
+            !(V1.vector4_f32[2] >= V2.vector4_f32[2]) &&
+            !(V1.vector4_f32[3] >= V2.vector4_f32[3]))
         {
             CR = XM_CRMASK_CR6FALSE;
         }
-- 
2.43.0


From 2538f2eba2f19f3bcf96f814295f58f0e9097480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:37 +0000
Subject: [PATCH 15/16] fix: XMVector3RefractV and XMVector4RefractV handle
 total internal reflection per component

---
 src/vector.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 4016684..53b5616 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -10519,6 +10519,9 @@ pub fn XMVector3RefractV(
         }
         else
         {
+            // Only the components with total internal reflection are zero
+            let Total: XMVECTOR = XMVectorLessOrEqual(R, Zero);
+
             // R = RefractionIndex * IDotN + sqrt(R)
             R = XMVectorSqrt(R);
             R = XMVectorMultiplyAdd(RefractionIndex, IDotN, R);
@@ -10526,6 +10529,7 @@ pub fn XMVector3RefractV(
             // Result = RefractionIndex * Incident - Normal * R
             let mut Result: XMVECTOR = XMVectorMultiply(RefractionIndex, Incident);
             Result = XMVectorNegativeMultiplySubtract(Normal, R, Result);
+            Result = XMVectorAndCInt(Result, Total);
 
             return Result;
         }
@@ -10554,12 +10558,15 @@ pub fn XMVector3RefractV(
         }
         else
         {
+            // Only the components with total internal reflection are zero
+            let vTotal: XMVECTOR = vResult;
             // R = RefractionIndex * IDotN + sqrt(R)
             R = _mm_sqrt_ps(R);
             R = XM_FMADD_PS!(RefractionIndex, IDotN, R);
             // Result = RefractionIndex * Incident - Normal * R
             vResult = _mm_mul_ps(RefractionIndex, Incident);
             vResult = XM_FNMADD_PS!(R, Normal, vResult);
+            vResult = _mm_andnot_ps(vTotal, vResult);
         }
         return vResult;
     }
@@ -12693,6 +12700,9 @@ pub fn XMVector4RefractV(
         {
             let mut Result: XMVECTOR;
 
+            // Only the components with total internal reflection are zero
+            let Total: XMVECTOR = XMVectorLessOrEqual(R, Zero);
+
             // R = RefractionIndex * IDotN + sqrt(R)
             R = XMVectorSqrt(R);
             R = XMVectorMultiplyAdd(RefractionIndex, IDotN, R);
@@ -12700,6 +12710,7 @@ pub fn XMVector4RefractV(
             // Result = RefractionIndex * Incident - Normal * R
             Result = XMVectorMultiply(RefractionIndex, Incident);
             Result = XMVectorNegativeMultiplySubtract(Normal, R, Result);
+            Result = XMVectorAndCInt(Result, Total);
 
             return Result;
         }
@@ -12727,12 +12738,15 @@ pub fn XMVector4RefractV(
         }
         else
         {
+            // Only the components with total internal reflection are zero
+            let vTotal: XMVECTOR = vResult;
             // R = RefractionIndex * IDotN + sqrt(R)
             R = _mm_sqrt_ps(R);
             R = XM_FMADD_PS!(RefractionIndex, IDotN, R);
             // Result = RefractionIndex * Incident - Normal * R
             vResult = _mm_mul_ps(RefractionIndex, Incident);
             vResult = XM_FNMADD_PS!(R, Normal, vResult);
+            vResult = _mm_andnot_ps(vTotal, vResult);
         }
         return vResult;
     }
-- 
2.43.0


From 892b65eb4f1b72e62a4a5b23a12c37502d781e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 16/16] fix: keep the eigenvector of a thin point cloud finite

CalculateEigenVector divides by a component of a row of the matrix that may be
arbitrarily small, so BoundingOrientedBox::CreateFromPoints returned a NaN
orientation for points on a line parallel to an axis at a tiny offset from it.
---
 src/collision.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index c53bef8..58a5f14 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -329,12 +329,16 @@ mod internal {
                 vTmp = XMVectorSetZ(vTmp, 0.0);
                 // recalculate y to make equation work
                 if (m12 != 0.0) {
-                    vTmp = XMVectorSetY(vTmp, -f1 / f2);
+                    // scaled by |f2|, as the quotient -f1 / f2 may overflow
+                    vTmp = XMVectorScale(vTmp, fabsf(f2));
+                    vTmp = XMVectorSetY(vTmp, if (f2 < 0.0) { f1 } else { -f1 });
                 }
             }
             else
             {
-                vTmp = XMVectorSetZ(vTmp, (f2 - f1) / f3);
+                // scaled by |f3|, as the quotient (f2 - f1) / f3 may overflow
+                vTmp = XMVectorScale(vTmp, fabsf(f3));
+                vTmp = XMVectorSetZ(vTmp, if (f3 < 0.0) { f1 - f2 } else { f2 - f1 });
             }
         }
 
-- 
2.43.0

