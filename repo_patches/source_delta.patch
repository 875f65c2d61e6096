From c7a6913ab52e605165d06281586839ef980c00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 01/20] fix: I444 reader uses the stride of the U/V planes for
 the second row

---
 src/formats/i444/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/i444/read.rs b/src/formats/i444/read.rs
index e495f0d..944b2cc 100644
--- a/src/formats/i444/read.rs
+++ b/src/formats/i444/read.rs
@@ -45,10 +45,10 @@ impl<P: Primitive> I444Src for I444Reader<'_, P> {
         let y10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
 
         let u00_offset = (y * self.u_stride) + x * P::SIZE;
-        let u10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let u10_offset = ((y + 1) * self.u_stride) + x * P::SIZE;
 
         let v00_offset = (y * self.v_stride) + x * P::SIZE;
-        let v10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let v10_offset = ((y + 1) * self.v_stride) + x * P::SIZE;
 
         // Load Y pixels
         let y00 = P::load::<V>(&self.y[y00_offset..]);
-- 
2.43.0


From 292d13d61feb2614b9cc371b87ef65984f18eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 02/20] fix: crop 10/12 bit images at the right byte offset

Strides are given in bytes, only the x offset has to be scaled by the size of
the primitive.
---
 src/crop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crop.rs b/src/crop.rs
index a43448b..80e015f 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -93,7 +93,7 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = (y * stride + x) * plane_desc.bytes_per_primitive;
+                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
-- 
2.43.0


From ee0924be6dfc12a5bd46a26bd46046bf669238f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 03/20] fix: use the BT.2020 luma coefficient for green (0.678)

---
 src/color/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 286f6e6..d3a06ad 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -290,7 +290,7 @@ macro_rules! make_matrices {
 make_matrices! {
     BT601_YUV_TO_RGB, BT601_RGB_TO_YUV: 0.299,  0.587,  0.114;
     BT709_YUV_TO_RGB, BT709_RGB_TO_YUV: 0.2126, 0.7152, 0.0722;
-    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.322, 0.0593;
+    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.678, 0.0593;
 }
 
 type BT2100ConvertFn<V> = unsafe fn(ColorTransfer, &[[f32; 3]; 3], V, V, V) -> (V, V, V);
-- 
2.43.0


From 7dabec7cd5aab9f77f95bfeaff7f6ce4c248944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 04/20] fix: average chroma over the whole 2x2 block when
 converting to ICtCp 4:2:0

---
 src/color/space.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index d3a06ad..cf1eeb6 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -337,11 +337,13 @@ unsafe fn bt2100_rgbx4_to_yx4_uv<V: Vector>(
     let yuv10 = f(transfer, rgb_to_xyz, r[2], g[2], b[2]);
     let yuv11 = f(transfer, rgb_to_xyz, r[3], g[3], b[3]);
 
-    let u = yuv00.1.vadd(yuv01.1).vadd(yuv00.1).vadd(yuv00.1);
-    let v = yuv00.2.vadd(yuv01.2).vadd(yuv00.2).vadd(yuv00.2);
+    // Calculate U/V pixel from 2x2 pixel blocks
+    // Add the upper and lower pixels, then the left and right ones
+    let (u0, u1) = yuv00.1.vadd(yuv10.1).unzip(yuv01.1.vadd(yuv11.1));
+    let (v0, v1) = yuv00.2.vadd(yuv10.2).unzip(yuv01.2.vadd(yuv11.2));
 
-    let u = u.vdivf(4.0);
-    let v = v.vdivf(4.0);
+    let u = u0.vadd(u1).vdivf(4.0);
+    let v = v0.vadd(v1).vdivf(4.0);
 
     ([yuv00.0, yuv01.0, yuv10.0, yuv11.0], u, v)
 }
-- 
2.43.0


From 274258eb1573131d9ce53ecab87bea2ba793fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 05/20] fix: invert the SDR transfer function with the same
 offset it's applied with (0.099)

---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 319602c..dacd52e 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -176,8 +176,8 @@ mod sdr {
         // a = i / 4.5
         let a = i.vdivf(4.5);
 
-        // b = ((i + 0.0993) / 1.099).powf(1.0 / 0.45)
-        let b = i.vaddf(0.0993).vdivf(1.099).vpowf(1.0 / 0.45);
+        // b = ((i + 0.099) / 1.099).powf(1.0 / 0.45)
+        let b = i.vaddf(0.099).vdivf(1.099).vpowf(1.0 / 0.45);
 
         V::select(a, b, mask)
     }
-- 
2.43.0


From 858a11a53e1d22f478a5ac421224d11968d3356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 06/20] fix: round to the nearest code value instead of
 truncating

The scalar path and NEON truncated when writing samples, while AVX2 and AVX512
round to nearest (ties to even).
---
 src/vector/mod.rs  | 18 ++++++++++--------
 src/vector/neon.rs | 12 ++++++------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index cdbd172..3e62b96 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -236,44 +236,46 @@ unsafe impl Vector for f32 {
 
     #[inline(always)]
     unsafe fn write_u8(self, ptr: *mut u8) {
-        ptr.write(self as u8)
+        ptr.write(self.round_ties_even() as u8)
     }
     #[inline(always)]
     unsafe fn write_u8_2x(v0: Self, v1: Self, ptr: *mut u8) {
-        ptr.cast::<[u8; 2]>().write_unaligned([v0 as u8, v1 as u8]);
+        ptr.cast::<[u8; 2]>()
+            .write_unaligned([v0.round_ties_even() as u8, v1.round_ties_even() as u8]);
     }
     #[inline(always)]
     unsafe fn write_u16(self, ptr: *mut u8) {
-        ptr.cast::<u16>().write_unaligned(self as u16);
+        ptr.cast::<u16>()
+            .write_unaligned(self.round_ties_even() as u16);
     }
     #[inline(always)]
     unsafe fn write_u16_2x(v0: Self, v1: Self, ptr: *mut u8) {
         ptr.cast::<[u16; 2]>()
-            .write_unaligned([v0 as u16, v1 as u16]);
+            .write_unaligned([v0.round_ties_even() as u16, v1.round_ties_even() as u16]);
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u8(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u16(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u8(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u16(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index 720e74c..b1be751 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -260,11 +260,11 @@ unsafe impl Vector for float32x4_t {
 
 #[inline(always)]
 unsafe fn float32x4x2_to_u8x8(l: float32x4_t, h: float32x4_t) -> [u8; 8] {
-    let l = vcvtq_u32_f32(l);
+    let l = vcvtnq_u32_f32(l);
     let l = vminq_u32(l, vdupq_n_u32(u8::MAX as u32));
     let l = vmovn_u32(l);
 
-    let h = vcvtq_u32_f32(h);
+    let h = vcvtnq_u32_f32(h);
     let h = vminq_u32(h, vdupq_n_u32(u8::MAX as u32));
     let h = vmovn_u32(h);
 
@@ -275,11 +275,11 @@ unsafe fn float32x4x2_to_u8x8(l: float32x4_t, h: float32x4_t) -> [u8; 8] {
 
 #[inline(always)]
 unsafe fn float32x4x2_to_u16x8(l: float32x4_t, h: float32x4_t) -> [u16; 8] {
-    let l = vcvtq_u32_f32(l);
+    let l = vcvtnq_u32_f32(l);
     let l = vminq_u32(l, vdupq_n_u32(u16::MAX as u32));
     let l = vmovn_u32(l);
 
-    let h = vcvtq_u32_f32(h);
+    let h = vcvtnq_u32_f32(h);
     let h = vminq_u32(h, vdupq_n_u32(u16::MAX as u32));
     let h = vmovn_u32(h);
 
@@ -288,7 +288,7 @@ unsafe fn float32x4x2_to_u16x8(l: float32x4_t, h: float32x4_t) -> [u16; 8] {
 
 #[inline(always)]
 unsafe fn float32x4_to_u8x4(i: float32x4_t) -> [u8; 4] {
-    let i = vcvtq_u32_f32(i);
+    let i = vcvtnq_u32_f32(i);
     let i = vminq_u32(i, vdupq_n_u32(255));
     let i = vmovn_u32(i);
 
@@ -301,7 +301,7 @@ unsafe fn float32x4_to_u8x4(i: float32x4_t) -> [u8; 4] {
 
 #[inline(always)]
 unsafe fn float32x4_to_u16x4(i: float32x4_t) -> [u16; 4] {
-    let i = vcvtq_u32_f32(i);
+    let i = vcvtnq_u32_f32(i);
     let i = vminq_u32(i, vdupq_n_u32(u16::MAX as u32));
     let i = vmovn_u32(i);
 
-- 
2.43.0


From 276947aaad27060fad8ff898d714d3a223aae23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 07/20] fix: don't produce NaN for negative numbers in the
 gamma transfer functions

---
 src/color/transfer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index dacd52e..8320825 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -114,12 +114,14 @@ mod gamma {
 
     #[inline(always)]
     pub(super) unsafe fn linear_to_scaled<const GAMMA: u32, V: Vector>(i: V) -> V {
-        i.vpowf(1.0 / (GAMMA as f32 / 10.0))
+        // Avoid producing NaN for negative numbers
+        i.vmaxf(0.0).vpowf(1.0 / (GAMMA as f32 / 10.0))
     }
 
     #[inline(always)]
     pub(super) unsafe fn scaled_to_linear<const GAMMA: u32, V: Vector>(i: V) -> V {
-        i.vpowf(GAMMA as f32 / 10.0)
+        // Avoid producing NaN for negative numbers
+        i.vmaxf(0.0).vpowf(GAMMA as f32 / 10.0)
     }
 }
 
-- 
2.43.0


From 37df45b8b3d3825915808506f884aaead4e5e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 08/20] fix: clamp converted samples to the range of the
 destination's bit depth

10 and 12 bit samples exceeded their maximum code value, and far out of range
values wrapped around in the integer narrowing of the AVX2 and AVX512 paths.
---
 src/formats/i420/from_rgb.rs | 13 +++++++------
 src/formats/i422/from_rgb.rs |  3 ++-
 src/formats/i444/from_rgb.rs |  7 ++++++-
 src/formats/rgb/write.rs     |  6 +++---
 src/formats/rgba/write.rs    |  8 ++++----
 src/vector/avx2.rs           |  5 +++++
 src/vector/avx512.rs         |  5 +++++
 src/vector/mod.rs            | 17 +++++++++++++++++
 src/vector/neon.rs           |  5 +++++
 9 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/src/formats/i420/from_rgb.rs b/src/formats/i420/from_rgb.rs
index 9f23462..f7617b5 100644
--- a/src/formats/i420/from_rgb.rs
+++ b/src/formats/i420/from_rgb.rs
@@ -69,13 +69,14 @@ impl<S: RgbaSrc> I420Src for RgbToI420<S> {
             (y00, y01, y10, y11, u, v)
         };
 
+        // Clamp out of gamut values to the range representable by the pixel format
         I420Block {
-            y00,
-            y01,
-            y10,
-            y11,
-            u,
-            v,
+            y00: y00.vclamp01(),
+            y01: y01.vclamp01(),
+            y10: y10.vclamp01(),
+            y11: y11.vclamp01(),
+            u: u.vclamp01(),
+            v: v.vclamp01(),
         }
     }
 }
diff --git a/src/formats/i422/from_rgb.rs b/src/formats/i422/from_rgb.rs
index 5a07efb..2fef40e 100644
--- a/src/formats/i422/from_rgb.rs
+++ b/src/formats/i422/from_rgb.rs
@@ -63,7 +63,8 @@ impl<S: RgbaSrc> RgbToI422<S> {
             v = v16.vadd(v.vmul(uv_scale));
         }
 
-        ([y0, y1], u, v)
+        // Clamp out of gamut values to the range representable by the pixel format
+        ([y0.vclamp01(), y1.vclamp01()], u.vclamp01(), v.vclamp01())
     }
 }
 
diff --git a/src/formats/i444/from_rgb.rs b/src/formats/i444/from_rgb.rs
index 152454e..bb7c5d7 100644
--- a/src/formats/i444/from_rgb.rs
+++ b/src/formats/i444/from_rgb.rs
@@ -50,7 +50,12 @@ impl<S: RgbaSrc> RgbToI444<S> {
             v = v16.vadd(v.vmul(uv_scale));
         }
 
-        I444Pixel { y, u, v }
+        // Clamp out of gamut values to the range representable by the pixel format
+        I444Pixel {
+            y: y.vclamp01(),
+            u: u.vclamp01(),
+            v: v.vclamp01(),
+        }
     }
 }
 
diff --git a/src/formats/rgb/write.rs b/src/formats/rgb/write.rs
index 7ee55fe..e4638e7 100644
--- a/src/formats/rgb/write.rs
+++ b/src/formats/rgb/write.rs
@@ -84,9 +84,9 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 3] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
+    let r = px.r.vclamp01().vmulf(max_value);
+    let g = px.g.vclamp01().vmulf(max_value);
+    let b = px.b.vclamp01().vmulf(max_value);
 
     if REVERSE {
         [b, g, r]
diff --git a/src/formats/rgba/write.rs b/src/formats/rgba/write.rs
index 3550615..a608943 100644
--- a/src/formats/rgba/write.rs
+++ b/src/formats/rgba/write.rs
@@ -85,10 +85,10 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 4] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
-    let a = px.a.vmulf(max_value);
+    let r = px.r.vclamp01().vmulf(max_value);
+    let g = px.g.vclamp01().vmulf(max_value);
+    let b = px.b.vclamp01().vmulf(max_value);
+    let a = px.a.vclamp01().vmulf(max_value);
 
     if REVERSE {
         [b, g, r, a]
diff --git a/src/vector/avx2.rs b/src/vector/avx2.rs
index 4d9fcf4..dfe3789 100644
--- a/src/vector/avx2.rs
+++ b/src/vector/avx2.rs
@@ -36,6 +36,11 @@ unsafe impl Vector for __m256 {
         _mm256_max_ps(self, other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm256_min_ps(self, other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         _mm256_cmp_ps(self, other, _CMP_LT_OQ)
diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 24ee33b..b97218f 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -36,6 +36,11 @@ unsafe impl Vector for __m512 {
         _mm512_max_ps(self, other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm512_min_ps(self, other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         _mm512_cmp_ps_mask(self, other, _CMP_LT_OQ)
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 3e62b96..43c96c9 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -52,6 +52,18 @@ pub(crate) unsafe trait Vector: Debug + Copy + 'static {
         self.vmax(Self::splat(other))
     }
 
+    unsafe fn vmin(self, other: Self) -> Self;
+    #[inline(always)]
+    unsafe fn vminf(self, other: f32) -> Self {
+        self.vmin(Self::splat(other))
+    }
+
+    /// Clamp all elements to 0.0..=1.0
+    #[inline(always)]
+    unsafe fn vclamp01(self) -> Self {
+        self.vmaxf(0.0).vminf(1.0)
+    }
+
     /// Compare all element in self to other and return a mask with the results a < b
     unsafe fn lt(self, other: Self) -> Self::Mask;
     unsafe fn ltf(self, other: f32) -> Self::Mask {
@@ -158,6 +170,11 @@ unsafe impl Vector for f32 {
         self.max(other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        self.min(other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         self < other
diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index b1be751..10ee96c 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -33,6 +33,11 @@ unsafe impl Vector for float32x4_t {
         vmaxq_f32(self, other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        vminq_f32(self, other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         vcaltq_f32(self, other)
-- 
2.43.0


From de4186ab0b0b7375ca6404345a2ed654a1c7556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 09/20] fix: clamp the input of the PQ EOTF to its domain

The function has a pole right above 1.0, slightly out of range values turned
into huge or negative numbers.
---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 8320825..4b9a36b 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -215,8 +215,8 @@ pub(crate) mod bt2100_pq {
     /// PQ EOTF
     #[inline(always)]
     pub(crate) unsafe fn scaled_to_linear<V: Vector>(i: V) -> V {
-        // Avoid producing NaN for negative numbers
-        let i = i.vmaxf(0.0);
+        // Avoid producing NaN for negative numbers, and stay off the pole of the EOTF beyond 1.0
+        let i = i.vclamp01();
 
         let epow1dm2 = i.vpowf(1.0 / M2);
 
-- 
2.43.0


From 4784413aaee7989fd906e88bced6720edf3eb6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 10/20] fix: accept planes whose last row is not padded to the
 stride

Cropping with an x offset at the bottom of an image leaves the last row shorter
than the stride, which made every use of the cropped image panic. copy also
copied rows past the end of the image if the planes were larger than needed.
---
 src/copy.rs         | 16 ++++++++++++----
 src/crop.rs         |  4 +++-
 src/multi_thread.rs |  5 ++++-
 src/pixel_format.rs |  8 +++++++-
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/copy.rs b/src/copy.rs
index de1a71a..a1fcc41 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -9,6 +9,9 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
     src.bounds_check()?;
     dst.bounds_check()?;
 
+    let width = src.width();
+    let height = src.height();
+
     let desc = src.format().plane_desc();
     let planes = src.planes();
     let planes_mut = dst.planes_mut();
@@ -16,12 +19,17 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
     for (desc, ((src_plane, src_stride), (dst_plane, dst_stride))) in
         desc.iter().zip(planes.zip(planes_mut))
     {
-        let n = desc.width_op.op(src.width()) * desc.bytes_per_primitive;
+        let n = desc.width_op.op(width) * desc.bytes_per_primitive;
+
+        if n == 0 {
+            continue;
+        }
 
-        let src_rows = src_plane.chunks_exact(src_stride);
-        let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
+        // The last row might be shorter than the stride
+        let src_rows = src_plane.chunks(src_stride);
+        let dst_rows = dst_plane.chunks_mut(dst_stride);
 
-        for (src_row, dst_row) in src_rows.zip(dst_rows) {
+        for (src_row, dst_row) in src_rows.zip(dst_rows).take(desc.height_op.op(height)) {
             dst_row[..n].copy_from_slice(&src_row[..n]);
         }
     }
diff --git a/src/crop.rs b/src/crop.rs
index 80e015f..05f8174 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -94,10 +94,12 @@ fn crop_planes<'a, S: AnySlice + 'a>(
 
                 // First trim the bytes byte "in front" of the window
                 let split_at = y * stride + x * plane_desc.bytes_per_primitive;
+                let split_at = split_at.min(slice.slice_len());
                 let (_, slice) = slice.slice_split_at(split_at);
 
-                // Trim the bytes at the end of the window
+                // Trim the bytes at the end of the window, the last row might be shorter than the stride
                 let split_at = plane_desc.height_op.op(window.height) * stride;
+                let split_at = split_at.min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
                 (slice, stride)
diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 91e9bcb..2aa6749 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -106,7 +106,10 @@ pub(crate) fn split_planes<S: AnySlice>(
         let mut out = vec![];
 
         for (plane_desc, (slice, stride)) in plane_decs.iter().zip(&mut planes) {
-            let split_at = stride.strict_mul_(plane_desc.height_op.op(h));
+            // The last row might be shorter than the stride
+            let split_at = stride
+                .strict_mul_(plane_desc.height_op.op(h))
+                .min(slice.slice_len());
 
             let (prev, rem) = take(slice).slice_split_at(split_at);
             *slice = rem;
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index e7203a2..7521832 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -113,7 +113,13 @@ impl PixelFormat {
                 }
 
                 // Ensure slice is large enough
-                let min_len = stride.strict_mul_(plane.height_op.op(height));
+                //
+                // The last row doesn't have to be padded up to the stride, e.g. when the planes are
+                // a window of a larger image
+                let min_len = match plane.height_op.op(height).checked_sub(1) {
+                    Some(rows) => stride.strict_mul_(rows).strict_add_(min_stride),
+                    None => 0,
+                };
 
                 if min_len > slice.len() {
                     return Err(BoundsCheckError::InvalidPlaneSize {
-- 
2.43.0


From 547ef6211c461636e9e7fbb5df4339e425100b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 11/20] fix: don't swap U and V when cropping NV12 images at
 odd x

---
 src/crop.rs | 54 ++++++++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index 05f8174..0e1c5df 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -1,7 +1,4 @@
-use crate::{
-    plane_decs::PlaneDesc, AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt,
-    PixelFormat,
-};
+use crate::{AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
 
 /// Error indicating an invalid [`Window`] for a given image
 #[derive(Debug, thiserror::Error)]
@@ -65,7 +62,7 @@ unsafe impl<T: ImageRef> ImageRef for Cropped<T> {
     }
 
     fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
-        crop_planes(self.format().plane_desc(), self.0.planes(), self.1)
+        crop_planes(self.format(), self.0.planes(), self.1)
     }
 
     fn color(&self) -> ColorInfo {
@@ -75,34 +72,35 @@ unsafe impl<T: ImageRef> ImageRef for Cropped<T> {
 
 unsafe impl<T: ImageMut> ImageMut for Cropped<T> {
     fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
-        crop_planes(self.format().plane_desc(), self.0.planes_mut(), self.1)
+        crop_planes(self.format(), self.0.planes_mut(), self.1)
     }
 }
 
 fn crop_planes<'a, S: AnySlice + 'a>(
-    plane_desc: &'static [PlaneDesc],
+    format: PixelFormat,
     planes: Box<dyn Iterator<Item = (S, usize)> + 'a>,
     window: Window,
 ) -> Box<dyn Iterator<Item = (S, usize)> + 'a> {
-    Box::new(
-        plane_desc
-            .into_iter()
-            .zip(planes)
-            .map(move |(plane_desc, (slice, stride))| {
-                let x = plane_desc.width_op.op(window.x);
-                let y = plane_desc.height_op.op(window.y);
-
-                // First trim the bytes byte "in front" of the window
-                let split_at = y * stride + x * plane_desc.bytes_per_primitive;
-                let split_at = split_at.min(slice.slice_len());
-                let (_, slice) = slice.slice_split_at(split_at);
-
-                // Trim the bytes at the end of the window, the last row might be shorter than the stride
-                let split_at = plane_desc.height_op.op(window.height) * stride;
-                let split_at = split_at.min(slice.slice_len());
-                let (slice, _) = slice.slice_split_at(split_at);
-
-                (slice, stride)
-            }),
-    )
+    Box::new(format.plane_desc().iter().zip(planes).enumerate().map(
+        move |(i, (plane_desc, (slice, stride)))| {
+            let x = match (format, i) {
+                // Always begin with an U sample in the interleaved UV plane
+                (PixelFormat::NV12, 1) => window.x / 2 * 2,
+                _ => plane_desc.width_op.op(window.x),
+            };
+            let y = plane_desc.height_op.op(window.y);
+
+            // First trim the bytes byte "in front" of the window
+            let split_at = y * stride + x * plane_desc.bytes_per_primitive;
+            let split_at = split_at.min(slice.slice_len());
+            let (_, slice) = slice.slice_split_at(split_at);
+
+            // Trim the bytes at the end of the window, the last row might be shorter than the stride
+            let split_at = plane_desc.height_op.op(window.height) * stride;
+            let split_at = split_at.min(slice.slice_len());
+            let (slice, _) = slice.slice_split_at(split_at);
+
+            (slice, stride)
+        },
+    ))
 }
-- 
2.43.0


From 43049f7269fed27dbd62c9059a4f7f8f8cc6221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 12/20] fix: return an error from Image::from_buffer if the
 buffer or strides don't fit

The bounds check never got to run as inferring the planes panics when the
buffer is too small or the number of strides doesn't match the format.
---
 src/image.rs | 56 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 07ef233..4a10bdc 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,4 +1,8 @@
-use crate::{infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use std::mem::take;
+
+use crate::{
+    AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat, StrictApi,
+};
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -110,14 +114,8 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
     fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
         match &self.buffer {
             Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_ref(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
+                split_buffer(self.format, buffer.as_ref(), &self.strides, self.height)
+                    .zip(self.strides.iter().copied()),
             ),
             Buffer::Split(planes) => Box::new(
                 planes
@@ -136,14 +134,8 @@ unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
     fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
         match &mut self.buffer {
             Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_mut(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
+                split_buffer(self.format, buffer.as_mut(), &self.strides, self.height)
+                    .zip(self.strides.iter().copied()),
             ),
             Buffer::Split(planes) => Box::new(
                 planes
@@ -154,3 +146,33 @@ unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
         }
     }
 }
+
+/// Split the buffer into the planes of the given format
+///
+/// Unlike [`infer`](crate::infer) this never panics if the buffer is too small or if there are not enough strides,
+/// the resulting planes will be too small (or missing) and will not pass the bounds check.
+fn split_buffer<'a, S: AnySlice + 'a>(
+    format: PixelFormat,
+    mut buffer: S,
+    strides: &'a [usize],
+    height: usize,
+) -> impl Iterator<Item = S> + 'a {
+    let plane_desc = format.plane_desc();
+
+    plane_desc.iter().zip(strides).map(move |(desc, stride)| {
+        if plane_desc.len() == 1 {
+            return take(&mut buffer);
+        }
+
+        let split_at = desc
+            .height_op
+            .op(height)
+            .strict_mul_(*stride)
+            .min(buffer.slice_len());
+
+        let (plane, rem) = take(&mut buffer).slice_split_at(split_at);
+        buffer = rem;
+
+        plane
+    })
+}
-- 
2.43.0


From b877422f469397f86f856b36cff319817f1a71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 13/20] fix: don't panic in convert_multi_thread on empty or
 insufficient images

---
 src/multi_thread.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 2aa6749..14e9306 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -4,7 +4,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterato
 
 use crate::{
     convert, convert_same_color_and_pixel_format, plane_decs::PlaneDesc, verify_input_windows,
-    AnySlice, ConvertError, Image, ImageMut, ImageRef, StrictApi,
+    AnySlice, ConvertError, Image, ImageMut, ImageRef, ImageRefExt, StrictApi,
 };
 
 /// Parallelizes [`convert`] using as many threads as there are CPU cores.
@@ -20,12 +20,16 @@ pub fn convert_multi_thread(
 
     let threads = num_cpus::get();
 
-    if threads == 1 {
+    let width = src.width();
+    let height = src.height();
+
+    // There's nothing to split up in empty images
+    if threads == 1 || width == 0 || height == 0 {
         return convert(src, dst);
     }
 
-    let width = src.width();
-    let height = src.height();
+    src.bounds_check()?;
+    dst.bounds_check()?;
 
     let src_format = src.format();
     let dst_format = dst.format();
-- 
2.43.0


From 64dd5493d3434a15699ce143a5f34c5880a3508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 14/20] fix: use the image's height when resizing instead of
 the plane's length

Planes may be larger than the image, or lack the padding in the last row.
---
 src/resize.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/resize.rs b/src/resize.rs
index 624ce29..0976c5b 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -56,7 +56,9 @@ impl Resizer {
         let desc = src.format().plane_desc();
 
         let src_width = src.width();
+        let src_height = src.height();
         let dst_width = dst.width();
+        let dst_height = dst.height();
 
         let src_planes: Vec<(&[u8], usize)> = src.planes().collect();
         let dst_planes: Vec<(&mut [u8], usize)> = dst.planes_mut().collect();
@@ -78,8 +80,8 @@ impl Resizer {
                     let dst_fir_width = plane_desc.width_op.op(dst_width)
                         / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);
 
-                    let src_height = src_plane.len() / src_stride;
-                    let dst_height = dst_plane.len() / dst_stride;
+                    let src_height = plane_desc.height_op.op(src_height);
+                    let dst_height = plane_desc.height_op.op(dst_height);
 
                     let src = FirAdapterIntoImageView {
                         pixel_type: plane_desc.pixel_type,
@@ -209,7 +211,8 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
     fn iter_rows(&self, start_row: u32) -> impl Iterator<Item = &[Self::Pixel]> {
         self.plane
             .as_ref()
-            .chunks_exact(self.stride)
+            .chunks(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &row[..self.width * P::pixel_type().size()];
@@ -231,7 +234,8 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
     fn iter_rows_mut(&mut self, start_row: u32) -> impl Iterator<Item = &mut [Self::Pixel]> {
         self.plane
             .as_mut()
-            .chunks_exact_mut(self.stride)
+            .chunks_mut(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &mut row[..self.width * P::pixel_type().size()];
-- 
2.43.0


From 4c6a1cf21c21948c7251d5b3570d9536331178c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 15/20] fix: clamp resized 10 and 12 bit samples to their bit
 depth

---
 src/resize.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/resize.rs b/src/resize.rs
index 0976c5b..c5fdd90 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -54,6 +54,7 @@ impl Resizer {
         let alg = self.alg;
 
         let desc = src.format().plane_desc();
+        let bits = src.format().bits_per_component();
 
         let src_width = src.width();
         let src_height = src.height();
@@ -112,6 +113,19 @@ impl Resizer {
                         .expect(
                             "Pixel type must be assured to be the same before calling fir's resize",
                         );
+
+                    // Filters may overshoot, fir only knows about the range of u16
+                    if plane_desc.bytes_per_primitive == 2 && dst_fir_width > 0 {
+                        let max = u16::MAX >> (16 - bits);
+                        let row_len = plane_desc.packed_stride(dst_width);
+
+                        for row in dst.plane.chunks_mut(dst_stride).take(dst_height) {
+                            for px in row[..row_len].chunks_exact_mut(2) {
+                                let v = u16::from_ne_bytes([px[0], px[1]]).min(max);
+                                px.copy_from_slice(&v.to_ne_bytes());
+                            }
+                        }
+                    }
                 })
             }
         });
-- 
2.43.0


From 6cdb58447b654694f55d76bb1bf452d55c4e27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 16/20] fix: scale the limited range levels to the bit depth

The levels of 10 and 12 bit limited range are the 8 bit ones times 4 and 16
(e.g. 64 - 940), not the same fraction of the full code range. With the latter
10 bit white (940) became 254 and neutral chroma (512) a visible tint.
---
 src/formats/i420/from_rgb.rs | 11 +++++++----
 src/formats/i420/to_rgb.rs   | 11 +++++++----
 src/formats/i422/from_rgb.rs | 11 +++++++----
 src/formats/i422/to_rgb.rs   | 11 +++++++----
 src/formats/i444/from_rgb.rs | 11 +++++++----
 src/formats/i444/to_rgb.rs   | 11 +++++++----
 src/formats/mod.rs           |  7 +++++++
 src/lib.rs                   | 27 +++++++++++++++++++--------
 8 files changed, 68 insertions(+), 32 deletions(-)

diff --git a/src/formats/i420/from_rgb.rs b/src/formats/i420/from_rgb.rs
index f7617b5..9644602 100644
--- a/src/formats/i420/from_rgb.rs
+++ b/src/formats/i420/from_rgb.rs
@@ -10,10 +10,12 @@ pub(crate) struct RgbToI420<S> {
     transfer: ColorTransfer,
     rgb_to_xyz: &'static [[f32; 3]; 3],
     full_range: bool,
+    /// One 8 bit code step in the analog range 0..=1
+    unit: f32,
 }
 
 impl<S: RgbaSrc> RgbToI420<S> {
-    pub(crate) fn new(color: &ColorInfo, rgba_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, rgba_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -24,6 +26,7 @@ impl<S: RgbaSrc> RgbToI420<S> {
             transfer: yuv.transfer,
             rgb_to_xyz: yuv.primaries.rgb_to_xyz_mat(),
             full_range: yuv.full_range,
+            unit: crate::formats::unit_for_bits(bits),
         })
     }
 }
@@ -53,10 +56,10 @@ impl<S: RgbaSrc> I420Src for RgbToI420<S> {
         let (y00, y01, y10, y11, u, v) = if self.full_range {
             (y00, y01, y10, y11, u, v)
         } else {
-            let v16 = V::splat(16.0 / 255.0);
+            let v16 = V::splat(16.0 * self.unit);
 
-            let y_scale = V::splat(219.0 / 255.0);
-            let uv_scale = V::splat(224.0 / 255.0);
+            let y_scale = V::splat(219.0 * self.unit);
+            let uv_scale = V::splat(224.0 * self.unit);
 
             let y00 = v16.vadd(y00.vmul(y_scale));
             let y01 = v16.vadd(y01.vmul(y_scale));
diff --git a/src/formats/i420/to_rgb.rs b/src/formats/i420/to_rgb.rs
index 7a4575a..b29d8cd 100644
--- a/src/formats/i420/to_rgb.rs
+++ b/src/formats/i420/to_rgb.rs
@@ -10,10 +10,12 @@ pub(crate) struct I420ToRgb<S> {
     transfer: ColorTransfer,
     xyz_to_rgb: &'static [[f32; 3]; 3],
     full_range: bool,
+    /// One 8 bit code step in the analog range 0..=1
+    unit: f32,
 }
 
 impl<S: I420Src> I420ToRgb<S> {
-    pub(crate) fn new(color: &ColorInfo, i420_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, i420_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -24,6 +26,7 @@ impl<S: I420Src> I420ToRgb<S> {
             transfer: yuv.transfer,
             xyz_to_rgb: yuv.primaries.xyz_to_rgb_mat(),
             full_range: yuv.full_range,
+            unit: crate::formats::unit_for_bits(bits),
         })
     }
 }
@@ -44,9 +47,9 @@ impl<S: I420Src> RgbaSrc for I420ToRgb<S> {
         // Y  16..=235 -> 0..255 Y  = (1.164 * (Y  - 16))
         // UV 16..=240 -> 0..255 UV = (1.138 * (UV - 16))
         if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-            let y_scale = V::splat(255.0 / 219.0);
-            let uv_scale = V::splat(255.0 / 224.0);
+            let v16 = V::splat(16.0 * self.unit);
+            let y_scale = V::splat(1.0 / (219.0 * self.unit));
+            let uv_scale = V::splat(1.0 / (224.0 * self.unit));
 
             y00 = y00.vsub(v16);
             y01 = y01.vsub(v16);
diff --git a/src/formats/i422/from_rgb.rs b/src/formats/i422/from_rgb.rs
index 2fef40e..dbafaf2 100644
--- a/src/formats/i422/from_rgb.rs
+++ b/src/formats/i422/from_rgb.rs
@@ -9,10 +9,12 @@ pub(crate) struct RgbToI422<S> {
     transfer: ColorTransfer,
     rgb_to_xyz: &'static [[f32; 3]; 3],
     full_range: bool,
+    /// One 8 bit code step in the analog range 0..=1
+    unit: f32,
 }
 
 impl<S: RgbaSrc> RgbToI422<S> {
-    pub(crate) fn new(color: &ColorInfo, rgba_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, rgba_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -23,6 +25,7 @@ impl<S: RgbaSrc> RgbToI422<S> {
             transfer: yuv.transfer,
             rgb_to_xyz: yuv.primaries.rgb_to_xyz_mat(),
             full_range: yuv.full_range,
+            unit: crate::formats::unit_for_bits(bits),
         })
     }
 
@@ -51,10 +54,10 @@ impl<S: RgbaSrc> RgbToI422<S> {
         v = v.vaddf(0.5);
 
         if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
+            let v16 = V::splat(16.0 * self.unit);
 
-            let y_scale = V::splat(219.0 / 255.0);
-            let uv_scale = V::splat(224.0 / 255.0);
+            let y_scale = V::splat(219.0 * self.unit);
+            let uv_scale = V::splat(224.0 * self.unit);
 
             y0 = v16.vadd(y0.vmul(y_scale));
             y1 = v16.vadd(y1.vmul(y_scale));
diff --git a/src/formats/i422/to_rgb.rs b/src/formats/i422/to_rgb.rs
index 11697e0..af0ff61 100644
--- a/src/formats/i422/to_rgb.rs
+++ b/src/formats/i422/to_rgb.rs
@@ -10,10 +10,12 @@ pub(crate) struct I422ToRgb<S> {
     transfer: ColorTransfer,
     xyz_to_rgb: &'static [[f32; 3]; 3],
     full_range: bool,
+    /// One 8 bit code step in the analog range 0..=1
+    unit: f32,
 }
 
 impl<S: I422Src> I422ToRgb<S> {
-    pub(crate) fn new(color: &ColorInfo, i422_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, i422_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -24,6 +26,7 @@ impl<S: I422Src> I422ToRgb<S> {
             transfer: yuv.transfer,
             xyz_to_rgb: yuv.primaries.xyz_to_rgb_mat(),
             full_range: yuv.full_range,
+            unit: crate::formats::unit_for_bits(bits),
         })
     }
 }
@@ -46,9 +49,9 @@ impl<S: I422Src> RgbaSrc for I422ToRgb<S> {
         // Y  16..=235 -> 0..255 Y  = (1.164 * (Y  - 16))
         // UV 16..=240 -> 0..255 UV = (1.138 * (UV - 16))
         if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-            let y_scale = V::splat(255.0 / 219.0);
-            let uv_scale = V::splat(255.0 / 224.0);
+            let v16 = V::splat(16.0 * self.unit);
+            let y_scale = V::splat(1.0 / (219.0 * self.unit));
+            let uv_scale = V::splat(1.0 / (224.0 * self.unit));
 
             y00 = y00.vsub(v16);
             y01 = y01.vsub(v16);
diff --git a/src/formats/i444/from_rgb.rs b/src/formats/i444/from_rgb.rs
index bb7c5d7..713a83a 100644
--- a/src/formats/i444/from_rgb.rs
+++ b/src/formats/i444/from_rgb.rs
@@ -11,10 +11,12 @@ pub(crate) struct RgbToI444<S> {
     transfer: ColorTransfer,
     rgb_to_xyz: &'static [[f32; 3]; 3],
     full_range: bool,
+    /// One 8 bit code step in the analog range 0..=1
+    unit: f32,
 }
 
 impl<S: RgbaSrc> RgbToI444<S> {
-    pub(crate) fn new(color: &ColorInfo, rgba_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, rgba_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -25,6 +27,7 @@ impl<S: RgbaSrc> RgbToI444<S> {
             transfer: yuv.transfer,
             rgb_to_xyz: yuv.primaries.rgb_to_xyz_mat(),
             full_range: yuv.full_range,
+            unit: crate::formats::unit_for_bits(bits),
         })
     }
 
@@ -39,10 +42,10 @@ impl<S: RgbaSrc> RgbToI444<S> {
         v = v.vaddf(0.5);
 
         if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
+            let v16 = V::splat(16.0 * self.unit);
 
-            let y_scale = V::splat(219.0 / 255.0);
-            let uv_scale = V::splat(224.0 / 255.0);
+            let y_scale = V::splat(219.0 * self.unit);
+            let uv_scale = V::splat(224.0 * self.unit);
 
             y = v16.vadd(y.vmul(y_scale));
 
diff --git a/src/formats/i444/to_rgb.rs b/src/formats/i444/to_rgb.rs
index a8d3982..9b71ae6 100644
--- a/src/formats/i444/to_rgb.rs
+++ b/src/formats/i444/to_rgb.rs
@@ -11,10 +11,12 @@ pub(crate) struct I444ToRgb<S> {
     transfer: ColorTransfer,
     xyz_to_rgb: &'static [[f32; 3]; 3],
     full_range: bool,
+    /// One 8 bit code step in the analog range 0..=1
+    unit: f32,
 }
 
 impl<S: I444Src> I444ToRgb<S> {
-    pub(crate) fn new(color: &ColorInfo, i444_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, i444_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -25,6 +27,7 @@ impl<S: I444Src> I444ToRgb<S> {
             transfer: yuv.transfer,
             xyz_to_rgb: yuv.primaries.xyz_to_rgb_mat(),
             full_range: yuv.full_range,
+            unit: crate::formats::unit_for_bits(bits),
         })
     }
 
@@ -40,9 +43,9 @@ impl<S: I444Src> I444ToRgb<S> {
         // Y  16..=235 -> 0..255 Y  = (1.164 * (Y  - 16))
         // UV 16..=240 -> 0..255 UV = (1.138 * (UV - 16))
         if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-            let y_scale = V::splat(255.0 / 219.0);
-            let uv_scale = V::splat(255.0 / 224.0);
+            let v16 = V::splat(16.0 * self.unit);
+            let y_scale = V::splat(1.0 / (219.0 * self.unit));
+            let uv_scale = V::splat(1.0 / (224.0 * self.unit));
 
             y = y.vsub(v16);
             y = y.vmul(y_scale);
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 3c41cb8..e4c72f6 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -25,3 +25,10 @@ pub(crate) use yuyv::*;
 fn max_value_for_bits(bits: usize) -> f32 {
     ((1 << bits) - 1) as f32
 }
+
+/// One 8 bit code step in the analog range 0..=1
+///
+/// The limited range levels (16, 235, 240) are defined for 8 bit and scaled by 2^(bits - 8) for higher bit depths
+fn unit_for_bits(bits: usize) -> f32 {
+    (1 << (bits - 8)) as f32 / max_value_for_bits(bits)
+}
diff --git a/src/lib.rs b/src/lib.rs
index 9118cbd..006a407 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -125,39 +125,49 @@ fn read_any_to_rgba<'a>(
 ) -> Result<Box<dyn DynRgbaReader + 'a>, ConvertError> {
     use PixelFormat::*;
 
+    let bits = src.format().bits_per_component();
+
     match src.format() {
         I420 => Ok(Box::new(I420ToRgb::new(
             &src.color(),
+            bits,
             I420Reader::<u8>::new(src)?,
         )?)),
         I422 => Ok(Box::new(I422ToRgb::new(
             &src.color(),
+            bits,
             I422Reader::<u8>::new(src)?,
         )?)),
         I444 => Ok(Box::new(I444ToRgb::new(
             &src.color(),
+            bits,
             I444Reader::<u8>::new(src)?,
         )?)),
 
         I010 | I012 => Ok(Box::new(I420ToRgb::new(
             &src.color(),
+            bits,
             I420Reader::<u16>::new(src)?,
         )?)),
         I210 | I212 => Ok(Box::new(I422ToRgb::new(
             &src.color(),
+            bits,
             I422Reader::<u16>::new(src)?,
         )?)),
         I410 | I412 => Ok(Box::new(I444ToRgb::new(
             &src.color(),
+            bits,
             I444Reader::<u16>::new(src)?,
         )?)),
 
         NV12 => Ok(Box::new(I420ToRgb::new(
             &src.color(),
+            bits,
             NV12Reader::<u8>::new(src)?,
         )?)),
         YUYV => Ok(Box::new(I422ToRgb::new(
             &src.color(),
+            bits,
             YUYVReader::<u8>::new(src)?,
         )?)),
 
@@ -173,18 +183,19 @@ fn rgba_to_any(dst: &mut dyn ImageMut, reader: impl RgbaSrc) -> Result<(), Conve
     use PixelFormat::*;
 
     let dst_color = dst.color();
+    let bits = dst.format().bits_per_component();
 
     match dst.format() {
-        I420 => I420Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, reader)?),
-        I422 => I422Writer::<u8, _>::write(dst, RgbToI422::new(&dst_color, reader)?),
-        I444 => I444Writer::<u8, _>::write(dst, RgbToI444::new(&dst_color, reader)?),
+        I420 => I420Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, bits, reader)?),
+        I422 => I422Writer::<u8, _>::write(dst, RgbToI422::new(&dst_color, bits, reader)?),
+        I444 => I444Writer::<u8, _>::write(dst, RgbToI444::new(&dst_color, bits, reader)?),
 
-        I010 | I012 => I420Writer::<u16, _>::write(dst, RgbToI420::new(&dst_color, reader)?),
-        I210 | I212 => I422Writer::<u16, _>::write(dst, RgbToI422::new(&dst_color, reader)?),
-        I410 | I412 => I444Writer::<u16, _>::write(dst, RgbToI444::new(&dst_color, reader)?),
+        I010 | I012 => I420Writer::<u16, _>::write(dst, RgbToI420::new(&dst_color, bits, reader)?),
+        I210 | I212 => I422Writer::<u16, _>::write(dst, RgbToI422::new(&dst_color, bits, reader)?),
+        I410 | I412 => I444Writer::<u16, _>::write(dst, RgbToI444::new(&dst_color, bits, reader)?),
 
-        NV12 => NV12Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, reader)?),
-        YUYV => YUYVWriter::<u8, _>::write(dst, RgbToI422::new(&dst_color, reader)?),
+        NV12 => NV12Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, bits, reader)?),
+        YUYV => YUYVWriter::<u8, _>::write(dst, RgbToI422::new(&dst_color, bits, reader)?),
 
         RGBA => RgbaWriter::<false, u8, _>::write(dst, reader),
         BGRA => RgbaWriter::<true, u8, _>::write(dst, reader),
-- 
2.43.0


From 94ba4d14ba89072316d3441eb9f2c7fb2d125fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 17/20] fix: use 128 as the zero point of U and V in the full
 range

BT.2100 (Table 9) and H.273 define full range chroma as (2^n - 1) * E + 2^(n - 1).
With 0.5 as the zero point a gray 4:4:4 image didn't survive a round trip and
gray full range images from elsewhere got a tint.
---
 src/formats/i420/from_rgb.rs | 11 +++++++++--
 src/formats/i420/to_rgb.rs   | 11 +++++++++--
 src/formats/i422/from_rgb.rs | 11 +++++++++--
 src/formats/i422/to_rgb.rs   | 15 +++++++++++----
 src/formats/i444/from_rgb.rs | 11 +++++++++--
 src/formats/i444/to_rgb.rs   | 11 +++++++++--
 6 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/formats/i420/from_rgb.rs b/src/formats/i420/from_rgb.rs
index 9644602..08c39b0 100644
--- a/src/formats/i420/from_rgb.rs
+++ b/src/formats/i420/from_rgb.rs
@@ -49,9 +49,16 @@ impl<S: RgbaSrc> I420Src for RgbToI420<S> {
             [px00.b, px01.b, px10.b, px11.b],
         );
 
+        // U & V are zero at 128 (times 2^(bits - 8)), which isn't quite the center of the full range
+        let uv_zero = if self.full_range {
+            128.0 * self.unit
+        } else {
+            0.5
+        };
+
         // U & V scales from -0.5..=0.5, so bring that up into 0..=1
-        let u = u.vaddf(0.5);
-        let v = v.vaddf(0.5);
+        let u = u.vaddf(uv_zero);
+        let v = v.vaddf(uv_zero);
 
         let (y00, y01, y10, y11, u, v) = if self.full_range {
             (y00, y01, y10, y11, u, v)
diff --git a/src/formats/i420/to_rgb.rs b/src/formats/i420/to_rgb.rs
index b29d8cd..4b592d6 100644
--- a/src/formats/i420/to_rgb.rs
+++ b/src/formats/i420/to_rgb.rs
@@ -68,8 +68,15 @@ impl<S: I420Src> RgbaSrc for I420ToRgb<S> {
             v = v.vmul(uv_scale);
         }
 
-        u = u.vsubf(0.5);
-        v = v.vsubf(0.5);
+        // U & V are zero at 128 (times 2^(bits - 8)), which isn't quite the center of the full range
+        let uv_zero = if self.full_range {
+            128.0 * self.unit
+        } else {
+            0.5
+        };
+
+        u = u.vsubf(uv_zero);
+        v = v.vsubf(uv_zero);
 
         let [[r00, g00, b00], [r01, g01, b01], [r10, g10, b10], [r11, g11, b11]] = self
             .space
diff --git a/src/formats/i422/from_rgb.rs b/src/formats/i422/from_rgb.rs
index dbafaf2..738ecc1 100644
--- a/src/formats/i422/from_rgb.rs
+++ b/src/formats/i422/from_rgb.rs
@@ -49,9 +49,16 @@ impl<S: RgbaSrc> RgbToI422<S> {
         let mut u = u0.vadd(u1).vdivf(2.0);
         let mut v = v0.vadd(v1).vdivf(2.0);
 
+        // U & V are zero at 128 (times 2^(bits - 8)), which isn't quite the center of the full range
+        let uv_zero = if self.full_range {
+            128.0 * self.unit
+        } else {
+            0.5
+        };
+
         // U & V scales from -0.5..=0.5, so bring that up into 0..=1
-        u = u.vaddf(0.5);
-        v = v.vaddf(0.5);
+        u = u.vaddf(uv_zero);
+        v = v.vaddf(uv_zero);
 
         if !self.full_range {
             let v16 = V::splat(16.0 * self.unit);
diff --git a/src/formats/i422/to_rgb.rs b/src/formats/i422/to_rgb.rs
index af0ff61..b30b909 100644
--- a/src/formats/i422/to_rgb.rs
+++ b/src/formats/i422/to_rgb.rs
@@ -76,10 +76,17 @@ impl<S: I422Src> RgbaSrc for I422ToRgb<S> {
             v1 = v1.vmul(uv_scale);
         }
 
-        u0 = u0.vsubf(0.5);
-        u1 = u1.vsubf(0.5);
-        v0 = v0.vsubf(0.5);
-        v1 = v1.vsubf(0.5);
+        // U & V are zero at 128 (times 2^(bits - 8)), which isn't quite the center of the full range
+        let uv_zero = if self.full_range {
+            128.0 * self.unit
+        } else {
+            0.5
+        };
+
+        u0 = u0.vsubf(uv_zero);
+        u1 = u1.vsubf(uv_zero);
+        v0 = v0.vsubf(uv_zero);
+        v1 = v1.vsubf(uv_zero);
 
         let (u0_left, u0_right) = u0.zip(u0);
         let (v0_left, v0_right) = v0.zip(v0);
diff --git a/src/formats/i444/from_rgb.rs b/src/formats/i444/from_rgb.rs
index 713a83a..a9a35a9 100644
--- a/src/formats/i444/from_rgb.rs
+++ b/src/formats/i444/from_rgb.rs
@@ -37,9 +37,16 @@ impl<S: RgbaSrc> RgbToI444<S> {
             self.space
                 .rgb_to_yuv(self.transfer, self.rgb_to_xyz, px.r, px.g, px.b);
 
+        // U & V are zero at 128 (times 2^(bits - 8)), which isn't quite the center of the full range
+        let uv_zero = if self.full_range {
+            128.0 * self.unit
+        } else {
+            0.5
+        };
+
         // U & V scales from -0.5..=0.5, so bring that up into 0..=1
-        u = u.vaddf(0.5);
-        v = v.vaddf(0.5);
+        u = u.vaddf(uv_zero);
+        v = v.vaddf(uv_zero);
 
         if !self.full_range {
             let v16 = V::splat(16.0 * self.unit);
diff --git a/src/formats/i444/to_rgb.rs b/src/formats/i444/to_rgb.rs
index 9b71ae6..992cb32 100644
--- a/src/formats/i444/to_rgb.rs
+++ b/src/formats/i444/to_rgb.rs
@@ -57,8 +57,15 @@ impl<S: I444Src> I444ToRgb<S> {
             v = v.vmul(uv_scale);
         }
 
-        u = u.vsubf(0.5);
-        v = v.vsubf(0.5);
+        // U & V are zero at 128 (times 2^(bits - 8)), which isn't quite the center of the full range
+        let uv_zero = if self.full_range {
+            128.0 * self.unit
+        } else {
+            0.5
+        };
+
+        u = u.vsubf(uv_zero);
+        v = v.vsubf(uv_zero);
 
         let (r, g, b) = self
             .space
-- 
2.43.0


From 70cb60dc1f7bbfe0c365e3b6513f28637a4ac9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 18/20] fix: refuse images whose size overflows instead of
 panicking

Claims whose strides, plane sizes or offsets exceed usize can never be backed by
a buffer, so they are reported as a failed bounds check like any other claim the
buffers are too small for.
---
 src/crop.rs         |  2 +-
 src/image.rs        | 15 ++++++++++-----
 src/pixel_format.rs | 21 +++++++++++----------
 src/plane_decs.rs   | 15 +++++++++++++++
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index 0e1c5df..f89d847 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -91,7 +91,7 @@ fn crop_planes<'a, S: AnySlice + 'a>(
             let y = plane_desc.height_op.op(window.y);
 
             // First trim the bytes byte "in front" of the window
-            let split_at = y * stride + x * plane_desc.bytes_per_primitive;
+            let split_at = (y * stride).saturating_add(x * plane_desc.bytes_per_primitive);
             let split_at = split_at.min(slice.slice_len());
             let (_, slice) = slice.slice_split_at(split_at);
 
diff --git a/src/image.rs b/src/image.rs
index 4a10bdc..1ba6919 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,8 +1,6 @@
 use std::mem::take;
 
-use crate::{
-    AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat, StrictApi,
-};
+use crate::{AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -83,7 +81,14 @@ where
             return Err(ImageError::InvalidDimensions);
         }
 
-        let strides = strides.unwrap_or_else(|| format.packed_strides(width));
+        // Strides that overflow are saturated, these won't pass the bounds check
+        let strides = strides.unwrap_or_else(|| {
+            format
+                .plane_desc()
+                .iter()
+                .map(|desc| desc.checked_packed_stride(width).unwrap_or(usize::MAX))
+                .collect()
+        });
 
         let this = Self {
             format,
@@ -167,7 +172,7 @@ fn split_buffer<'a, S: AnySlice + 'a>(
         let split_at = desc
             .height_op
             .op(height)
-            .strict_mul_(*stride)
+            .saturating_mul(*stride)
             .min(buffer.slice_len());
 
         let (plane, rem) = take(&mut buffer).slice_split_at(split_at);
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index 7521832..1800d46 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -102,22 +102,23 @@ impl PixelFormat {
         ) -> Result<(), BoundsCheckError> {
             for (i, (plane, (slice, stride))) in planes.into_iter().zip(got).enumerate() {
                 // Ensure stride is not smaller than the width would allow
-                let min_stride = plane.packed_stride(width);
-
-                if min_stride > stride {
-                    return Err(BoundsCheckError::InvalidStride {
-                        plane: i,
-                        minimum: min_stride,
-                        got: stride,
-                    });
-                }
+                let min_stride = match plane.checked_packed_stride(width) {
+                    Some(min_stride) if min_stride <= stride => min_stride,
+                    min_stride => {
+                        return Err(BoundsCheckError::InvalidStride {
+                            plane: i,
+                            minimum: min_stride.unwrap_or(usize::MAX),
+                            got: stride,
+                        });
+                    }
+                };
 
                 // Ensure slice is large enough
                 //
                 // The last row doesn't have to be padded up to the stride, e.g. when the planes are
                 // a window of a larger image
                 let min_len = match plane.height_op.op(height).checked_sub(1) {
-                    Some(rows) => stride.strict_mul_(rows).strict_add_(min_stride),
+                    Some(rows) => stride.saturating_mul(rows).saturating_add(min_stride),
                     None => 0,
                 };
 
diff --git a/src/plane_decs.rs b/src/plane_decs.rs
index bdbff76..84e6867 100644
--- a/src/plane_decs.rs
+++ b/src/plane_decs.rs
@@ -23,6 +23,13 @@ impl PlaneDesc {
             .op(width)
             .strict_mul_(self.bytes_per_primitive)
     }
+
+    /// Same as [`packed_stride`](Self::packed_stride), but returns `None` on overflow
+    pub(crate) fn checked_packed_stride(&self, width: usize) -> Option<usize> {
+        self.width_op
+            .checked_op(width)?
+            .checked_mul(self.bytes_per_primitive)
+    }
 }
 
 /// Plane's number of primitives in relation to width / height
@@ -41,6 +48,14 @@ impl Op {
             Op::Identity => lhs,
         }
     }
+
+    pub(crate) fn checked_op(self, lhs: usize) -> Option<usize> {
+        match self {
+            Op::Mul(rhs) => lhs.checked_mul(rhs),
+            Op::Div(rhs) => Some(lhs / rhs),
+            Op::Identity => Some(lhs),
+        }
+    }
 }
 
 pub(crate) const I420_PLANES: [PlaneDesc; 3] = [
-- 
2.43.0


From c3a58b1802da71d52fa9205505655c0b2251e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 19/20] fix: return early for images without columns

The height of an image without columns is not limited by the size of its buffer,
converting one looped over up to 2^63 empty rows.
---
 src/formats/visit_2x2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formats/visit_2x2.rs b/src/formats/visit_2x2.rs
index c1634db..58eacd1 100644
--- a/src/formats/visit_2x2.rs
+++ b/src/formats/visit_2x2.rs
@@ -13,6 +13,11 @@ where
     assert_eq!(width % 2, 0);
     assert_eq!(height % 2, 0);
 
+    // An image without any columns might still have a lot of rows
+    if width == 0 {
+        return Ok(());
+    }
+
     #[cfg(all(feature = "unstable", any(target_arch = "x86", target_arch = "x86_64")))]
     if is_x86_feature_detected!("avx512f") && is_x86_feature_detected!("avx512bw") {
         #[target_feature(enable = "avx512f", enable = "avx512bw")]
-- 
2.43.0


From 2e1d3e75dfbb7f1dc7260f9d5cf9f822c71b4381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 20/20] fix: refuse to resize images that don't pass the bounds
 check

Resizer::resize sliced the planes without looking at their length first and
panicked when these are smaller than the image claims to be.
---
 src/pixel_format.rs |  2 +-
 src/planes.rs       |  2 +-
 src/resize.rs       | 13 ++++++++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index 1800d46..9fb23b7 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -194,7 +194,7 @@ impl PixelFormat {
     }
 }
 
-#[derive(Debug, thiserror::Error)]
+#[derive(Debug, PartialEq, thiserror::Error)]
 pub enum BoundsCheckError {
     #[error(transparent)]
     InvalidNumberOfPlanes(#[from] InvalidNumberOfPlanesError),
diff --git a/src/planes.rs b/src/planes.rs
index 7d5c899..11034bc 100644
--- a/src/planes.rs
+++ b/src/planes.rs
@@ -8,7 +8,7 @@ use crate::{
 };
 use std::mem::MaybeUninit;
 
-#[derive(Debug, thiserror::Error)]
+#[derive(Debug, PartialEq, thiserror::Error)]
 #[error("got invalid number of planes, expected {expected} but only got {got}")]
 pub struct InvalidNumberOfPlanesError {
     pub expected: usize,
diff --git a/src/resize.rs b/src/resize.rs
index c5fdd90..6812ad5 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -1,4 +1,4 @@
-use crate::{ImageMut, ImageRef, PixelFormat};
+use crate::{BoundsCheckError, ImageMut, ImageRef, ImageRefExt, PixelFormat};
 use fir::{pixels::InnerPixel, IntoImageView, IntoImageViewMut};
 #[cfg(feature = "multi-thread")]
 use rayon::scope;
@@ -12,6 +12,7 @@ pub use fir::{Filter, FilterType, ResizeAlg};
 #[derive(Debug, PartialEq)]
 pub enum ResizeError {
     DifferentFormats(PixelFormat, PixelFormat),
+    BoundsCheck(BoundsCheckError),
 }
 
 impl fmt::Display for ResizeError {
@@ -21,12 +22,19 @@ impl fmt::Display for ResizeError {
                 f,
                 "source and destination images have different pixel formats (source image is {src:?} and destination is {dst:?})"
             ),
+            ResizeError::BoundsCheck(e) => e.fmt(f),
         }
     }
 }
 
 impl Error for ResizeError {}
 
+impl From<BoundsCheckError> for ResizeError {
+    fn from(e: BoundsCheckError) -> Self {
+        ResizeError::BoundsCheck(e)
+    }
+}
+
 /// Wrapper over [`fast_image_resize`](fir)
 #[derive(Clone)]
 pub struct Resizer {
@@ -51,6 +59,9 @@ impl Resizer {
             return Err(ResizeError::DifferentFormats(src.format(), dst.format()));
         }
 
+        src.bounds_check()?;
+        dst.bounds_check()?;
+
         let alg = self.alg;
 
         let desc = src.format().plane_desc();
-- 
2.43.0

