From 9c6244f5fb9b66e555e88956af0d71f16e880225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 01/44] fix: saturate high bit depth YUV to 8-bit RGB
 conversions at 255

---
 src/yuv_p10_rgba.rs       | 3 +--
 src/yuv_p16_rgba_alpha.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..c350b7e 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -147,8 +147,7 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
-        ((val + rounding) >> total_shift).min(max_value).max(0)
+        ((val + rounding) >> total_shift).min(255).max(0)
     }
 
     let process_wide_row =
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..1c050da 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,8 +105,7 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
-        ((val + rounding) >> total_shift).min(max_value).max(0)
+        ((val + rounding) >> total_shift).min(255).max(0)
     }
 
     let process_wide_row = |_y_plane: &[u16],
-- 
2.43.0


From d7193abb320b97f454daad6e9380fe5c6c41ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 02/44] fix: inverse transform of 10/12-bit to 8-bit RGB for
 matrices without built coefficients

---
 src/yuv_p10_rgba.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index c350b7e..8746836 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -83,7 +83,7 @@ fn yuv_p16_to_image_ant<
         stored
     } else {
         let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
+            (1 << BIT_DEPTH) - 1,
             chroma_range.range_y,
             chroma_range.range_uv,
             kr_kb.kr,
-- 
2.43.0


From 99b62546aaae672ce592eac1856ce8d58f65d733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 03/44] fix: big endian 10/12-bit to BGRA conversions store
 BGRA

---
 src/yuv_p10_rgba.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index 8746836..6c7d525 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -541,7 +541,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -629,7 +629,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -717,7 +717,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -805,7 +805,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From a5ea3bc234b1ca82a995a03c110d1bd973104dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 04/44] fix: opaque alpha is 255 in vectorised high bit depth
 to 8-bit RGBA

---
 src/avx2/yuv_p16_to_rgb8.rs     | 2 +-
 src/avx512bw/yuv_p16_to_rgb8.rs | 2 +-
 src/sse/yuv_p16_to_rgb8.rs      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..d9771ec 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm256_set1_epi8(255u8 as i8);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..df4b568 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm512_set1_epi8(255u8 as i8);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..97469b6 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm_set1_epi8(255u8 as i8);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
-- 
2.43.0


From b5bc9513ea9cfd035ddf3ee342d3f740f8151445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 05/44] fix: alpha plane of high bit depth images: big endian
 samples, second half of 32 pixel blocks

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 25 ++++++++++++++++++---
 src/avx2/yuv_p16_to_rgb8_alpha.rs  | 35 ++++++++++++++++++++----------
 src/sse/yuv_p16_to_rgb16_alpha.rs  |  9 +++++++-
 src/yuv_p16_rgba16_alpha.rs        | 11 ++++++----
 src/yuv_p16_rgba_alpha.rs          | 14 ++++++++----
 5 files changed, 70 insertions(+), 24 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..6aa8269 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -269,8 +269,19 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values1 = _mm256_min_epu16(zg1, v_max_colors);
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
-        let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values0 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values0 = _mm256_shuffle_epi8(a_values0, big_endian_shuffle_flag);
+            a_values1 = _mm256_shuffle_epi8(a_values1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values0);
+            a_values1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values1);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
@@ -379,7 +390,15 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values = _mm256_min_epu16(_mm256_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm256_min_epu16(_mm256_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm256_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..121eb11 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -253,13 +253,21 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let b_vals1 = _mm256_add_epi16(y_vals1, bvl1);
         let g_vals1 = _mm256_add_epi16(_mm256_add_epi16(y_vals1, gvl10), gvl11);
 
+        let mut a_vl0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_vl1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl0 = _mm256_shuffle_epi8(a_vl0, big_endian_shuffle_flag);
+            a_vl1 = _mm256_shuffle_epi8(a_vl1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl0);
+            a_vl1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl1);
+        }
         let a_values0 = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl0),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl1),
         );
 
         let r_values0 = avx2_pack_u16(
@@ -379,12 +387,15 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let g_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(g_vals), zeros);
         let b_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(b_vals), zeros);
 
-        let a_values = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            zeros,
-        );
+        let mut a_vl = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm256_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
+        let a_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl), zeros);
 
         _mm256_store_interleave_rgb_half_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb16_alpha.rs b/src/sse/yuv_p16_to_rgb16_alpha.rs
index 4f73c89..05e36cc 100644
--- a/src/sse/yuv_p16_to_rgb16_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb16_alpha.rs
@@ -207,7 +207,14 @@ unsafe fn sse_yuv_p16_to_rgba_alpha_row_impl<
         let g_values = _mm_min_epu16(_mm_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm_min_epu16(_mm_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        let mut a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..54a1c5c 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -247,7 +247,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_src[0];
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift);
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -262,7 +263,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u16;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u16;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u16;
-            rgba1[dst_chans.get_a_channel_offset()] = a_src[1];
+            rgba1[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift);
         }
 
         if image.width & 1 != 0 {
@@ -276,7 +278,7 @@ fn yuv_p16_to_image_alpha_ant<
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*v_plane.last().unwrap(), msb_shift)
                 as i32
                 - bias_uv;
-            let a_value = *a_plane.last().unwrap();
+            let a_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*a_plane.last().unwrap(), msb_shift);
             let rgba = rgba.chunks_exact_mut(channels).last().unwrap();
             let rgba0 = &mut rgba[0..channels];
 
@@ -340,7 +342,8 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u16;
                 rgba[dst_chans.get_g_channel_offset()] = g as u16;
                 rgba[dst_chans.get_b_channel_offset()] = b as u16;
-                rgba[dst_chans.get_a_channel_offset()] = a_src;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift);
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 1c050da..2663e77 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -230,7 +230,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_src[0] >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) >> store_shift).min(255)
+                    as u8;
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -244,7 +246,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u8;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u8;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u8;
-            rgba1[dst_chans.get_a_channel_offset()] = (a_src[1] >> store_shift).min(255) as u8;
+            rgba1[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) >> store_shift).min(255)
+                    as u8;
         }
 
         if image.width & 1 != 0 {
@@ -258,7 +262,7 @@ fn yuv_p16_to_image_alpha_ant<
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*v_plane.last().unwrap(), msb_shift)
                 as i32
                 - bias_uv;
-            let a_value = *a_plane.last().unwrap();
+            let a_value = to_ne::<ENDIANNESS, BYTES_POSITION>(*a_plane.last().unwrap(), msb_shift);
             let rgba = rgba.chunks_exact_mut(channels).last().unwrap();
             let rgba0 = &mut rgba[0..channels];
 
@@ -319,7 +323,9 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u8;
                 rgba[dst_chans.get_g_channel_offset()] = g as u8;
                 rgba[dst_chans.get_b_channel_offset()] = b as u8;
-                rgba[dst_chans.get_a_channel_offset()] = (a_src >> store_shift).min(255) as u8;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) >> store_shift).min(255)
+                        as u8;
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
-- 
2.43.0


From 9b270effa0fd90621d85b37040356d4f329b4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 06/44] fix: 4:2:2 high bit depth with alpha to 8-bit RGBA
 keeps to the row width

---
 src/yuv_p16_rgba_alpha.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 2663e77..3d6cd39 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -349,7 +349,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[0..image.width as usize],
+                &u_plane[0..(image.width as usize).div_ceil(2)],
+                &v_plane[0..(image.width as usize).div_ceil(2)],
+                &a_plane[0..image.width as usize],
+                &mut rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From d00b7bc2097d7faf4644102c0503709452fa7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 07/44] fix: SSE high bit depth with alpha to 8-bit RGBA stores
 8 pixels, reads alpha byte order

---
 src/sse/yuv_p16_to_rgb8_alpha.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..dae77a8 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,9 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{
+    _mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8,
+};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -210,14 +212,20 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
+        let mut a_vl = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
         let a_values = _mm_packus_epi16(
-            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(_mm_loadu_si128(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m128i,
-            )),
+            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl),
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
-- 
2.43.0


From 7fcad7817742d750e5580cb1ab6468bcff3227ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 08/44] fix: 4:4:4 high bit depth to AR30 keeps to the row
 width

---
 src/yuv_p16_ar30.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..8786587 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -170,6 +170,7 @@ fn yuv_p16_to_image_ar30<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
+            let y_plane = &y_plane[0..image.width as usize];
             for (((rgba, &y_src), &u_src), &v_src) in rgba
                 .chunks_exact_mut(4)
                 .zip(y_plane.iter())
-- 
2.43.0


From 84b5887ecc74950f70f5e193101ef40ed05ada20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 09/44] fix: RGB to 4:2:2 high bit depth keeps to the row width

---
 src/rgb16_to_yuv_p16.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..cd71da7 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -780,7 +780,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[0..image.width as usize],
+                &mut u_plane[0..(image.width as usize).div_ceil(2)],
+                &mut v_plane[0..(image.width as usize).div_ceil(2)],
+                &rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From f99e24573aa2f597dbfd640caca2bae8de0bbfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 10/44] fix: RGB to 4:2:0 high bit depth, luma of the second
 row

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index cd71da7..183e800 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
-- 
2.43.0


From f4a603660c7e501e6eebf765d86ecab5903abf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 11/44] fix: rgba12_to_i212_be writes 4:2:2

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index 183e800..ad0b794 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -1074,7 +1074,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
-- 
2.43.0


From 0e8e51d1984ee33387b5524f7f180786bb09b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 12/44] fix: RGB to P0xx with odd width, luma of the second row

---
 src/rgb_to_nv_p16.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..c91c9c2 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
-- 
2.43.0


From e2138c9835d862928bb6f603125a9019f24b8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 13/44] fix: rgb16/rgba16_to_p216 write 4:2:2

---
 src/rgb_to_nv_p16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index c91c9c2..2241d99 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -612,7 +612,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -621,7 +621,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From 7e90c947b3d9ce9d6af074142663cac2ef7a59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 14/44] fix: packed 4:2:2 to planar keeps to the row width in
 the V plane

---
 src/yuy2_to_yuv.rs     | 6 +++---
 src/yuy2_to_yuv_p16.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..c0fa33e 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -277,7 +277,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
 
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..8d4074e 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -215,7 +215,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let process_chroma = y & 1 == 0;
 
-- 
2.43.0


From afbbd366685e664848f4d40d17119af00dcaa481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 15/44] fix: packed 4:2:2 to planar converts the pixels after
 the vectorised part

---
 src/yuy2_to_yuv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index c0fa33e..0423995 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -288,7 +288,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                     .zip(u_dst.iter_mut())
                     .zip(v_dst.iter_mut())
                     .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
+                    .skip(p_offset.cx / 2)
                 {
                     let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                     let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-- 
2.43.0


From 692792c10dc3b89acd791172aa0a4c34d6b7e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:06 +0000
Subject: [PATCH 16/44] fix: packed 4:2:2 to 4:2:0 with odd width, last luma of
 a row

---
 src/yuy2_to_yuv.rs     | 2 +-
 src/yuy2_to_yuv_p16.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index 0423995..bfcd99a 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -304,7 +304,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 8d4074e..f1974ce 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -239,7 +239,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
-- 
2.43.0


From a6b2da842eb897de7c87d13424941bb95b4e246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 17/44] fix: packed 4:2:2 to 4:2:0 with odd height converts the
 last row

---
 src/yuy2_to_yuv.rs     | 110 ++++++++++++++++++++++++-----------------
 src/yuy2_to_yuv_p16.rs | 104 ++++++++++++++++++++++----------------
 2 files changed, 125 insertions(+), 89 deletions(-)

diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index bfcd99a..cd5499b 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -243,6 +243,56 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_rows =
+            |y_dst: &mut [u8], u_dst: &mut [u8], v_dst: &mut [u8], yuy2_src: &[u8]| {
+                for (y, (y_dst, yuy2)) in y_dst
+                    .chunks_exact_mut(y_stride as usize)
+                    .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
+                    .enumerate()
+                {
+                    let yuy2 = &yuy2[0..yuy2_width];
+                    let y_dst = &mut y_dst[0..planar_image.width as usize];
+                    let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                    let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+                    let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
+
+                    let process_chroma = y & 1 == 0;
+
+                    for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                        .chunks_exact_mut(2)
+                        .zip(u_dst.iter_mut())
+                        .zip(v_dst.iter_mut())
+                        .zip(yuy2.chunks_exact(4))
+                        .skip(p_offset.cx / 2)
+                    {
+                        let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                        let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                        y_dst[0] = first_y_position;
+                        y_dst[1] = second_y_position;
+                        if process_chroma {
+                            let u_value = yuy2[yuy2_target.get_u_position()];
+                            let v_value = yuy2[yuy2_target.get_v_position()];
+                            *u_dst = u_value;
+                            *v_dst = v_value;
+                        }
+                    }
+
+                    if width & 1 != 0 {
+                        let y_dst = y_dst.last_mut().unwrap();
+                        let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                        let yuy2 = &yuy2[0..4];
+                        *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                        if process_chroma {
+                            let u_dst = u_dst.last_mut().unwrap();
+                            let v_dst = v_dst.last_mut().unwrap();
+                            *u_dst = yuy2[yuy2_target.get_u_position()];
+                            *v_dst = yuy2[yuy2_target.get_v_position()];
+                        }
+                    }
+                }
+            };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -269,53 +319,21 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx / 2)
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
-            }
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
         });
+
+        if planar_image.height & 1 != 0 {
+            let y_dst = y_plane
+                .chunks_exact_mut(y_stride as usize * 2)
+                .into_remainder();
+            let u_dst = u_plane.chunks_exact_mut(u_stride as usize).last().unwrap();
+            let v_dst = v_plane.chunks_exact_mut(v_stride as usize).last().unwrap();
+            let yuy2_src = packed_image
+                .yuy
+                .chunks_exact(packed_image.yuy_stride as usize * 2)
+                .remainder();
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
+        }
     }
 
     Ok(())
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index f1974ce..32e2928 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -181,6 +181,53 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
+        let process_rows =
+            |y_dst: &mut [u16], u_dst: &mut [u16], v_dst: &mut [u16], yuy2_src: &[u16]| {
+                for (y, (y_dst, yuy2)) in y_dst
+                    .chunks_exact_mut(y_stride as usize)
+                    .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
+                    .enumerate()
+                {
+                    let yuy2 = &yuy2[0..yuy2_width];
+                    let y_dst = &mut y_dst[0..planar_image.width as usize];
+                    let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                    let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
+
+                    let process_chroma = y & 1 == 0;
+
+                    for (((y_dst, u_dst), v_dst), yuy2) in y_dst
+                        .chunks_exact_mut(2)
+                        .zip(u_dst.iter_mut())
+                        .zip(v_dst.iter_mut())
+                        .zip(yuy2.chunks_exact(4))
+                    {
+                        let first_y_position = yuy2[yuy2_target.get_first_y_position()];
+                        let second_y_position = yuy2[yuy2_target.get_second_y_position()];
+                        y_dst[0] = first_y_position;
+                        y_dst[1] = second_y_position;
+                        if process_chroma {
+                            let u_value = yuy2[yuy2_target.get_u_position()];
+                            let v_value = yuy2[yuy2_target.get_v_position()];
+                            *u_dst = u_value;
+                            *v_dst = v_value;
+                        }
+                    }
+
+                    if width & 1 != 0 {
+                        let y_dst = y_dst.last_mut().unwrap();
+                        let yuy2 = yuy2.chunks_exact(4).last().unwrap();
+                        let yuy2 = &yuy2[0..4];
+                        *y_dst = yuy2[yuy2_target.get_first_y_position()];
+                        if process_chroma {
+                            let u_dst = u_dst.last_mut().unwrap();
+                            let v_dst = v_dst.last_mut().unwrap();
+                            *u_dst = yuy2[yuy2_target.get_u_position()];
+                            *v_dst = yuy2[yuy2_target.get_v_position()];
+                        }
+                    }
+                }
+            };
+
         let iter;
         #[cfg(feature = "rayon")]
         {
@@ -207,50 +254,21 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
-            for (y, (y_dst, yuy2)) in y_dst
-                .chunks_exact_mut(y_stride as usize)
-                .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
-                .enumerate()
-            {
-                let yuy2 = &yuy2[0..yuy2_width];
-                let y_dst = &mut y_dst[0..planar_image.width as usize];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
-
-                let process_chroma = y & 1 == 0;
-
-                for (((y_dst, u_dst), v_dst), yuy2) in y_dst
-                    .chunks_exact_mut(2)
-                    .zip(u_dst.iter_mut())
-                    .zip(v_dst.iter_mut())
-                    .zip(yuy2.chunks_exact(4))
-                {
-                    let first_y_position = yuy2[yuy2_target.get_first_y_position()];
-                    let second_y_position = yuy2[yuy2_target.get_second_y_position()];
-                    y_dst[0] = first_y_position;
-                    y_dst[1] = second_y_position;
-                    if process_chroma {
-                        let u_value = yuy2[yuy2_target.get_u_position()];
-                        let v_value = yuy2[yuy2_target.get_v_position()];
-                        *u_dst = u_value;
-                        *v_dst = v_value;
-                    }
-                }
-
-                if width & 1 != 0 {
-                    let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
-                    let yuy2 = &yuy2[0..4];
-                    *y_dst = yuy2[yuy2_target.get_first_y_position()];
-                    if process_chroma {
-                        let u_dst = u_dst.last_mut().unwrap();
-                        let v_dst = v_dst.last_mut().unwrap();
-                        *u_dst = yuy2[yuy2_target.get_u_position()];
-                        *v_dst = yuy2[yuy2_target.get_v_position()];
-                    }
-                }
-            }
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
         });
+
+        if planar_image.height & 1 != 0 {
+            let y_dst = y_plane
+                .chunks_exact_mut(y_stride as usize * 2)
+                .into_remainder();
+            let u_dst = u_plane.chunks_exact_mut(u_stride as usize).last().unwrap();
+            let v_dst = v_plane.chunks_exact_mut(v_stride as usize).last().unwrap();
+            let yuy2_src = packed_image
+                .yuy
+                .chunks_exact(packed_image.yuy_stride as usize * 2)
+                .remainder();
+            process_rows(y_dst, u_dst, v_dst, yuy2_src);
+        }
     }
 
     Ok(())
-- 
2.43.0


From ad83d604d0bef698731c22a06c86733c1eb7b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 18/44] fix: vectorised 4:4:4 to packed 4:2:2 averages
 neighbouring chroma

---
 src/avx2/avx2_utils.rs |  2 +-
 src/sse/yuv_to_yuy2.rs | 10 ++--------
 src/yuv_to_yuy2.rs     |  2 +-
 3 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..0dc7a3f 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -470,7 +470,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    avx2_pack_u16(lo, hi)
 }
 
 #[inline(always)]
diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..ffb056c 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -142,14 +142,8 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
 
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
-
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                u_pixels = _mm_havg_epu8(full_u, _mm_setzero_si128());
+                v_pixels = _mm_havg_epu8(full_v, _mm_setzero_si128());
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
-- 
2.43.0


From 64d0e44d242e42c9661431100d13fd11670cd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 19/44] fix: YCgCo chroma of the last pixel of an odd width row

---
 src/rgb_to_ycgco.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index 6a25409..d6f3483 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -124,7 +124,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
 
                 *y_last = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_uv as i32;
                 b0 *= range_reduction_uv as i32;
 
@@ -291,7 +291,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                     >> PRECISION;
                 *y_dst = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_y as i32;
                 b0 *= range_reduction_y as i32;
 
-- 
2.43.0


From 5bcebe84089d8cb67cd3c5296055d45f3d0f6f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 20/44] fix: vectorised 8-bit to f16 keeps fractional values

---
 src/avx2/f16_converter.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..0db4b75 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -176,8 +174,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
-- 
2.43.0


From 52719dbea88db7063ed54da059e09ecf49faaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 21/44] fix: vectorised 8-bit to f16, last samples of a row

---
 src/avx2/f16_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 0db4b75..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -169,7 +169,7 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
-- 
2.43.0


From ad65d3ab3bf776bada13835361307d4ca95d13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 22/44] fix: vectorised 16-bit to f16 treats samples as
 unsigned

---
 src/avx2/f16_converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index b24270f..3ed3695 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -45,8 +45,8 @@ impl SurfaceU16ToFloat16Avx2 {
         for (src, dst) in src.chunks_exact(16).zip(dst.chunks_exact_mut(16)) {
             let items = _mm256_loadu_si256(src.as_ptr() as *const _);
 
-            let lc = _mm256_cvtepi16_epi32(_mm256_castsi256_si128(items));
-            let hc = _mm256_cvtepi16_epi32(_mm256_extracti128_si256::<1>(items));
+            let lc = _mm256_cvtepu16_epi32(_mm256_castsi256_si128(items));
+            let hc = _mm256_cvtepu16_epi32(_mm256_extracti128_si256::<1>(items));
 
             let elc = _mm256_cvtepi32_ps(lc);
             let ehc = _mm256_cvtepi32_ps(hc);
@@ -69,7 +69,7 @@ impl SurfaceU16ToFloat16Avx2 {
             let items = _mm_loadu_si128(src.as_ptr() as *const _);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
-                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                _mm256_cvtepi32_ps(_mm256_cvtepu16_epi32(items)),
                 v_scale_h,
             ));
 
@@ -90,7 +90,7 @@ impl SurfaceU16ToFloat16Avx2 {
             let items = _mm_loadu_si128(src_buffer.as_ptr() as *const _);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
-                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                _mm256_cvtepi32_ps(_mm256_cvtepu16_epi32(items)),
                 v_scale_h,
             ));
 
-- 
2.43.0


From 125ce1bead3ea5f4c4154875ce6e56cd3606364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 23/44] fix: opaque alpha of AVX2 high bit depth to f16 RGBA is
 1.0

---
 src/avx2/yuv_p16_to_rgb_f16.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..6238e91 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -106,6 +106,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     const D: bool = false;
 
     let v_max_colors = _mm256_set1_epi16(((1i32 << BIT_DEPTH as i32) - 1i32) as i16);
+    let v_alpha = _mm256_set1_epi16(1f16.to_bits() as i16);
     let v_luma_coeff = if BIT_DEPTH == 16 {
         _mm256_set1_epi32(transform.y_coef)
     } else {
@@ -279,7 +280,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 16;
@@ -466,7 +467,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
-- 
2.43.0


From 7fd13a2d52bd53712147fc756e5cd8a99f55852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 24/44] fix: expand SSE bi-planar high bit depth chroma per
 16-bit lane

---
 src/sse/yuv_nv_p16_to_rgb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..9716d6f 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,13 +177,13 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_2 = _mm_unpacklo_epi16(u_values_c, u_values_c);
+                let v_values_2 = _mm_unpacklo_epi16(v_values_c, v_values_c);
 
-                u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
-                v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
-                u_low = _mm_unpacklo_epi32(u_values_32, u_values_32);
-                v_low = _mm_unpacklo_epi32(v_values_32, v_values_32);
+                u_high = _mm_unpackhi_epi16(u_values_2, zeros);
+                v_high = _mm_unpackhi_epi16(v_values_2, zeros);
+                u_low = _mm_unpacklo_epi16(u_values_2, zeros);
+                v_low = _mm_unpacklo_epi16(v_values_2, zeros);
             }
             YuvChromaSubsampling::Yuv444 => {
                 let uv_ld = uv_ld_ptr.get_unchecked(ux..).as_ptr();
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, zeros);
+                v_low = _mm_unpacklo_epi16(v_values_c, zeros);
             }
         }
 
-- 
2.43.0


From 36dce74abaf18215f47e6f51bb8fe3c45a68cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 25/44] fix: use second row green for SSE high bit depth 4:2:0
 luma

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From a3bbd1ae5ea634c81bbcb28293b8f4d32202e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 26/44] fix: AVX-512 RGB to 16-bit YUV stores the last chroma
 of a row

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From 1e497ce73471d7f79fbdb48a28ddcd3d4b8d91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 27/44] fix: AVX2 RGB to luma converts all 16 pixels of a half
 block

---
 src/avx2/rgb_to_y.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..dc90ef8 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -111,6 +111,10 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
+
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
@@ -128,6 +132,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
         let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = _mm256_permute4x64_epi64::<0x08>(y_yuv);
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,6 +156,10 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
+
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
@@ -168,6 +177,7 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
         let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv = _mm256_permute4x64_epi64::<0x08>(y_yuv);
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From 3cac63c81d7636116716152726a45d250436b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 28/44] fix: AVX-512 VNNI fast RGB to YUV adds the bias once

---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From 913c87262b6854847847b9020a3907b6ebcd613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 29/44] fix: SMPTE 240M luma weights are Kr 0.212, Kb 0.087

---
 coeffs/src/main.rs        |  4 ++--
 src/built_coefficients.rs | 40 +++++++++++++++++++--------------------
 src/yuv_support.rs        |  4 ++--
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/coeffs/src/main.rs b/coeffs/src/main.rs
index ac002cb..75a6377 100644
--- a/coeffs/src/main.rs
+++ b/coeffs/src/main.rs
@@ -351,8 +351,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
diff --git a/src/built_coefficients.rs b/src/built_coefficients.rs
index fe98e8a..76826be 100644
--- a/src/built_coefficients.rs
+++ b/src/built_coefficients.rs
@@ -245,27 +245,27 @@ static FORWARD_BT2020_FULL_12_13PREC: CbCrForwardTransform<i32> = CbCrForwardTra
 };
 
 static FORWARD_SMPTE240_LIMITED_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 612,
+    yr: 1492,
     yg: 4932,
-    yb: 1492,
-    cb_r: -397,
-    cb_g: -3201,
+    yb: 612,
+    cb_r: -835,
+    cb_g: -2763,
     cb_b: 3598,
     cr_r: 3598,
-    cr_g: -2763,
-    cr_b: -835,
+    cr_g: -3201,
+    cr_b: -397,
 };
 
 static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 713,
+    yr: 1737,
     yg: 5743,
-    yb: 1737,
-    cb_r: -452,
-    cb_g: -3644,
+    yb: 713,
+    cb_r: -951,
+    cb_g: -3145,
     cb_b: 4096,
     cr_r: 4096,
-    cr_g: -3145,
-    cr_b: -951,
+    cr_g: -3644,
+    cr_b: -452,
 };
 
 static FORWARD_BT470_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
@@ -416,18 +416,18 @@ static INVERSE_BT2020_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTran
 
 static INVERSE_SMPTE240_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 9539,
-    cr_coef: 17029,
-    cb_coef: 14697,
-    g_coeff_1: 2113,
-    g_coeff_2: 4445,
+    cr_coef: 14697,
+    cb_coef: 17029,
+    g_coeff_1: 4445,
+    g_coeff_2: 2113,
 };
 
 static INVERSE_SMPTE240_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 8192,
-    cr_coef: 14959,
-    cb_coef: 12911,
-    g_coeff_1: 1856,
-    g_coeff_2: 3904,
+    cr_coef: 12911,
+    cb_coef: 14959,
+    g_coeff_1: 3904,
+    g_coeff_2: 1856,
 };
 
 static INVERSE_BT470_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 8c4f39d..723ea22 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -301,8 +301,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From 7195e21022274bab494bb5f231a44f76964ddf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:37 +0000
Subject: [PATCH 30/44] fix: scalar fast mode RGB to YUV saturates luma at 255

---
 src/rgba_to_nv.rs  | 20 ++++++++++----------
 src/rgba_to_yuv.rs | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/rgba_to_nv.rs b/src/rgba_to_nv.rs
index 6fdf2c2..fa0878e 100644
--- a/src/rgba_to_nv.rs
+++ b/src/rgba_to_nv.rs
@@ -633,7 +633,7 @@ fn rgbx_to_nv_impl<
                 let b0 = rgba0[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[0] = y_0 as u8;
+                y_dst[0] = y_0.min(255) as u8;
 
                 let rgba1 = &rgba[channels..channels * 2];
 
@@ -643,7 +643,7 @@ fn rgbx_to_nv_impl<
 
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[1] = y_1 as u8;
+                y_dst[1] = y_1.min(255) as u8;
 
                 let r = (r0 + r1 + 1) >> 1;
                 let g = (g0 + g1 + 1) >> 1;
@@ -668,7 +668,7 @@ fn rgbx_to_nv_impl<
                 let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[0] = y_0 as u8;
+                y_dst[0] = y_0.min(255) as u8;
 
                 let cb =
                     (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
@@ -712,7 +712,7 @@ fn rgbx_to_nv_impl<
                 let b00 = rgba00[src_chans.get_b_channel_offset()] as i32;
                 let y_00 = (r00 * transform.yr + g00 * transform.yg + b00 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[0] = y_00 as u8;
+                y_dst0[0] = y_00.min(255) as u8;
 
                 let rgba01 = &rgba0[channels..channels * 2];
 
@@ -722,7 +722,7 @@ fn rgbx_to_nv_impl<
 
                 let y_1 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[1] = y_1 as u8;
+                y_dst0[1] = y_1.min(255) as u8;
 
                 let rgba10 = &rgba1[0..channels];
                 let r10 = rgba10[src_chans.get_r_channel_offset()] as i32;
@@ -730,7 +730,7 @@ fn rgbx_to_nv_impl<
                 let b10 = rgba10[src_chans.get_b_channel_offset()] as i32;
                 let y_10 = (r10 * transform.yr + g10 * transform.yg + b10 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[0] = y_10 as u8;
+                y_dst1[0] = y_10.min(255) as u8;
 
                 let rgba11 = &rgba1[channels..channels * 2];
                 let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
@@ -738,7 +738,7 @@ fn rgbx_to_nv_impl<
                 let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
                 let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[1] = y_11 as u8;
+                y_dst1[1] = y_11.min(255) as u8;
 
                 let r = (r00 + r01 + r10 + r11 + 2) >> 2;
                 let g = (g00 + g01 + g10 + g11 + 2) >> 2;
@@ -766,14 +766,14 @@ fn rgbx_to_nv_impl<
                 let b0 = rgba0[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[0] = y_0 as u8;
+                y_dst0[0] = y_0.min(255) as u8;
 
                 let r1 = rgba1[src_chans.get_r_channel_offset()] as i32;
                 let g1 = rgba1[src_chans.get_g_channel_offset()] as i32;
                 let b1 = rgba1[src_chans.get_b_channel_offset()] as i32;
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[0] = y_1 as u8;
+                y_dst1[0] = y_1.min(255) as u8;
 
                 let r = (r0 + r1 + 1) >> 1;
                 let g = (g0 + g1 + 1) >> 1;
@@ -833,7 +833,7 @@ fn rgbx_to_nv_impl<
                     let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
                     let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                         >> PRECISION;
-                    *y_dst = y_0 as u8;
+                    *y_dst = y_0.min(255) as u8;
                     let cb =
                         (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
                             >> PRECISION;
diff --git a/src/rgba_to_yuv.rs b/src/rgba_to_yuv.rs
index 45649d4..e79231a 100644
--- a/src/rgba_to_yuv.rs
+++ b/src/rgba_to_yuv.rs
@@ -719,7 +719,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b0 = src0[src_chans.get_b_channel_offset()] as i32;
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[0] = y_0 as u8;
+                y_dst[0] = y_0.min(255) as u8;
 
                 let src1 = &rgba[channels..channels * 2];
 
@@ -728,7 +728,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b1 = src1[src_chans.get_b_channel_offset()] as i32;
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst[1] = y_1 as u8;
+                y_dst[1] = y_1.min(255) as u8;
 
                 let r = (r0 + r1 + 1) >> 1;
                 let g = (g0 + g1 + 1) >> 1;
@@ -754,7 +754,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
 
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                *y_last = y_0 as u8;
+                *y_last = y_0.min(255) as u8;
 
                 let cb =
                     (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
@@ -804,7 +804,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b00 = src00[src_chans.get_b_channel_offset()] as i32;
                 let y_00 = (r00 * transform.yr + g00 * transform.yg + b00 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[0] = y_00 as u8;
+                y_dst0[0] = y_00.min(255) as u8;
 
                 let src1 = &rgba0[channels..channels * 2];
 
@@ -813,7 +813,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b01 = src1[src_chans.get_b_channel_offset()] as i32;
                 let y_01 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst0[1] = y_01 as u8;
+                y_dst0[1] = y_01.min(255) as u8;
 
                 let src10 = &rgba1[0..channels];
 
@@ -822,7 +822,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b10 = src10[src_chans.get_b_channel_offset()] as i32;
                 let y_10 = (r10 * transform.yr + g10 * transform.yg + b10 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[0] = y_10 as u8;
+                y_dst1[0] = y_10.min(255) as u8;
 
                 let src11 = &rgba1[channels..channels * 2];
 
@@ -831,7 +831,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                 let b11 = src11[src_chans.get_b_channel_offset()] as i32;
                 let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                     >> PRECISION;
-                y_dst1[1] = y_11 as u8;
+                y_dst1[1] = y_11.min(255) as u8;
 
                 let ruv = (r00 + r01 + r10 + r11 + 2) >> 2;
                 let guv = (g00 + g01 + g10 + g11 + 2) >> 2;
@@ -865,11 +865,11 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
 
                 let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                     >> PRECISION;
-                *y0_last = y_0 as u8;
+                *y0_last = y_0.min(255) as u8;
 
                 let y_1 = (r1 * transform.yr + g1 * transform.yg + b1 * transform.yb + bias_y)
                     >> PRECISION;
-                *y1_last = y_1 as u8;
+                *y1_last = y_1.min(255) as u8;
 
                 let r0 = (r0 + r1) >> 1;
                 let g0 = (g0 + g1) >> 1;
@@ -937,7 +937,7 @@ fn rgbx_to_yuv8_impl<const ORIGIN_CHANNELS: u8, const SAMPLING: u8, const PRECIS
                     let b0 = rgba[src_chans.get_b_channel_offset()] as i32;
                     let y_0 = (r0 * transform.yr + g0 * transform.yg + b0 * transform.yb + bias_y)
                         >> PRECISION;
-                    *y_dst = y_0 as u8;
+                    *y_dst = y_0.min(255) as u8;
 
                     let cb =
                         (r0 * transform.cb_r + g0 * transform.cb_g + b0 * transform.cb_b + bias_uv)
-- 
2.43.0


From 297c12695e9ba1c262c8c6999505a871a039476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 31/44] fix: interleaved chroma check computes its row width
 without 32-bit overflow

---
 src/yuv_error.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..b55c5be 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -248,25 +248,27 @@ pub(crate) fn check_interleaved_chroma_channel<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     let chroma_min_width = match sampling {
-        YuvChromaSubsampling::Yuv420 | YuvChromaSubsampling::Yuv422 => image_width.div_ceil(2) * 2,
-        YuvChromaSubsampling::Yuv444 => image_width * 2,
+        YuvChromaSubsampling::Yuv420 | YuvChromaSubsampling::Yuv422 => {
+            image_width.div_ceil(2) as usize * 2
+        }
+        YuvChromaSubsampling::Yuv444 => image_width as usize * 2,
     };
     let chroma_height = match sampling {
         YuvChromaSubsampling::Yuv420 => image_height.div_ceil(2),
         YuvChromaSubsampling::Yuv422 | YuvChromaSubsampling::Yuv444 => image_height,
     };
     check_overflow_v2(stride as usize, chroma_height as usize)?;
-    check_overflow_v2(chroma_min_width as usize, chroma_height as usize)?;
+    check_overflow_v2(chroma_min_width, chroma_height as usize)?;
     if (stride as usize * chroma_height as usize)
-        < (chroma_min_width as usize * chroma_height as usize)
+        < (chroma_min_width * chroma_height as usize)
     {
         return Err(YuvError::ChromaPlaneMinimumSizeMismatch(MismatchedSize {
-            expected: chroma_min_width as usize * chroma_height as usize,
+            expected: chroma_min_width * chroma_height as usize,
             received: stride as usize * chroma_height as usize,
         }));
     }
     if stride as usize * chroma_height as usize != data.len()
-        || chroma_min_width as usize * chroma_height as usize != data.len()
+        || chroma_min_width * chroma_height as usize != data.len()
     {
         return Err(YuvError::ChromaPlaneSizeMismatch(MismatchedSize {
             expected: stride as usize * chroma_height as usize,
-- 
2.43.0


From 494d75d908645c4f54fac95074034e6de4b0d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 32/44] fix: high bit depth grey to RGB checks its buffers
 before converting

---
 src/y_p16_to_rgb16.rs            | 5 +++++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..7e720ea 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,10 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
+
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0


From 7cd0aba5636e4730764d03583916b76523c75ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 33/44] fix: rgb_to_ycgco444 scales all channels of the chroma
 by the chroma range

---
 src/rgb_to_ycgco.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index d6f3483..155d186 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -292,8 +292,8 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                 *y_dst = y_0 as u8;
 
                 r0 *= range_reduction_uv as i32;
-                g0 *= range_reduction_y as i32;
-                b0 *= range_reduction_y as i32;
+                g0 *= range_reduction_uv as i32;
+                b0 *= range_reduction_uv as i32;
 
                 let cg = (((g0 >> 1) - ((r0 + b0) >> 2)) + bias_uv) >> PRECISION;
                 let co = (((r0 - b0) >> 1) + bias_uv) >> PRECISION;
-- 
2.43.0


From 77e70842a1181098ad793acb6872e333c8dc3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 34/44] fix: limited-range identity to f16 rounds its
 coefficient like the integer conversions

---
 src/from_identity_alpha_f16.rs | 4 ++--
 src/from_identity_f16.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..7a9d156 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -408,8 +408,8 @@ where
             // All channels on identity should use Y range
             let range = get_yuv_range(BIT_DEPTH as u32, yuv_range);
             let range_rgba = (1 << BIT_DEPTH) - 1;
-            let y_coef =
-                ((range_rgba as f32 / range.range_y as f32) * (1 << PRECISION) as f32) as i16;
+            let y_coef = ((range_rgba as f32 / range.range_y as f32) * (1 << PRECISION) as f32)
+                .round() as i16;
             let y_bias = range.bias_y.as_();
 
             let iter = y_iter.zip(u_iter).zip(v_iter).zip(rgb_iter).zip(a_iter);
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..d44c529 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -373,8 +373,8 @@ where
             // All channels on identity should use Y range
             let range = get_yuv_range(BIT_DEPTH as u32, yuv_range);
             let range_rgba = (1 << BIT_DEPTH) - 1;
-            let y_coef =
-                ((range_rgba as f32 / range.range_y as f32) * (1 << PRECISION) as f32) as i16;
+            let y_coef = ((range_rgba as f32 / range.range_y as f32) * (1 << PRECISION) as f32)
+                .round() as i16;
             let y_bias = range.bias_y.as_();
 
             let iter = y_iter.zip(u_iter).zip(v_iter).zip(rgb_iter);
-- 
2.43.0


From 3c2383735d5a0070adca0b5e343198460c480b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 35/44] fix: rotate planes by 180 degrees between different
 strides

---
 src/geometry.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 08b976b..2929632 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -53,6 +53,37 @@ pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), Yu
     }
 }
 
+/// `rotate180_plane` from `fast_transpose` accepts only equal strides
+fn rotate180_plane_strided<V: Copy>(
+    src: &[V],
+    src_stride: usize,
+    dst: &mut [V],
+    dst_stride: usize,
+    width: usize,
+    height: usize,
+) -> Result<(), TransposeError> {
+    if src.len() != src_stride * height
+        || dst.len() != dst_stride * height
+        || src_stride < width
+        || dst_stride < width
+    {
+        return Err(TransposeError::MismatchDimensions);
+    }
+    if width == 0 {
+        return Ok(());
+    }
+    for (dst, src) in dst
+        .chunks_exact_mut(dst_stride)
+        .rev()
+        .zip(src.chunks_exact(src_stride))
+    {
+        for (dst, src) in dst[..width].iter_mut().rev().zip(src[..width].iter()) {
+            *dst = *src;
+        }
+    }
+    Ok(())
+}
+
 /// Rotates RGBA 8 bit image.
 ///
 /// This rotates any 4 channels image, channel order does not matter.
@@ -244,6 +275,9 @@ pub fn rotate_plane(
             FlipMode::NoFlip,
             FlopMode::NoFlop,
         ),
+        RotationMode::Rotate180 if src_stride != dst_stride => {
+            rotate180_plane_strided(src, src_stride, dst, dst_stride, width, height)
+        }
         RotationMode::Rotate180 => rotate180_plane(src, src_stride, dst, dst_stride, width, height),
         RotationMode::Rotate270 => transpose_plane(
             src,
@@ -452,6 +486,9 @@ pub fn rotate_plane16(
             FlipMode::NoFlip,
             FlopMode::NoFlop,
         ),
+        RotationMode::Rotate180 if src_stride != dst_stride => {
+            rotate180_plane_strided(src, src_stride, dst, dst_stride, width, height)
+        }
         RotationMode::Rotate180 => {
             rotate180_plane16(src, src_stride, dst, dst_stride, width, height)
         }
-- 
2.43.0


From 7d35abb5b6cbfa1705a9cedc9074b4b38b528d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:52 +0000
Subject: [PATCH 36/44] fix: keep full-range luma weights from summing to more
 than one

Rounded one by one they reached 129/128 (BT.2020, fast mode) and
32769/32768 (BT.601, 16 bit): white overflowed the 16 or 32 bit
accumulator of the encoders and was stored as black.
---
 src/yuv_support.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 723ea22..59a76df 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -155,10 +155,15 @@ pub trait ToIntegerTransform {
 impl ToIntegerTransform for CbCrForwardTransform<f32> {
     fn to_integers(&self, precision: u32) -> CbCrForwardTransform<i32> {
         let scale = (1 << precision) as f32;
+        let yr = (self.yr * scale).round() as i32;
+        let yb = (self.yb * scale).round() as i32;
+        // Rounded one by one, luma weights may sum to more than one, and white then overflows
+        // the accumulators which are only wide enough for the weights that sum to one.
+        let yg = ((self.yg * scale).round() as i32).min((1 << precision) - yr - yb);
         CbCrForwardTransform::<i32> {
-            yr: (self.yr * scale).round() as i32,
-            yg: (self.yg * scale).round() as i32,
-            yb: (self.yb * scale).round() as i32,
+            yr,
+            yg,
+            yb,
             cb_r: (self.cb_r * scale).round() as i32,
             cb_g: (self.cb_g * scale).round() as i32,
             cb_b: (self.cb_b * scale).round() as i32,
-- 
2.43.0


From d65678c11f999e66e9197421b4002f928e05047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:39 +0000
Subject: [PATCH 37/44] fix: read big-endian 4:2:2 planes with alpha as
 big-endian in 16-bit decodes

---
 src/yuv_p16_rgba16_alpha.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 54a1c5c..9680012 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -524,7 +524,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -610,7 +610,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -631,7 +631,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From 23152e196a9dd5501fe892c0da3955b754ef111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 38/44] fix: subtract the luma bias from 8-bit luma with
 unsigned saturation in SSE tails and AVX-512 gray decodes

---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From 37f7eddc03e74ccc2bb75d6e961bcdc08b639e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:09 +0000
Subject: [PATCH 39/44] fix: use the blue coefficient for blue in the tail of
 the SSE 4:2:0 semi-planar decode

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From eba73d577c23c16d0833fcd0bdefe282777981af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 40/44] fix: saturate fast-mode decode sums instead of letting
 them wrap

---
 src/avx2/yuv_nv_to_rgba_fast.rs        | 24 ++++++-------
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 48 +++++++++++++-------------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 48 +++++++++++++-------------
 src/sse/yuv_nv_to_rgba_fast.rs         | 24 ++++++-------
 src/sse/yuv_nv_to_rgba_fast420.rs      | 48 +++++++++++++-------------
 5 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 4ed1e6a..b81bf7d 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -167,13 +167,13 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -302,13 +302,13 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 2793803..6584a10 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -125,13 +125,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -139,13 +139,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -249,13 +249,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -263,13 +263,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 2270f4b..7e52afc 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -177,13 +177,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -191,13 +191,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
@@ -301,13 +301,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -315,13 +315,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index fea2de2..225161d 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -151,13 +151,13 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -265,13 +265,13 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index d58f035..5d96025 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -121,13 +121,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -135,13 +135,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -245,13 +245,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -259,13 +259,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
-- 
2.43.0


From 2e56466379a7967b96b568f8d768af8035aefac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 41/44] fix: reject packed 4:2:2 images whose stride does not
 match their rows and length

---
 src/yuv_error.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index b55c5be..57c68df 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -157,12 +157,14 @@ pub(crate) fn check_yuv_packed422<V>(
     }
     check_overflow_v2(stride as usize, height as usize)?;
     check_overflow_v2(width as usize, height as usize)?;
-    let full_size = if width % 2 == 0 {
-        2 * width as usize * height as usize
-    } else {
-        2 * (width as usize + 1) * height as usize
-    };
-    if data.len() != full_size {
+    let row_size = 2 * (width as usize).next_multiple_of(2);
+    if (stride as usize) < row_size {
+        return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
+            expected: row_size,
+            received: stride as usize,
+        }));
+    }
+    if data.len() != stride as usize * height as usize {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
-- 
2.43.0


From b4afcc971058e7401fa93bbce4162f01df552521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:20 +0000
Subject: [PATCH 42/44] fix: treat mirroring an empty image as a no-op instead
 of panicking

---
 src/mirroring.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mirroring.rs b/src/mirroring.rs
index 3eda646..aa84381 100644
--- a/src/mirroring.rs
+++ b/src/mirroring.rs
@@ -66,6 +66,9 @@ pub fn mirror_rgba(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => flop_rgba(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgba(src, src_stride, dst, dst_stride, width, height),
@@ -98,6 +101,9 @@ pub fn mirror_rgb(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => flop_rgb(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgb(src, src_stride, dst, dst_stride, width, height),
@@ -130,6 +136,9 @@ pub fn mirror_cbcr(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => {
             flop_plane_with_alpha(src, src_stride, dst, dst_stride, width, height)
@@ -166,6 +175,9 @@ pub fn mirror_plane(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => flop_plane(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_plane(src, src_stride, dst, dst_stride, width, height),
@@ -198,6 +210,9 @@ pub fn mirror_rgba16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => flop_rgba16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgba16(src, src_stride, dst, dst_stride, width, height),
@@ -230,6 +245,9 @@ pub fn mirror_rgb16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => flop_rgb16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_rgb16(src, src_stride, dst, dst_stride, width, height),
@@ -262,6 +280,9 @@ pub fn mirror_cbcr16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => {
             flop_plane16_with_alpha(src, src_stride, dst, dst_stride, width, height)
@@ -298,6 +319,9 @@ pub fn mirror_plane16(
     height: usize,
     mode: MirrorMode,
 ) -> Result<(), YuvError> {
+    if width == 0 || height == 0 {
+        return Ok(());
+    }
     let rs = match mode {
         MirrorMode::Vertical => flop_plane16(src, src_stride, dst, dst_stride, width, height),
         MirrorMode::Horizontal => flip_plane16(src, src_stride, dst, dst_stride, width, height),
-- 
2.43.0


From 1a8babf7606beaea428606ce233b248427d0a155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 43/44] fix: round premultiplied colours in the AVX2 kernels

Dividing by 255 without the rounding term made every colour above 127 of an
opaque pixel one lower: white became 254.
---
 src/avx2/avx2_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 0dc7a3f..b1bd26a 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -366,8 +366,8 @@ pub(crate) unsafe fn avx2_div_by255_x2(l: __m256i, v: __m256i) -> (__m256i, __m2
     let j0 = _mm256_srli_epi16::<8>(k0);
     let j1 = _mm256_srli_epi16::<8>(k1);
 
-    let kv0 = _mm256_add_epi16(l, j0);
-    let kv1 = _mm256_add_epi16(v, j1);
+    let kv0 = _mm256_add_epi16(k0, j0);
+    let kv1 = _mm256_add_epi16(k1, j1);
 
     (_mm256_srli_epi16::<8>(kv0), _mm256_srli_epi16::<8>(kv1))
 }
-- 
2.43.0


From 125cc14e9793fad13b64da1e4a0705d339bd77e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 44/44] fix: saturate colours before multiplying them by alpha
 in the SSE, AVX2 and AVX-512 kernels

Colours outside 0..255 were multiplied unsaturated: slightly negative ones
wrapped to bright values, and on AVX-512 opaque white became black.
---
 src/avx2/ayuv_to_rgba.rs          | 27 +++++++++++++++++++++++++++
 src/avx2/yuv_to_rgba_alpha.rs     | 31 +++++++++++++++++++++++++------
 src/avx512bw/yuv_to_rgba_alpha.rs | 27 +++++++++++++++++++++++++++
 src/sse/yuv_to_rgba_alpha.rs      |  9 +++++++++
 4 files changed, 88 insertions(+), 6 deletions(-)

diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..56fa046 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -236,6 +236,33 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let v_max_colour = _mm256_set1_epi16(255);
+            let r_high = _mm256_min_epi16(
+                _mm256_max_epi16(r_high, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            let b_high = _mm256_min_epi16(
+                _mm256_max_epi16(b_high, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            let g_high = _mm256_min_epi16(
+                _mm256_max_epi16(g_high, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+
+            let r_low = _mm256_min_epi16(
+                _mm256_max_epi16(r_low, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            let b_low = _mm256_min_epi16(
+                _mm256_max_epi16(b_low, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            let g_low = _mm256_min_epi16(
+                _mm256_max_epi16(g_low, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+
             let a_high = _mm256_unpackhi_epi8(a, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..1336204 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -336,13 +336,32 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
+            let v_max_colour = _mm256_set1_epi16(255);
+            r_high = _mm256_min_epi16(
+                _mm256_max_epi16(r_high, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            b_high = _mm256_min_epi16(
+                _mm256_max_epi16(b_high, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            g_high = _mm256_min_epi16(
+                _mm256_max_epi16(g_high, _mm256_setzero_si256()),
+                v_max_colour,
+            );
 
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
+            r_low = _mm256_min_epi16(
+                _mm256_max_epi16(r_low, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            b_low = _mm256_min_epi16(
+                _mm256_max_epi16(b_low, _mm256_setzero_si256()),
+                v_max_colour,
+            );
+            g_low = _mm256_min_epi16(
+                _mm256_max_epi16(g_low, _mm256_setzero_si256()),
+                v_max_colour,
+            );
 
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..66542d3 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -252,6 +252,33 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let v_max_colour = _mm512_set1_epi16(255);
+            let r_high = _mm512_min_epi16(
+                _mm512_max_epi16(r_high, _mm512_setzero_si512()),
+                v_max_colour,
+            );
+            let b_high = _mm512_min_epi16(
+                _mm512_max_epi16(b_high, _mm512_setzero_si512()),
+                v_max_colour,
+            );
+            let g_high = _mm512_min_epi16(
+                _mm512_max_epi16(g_high, _mm512_setzero_si512()),
+                v_max_colour,
+            );
+
+            let r_low = _mm512_min_epi16(
+                _mm512_max_epi16(r_low, _mm512_setzero_si512()),
+                v_max_colour,
+            );
+            let b_low = _mm512_min_epi16(
+                _mm512_max_epi16(b_low, _mm512_setzero_si512()),
+                v_max_colour,
+            );
+            let g_low = _mm512_min_epi16(
+                _mm512_max_epi16(g_low, _mm512_setzero_si512()),
+                v_max_colour,
+            );
+
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..91262fc 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -165,6 +165,15 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let v_max_colour = _mm_set1_epi16(255);
+            let r_high = _mm_min_epi16(_mm_max_epi16(r_high, _mm_setzero_si128()), v_max_colour);
+            let b_high = _mm_min_epi16(_mm_max_epi16(b_high, _mm_setzero_si128()), v_max_colour);
+            let g_high = _mm_min_epi16(_mm_max_epi16(g_high, _mm_setzero_si128()), v_max_colour);
+
+            let r_low = _mm_min_epi16(_mm_max_epi16(r_low, _mm_setzero_si128()), v_max_colour);
+            let b_low = _mm_min_epi16(_mm_max_epi16(b_low, _mm_setzero_si128()), v_max_colour);
+            let g_low = _mm_min_epi16(_mm_max_epi16(g_low, _mm_setzero_si128()), v_max_colour);
+
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
             let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-- 
2.43.0

