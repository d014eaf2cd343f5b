From 964ad94bdfd13ec62b210b9b4a845a3b1a9772be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 01/56] fix: flood_fill terminates when the fill color equals
 the target color

---
 src/drawing/fill.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..47b174d 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -19,6 +19,12 @@ where
 {
     let target = *image.get_pixel(x, y);
 
+    // The region already has the requested color. Without this check filled pixels
+    // would be visited again and again and the loop below would never terminate.
+    if target == fill_with {
+        return;
+    }
+
     let mut stack = Vec::new();
 
     stack.push((x as i32, x as i32, y as i32, 1_i32));
-- 
2.43.0


From 6e9b604a6b7b608dd04f65dd37f809fc9c3aa805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 02/56] fix: bilateral_filter index computation no longer
 overflows for radius > 90

---
 src/filter/bilateral.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 1cbd4a5..6bace98 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -129,7 +129,7 @@ where
         // Safety: `Image::from_fn` yields `col` in [0, width) and `row` in [0, height).
         let center_pixel = unsafe { image.unsafe_get_pixel(x, y) };
 
-        let window_len = 2 * radius + 1;
+        let window_len = (2 * radius + 1) as usize;
         let weights_and_values = window_range
             .clone()
             .cartesian_product(window_range.clone())
@@ -147,8 +147,9 @@ where
                 // Safety: we clamped `window_x` and `window_y` to be in bounds.
                 let window_pixel = unsafe { image.unsafe_get_pixel(window_x, window_y) };
 
+                // computed at type usize as the index can exceed `i16::MAX`
                 let spatial_distance = spatial_distance_lookup
-                    [(window_len * (w_y + radius) + (w_x + radius)) as usize];
+                    [window_len * (w_y + radius) as usize + (w_x + radius) as usize];
                 let color_distance = color_distance.color_distance(&center_pixel, &window_pixel);
                 let weight = spatial_distance * color_distance;
 
-- 
2.43.0


From 3f6201ff5ca9e19e689f20ada84242d153a70b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 03/56] fix: overlay blends pixels of the top image, not of the
 bottom image

---
 src/compose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..c885d14 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -268,7 +268,7 @@ where
     for y_bot in y..y_end {
         for x_bot in x..x_end {
             let mut bottom_pixel = *bottom.get_pixel(x_bot, y_bot);
-            let top_pixel = bottom.get_pixel(x_bot - x, y_bot - y);
+            let top_pixel = top.get_pixel(x_bot - x, y_bot - y);
 
             bottom_pixel.blend(top_pixel);
 
-- 
2.43.0


From a6a4e79ec06e959adf17a9d58e956aae4dc639eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 04/56] fix: replace and overlay reach the last row and column
 of the bottom image

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index c885d14..a523c04 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -215,8 +215,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
@@ -262,8 +262,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
-- 
2.43.0


From 037b092f87039226c05d5770b7b2ab9b008801fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 05/56] fix: bilinear interpolation covers the last row and
 column of the image

---
 src/geometric_transformations.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..0d35efc 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -823,18 +823,20 @@ where
     <P as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
 {
     let left = x.floor();
-    let right = left + 1f32;
     let top = y.floor();
-    let bottom = top + 1f32;
 
     let right_weight = x - left;
     let bottom_weight = y - top;
 
     // default if out of bound
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    if left < 0f32 || x > width as f32 - 1f32 || top < 0f32 || y > height as f32 - 1f32 {
         default
     } else {
+        // A location exactly on the last column or row has no right or bottom neighbor,
+        // but then that neighbor has zero weight.
+        let right = (left + 1f32).min(width as f32 - 1f32);
+        let bottom = (top + 1f32).min(height as f32 - 1f32);
         let (tl, tr, bl, br) = unsafe {
             (
                 image.unsafe_get_pixel(left as u32, top as u32),
-- 
2.43.0


From b69e31fbb3b8ae2c06a5b550e7aa7d6aef00ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 06/56] fix: warp treats undefined (NaN) pre-images as outside
 the image

---
 src/geometric_transformations.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 0d35efc..cb9521a 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -771,7 +771,13 @@ where
     let mut col: [P; 4] = [default, default, default, default];
 
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    if x.is_nan()
+        || y.is_nan()
+        || left < 0f32
+        || right >= width as f32
+        || top < 0f32
+        || bottom >= height as f32
+    {
         default
     } else {
         for row in top as u32..bottom as u32 {
@@ -830,7 +836,13 @@ where
 
     // default if out of bound
     let (width, height) = image.dimensions();
-    if left < 0f32 || x > width as f32 - 1f32 || top < 0f32 || y > height as f32 - 1f32 {
+    if x.is_nan()
+        || y.is_nan()
+        || left < 0f32
+        || x > width as f32 - 1f32
+        || top < 0f32
+        || y > height as f32 - 1f32
+    {
         default
     } else {
         // A location exactly on the last column or row has no right or bottom neighbor,
@@ -851,7 +863,7 @@ where
 
 #[inline(always)]
 fn interpolate_nearest<P: Pixel>(image: &Image<P>, x: f32, y: f32, default: P) -> P {
-    if x < -0.5 || y < -0.5 {
+    if x.is_nan() || y.is_nan() || x < -0.5 || y < -0.5 {
         return default;
     }
 
-- 
2.43.0


From a5465a2a3e8f16d21f02bd5b875842c4fc328016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 07/56] fix: Projection supports matrices whose bottom-right
 entry is zero

---
 src/geometric_transformations.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index cb9521a..98a1f36 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -675,6 +675,11 @@ fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
 }
 
 fn normalize(mx: [f32; 9]) -> [f32; 9] {
+    // Matrices that map the origin to a point at infinity cannot be normalized this way
+    if mx[8] == 0.0 {
+        return mx;
+    }
+
     [
         mx[0] / mx[8],
         mx[1] / mx[8],
-- 
2.43.0


From 3973e6efa3f890fd530fdca45fd5b03de81cdf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 08/56] fix: translate and warp accept images of zero width

---
 src/geometric_transformations.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 98a1f36..61ad712 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -471,6 +471,9 @@ where
     let (w, h) = (width as i32, height as i32);
     let num_channels = P::CHANNEL_COUNT as usize;
     let mut out = Image::new(width, height);
+    if width == 0 || height == 0 {
+        return out;
+    }
 
     for y in 0..height {
         let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
@@ -641,6 +644,9 @@ where
     Fi: Fn(f32, f32) -> P + Send + Sync,
 {
     let width = out.width();
+    if width == 0 {
+        return;
+    }
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
 
-- 
2.43.0


From aaf4e93e88d0310701e6f1ed70b65551ecbbfdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 09/56] fix: translate handles vertical offsets close to
 i32::MIN

---
 src/geometric_transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 61ad712..c07389a 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -476,7 +476,7 @@ where
     }
 
     for y in 0..height {
-        let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
+        let y_in = cmp::max(0, cmp::min((y as i32).saturating_sub(ty), h - 1));
 
         if tx > 0 {
             let p_min = *image.get_pixel(0, y_in as u32);
-- 
2.43.0


From 4ab6459f733d5ea3a10b727f1e3d2f8170157646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 10/56] fix: from_control_points no longer uses an SVD
 threshold at which the result can be off by percents

---
 src/geometric_transformations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index c07389a..14b3a02 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -167,7 +167,8 @@ impl Projection {
 
         let b = OVector::<_, U8>::from_row_slice(&[-y1, x1, -y2, x2, -y3, x3, -y4, x4]);
 
-        SVD::try_new(a, true, true, f64::default_epsilon(), 0)
+        // With a tighter convergence threshold the decomposition is occasionally far off
+        SVD::try_new(a, true, true, 1e-12, 0)
             .and_then(|svd| svd.solve(&b, f64::default_epsilon()).ok())
             .and_then(|h| {
                 let mut transform = [
-- 
2.43.0


From 8a57bfd77a0561d73031af067ccd2ab90c6a1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 11/56] fix: anti-aliased lines use the floor of negative
 coordinates

---
 src/drawing/line.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..cc8eb22 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -284,8 +284,10 @@ fn plot_wu_line<I, T, B>(
     let mut fy = start.1 as f32;
 
     for x in start.0..(end.0 + 1) {
-        plotter.plot(x, fy as i32, color, 1.0 - fy.fract());
-        plotter.plot(x, fy as i32 + 1, color, fy.fract());
+        // Coordinates outside the image can be negative, so round down rather than towards zero.
+        let y = fy.floor();
+        plotter.plot(x, y as i32, color, 1.0 - (fy - y));
+        plotter.plot(x, y as i32 + 1, color, fy - y);
         fy += gradient;
     }
 }
-- 
2.43.0


From 9b9f5cbf7234c75ab6a1f8f0dfba5ab4124b33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 12/56] fix: filled polygons and rectangles can be drawn on
 empty images

---
 src/drawing/polygon.rs | 5 ++---
 src/drawing/rect.rs    | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drawing/polygon.rs b/src/drawing/polygon.rs
index b3169f8..9736891 100644
--- a/src/drawing/polygon.rs
+++ b/src/drawing/polygon.rs
@@ -143,7 +143,8 @@ where
     C: Canvas,
     L: Fn(&mut C, (f32, f32), (f32, f32), C::Pixel),
 {
-    if poly.is_empty() {
+    let (width, height) = canvas.dimensions();
+    if poly.is_empty() || width == 0 || height == 0 {
         return;
     }
 
@@ -154,8 +155,6 @@ where
         y_max = max(y_max, p.y);
     }
 
-    let (width, height) = canvas.dimensions();
-
     // Intersect polygon vertical range with image bounds
     y_min = max(0, min(y_min, height as i32 - 1));
     y_max = max(0, min(y_max, height as i32 - 1));
diff --git a/src/drawing/rect.rs b/src/drawing/rect.rs
index ee2c99e..4f20d3e 100644
--- a/src/drawing/rect.rs
+++ b/src/drawing/rect.rs
@@ -52,6 +52,9 @@ pub fn draw_filled_rect_mut<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
 where
     C: Canvas,
 {
+    if canvas.width() == 0 || canvas.height() == 0 {
+        return;
+    }
     let canvas_bounds = Rect::at(0, 0).of_size(canvas.width(), canvas.height());
     if let Some(intersection) = canvas_bounds.intersect(rect) {
         for dy in 0..intersection.height() {
-- 
2.43.0


From b0f54722082303d755c41679144756a1bf97557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 13/56] fix: flat ellipses are drawn up to the ends of their
 horizontal axis

---
 src/drawing/conics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..c46659e 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -164,6 +164,12 @@ where
 
         render_func(x0, y0, x, y);
     }
+
+    // Flat ellipses reach y = 0 before the ends of the horizontal axis.
+    while x < width_radius {
+        x += 1;
+        render_func(x0, y0, x, y);
+    }
 }
 
 /// Draws the outline of a circle on an image.
-- 
2.43.0


From 84e8a335026d8b6f3a8fa48d706670fa71ebda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 14/56] fix: L1 and LInf distances saturate at 255 when there
 is no pixel to measure from

---
 src/distance_transform.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distance_transform.rs b/src/distance_transform.rs
index f6f588b..3e3ff0c 100644
--- a/src/distance_transform.rs
+++ b/src/distance_transform.rs
@@ -3,6 +3,7 @@
 
 use crate::definitions::Image;
 use image::{GenericImage, GenericImageView, GrayImage, Luma};
+#[cfg(test)]
 use std::cmp::min;
 
 /// How to measure distance between coordinates.
@@ -128,7 +129,9 @@ fn distance_transform_impl_linf_or_l1<const IS_LINF: bool>(
     image: &mut GrayImage,
     from: DistanceFrom,
 ) {
-    let max_distance = Luma([min(image.width() + image.height(), 255u32) as u8]);
+    // Larger than any distance that is represented exactly, and than any radius that
+    // morphological operations use, so that it also stands for "there is no such pixel".
+    let max_distance = Luma([255u8]);
 
     // We use an unsafe code block for optimisation purposes here
     // We use the 'unsafe_get_pixel' and 'check' unsafe functions,
-- 
2.43.0


From b60361d4e0b316decaf4db4918d55c0be99bf151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 15/56] fix: grayscale morphology accepts images of zero width

---
 src/morphology.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index badb683..88c0209 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -542,6 +542,9 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
+    if image.width() == 0 {
+        return result;
+    }
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-- 
2.43.0


From 083e70e715d623bd0d30081f764169a93beb3008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 16/56] fix: connected_components handles images where every
 pixel gets its own label

---
 src/region_labelling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/region_labelling.rs b/src/region_labelling.rs
index 3a8be91..e589f09 100644
--- a/src/region_labelling.rs
+++ b/src/region_labelling.rs
@@ -141,7 +141,8 @@ where
         return out;
     }
 
-    let mut forest = DisjointSetForest::new(image_size);
+    // Labels start at 1, and there can be as many of them as there are pixels.
+    let mut forest = DisjointSetForest::new(image_size + 1);
     let mut adj_labels = [0u32; 4];
     let mut next_label = 1;
 
@@ -216,7 +217,7 @@ where
     }
 
     // Make components start at 1
-    let mut output_labels = vec![0u32; image_size];
+    let mut output_labels = vec![0u32; image_size + 1];
     let mut count = 1;
 
     unsafe {
-- 
2.43.0


From 2599cf92a592e2ad8391807357f18959513c78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 17/56] fix: find_contours finds the outer borders of
 components at the left edge

---
 src/contours.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/contours.rs b/src/contours.rs
index dcdafb3..2765040 100644
--- a/src/contours.rs
+++ b/src/contours.rs
@@ -106,17 +106,16 @@ where
                 continue;
             }
 
-            if let Some((adj, border_type)) = if image_values[at(x, y)] == 1
-                && x > 0
-                && image_values[at(x - 1, y)] == 0
+            if let Some((adj_diff, border_type)) = if image_values[at(x, y)] == 1
+                && (x == 0 || image_values[at(x - 1, y)] == 0)
             {
-                Some((Point::new(x - 1, y), BorderType::Outer))
+                Some((Point::new(-1, 0), BorderType::Outer))
             } else if image_values[at(x, y)] > 0 && x + 1 < width && image_values[at(x + 1, y)] == 0
             {
                 if image_values[at(x, y)] > 1 {
                     parent_border_num = image_values[at(x, y)] as usize;
                 }
-                Some((Point::new(x + 1, y), BorderType::Hole))
+                Some((Point::new(1, 0), BorderType::Hole))
             } else {
                 None
             } {
@@ -138,7 +137,7 @@ where
 
                 let mut contour_points = Vec::new();
                 let curr = Point::new(x, y);
-                rotate_to_value(&mut diffs, adj.to_i32() - curr.to_i32());
+                rotate_to_value(&mut diffs, adj_diff);
 
                 if let Some(pos1) = diffs.iter().find_map(|diff| {
                     get_position_if_non_zero_pixel(&image_values, curr.to_i32() + *diff)
-- 
2.43.0


From 3a0b0ea2b1f8c1058aece0f94cf99ad9f3a8fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 18/56] fix: convex_hull handles duplicate points and large
 coordinates

---
 src/geometry.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..085806c 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -203,14 +203,12 @@ where
     }
     points.swap(0, start_point_pos);
     points.remove(0);
+    // Copies of the start point have no direction to sort by and are never separate hull points.
+    points.retain(|p| p.x != start_point.x || p.y != start_point.y);
     points.sort_by(
         |a, b| match orientation(start_point.to_i32(), a.to_i32(), b.to_i32()) {
             Orientation::Collinear => {
-                if distance(start_point, *a) < distance(start_point, *b) {
-                    Ordering::Less
-                } else {
-                    Ordering::Greater
-                }
+                distance(start_point, *a).total_cmp(&distance(start_point, *b))
             }
             Orientation::Clockwise => Ordering::Greater,
             Orientation::CounterClockwise => Ordering::Less,
@@ -261,7 +259,9 @@ enum Orientation {
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
 fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
-    let val = (q.y - p.y) * (r.x - q.x) - (q.x - p.x) * (r.y - q.y);
+    // The products of differences of large coordinates do not fit in an i32.
+    let diff = |a: i32, b: i32| a as i128 - b as i128;
+    let val = diff(q.y, p.y) * diff(r.x, q.x) - diff(q.x, p.x) * diff(r.y, q.y);
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
         Ordering::Greater => Orientation::Clockwise,
-- 
2.43.0


From d1d7c1bb10cea99cc1369aec8a9fbbcebf0d1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 19/56] fix: min_area_rect considers the closing edge of the
 hull

---
 src/geometry.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 085806c..62f8fcf 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -119,10 +119,12 @@ fn rotating_calipers<T>(points: &[Point<T>]) -> [Point<T>; 4]
 where
     T: NumCast + Copy,
 {
+    // All edges, including the one from the last to the first point.
     let mut edge_angles: Vec<f64> = points
-        .windows(2)
-        .map(|e| {
-            let edge = e[1].to_f64() - e[0].to_f64();
+        .iter()
+        .zip(points.iter().cycle().skip(1))
+        .map(|(start, end)| {
+            let edge = end.to_f64() - start.to_f64();
             ((edge.y.atan2(edge.x) + PI) % (PI / 2.)).abs()
         })
         .collect();
-- 
2.43.0


From b17600af31a8ced9026c79cc9952ac73b694706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 20/56] fix: approximate_polygon_dp handles curves whose end
 points coincide

---
 src/geometry.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 62f8fcf..ec089da 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -31,13 +31,23 @@ where
         panic!("epsilon must be greater than 0.0");
     }
 
+    if curve.len() < 2 {
+        return curve.to_vec();
+    }
+
     // Find the point with the maximum distance
     let mut dmax = 0.0;
     let mut index = 0;
     let end = curve.len() - 1;
-    let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
-    for (i, point) in curve.iter().enumerate().skip(1) {
-        let d = line.distance_from_point(point.to_f64());
+    let (first, last) = (curve[0].to_f64(), curve[end].to_f64());
+    let line = Line::from_points(first, last);
+    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
+        let d = if first == last {
+            // The end points do not determine a line
+            distance(first, point.to_f64())
+        } else {
+            line.distance_from_point(point.to_f64())
+        };
         if d > dmax {
             index = i;
             dmax = d;
-- 
2.43.0


From e6aa565c7d47a1e2ae9dcf2d0688c9b031ba3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:50 +0000
Subject: [PATCH 21/56] fix: adaptive_threshold accepts large block radii and
 deltas

---
 src/contrast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index c9024f1..73b7473 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -1,6 +1,6 @@
 //! Functions for manipulating the contrast of images.
 
-use std::cmp::{max, min};
+use std::cmp::min;
 
 use image::{GrayImage, Luma, Pixel};
 #[cfg(feature = "rayon")]
@@ -26,19 +26,19 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
             let current_pixel = image.get_pixel(x, y);
             // Traverse all neighbors in (2 * block_radius + 1) x (2 * block_radius + 1)
             let (y_low, y_high) = (
-                max(0, y as i32 - (block_radius as i32)) as u32,
-                min(image.height() - 1, y + block_radius),
+                y.saturating_sub(block_radius),
+                min(image.height() - 1, y.saturating_add(block_radius)),
             );
             let (x_low, x_high) = (
-                max(0, x as i32 - (block_radius as i32)) as u32,
-                min(image.width() - 1, x + block_radius),
+                x.saturating_sub(block_radius),
+                min(image.width() - 1, x.saturating_add(block_radius)),
             );
 
             // Number of pixels in the block, adjusted for edge cases.
             let w = (y_high - y_low + 1) * (x_high - x_low + 1);
             let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
 
-            if current_pixel[0] as i32 >= mean as i32 - delta {
+            if current_pixel[0] as i64 >= mean as i64 - delta as i64 {
                 out.put_pixel(x, y, Luma::white());
             }
         }
-- 
2.43.0


From f83f22ec87a2b33b365f3e5b3ab8c06e15df3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 22/56] fix: otsu_level no longer overflows on large bright
 images

---
 src/contrast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index 73b7473..50f2d5d 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -58,7 +58,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
     let total_pixel_sum = hist.channels[0]
         .iter()
         .enumerate()
-        .fold(0f64, |sum, (t, h)| sum + (t as u32 * h) as f64);
+        .fold(0f64, |sum, (t, h)| sum + (t as u64 * *h as u64) as f64);
 
     // Sum of all pixel intensities in the background class.
     let mut background_pixel_sum = 0f64;
@@ -83,7 +83,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
             break;
         };
 
-        background_pixel_sum += (threshold as u32 * hist_count) as f64;
+        background_pixel_sum += (threshold as u64 * *hist_count as u64) as f64;
         let foreground_pixel_sum = total_pixel_sum - background_pixel_sum;
 
         let background_mean = background_pixel_sum / (background_weight as f64);
-- 
2.43.0


From 516b65f861b5d29abe73e4af6771898fbb588b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 23/56] fix: sum_image_pixels no longer overflows when the sums
 pass half the type's range

---
 src/integral_image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integral_image.rs b/src/integral_image.rs
index 39fe947..0e8412d 100644
--- a/src/integral_image.rs
+++ b/src/integral_image.rs
@@ -265,7 +265,8 @@ where
         integral_image.get_pixel(right + 1, top).data(),
         integral_image.get_pixel(left, bottom + 1).data(),
     );
-    P::sub(P::sub(P::add(a, b), c), d)
+    // Each difference is the sum over a region of F, so that nothing overflows.
+    P::sub(P::sub(a, c), P::sub(d, b))
 }
 
 /// Computes the variance of [left, right] * [top, bottom] in F, where `integral_image` is the
-- 
2.43.0


From 0eea9a4e82efab44042265fa5e00d9187153a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 24/56] fix: suppress_non_maximum and local_maxima accept any
 radius

---
 src/suppress.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index b7af9d6..ad813e8 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -32,8 +32,8 @@ where
             let mut mi = image.get_pixel(x, y)[0];
 
             // These mins are necessary for when radius > min(width, height)
-            for cy in y..cmp::min(height, y + radius + 1) {
-                for cx in x..cmp::min(width, x + radius + 1) {
+            for cy in y..cmp::min(height, y.saturating_add(radius).saturating_add(1)) {
+                for cx in x..cmp::min(width, x.saturating_add(radius).saturating_add(1)) {
                     let ci = unsafe { image.unsafe_get_pixel(cx, cy)[0] };
                     if ci < mi {
                         continue;
@@ -48,13 +48,13 @@ where
 
             let x0 = best_x.saturating_sub(radius);
             let x1 = x;
-            let x2 = cmp::min(width, x + radius + 1);
-            let x3 = cmp::min(width, best_x + radius + 1);
+            let x2 = cmp::min(width, x.saturating_add(radius).saturating_add(1));
+            let x3 = cmp::min(width, best_x.saturating_add(radius).saturating_add(1));
 
             let y0 = best_y.saturating_sub(radius);
             let y1 = y;
-            let y2 = cmp::min(height, y + radius + 1);
-            let y3 = cmp::min(height, best_y + radius + 1);
+            let y2 = cmp::min(height, y.saturating_add(radius).saturating_add(1));
+            let y3 = cmp::min(height, best_y.saturating_add(radius).saturating_add(1));
 
             // Above initial r * r block
             let mut failed = contains_greater_value(image, best_x, best_y, mi, y0, y1, x0, x3);
@@ -132,17 +132,13 @@ where
 
         let mut is_max = true;
         let row_lower = cy.saturating_sub(radius);
-        let row_upper = if cy + radius + 1 > height {
-            height
-        } else {
-            cy + radius + 1
-        };
+        let row_upper = cmp::min(height, cy.saturating_add(radius).saturating_add(1));
         for y in row_lower..row_upper {
             for c in &ts_by_row[y as usize] {
-                if c.x() + radius < cx {
+                if c.x().saturating_add(radius) < cx {
                     continue;
                 }
-                if c.x() > cx + radius {
+                if c.x() > cx.saturating_add(radius) {
                     break;
                 }
                 if c.score() > cs {
-- 
2.43.0


From 52f42ab547f47d3f6e70c112e0a0a40b9a5a24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 25/56] fix: local_maxima considers the items in the last row

---
 src/suppress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index ad813e8..9490b1d 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -132,8 +132,8 @@ where
 
         let mut is_max = true;
         let row_lower = cy.saturating_sub(radius);
-        let row_upper = cmp::min(height, cy.saturating_add(radius).saturating_add(1));
-        for y in row_lower..row_upper {
+        let row_upper = cmp::min(height, cy.saturating_add(radius));
+        for y in row_lower..=row_upper {
             for c in &ts_by_row[y as usize] {
                 if c.x().saturating_add(radius) < cx {
                     continue;
-- 
2.43.0


From 0f252d5642c78220e74b7da9b2ef05aa5edd4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 26/56] fix: FAST-12 finds corners whose arc leaves out the top
 or the bottom pixel

---
 src/corners.rs | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..636e33b 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -358,31 +358,19 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
 
     // See Note [FAST circle labels]
     // JUSTIFICATION - see comment at the start of this function
-    let (p0, p8) = unsafe {
+    let (p0, p4, p8, p12) = unsafe {
         (
             image.unsafe_get_pixel(x, y - 3)[0] as i16,
-            image.unsafe_get_pixel(x, y + 3)[0] as i16,
-        )
-    };
-
-    let mut above = p0 > high_thresh && p8 > high_thresh;
-    let mut below = p0 < low_thresh && p8 < low_thresh;
-
-    if !above && !below {
-        return false;
-    }
-
-    // JUSTIFICATION - see comment at the start of this function
-    let (p4, p12) = unsafe {
-        (
             image.unsafe_get_pixel(x + 3, y)[0] as i16,
+            image.unsafe_get_pixel(x, y + 3)[0] as i16,
             image.unsafe_get_pixel(x - 3, y)[0] as i16,
         )
     };
 
-    above = above && ((p4 > high_thresh) || (p12 > high_thresh));
-    below = below && ((p4 < low_thresh) || (p12 < low_thresh));
-
+    // A span of twelve pixels contains at least three of these four
+    let cardinals = [p0, p4, p8, p12];
+    let above = cardinals.iter().filter(|&&p| p > high_thresh).count() >= 3;
+    let below = cardinals.iter().filter(|&&p| p < low_thresh).count() >= 3;
     if !above && !below {
         return false;
     }
-- 
2.43.0


From 0700fc48a1bfdf31abd5210aae704bb5c7ff4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 27/56] fix: orientations of corners close to the left or top
 border

---
 src/corners.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 636e33b..3be489e 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -124,7 +124,10 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
     let y_max = u32::min(y + radius + 1, height);
     let x_max = u32::min(x + radius + 1, width);
 
-    let (mut x_count, mut y_count) = (-(radius as i32), (radius as i32));
+    // The patch is smaller than (2 * radius + 1)^2 near the borders of the image.
+    let x_start = x_min as i32 - x as i32;
+    let y_start = y as i32 - y_min as i32;
+    let (mut x_count, mut y_count) = (x_start, y_start);
 
     for y in y_min..y_max {
         for x in x_min..x_max {
@@ -146,7 +149,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             x_centroid += x_count * (pixel as i32);
             x_count += 1;
         }
-        x_count = -(radius as i32);
+        x_count = x_start;
     }
 
     for x in x_min..x_max {
@@ -156,7 +159,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             y_centroid += y_count * (pixel as i32);
             y_count -= 1;
         }
-        y_count = radius as i32;
+        y_count = y_start;
     }
 
     // Important note: we flip the sign here because there are two coordinate
-- 
2.43.0


From 6b8a6f781ad29c5cbfe7e17c3b9d6d0950d5a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 28/56] fix: oriented_fast handles images smaller than its
 sample size or its edges

---
 src/corners.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corners.rs b/src/corners.rs
index 3be489e..12cea96 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -181,6 +181,9 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
+    if u32::min(width, height).saturating_sub(edge_radius) <= edge_radius {
+        return vec![];
+    }
     let (min_x, max_x) = (edge_radius, width - edge_radius);
     let (min_y, max_y) = (edge_radius, height - edge_radius);
     let mut corners = vec![];
-- 
2.43.0


From 835f6dee2b4b7481d89ad0c6e9776c52104f6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:51 +0000
Subject: [PATCH 29/56] fix: oriented_fast picks its threshold from the samples
 actually taken

---
 src/corners.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 12cea96..4a9ef50 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -211,9 +211,9 @@ pub fn oriented_fast(
             .collect();
         fast_scores.sort();
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
-        let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
+        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(sample_size - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-- 
2.43.0


From d8b430ed3c7956ccdbf1119ffb9b55f68ec9ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 30/56] fix: canny accepts a low threshold of zero

---
 src/edges.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edges.rs b/src/edges.rs
index 38ce3d9..7581242 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -138,6 +138,14 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
                     ];
 
                     for neighbor_idx in &neighbor_indices {
+                        // Pixels on the border are never edges.
+                        if neighbor_idx.0 == 0
+                            || neighbor_idx.1 == 0
+                            || neighbor_idx.0 == input.width() - 1
+                            || neighbor_idx.1 == input.height() - 1
+                        {
+                            continue;
+                        }
                         let in_neighbor = *input.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         let out_neighbor = *out.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         if in_neighbor[0] >= low_thresh && out_neighbor[0] == 0 {
-- 
2.43.0


From 358421a04b45d8f08e7340d333850c458c5d8f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 31/56] fix: canny accepts images without pixels

---
 src/edges.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edges.rs b/src/edges.rs
index 7581242..819173a 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -60,8 +60,8 @@ fn non_maximum_suppression(
 ) -> Image<Luma<f32>> {
     const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
     let mut out = Image::from_pixel(g.width(), g.height(), Luma([0.0]));
-    for y in 1..g.height() - 1 {
-        for x in 1..g.width() - 1 {
+    for y in 1..g.height().saturating_sub(1) {
+        for x in 1..g.width().saturating_sub(1) {
             let x_gradient = gx[(x, y)][0] as f32;
             let y_gradient = gy[(x, y)][0] as f32;
             let mut angle = (y_gradient).atan2(x_gradient) * RADIANS_TO_DEGREES;
@@ -118,8 +118,8 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
     let mut out = Image::from_pixel(input.width(), input.height(), min_brightness);
     // Stack. Possible optimization: Use previously allocated memory, i.e. gx.
     let mut edges = Vec::with_capacity(((input.width() * input.height()) / 2) as usize);
-    for y in 1..input.height() - 1 {
-        for x in 1..input.width() - 1 {
+    for y in 1..input.height().saturating_sub(1) {
+        for x in 1..input.width().saturating_sub(1) {
             let inp_pix = *input.get_pixel(x, y);
             let out_pix = *out.get_pixel(x, y);
             // If the edge strength is higher than high_thresh, mark it as an edge.
-- 
2.43.0


From 1399776eac908721b5eb995a33fe76c21943bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 32/56] fix: intersection_points of lines through a corner of
 the image

---
 src/hough.rs | 47 +++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/hough.rs b/src/hough.rs
index 659a481..438861d 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -163,37 +163,28 @@ pub fn intersection_points(
     let bottom_x = sin.mul_add(-h, r) / cos;
     let top_x = r / cos;
 
-    let mut start = None;
-
-    if right_y >= 0.0 && right_y <= h {
-        let right_intersect = (w, right_y);
-        start = Some(right_intersect);
-    }
-
-    if left_y >= 0.0 && left_y <= h {
-        let left_intersect = (0.0, left_y);
-        if let Some(s) = start {
-            return Some((s, left_intersect));
-        }
-        start = Some(left_intersect);
-    }
-
-    if bottom_x >= 0.0 && bottom_x <= w {
-        let bottom_intersect = (bottom_x, h);
-        if let Some(s) = start {
-            return Some((s, bottom_intersect));
-        }
-        start = Some(bottom_intersect);
+    // The line enters and leaves the box either through its left and right sides
+    // or, where it is above or below the box there, through its top or bottom.
+    if !(left_y.min(right_y) <= h && left_y.max(right_y) >= 0.0) {
+        return None;
     }
-
-    if top_x >= 0.0 && top_x <= w {
-        let top_intersect = (top_x, 0.0);
-        if let Some(s) = start {
-            return Some((s, top_intersect));
+    let clip = |x: f32, y: f32| {
+        if y < 0.0 {
+            (top_x.clamp(0.0, w), 0.0)
+        } else if y > h {
+            (bottom_x.clamp(0.0, w), h)
+        } else {
+            (x, y)
         }
+    };
+    let left = clip(0.0, left_y);
+    let right = clip(w, right_y);
+
+    if left_y < 0.0 || (0.0..=h).contains(&right_y) {
+        Some((right, left))
+    } else {
+        Some((left, right))
     }
-
-    None
 }
 
 #[cfg(test)]
-- 
2.43.0


From 516ecec6f8d0e0b408f446687a96a3bce4af6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 33/56] fix: enumerate Haar features of frames with a side of
 255

---
 src/haar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 8eb7cd3..89f3707 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -327,8 +327,8 @@ impl<T> Size<T> {
 
 // Returns the valid block sizes for a feature of shape `feature_shape` in a frame of size `frame_size`.
 fn block_sizes(feature_shape: Size<Blocks>, frame_size: Size<Pixels>) -> Vec<Size<Pixels>> {
-    (1..frame_size.width / feature_shape.width + 1)
-        .cartesian_product(1..frame_size.height / feature_shape.height + 1)
+    (1..=frame_size.width / feature_shape.width)
+        .cartesian_product(1..=frame_size.height / feature_shape.height)
         .map(|(w, h)| Size::new(w, h))
         .collect()
 }
-- 
2.43.0


From 45f2dc9ee1a9826a878d644e71a71b9f9384f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 34/56] fix: report unsatisfiable HoG options as an error

---
 src/hog.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..2ff390e 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -87,6 +87,18 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.orientations == 0 {
+            errors.push("orientations must be non-zero".to_owned());
+        }
+        if options.cell_side == 0 {
+            errors.push("cell side must be non-zero".to_owned());
+        }
+        if options.block_stride == 0 {
+            errors.push("block stride must be non-zero".to_owned());
+        }
+        if !errors.is_empty() {
+            return Err(Self::invalid_options_message(&errors));
+        }
         if width % options.cell_side != 0 {
             errors.push(format!(
                 "cell side {} does not evenly divide width {}",
@@ -113,13 +125,23 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
-        if (cells_wide - options.block_side) % options.block_stride != 0 {
+        if options.block_side > cells_wide {
+            errors.push(format!(
+                "block side {} is larger than cells wide {}",
+                options.block_side, cells_wide
+            ));
+        } else if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells wide {} - block side {})",
                 options.block_stride, cells_wide, options.block_side
             ));
         }
-        if (cells_high - options.block_side) % options.block_stride != 0 {
+        if options.block_side > cells_high {
+            errors.push(format!(
+                "block side {} is larger than cells high {}",
+                options.block_side, cells_high
+            ));
+        } else if (cells_high - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells high {} - block side {})",
                 options.block_stride, cells_high, options.block_side
@@ -183,7 +205,7 @@ impl HogSpec {
 /// `block_side` long and blocks are staggered by `block_stride`. Assumes that
 /// options are compatible.
 fn num_blocks(num_cells: usize, block_side: usize, block_stride: usize) -> usize {
-    (num_cells + block_stride - block_side) / block_stride
+    (num_cells - block_side) / block_stride + 1
 }
 
 /// Computes the HoG descriptor of an image, or None if the provided
-- 
2.43.0


From 0463aaa387081b777fa6ebeda311915130733822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 35/56] fix: draw each HoG star in its own cell

---
 src/hog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index 2ff390e..4ff6971 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -403,7 +403,7 @@ pub fn render_hist_grid(star_side: u32, grid: &View3d<'_, f32>, signed: bool) ->
             let x_window = x as u32 * star_side;
             let mut window = out.sub_image(x_window, y_window, star_side, star_side);
             let hist = grid.inner_slice(x, y);
-            draw_star_mut(window.inner_mut(), hist, signed);
+            draw_star_mut(&mut *window, hist, signed);
         }
     }
 
-- 
2.43.0


From 18c2d3c69599902ec93f5c284a6d596d35365490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 36/56] fix: follow the least energy when retracing a vertical
 seam

---
 src/seam_carving.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..d1d8e69 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -92,10 +92,11 @@ where
     let mut last_x = min_x;
 
     for y in (1..height).rev() {
-        let above = gradients.get_pixel(last_x, y - 1)[0];
+        min_x = last_x;
+        min_energy = gradients.get_pixel(last_x, y - 1)[0];
         if last_x > 0 {
             let left = gradients.get_pixel(last_x - 1, y - 1)[0];
-            if left < above {
+            if left < min_energy {
                 min_x = last_x - 1;
                 min_energy = left;
             }
-- 
2.43.0


From 4d867eaf59936dadc396eaaa30d46bbbe701e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 37/56] fix: draw vertical seams where they were in the
 original image

---
 src/seam_carving.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index d1d8e69..6808038 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -175,13 +175,15 @@ pub fn draw_vertical_seams(image: &GrayImage, seams: &[VerticalSeam]) -> Image<R
     for seam in seams {
         for (y, x) in (0..height).rev().zip(&seam.0) {
             let mut x_original = *x;
-            for o in &offsets[y as usize] {
-                if *o < *x {
-                    x_original += 1;
-                }
+            // The removed columns of this row, in increasing order.
+            let removed: &mut Vec<u32> = &mut offsets[y as usize];
+            let mut position = 0;
+            while position < removed.len() && removed[position] <= x_original {
+                x_original += 1;
+                position += 1;
             }
             out.put_pixel(x_original, y, Rgb([255, 0, 0]));
-            offsets[y as usize].push(x_original);
+            removed.insert(position, x_original);
         }
     }
 
-- 
2.43.0


From 1c3cc7de13074dd1b4b84d57c9fc2d29541e40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 38/56] fix: keep the first test of each BRIEF descriptor chunk

---
 src/binary_descriptors/brief.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..a74d134 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -179,10 +179,10 @@ pub(crate) fn brief_impl(
             };
 
             // if p0 < p1, then record true for this test; otherwise, record false
+            descriptor_chunk <<= 1;
             descriptor_chunk += (local_pixel_average(integral_image, p0.x, p0.y, 2)
                 < local_pixel_average(integral_image, p1.x, p1.y, 2))
                 as u128;
-            descriptor_chunk <<= 1;
         }
         // save the final chunk too
         descriptor.bits.push(descriptor_chunk);
-- 
2.43.0


From 06b0923ff4f460c5b1205a43ffad82fb3d34e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:04 +0000
Subject: [PATCH 39/56] fix: reject BRIEF keypoints close to the right and
 bottom edges

---
 src/binary_descriptors/brief.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index a74d134..f9dde98 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -134,10 +134,11 @@ pub(crate) fn brief_impl(
 
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
+        // (the integral image is one pixel wider and higher than the image)
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x >= width.saturating_sub(BRIEF_PATCH_RADIUS + 2)
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y >= height.saturating_sub(BRIEF_PATCH_RADIUS + 2)
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From ab4765afb6a21bf63897f3e28105dd5e07f39082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 40/56] fix: stay inside the image for BRIEF test pairs beyond
 it

---
 src/binary_descriptors/brief.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index f9dde98..1ae400f 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -71,10 +71,10 @@ fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius
     if radius == 0 {
         return 0;
     }
-    let y_min = y.saturating_sub(radius);
-    let x_min = x.saturating_sub(radius);
     let y_max = u32::min(y + radius + 1, integral_image.height() - 1);
     let x_max = u32::min(x + radius + 1, integral_image.width() - 1);
+    let y_min = u32::min(y.saturating_sub(radius), y_max);
+    let x_min = u32::min(x.saturating_sub(radius), x_max);
 
     let pixel_area = (y_max - y_min) * (x_max - x_min);
     if pixel_area == 0 {
-- 
2.43.0


From df76c7ff236f4e719d463d431811ef106183aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:10 +0000
Subject: [PATCH 41/56] fix: match every descriptor of d1 when d1 is the longer
 list

---
 src/binary_descriptors/mod.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/binary_descriptors/mod.rs b/src/binary_descriptors/mod.rs
index f695bc1..6fcb8c5 100644
--- a/src/binary_descriptors/mod.rs
+++ b/src/binary_descriptors/mod.rs
@@ -37,7 +37,7 @@ pub trait BinaryDescriptor {
 ///
 /// Uses [locality-sensitive hashing][lsh] (LSH) for efficient matching. The
 /// number of tables is fixed at three, but the hash length is proportional to
-/// the log of the size of the largest input array.
+/// the log of the length of `d2`.
 ///
 /// Returns a vector of references describing the matched pairs. The first
 /// reference is to a descriptor in `d1`, and the second reference is to an
@@ -63,12 +63,7 @@ pub fn match_binary_descriptors<'a, T: BinaryDescriptor>(
     };
 
     // locality-sensitive hashing (LSH)
-    // this algorithm is log(d2.len()) but linear in d1.len(), so swap the inputs if needed
-    let (queries, database, swapped) = if d1.len() > d2.len() {
-        (d2, d1, true)
-    } else {
-        (d1, d2, false)
-    };
+    let (queries, database) = (d1, d2);
 
     // build l hash tables by selecting k random bits from each descriptor
     let l = 3;
@@ -123,11 +118,7 @@ pub fn match_binary_descriptors<'a, T: BinaryDescriptor>(
         }
         // ignore the match if it's beyond our threshold
         if best_score < threshold {
-            if swapped {
-                matches.push((best_candidate.unwrap(), query));
-            } else {
-                matches.push((query, best_candidate.unwrap()));
-            }
+            matches.push((query, best_candidate.unwrap()));
         }
     }
     matches
-- 
2.43.0


From 0684211ec66e59eb74ff2af39e480f5dd50aaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 42/56] fix: reject images of different dimensions in
 map_pixels2

---
 src/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 61f28b7..5eca4a6 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -351,9 +351,14 @@ where
     R: Pixel,
     F: Fn(P, Q) -> R,
 {
+    assert_eq!(
+        image1.dimensions(),
+        image2.dimensions(),
+        "image1 and image2 must have the same dimensions"
+    );
     Image::from_vec(
         image1.width(),
-        image2.height(),
+        image1.height(),
         image1
             .pixels()
             .zip(image2.pixels())
-- 
2.43.0


From f3f5a36f97df92fdf85027557b524881ff434d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 43/56] fix: compute rectangle corners without overflow

---
 src/rect.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4c64403..d737d70 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -62,14 +62,14 @@ impl Rect {
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn bottom(&self) -> i32 {
-        self.top + (self.height as i32) - 1
+        self.top.saturating_add_unsigned(self.height - 1)
     }
 
     /// Greatest x-coordinate reached by rect.
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn right(&self) -> i32 {
-        self.left + (self.width as i32) - 1
+        self.left.saturating_add_unsigned(self.width - 1)
     }
 
     /// Width of rect.
@@ -117,8 +117,8 @@ impl Rect {
         Some(Rect {
             left,
             top,
-            width: (right - left) as u32 + 1,
-            height: (bottom - top) as u32 + 1,
+            width: right.abs_diff(left) + 1,
+            height: bottom.abs_diff(top) + 1,
         })
     }
 }
-- 
2.43.0


From fd79025f5a747d31d108997563cb4b30407bd140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 44/56] fix: text placed near the ends of the i32 range
 overflowed its coordinates

---
 src/drawing/text.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drawing/text.rs b/src/drawing/text.rs
index 13319af..05a12aa 100644
--- a/src/drawing/text.rs
+++ b/src/drawing/text.rs
@@ -89,11 +89,11 @@ pub fn draw_text_mut<C>(
     let image_height = canvas.height() as i32;
 
     layout_glyphs(scale, font, text, |g, bb| {
-        let x_shift = x + bb.min.x.round() as i32;
-        let y_shift = y + bb.min.y.round() as i32;
+        let x_shift = x.saturating_add(bb.min.x.round() as i32);
+        let y_shift = y.saturating_add(bb.min.y.round() as i32);
         g.draw(|gx, gy, gv| {
-            let image_x = gx as i32 + x_shift;
-            let image_y = gy as i32 + y_shift;
+            let image_x = x_shift.saturating_add(gx as i32);
+            let image_y = y_shift.saturating_add(gy as i32);
 
             if (0..image_width).contains(&image_x) && (0..image_height).contains(&image_y) {
                 let image_x = image_x as u32;
-- 
2.43.0


From 04c0d4113c12ba53b6af4dbc4314ad957017effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 45/56] fix: ellipses with large radii

The squared radii overflow an i32 for radii above 46340, and multiples of
them are not exact in an f32, so outlines of large ellipses were off.
---
 src/drawing/conics.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index c46659e..972aabb 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -124,17 +124,18 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    // The squares of large radii do not fit in an i32, and their multiples are not exact in an f32.
+    let w2 = (width_radius as f64).powi(2);
+    let h2 = (height_radius as f64).powi(2);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
-    let mut py = 2.0 * w2 * y as f32;
+    let mut py = 2.0 * w2 * y as f64;
 
     render_func(x0, y0, x, y);
 
     // Top and bottom regions.
-    let mut p = h2 - (w2 * height_radius as f32) + (0.25 * w2);
+    let mut p = h2 - (w2 * height_radius as f64) + (0.25 * w2);
     while px < py {
         x += 1;
         px += 2.0 * h2;
@@ -150,7 +151,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (x as f64 + 0.5).powi(2) + (w2 * ((y - 1) as f64).powi(2)) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
-- 
2.43.0


From 4972fc21ed9f04689b359daea0abb38fa5cfa63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 46/56] fix: overflow in adaptive_threshold on large images

The intensities of more than 2^24 bright pixels do not add up in a u32.
---
 src/contrast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index 50f2d5d..f35fa84 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -18,7 +18,8 @@ use crate::stats::{cumulative_histogram, histogram};
 /// as the threshold then it will have a value of 255 in the output image, otherwise 0.
 pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> GrayImage {
     assert!(block_radius > 0);
-    let integral = integral_image::<_, u32>(image);
+    // The sum of all intensities does not fit in a u32 for images of more than 2^24 bright pixels.
+    let integral = integral_image::<_, u64>(image);
     let mut out = GrayImage::from_pixel(image.width(), image.height(), Luma::black());
 
     for y in 0..image.height() {
@@ -36,7 +37,7 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
 
             // Number of pixels in the block, adjusted for edge cases.
             let w = (y_high - y_low + 1) * (x_high - x_low + 1);
-            let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
+            let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w as u64;
 
             if current_pixel[0] as i64 >= mean as i64 - delta as i64 {
                 out.put_pixel(x, y, Luma::white());
-- 
2.43.0


From 0dcacbdd51ae1261a68b88646ca807c45aba4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 47/56] fix: overflow in brief on large images

The corners of the integral image were added before subtracting, and the
intensities of more than 2^24 bright pixels do not add up in a u32.
---
 src/binary_descriptors/brief.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 1ae400f..416629c 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -2,7 +2,7 @@
 //! described in [Calonder, et. al. (2010)].
 ///
 /// [Calonder, et. al. (2010)]: https://www.cs.ubc.ca/~lowe/525/papers/calonder_eccv10.pdf
-use image::{GenericImageView, GrayImage, Luma};
+use image::{GenericImageView, GrayImage, Luma, Primitive};
 use rand_distr::{Distribution, Normal};
 
 use crate::{corners::Corner, definitions::Image, integral_image::integral_image, point::Point};
@@ -67,7 +67,10 @@ pub struct TestPair {
     pub p1: Point<u32>,
 }
 
-fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius: u32) -> u8 {
+fn local_pixel_average<T>(integral_image: &Image<Luma<T>>, x: u32, y: u32, radius: u32) -> u8
+where
+    T: Primitive + Into<u64>,
+{
     if radius == 0 {
         return 0;
     }
@@ -98,18 +101,18 @@ fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius
     // function.
     let (bottom_right, top_left, top_right, bottom_left) = unsafe {
         (
-            integral_image.unsafe_get_pixel(x_max, y_max)[0],
-            integral_image.unsafe_get_pixel(x_min, y_min)[0],
-            integral_image.unsafe_get_pixel(x_max, y_min)[0],
-            integral_image.unsafe_get_pixel(x_min, y_max)[0],
+            integral_image.unsafe_get_pixel(x_max, y_max)[0].into(),
+            integral_image.unsafe_get_pixel(x_min, y_min)[0].into(),
+            integral_image.unsafe_get_pixel(x_max, y_min)[0].into(),
+            integral_image.unsafe_get_pixel(x_min, y_max)[0].into(),
         )
     };
-    let total_intensity = bottom_right + top_left - top_right - bottom_left;
-    (total_intensity / pixel_area) as u8
+    let total_intensity: u64 = bottom_right + top_left - top_right - bottom_left;
+    (total_intensity / pixel_area as u64) as u8
 }
 
 pub(crate) fn brief_impl(
-    integral_image: &Image<Luma<u32>>,
+    integral_image: &Image<Luma<u64>>,
     keypoints: &[Point<u32>],
     test_pairs: &[TestPair],
     length: usize,
@@ -255,7 +258,8 @@ pub fn brief(
         test_pairs.clone()
     };
 
-    let integral_image = integral_image(image);
+    // The sum of all intensities does not fit in a u32 for images of more than 2^24 bright pixels.
+    let integral_image = integral_image::<_, u64>(image);
 
     let descriptors = brief_impl(&integral_image, keypoints, &test_pairs, length)?;
 
-- 
2.43.0


From 81d999939288f50e0058fba9f682cb65e92c8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 48/56] fix: overflow in detect_lines on long images

---
 src/hough.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hough.rs b/src/hough.rs
index 438861d..d65ddd1 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -40,7 +40,8 @@ pub fn detect_lines(image: &GrayImage, options: LineDetectionOptions) -> Vec<Pol
     let (width, height) = image.dimensions();
 
     // The maximum possible radius is the diagonal of the image.
-    let rmax = ((width * width + height * height) as f64).sqrt() as i32;
+    let (w2, h2) = (u64::from(width).pow(2), u64::from(height).pow(2));
+    let rmax = ((w2 + h2) as f64).sqrt() as i32;
 
     // Measure angles in degrees, and use bins of width 1 pixel and height 1 degree.
     // We use the convention that distances are positive for angles in (0, 180] and
-- 
2.43.0


From ac0e76cb9f103ac9615c788ea818c625bf304b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 49/56] fix: display_image panicked for images that shrink to
 less than a pixel in one direction

---
 src/window.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/window.rs b/src/window.rs
index 0b6119d..ef8de0b 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -195,8 +195,9 @@ where
         width_scale.min(height_scale)
     };
 
-    let height = (scale * image.height() as f32) as u32;
-    let width = (scale * image.width() as f32) as u32;
+    // A very thin image still needs at least one pixel per side
+    let height = ((scale * image.height() as f32) as u32).max(1);
+    let width = ((scale * image.width() as f32) as u32).max(1);
 
     resize(&image, width, height, FilterType::Triangle)
 }
-- 
2.43.0


From 78e13cfde85ea22dc10b69c9d0770fc7734b316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 50/56] fix: display_multiple_images counted a window twice
 that was asked to close twice

---
 src/window.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/window.rs b/src/window.rs
index ef8de0b..c9cce9b 100644
--- a/src/window.rs
+++ b/src/window.rs
@@ -144,7 +144,7 @@ where
                     ..
                 } => {
                     for (i, canvas) in canvases.iter_mut().enumerate() {
-                        if window_id == canvas.window().id() {
+                        if window_id == canvas.window().id() && window_visibility[i] {
                             canvas.window_mut().hide();
                             window_visibility[i] = false;
                             hidden_count += 1;
-- 
2.43.0


From 7e292701460902826deb600d08ce72a2492a11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 51/56] fix: error metrics overflowed for images of more than
 2^32 subpixels

---
 src/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.rs b/src/stats.rs
index 8524fc4..6410a3f 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -215,7 +215,7 @@ where
             sum_squared_diffs += diff * diff;
         }
     }
-    let count = (left.width() * left.height() * P::CHANNEL_COUNT as u32) as f64;
+    let count = left.width() as f64 * left.height() as f64 * P::CHANNEL_COUNT as f64;
     sum_squared_diffs / count
 }
 
-- 
2.43.0


From 4c1c778e2ff2ee9f624f8cc745ba11422a0fd2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 52/56] fix: Kernel::new accepted sizes whose product overflows
 32 bits

---
 src/kernel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel.rs b/src/kernel.rs
index 70a2c38..1ced867 100644
--- a/src/kernel.rs
+++ b/src/kernel.rs
@@ -20,10 +20,10 @@ where
     ///
     /// # Panics
     /// 1. If `width == 0 || height == 0`.
-    /// 2. If `width * height != data.len() as u32`.
+    /// 2. If `width * height != data.len()`.
     pub const fn new(data: &'a [K], width: u32, height: u32) -> Kernel<'a, K> {
         assert!(width > 0 && height > 0, "width and height must be non-zero");
-        assert!(width * height == data.len() as u32);
+        assert!(width as u64 * height as u64 == data.len() as u64);
         Kernel {
             data,
             width,
-- 
2.43.0


From 70ebd4b54bc13bb005425e830aed8230c877a7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:20 +0000
Subject: [PATCH 53/56] fix: crop accepted windows whose end overflows 32 bits

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index a523c04..d793855 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -39,8 +39,8 @@ pub fn crop<P>(image: &Image<P>, rect: Rect) -> Image<P>
 where
     P: Pixel,
 {
-    assert!(rect.x + rect.width <= image.width());
-    assert!(rect.y + rect.height <= image.height());
+    assert!(u64::from(rect.x) + u64::from(rect.width) <= u64::from(image.width()));
+    assert!(u64::from(rect.y) + u64::from(rect.height) <= u64::from(image.height()));
 
     Image::from_fn(rect.width, rect.height, |x, y| {
         *image.get_pixel(rect.x + x, rect.y + y)
@@ -53,8 +53,8 @@ where
     P: Pixel + Send + Sync,
     P::Subpixel: Send + Sync,
 {
-    assert!(rect.x + rect.width <= image.width());
-    assert!(rect.y + rect.height <= image.height());
+    assert!(u64::from(rect.x) + u64::from(rect.width) <= u64::from(image.width()));
+    assert!(u64::from(rect.y) + u64::from(rect.height) <= u64::from(image.height()));
 
     Image::from_par_fn(rect.width, rect.height, |x, y| {
         *image.get_pixel(rect.x + x, rect.y + y)
-- 
2.43.0


From 097b4e51f2a92a8c27ab84aeccb23dda2a373737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:34 +0000
Subject: [PATCH 54/56] fix: grayscale morphology reads only the rows of the
 image

---
 src/morphology.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index 88c0209..fb4281f 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -550,6 +550,7 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
         let line = line_group.collect::<Vec<_>>();
         let input_rows = image
             .chunks(image.width() as usize)
+            .take(image.height() as usize)
             .skip(y.try_into().unwrap_or(0));
         let output_rows = result
             .chunks_mut(image.width() as usize)
-- 
2.43.0


From 15ecd985544e36944fa1d101b27ab4cfa65bfae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 55/56] fix: template norms sum over pixels, not over the
 buffer

---
 src/template_matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/template_matching.rs b/src/template_matching.rs
index e51a2fb..a8ae578 100644
--- a/src/template_matching.rs
+++ b/src/template_matching.rs
@@ -392,12 +392,12 @@ mod methods {
     }
 
     fn square_sum(input: &GrayImage) -> f32 {
-        input.iter().map(|&x| (x as f32 * x as f32)).sum()
+        input.pixels().map(|p| p[0] as f32 * p[0] as f32).sum()
     }
     fn mult_square_sum(a: &GrayImage, b: &GrayImage) -> f32 {
-        a.iter()
-            .zip(b.iter())
-            .map(|(&x, &y)| (x as f32 * y as f32).powi(2))
+        a.pixels()
+            .zip(b.pixels())
+            .map(|(x, y)| (x[0] as f32 * y[0] as f32).powi(2))
             .sum()
     }
 }
-- 
2.43.0


From 582cca93bbfc64732b49f420b5e4c326e11c0e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:21 +0000
Subject: [PATCH 56/56] fix: warp into the pixels of the output only

---
 src/geometric_transformations.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 14b3a02..e0aea24 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -644,12 +644,13 @@ where
     Fc: Fn(f32, f32) -> (f32, f32) + Send + Sync,
     Fi: Fn(f32, f32) -> P + Send + Sync,
 {
-    let width = out.width();
+    let (width, height) = out.dimensions();
     if width == 0 {
         return;
     }
-    let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
+    // The buffer may be longer than the pixels of the image
+    let raw_out = &mut out.as_mut()[..pitch * height as usize];
 
     #[cfg(feature = "rayon")]
     let chunks = raw_out.par_chunks_mut(pitch);
-- 
2.43.0

