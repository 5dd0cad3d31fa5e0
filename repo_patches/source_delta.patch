From 3ceb3068db4731ed509e4040b9c77fe7583048aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:16 +0000
Subject: [PATCH 01/12] fix: version 21 alignment pattern centre is 94, not 92

ISO/IEC 18004 Annex E lists 6, 28, 50, 72, 94 for version 21. With 92 the
reserved cells are misplaced, so the data bits of every version 21 symbol are
read out of order and intact symbols fail to decode.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From 050b9bba2aa469b0b17303e17674029fd030290b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:38 +0000
Subject: [PATCH 02/12] fix: reject unsupported grid sizes before reading
 format information

Decoding a grid with fewer than 9 modules per side read format cells that do
not exist and panicked instead of returning InvalidVersion.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..0e816a4 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -678,6 +678,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Check the size first, smaller grids have no format information to read
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -704,7 +706,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From 5a812a7b31418dc802f2bbfb323c08bb526a3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 03/12] fix: do not panic when a perspective maps a point to
 infinity

Skewed capstone candidates can produce a perspective whose line at infinity
crosses the probed area. Perspective::map asserted on the resulting
coordinates, so searching such an image panicked. Report those points as
unmappable and let the callers skip them.
---
 src/detect.rs        |  2 +-
 src/geometry.rs      | 21 +++++++++++++--------
 src/identify/grid.rs | 26 +++++++++++++++-----------
 src/prepare.rs       | 24 +++++++++++-------------
 4 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..a61aff8 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -261,7 +261,7 @@ where
 
     /* Set up the perspective transform and find the center */
     let c = Perspective::create(&corners, 7.0, 7.0)?;
-    let center = c.map(3.5, 3.5);
+    let center = c.map(3.5, 3.5)?;
 
     Some(CapStone { c, corners, center })
 }
diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..f8cd258 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -44,7 +44,11 @@ impl Perspective {
         Some(Perspective(c))
     }
 
-    pub fn map(&self, u: f64, v: f64) -> Point {
+    /// Map a grid coordinate to the image.
+    ///
+    /// Returns `None` if the point lies on (or too close to) the line at
+    /// infinity to have a coordinate.
+    pub fn map(&self, u: f64, v: f64) -> Option<Point> {
         let den = self.0[6] * u + self.0[7] * v + 1.0f64;
         let x = (self.0[0] * u + self.0[1] * v + self.0[2]) / den;
         let y = (self.0[3] * u + self.0[4] * v + self.0[5]) / den;
@@ -52,13 +56,14 @@ impl Perspective {
         let x = x.round();
         let y = y.round();
 
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
-        Point {
-            x: x as i32,
-            y: y as i32,
+        let valid = i32::MIN as f64..=i32::MAX as f64;
+        if valid.contains(&x) && valid.contains(&y) {
+            Some(Point {
+                x: x as i32,
+                y: y as i32,
+            })
+        } else {
+            None
         }
     }
 
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..efa879c 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -63,7 +63,7 @@ impl SkewedGridLocation {
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
          */
-        let grid_size = measure_timing_pattern(img, &group);
+        let grid_size = measure_timing_pattern(img, &group)?;
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -136,8 +136,10 @@ where
     }
 
     fn bit(&self, y: usize, x: usize) -> bool {
-        let p = self.grid.c.map(x as f64 + 0.5, y as f64 + 0.5);
-        PixelColor::White != self.img.get_pixel_at_point(p)
+        match self.grid.c.map(x as f64 + 0.5, y as f64 + 0.5) {
+            Some(p) => PixelColor::White != self.img.get_pixel_at_point(p),
+            None => false,
+        }
     }
 }
 
@@ -187,15 +189,15 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 // * which is nearest the centre of the code. Using these points, we do
 // * a horizontal and a vertical timing scan.
 // */
-fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> usize
+fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> Option<usize>
 where
     S: ImageBuffer,
 {
     const US: [f64; 3] = [6.5f64, 6.5f64, 0.5f64];
     const VS: [f64; 3] = [0.5f64, 6.5f64, 6.5f64];
-    let tpet0 = caps.0.c.map(US[0], VS[0]);
-    let tpet1 = caps.1.c.map(US[1], VS[1]);
-    let tpet2 = caps.2.c.map(US[2], VS[2]);
+    let tpet0 = caps.0.c.map(US[0], VS[0])?;
+    let tpet1 = caps.1.c.map(US[1], VS[1])?;
+    let tpet2 = caps.2.c.map(US[2], VS[2])?;
 
     let hscan = timing_scan(img, &tpet1, &tpet2);
     let vscan = timing_scan(img, &tpet1, &tpet0);
@@ -206,7 +208,7 @@ where
     assert!(scan >= 1);
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
-    ver * 4 + 17
+    Some(ver * 4 + 17)
 }
 
 fn timing_scan<S>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize
@@ -241,9 +243,9 @@ where
      * can estimate its size.
      */
     let (u, v) = c0.c.unmap(&align_seed);
-    let a = c0.c.map(u, v + 1.0);
+    let a = c0.c.map(u, v + 1.0)?;
     let (u, v) = c2.c.unmap(&align_seed);
-    let c = c2.c.map(u + 1.0, v);
+    let c = c2.c.map(u + 1.0, v)?;
     let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
         + (a.y - align_seed.y) * (c.x - align_seed.x))
         .unsigned_abs() as usize;
@@ -450,7 +452,9 @@ where
     #[allow(clippy::needless_range_loop)]
     for v in 0..3 {
         for u in 0..3 {
-            let p = perspective.map(x as f64 + OFFSETS[u], y as f64 + OFFSETS[v]);
+            let Some(p) = perspective.map(x as f64 + OFFSETS[u], y as f64 + OFFSETS[v]) else {
+                continue;
+            };
             if !(p.y < 0 || p.y as usize >= img.height() || p.x < 0 || p.x as usize >= img.width())
             {
                 if PixelColor::White != img.get_pixel_at_point(p) {
diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..51b88a4 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -240,19 +240,17 @@ where
             .filter_map(|v| crate::SkewedGridLocation::from_group(self, v))
             .collect();
         for grid_location in locations {
-            let bounds = [
-                grid_location.c.map(0.0, 0.0),
-                grid_location
-                    .c
-                    .map(grid_location.grid_size as f64 + 1.0, 0.0),
-                grid_location.c.map(
-                    grid_location.grid_size as f64 + 1.0,
-                    grid_location.grid_size as f64 + 1.0,
-                ),
-                grid_location
-                    .c
-                    .map(0.0, grid_location.grid_size as f64 + 1.0),
-            ];
+            let size = grid_location.grid_size as f64 + 1.0;
+            let corner = |u, v| grid_location.c.map(u, v);
+            let (Some(tl), Some(tr), Some(br), Some(bl)) = (
+                corner(0.0, 0.0),
+                corner(size, 0.0),
+                corner(size, size),
+                corner(0.0, size),
+            ) else {
+                continue;
+            };
+            let bounds = [tl, tr, br, bl];
             let grid = grid_location.into_grid_image(self);
             res.push(crate::Grid { grid, bounds });
         }
-- 
2.43.0


From 1bd4eb628b980a12d0e44b78be2ed31de79b17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 04/12] fix: skip capstones whose rotated corners have no
 perspective

Which corner triple decides whether a perspective exists depends on the
rotation, so a degenerate capstone candidate (e.g. a triangular ring) can lose
its perspective when it is rotated. Drop the group instead of panicking.
---
 src/identify/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index efa879c..fc75b9f 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -166,7 +166,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -176,8 +176,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From 3bbd19867bca2aef4efbdeabd42cd5978d205602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:06 +0000
Subject: [PATCH 05/12] fix: read the last data codeword of long blocks from
 its own position

The extra data codeword of a long block was taken from the error
correction codewords. Intact symbols still decoded because that was
corrected as one error per long block, but the block could then correct
one damaged codeword less than it should.
---
 src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 0e816a4..cad7c02 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -359,7 +359,9 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
         for j in 0..ecc.dw {
-            dst[j] = ds.data[j * bc + i];
+            // Only the long blocks have a codeword in the last round
+            let block = if j < sb_ecc.dw { i } else { i - sb_ecc.ns };
+            dst[j] = ds.data[j * bc + block];
         }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
-- 
2.43.0


From e0cf76ab5f6911fe4d50474b4a31dad0a6af795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:22 +0000
Subject: [PATCH 06/12] fix: do not guess a format word from more than three
 errors

A first copy of the format information that is further than three bits from
every format word could still be 'corrected' to one of them, instead of being
reported as unreadable so that the second copy is consulted.
---
 src/decode.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index cad7c02..9baa206 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -667,12 +667,19 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
         let sigma = berlekamp_massey(&s, 6);
 
         /* Now, find the roots of the polynomial */
+        let mut errors = 0;
         for i in 0..15 {
             if poly_eval(&sigma, GF16::GENERATOR.pow(15 - i)) == GF16::ZERO {
                 word ^= 1 << i;
+                errors += 1;
             }
         }
 
+        // The code corrects up to 3 errors, anything beyond is only a guess
+        if errors > 3 {
+            return Err(DeQRError::FormatEcc);
+        }
+
         // Double CHECK syndromes
         format_syndromes(word).map_err(|_| DeQRError::FormatEcc)?;
     }
-- 
2.43.0


From 53f487296dcab5f760731d43877f031c72192aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:38 +0000
Subject: [PATCH 07/12] fix: a group of capstones without any timing transition
 is no grid

measure_timing_pattern asserted that at least one of the two timing scans
crosses a colour change. Rings whose corners are pulled out of shape by
attached strokes can map both scan lines into one region, and detect_grids
panicked.
---
 src/identify/grid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index fc75b9f..4ee4efc 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -204,8 +204,12 @@ where
 
     let scan = cmp::max(hscan, vscan);
 
+    /* Without a single transition there is no timing pattern at all */
+    if scan == 0 {
+        return None;
+    }
+
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
     Some(ver * 4 + 17)
-- 
2.43.0


From e4cc10df1d807e01050a8ca6b1656cb4979e9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:28 +0000
Subject: [PATCH 08/12] fix: compute line intersections in 64 bits

The alignment estimate multiplies three coordinates. With modules of about
140 pixels (a small code filling a 4000 pixel picture) this exceeds an i32:
detect_grids panicked with overflow checks on, and silently used a wrong
corner with them off.
---
 src/geometry.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index f8cd258..9a7ad2f 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -89,15 +89,23 @@ impl Perspective {
 }
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
+    /* Products of three coordinates do not fit 32 bits on large images */
+    let wide = |p: &Point| (p.x as i64, p.y as i64);
+    let ((p0x, p0y), (p1x, p1y)) = (wide(p0), wide(p1));
+    let ((q0x, q0y), (q1x, q1y)) = (wide(q0), wide(q1));
+
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -(p1y - p0y);
+    let b = p1x - p0x;
+
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -(q1y - q0y);
+    let d = q1x - q0x;
+
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * p1x + b * p1y;
+    let f = c * q1x + d * q1y;
+
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -111,8 +119,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
-- 
2.43.0


From fdc6966719e8df3a880073a513d11e1a4e055c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 09/12] fix: bound the search for the alignment pattern

A strongly distorted group of capstones can make the estimated size of the
alignment pattern arbitrarily large: the product overflowed, or the spiral
ran for minutes over a 100x100 picture (the number of steps is a hundred
times the estimate). A pattern larger than the picture cannot be found.
---
 src/identify/grid.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 4ee4efc..f064f55 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -250,9 +250,19 @@ where
     let a = c0.c.map(u, v + 1.0)?;
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v)?;
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let edge = |p: Point| {
+        let dx = p.x as i128 - align_seed.x as i128;
+        let dy = p.y as i128 - align_seed.y as i128;
+        (dx, dy)
+    };
+    let ((ax, ay), (cx, cy)) = (edge(a), edge(c));
+    let size_estimate = (ax * -cy + ay * cx).unsigned_abs();
+
+    /* No region can be that large, so there is nothing to search for. */
+    if size_estimate / 2 > img.width() as u128 * img.height() as u128 {
+        return None;
+    }
+    let size_estimate = size_estimate as usize;
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
-- 
2.43.0


From 265770180f90546677c7b4227fdb41decc91799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 10/12] fix: searching a picture of zero width finds nothing

capstones_from_image read the first pixel of every row and panicked if the
rows were empty.
---
 src/detect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index a61aff8..c113ebb 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,11 @@ where
 {
     let mut res = Vec::new();
 
+    // Rows without a single pixel have nothing to scan
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From a6b357845bc3c1a919c4af52e022d55fb7cca251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:14 +0000
Subject: [PATCH 11/12] fix: a capstone belongs to one grid only

After grouping a capstone with two neighbours, find_groupings went on pairing
the same capstone with further neighbours. With several codes in a picture
it reported grids sharing a capstone, and the capstones consumed that way
were missing for the codes they belong to.
---
 src/prepare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prepare.rs b/src/prepare.rs
index 51b88a4..49c8c7b 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -297,6 +297,8 @@ where
                 used_capstones.push(pair.0);
                 used_capstones.push(idx);
                 used_capstones.push(pair.1);
+                // Every capstone belongs to one grid only, including this one
+                break;
             }
         }
         groups
-- 
2.43.0


From 4ce47f9cb6090531847e218cf373c72548b1c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:12 +0000
Subject: [PATCH 12/12] fix: compute corner and line scores in 64 bits

---
 src/detect.rs        | 29 ++++++++++++++++++-----------
 src/identify/grid.rs | 42 ++++++++++++++++++++++++++----------------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index c113ebb..d77a8d1 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -279,7 +279,7 @@ where
 struct FirstCornerFinder {
     initial: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl FirstCornerFinder {
@@ -298,9 +298,10 @@ impl FirstCornerFinder {
 
 impl AreaFiller for FirstCornerFinder {
     fn update(&mut self, row: Row) {
-        let dy = (row.y as i32) - self.initial.y;
-        let l_dx = (row.left as i32) - self.initial.x;
-        let r_dx = (row.right as i32) - self.initial.x;
+        // Products of two coordinates do not fit 32 bits on large images
+        let dy = row.y as i64 - self.initial.y as i64;
+        let l_dx = row.left as i64 - self.initial.x as i64;
+        let r_dx = row.right as i64 - self.initial.x as i64;
 
         let l_dist = l_dx * l_dx + dy * dy;
         let r_dist = r_dx * r_dx + dy * dy;
@@ -335,7 +336,7 @@ impl AreaFiller for FirstCornerFinder {
 struct AllCornerFinder {
     baseline: Point,
     best: [Point; 4],
-    scores: [i32; 4],
+    scores: [i64; 4],
 }
 
 impl AllCornerFinder {
@@ -345,8 +346,11 @@ impl AllCornerFinder {
             y: corner.y - initial.y,
         };
 
-        let parallel_score = initial.x * baseline.x + initial.y * baseline.y;
-        let orthogonal_score = -initial.x * baseline.y + initial.y * baseline.x;
+        // Products of two coordinates do not fit 32 bits on large images
+        let (init_x, init_y) = (initial.x as i64, initial.y as i64);
+        let (base_x, base_y) = (baseline.x as i64, baseline.y as i64);
+        let parallel_score = init_x * base_x + init_y * base_y;
+        let orthogonal_score = -init_x * base_y + init_y * base_x;
 
         AllCornerFinder {
             baseline,
@@ -367,12 +371,15 @@ impl AllCornerFinder {
 
 impl AreaFiller for AllCornerFinder {
     fn update(&mut self, row: Row) {
-        let l_par_score = (row.left as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let l_ort_score = -(row.left as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let (base_x, base_y) = (self.baseline.x as i64, self.baseline.y as i64);
+        let (left, right, y) = (row.left as i64, row.right as i64, row.y as i64);
+
+        let l_par_score = left * base_x + y * base_y;
+        let l_ort_score = -left * base_y + y * base_x;
         let l_scores = [l_par_score, l_ort_score, -l_par_score, -l_ort_score];
 
-        let r_par_score = (row.right as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let r_ort_score = -(row.right as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let r_par_score = right * base_x + y * base_y;
+        let r_ort_score = -right * base_y + y * base_x;
         let r_scores = [r_par_score, r_ort_score, -r_par_score, -r_ort_score];
 
         for j in 0..4 {
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index f064f55..990b44b 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -47,7 +47,7 @@ impl SkewedGridLocation {
         };
 
         /* Make sure A-B-C is clockwise */
-        if (group.1.center.x - h0.x) * -hd.y + (group.1.center.y - h0.y) * hd.x > 0 {
+        if side_of_line(&group.1.center, &h0, &hd) > 0 {
             mem::swap(&mut group.0, &mut group.2);
             hd.x = -hd.x;
             hd.y = -hd.y
@@ -80,7 +80,7 @@ impl SkewedGridLocation {
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
             align = find_alignment_pattern(img, align, &group.0, &group.2)?;
-            let score = -hd.y * align.x + hd.x * align.y;
+            let score = side_of_line(&align, &Point::default(), &hd);
             let finder = LeftMostFinder {
                 line_p: hd,
                 best: align,
@@ -166,12 +166,20 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
+/// On which side of the line through `start` in direction `dir` a point lies,
+/// and how far away. Such products do not fit 32 bits on large images.
+fn side_of_line(p: &Point, start: &Point, dir: &Point) -> i64 {
+    let dx = p.x as i64 - start.x as i64;
+    let dy = p.y as i64 - start.y as i64;
+    dx * -(dir.y as i64) + dy * dir.x as i64
+}
+
 fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
         .enumerate()
-        .min_by_key(|(_, a)| (a.x - h0.x) * (-hd.y) + (a.y - h0.y) * hd.x)
+        .min_by_key(|(_, a)| side_of_line(a, h0, hd))
         .expect("corners cannot be empty");
 
     /* Rotate the capstone */
@@ -308,24 +316,26 @@ where
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl AreaFiller for LeftMostFinder {
     fn update(&mut self, row: Row) {
-        let left_d = -self.line_p.y * (row.left as i32) + self.line_p.x * row.y as i32;
-        let right_d = -self.line_p.y * (row.right as i32) + self.line_p.x * row.y as i32;
-
-        if left_d < self.score {
-            self.score = left_d;
-            self.best.x = row.left as i32;
-            self.best.y = row.y as i32;
-        }
+        let left = Point {
+            x: row.left as i32,
+            y: row.y as i32,
+        };
+        let right = Point {
+            x: row.right as i32,
+            y: row.y as i32,
+        };
 
-        if right_d < self.score {
-            self.score = right_d;
-            self.best.x = row.right as i32;
-            self.best.y = row.y as i32;
+        for p in [left, right] {
+            let score = side_of_line(&p, &Point::default(), &self.line_p);
+            if score < self.score {
+                self.score = score;
+                self.best = p;
+            }
         }
     }
 }
-- 
2.43.0

