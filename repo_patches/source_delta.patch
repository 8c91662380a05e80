From 4d631f58ad700ddb8877aea1562776f8b60bf196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 1/5] fix: start the power iteration from a diagonal not
 perpendicular to the axis

Starting from (1, 1, 1) unconditionally gives a NaN axis when the colours
only vary perpendicular to it (e.g. a red and green checkerboard), and the
range and cluster fits then encode the block as one flat colour.
---
 lib/src/math.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 1012f8f..66993c1 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -78,7 +78,23 @@ impl Sym3x3 {
         let row0 = Vec4::new(self.x[0], self.x[1], self.x[2], 0.0);
         let row1 = Vec4::new(self.x[1], self.x[3], self.x[4], 0.0);
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
+
+        // Start from the diagonal of the colour cube which the matrix stretches the most. Always
+        // starting from (1, 1, 1) fails if that happens to be perpendicular to the component.
         let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
+        let mut longest = 0.0;
+        for &(x, y, z) in &[
+            (1.0, 1.0, 1.0),
+            (-1.0, 1.0, 1.0),
+            (1.0, -1.0, 1.0),
+            (1.0, 1.0, -1.0),
+        ] {
+            let length2 = (row0 * x + row1 * y + row2 * z).to_vec3().length2();
+            if length2 > longest {
+                longest = length2;
+                v = Vec4::new(x, y, z, 1.0);
+            }
+        }
 
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
@@ -86,8 +102,8 @@ impl Sym3x3 {
             let w = row1 * v.splat_y() + w;
             let w = row2 * v.splat_z() + w;
 
-            // Construct Vec4 with max component from xyz in all channels
-            let a = w.x().max(w.y().max(w.z()));
+            // Construct Vec4 with max magnitude component from xyz in all channels
+            let a = libm::fabsf(w.x()).max(libm::fabsf(w.y()).max(libm::fabsf(w.z())));
             let a = Vec4::new(a, a, a, a);
 
             v = w * a.reciprocal();
-- 
2.43.0


From 2764ef90c71b88852395983def45c4194b5a86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 2/5] fix: use the seven-step endpoints in the seven-step alpha
 codebook

---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From a7ae45d5123cec5bc1001d66f88523a652bf3cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 3/5] fix: accept output buffers larger than the image

compress() documents that the buffer needs at least compressed_size() bytes,
but a surplus that is not a whole number of blocks panicked and whole surplus
blocks were overwritten. decompress() panicked on any surplus.
---
 lib/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..d1fa5c7 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -125,6 +125,10 @@ impl Format {
         let blocks_wide = num_blocks(width);
         let block_size = self.block_size();
 
+        // the buffer may be larger than the image
+        let size = output.len().min(4 * width * height);
+        let output = &mut output[..size];
+
         #[cfg(feature = "rayon")]
         let output_rows = output.par_chunks_mut(width * 4 * 4);
         #[cfg(not(feature = "rayon"))]
@@ -294,6 +298,9 @@ impl Format {
     ) {
         assert!(output.len() >= self.compressed_size(width, height));
 
+        // the buffer may be larger than the compressed image
+        let output = &mut output[..self.compressed_size(width, height)];
+
         let block_size = self.block_size();
         let blocks_wide = num_blocks(width);
 
-- 
2.43.0


From e58497d582912399c7d5aade20a5daea04730500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 4/5] fix: encode the PNG before creating the output file and
 report write errors

The output was created before encoding, so an image the encoder refuses (a DDS
with height 0) left an existing file truncated. Errors of the final flush of
the buffered writer were ignored, so on a full disk the tool exited with
status zero and left an incomplete PNG.
---
 cli/src/image/png.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cli/src/image/png.rs b/cli/src/image/png.rs
index f7e5c3d..52f0636 100644
--- a/cli/src/image/png.rs
+++ b/cli/src/image/png.rs
@@ -19,8 +19,7 @@
 // TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 // SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
-use std::fs::File;
-use std::io::BufWriter;
+use std::fs::{self, File};
 use std::path::Path;
 
 use png::{BitDepth, ColorType, Transformations};
@@ -70,13 +69,16 @@ pub fn read(path: &Path) -> RawImage {
 }
 
 pub fn write(path: &Path, width: u32, height: u32, data: &[u8]) {
-    let file = File::create(path).expect("Unable to create file");
-    let w = &mut BufWriter::new(file);
+    // Encode in memory first, so that a failure doesn't clobber an existing file
+    let mut encoded = Vec::new();
 
-    let mut encoder = png::Encoder::new(w, width, height);
+    let mut encoder = png::Encoder::new(&mut encoded, width, height);
     encoder.set_color(ColorType::Rgba);
     encoder.set_depth(BitDepth::Eight);
     let mut writer = encoder.write_header().unwrap();
 
     writer.write_image_data(data).unwrap();
+    writer.finish().unwrap();
+
+    fs::write(path, encoded).expect("Failed to write output file");
 }
-- 
2.43.0


From 9dd1ea05ebe0f81c4125ce779939540e4c85cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 5/5] fix: refuse DDS files with too little data before
 decoding them

Decompressing such a file with a header that claims a huge height allocated
gigabytes and then panicked once per piece of work the rows were split into,
which took minutes.
---
 cli/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5f82454..ce6cc54 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -188,6 +188,9 @@ fn decompress_file(outfile: Option<PathBuf>, infile: &Path) {
 
     let width = dds.header.width as usize;
     let height = dds.header.height as usize;
+    if dds.data.len() < format.compressed_size(width, height) {
+        panic!("File is too short for an image of {}x{} pixels", width, height);
+    }
     let mut decompressed = vec![0u8; 4 * width * height];
 
     format.decompress(&dds.data, width, height, &mut decompressed);
-- 
2.43.0

