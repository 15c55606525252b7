From 957546831c71e8816c8396a94353e90fd86802e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 01/18] hooks: expose private items to the simulation harness
 under --cfg sia_sim

---
 lib/sia/rust/embedding/src/lib.rs    | 11 +++++++++++
 lib/sia/rust/signature/src/lib.rs    |  8 ++++++++
 lib/sia/rust/watermarking/src/lib.rs |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..ec06665 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 extern crate ndarray;
 
 use ndarray::{Array2, Axis, Ix};
@@ -8,6 +10,15 @@ use crate::io::data::{deserialize, Data};
 mod haar;
 mod io;
 
+/// Seam for the deterministic simulation harness; compiled only with `--cfg sia_sim`.
+#[cfg(sia_sim)]
+pub mod sim_hooks {
+    pub use crate::haar::dwt_2d;
+    pub use crate::io::data::{deserialize, Data};
+    pub use crate::io::steganography::get_capacity;
+    pub use crate::io::{read, write};
+}
+
 fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..afd6a10 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use ed25519::Signature;
 use ed25519_dalek::{Keypair, PublicKey};
 
@@ -8,6 +10,12 @@ use crate::ecdsa::{DalekSigner, DalekVerifier};
 mod ecdsa;
 mod keypair;
 
+/// Seam for the deterministic simulation harness; compiled only with `--cfg sia_sim`.
+#[cfg(sia_sim)]
+pub mod sim_hooks {
+    pub use crate::keypair::generate;
+}
+
 pub type DSSigner = DalekSigner<Keypair>;
 pub type DSVerifier = DalekVerifier<PublicKey>;
 
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..c189763 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -1,8 +1,17 @@
+#![allow(unexpected_cfgs)]
+
 extern crate core;
 
 mod process;
 mod watermark;
 
+/// Seam for the deterministic simulation harness; compiled only with `--cfg sia_sim`.
+#[cfg(sia_sim)]
+pub mod sim_hooks {
+    pub use crate::process::{authenticate_channel, watermark_channel};
+    pub use crate::watermark::{deserialize, Watermark};
+}
+
 use crate::process::watermark_channel;
 use image::{
     imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgba,
-- 
2.43.0


From 91d74b77faee7a16ccb9cc320f51c14babfdf8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 02/18] fix: decode what encode produced for every capacity

For capacities without an LDPC code the length header was left in the
decoded data, and a capacity that is not a multiple of the codeword
length made the decoder panic on the partial rest.
---
 lib/sia/rust/encoding/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..3a929ca 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -110,10 +110,15 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
     match code_option {
-        None => bytes.clone(),
+        None => {
+            // No code for this capacity: only the length header was prepended
+            let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
+            Vec::from(&bytes[2..bytes_length + 2])
+        }
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            // The capacity may leave a rest shorter than a codeword, which is never written
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From 1af0b202080ff0ab27e86611f94eb9ed0b49dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 03/18] fix: refuse data longer than the 16-bit length header
 can tell

The length wrapped silently and the data could not be decoded.
---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3a929ca..2debb87 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From 738d982acdbc470698c01d815e0ac771debbac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/18] fix: address every coefficient of non-square domains
 once

Rows have `height` columns here; the modulus by `width` made bits of
non-square domains collide or fall outside of the domain.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..fa68e21 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -20,7 +20,7 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
 }
 
 fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
+    let column = offset % height;
     let row = (offset as f64 / height as f64).floor() as usize;
     (column, row)
 }
-- 
2.43.0


From 8734a228e0342606ea8b3b0c1695e91a2100d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 05/18] fix: calculate Zernike moments of images higher than
 wide

The matrix was too small for them and its lookup panicked. Square and
landscape images keep their moments.
---
 lib/sia/rust/zernike/src/calc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..24a84f6 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,7 +12,8 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    let dimension = width.max(height);
+    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, dimension).into_raw_vec();
 
     let integral =
         image
@@ -20,7 +21,9 @@ pub fn calculate_zernike_image_moment(
             .enumerate()
             .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix_vector
+                    .get((i / width) * dimension + i % width)
+                    .unwrap();
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From 69f707650d19631514039338c233d3b4e426d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 06/18] fix: reject malformed signatures instead of panicking

---
 lib/sia/rust/signature/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index afd6a10..376c6c0 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -42,8 +42,10 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
 
     let verifier = DSVerifier { verify_key };
 
-    let sig = Signature::from_bytes(signature.as_slice()).unwrap();
-    verifier.verify(data.as_slice(), &sig).is_ok()
+    match Signature::from_bytes(signature.as_slice()) {
+        Ok(sig) => verifier.verify(data.as_slice(), &sig).is_ok(),
+        Err(_) => false,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 888c96f68cdbf147feb215cabaa72c7ace985c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 07/18] fix: report images without a readable watermark as not
 authentic

Authentication panicked on out of range lengths, invalid text or a
perturbation vector that does not belong to the features, instead of
giving its verdict.
---
 lib/sia/rust/embedding/src/io/data.rs      | 12 ++++++++----
 lib/sia/rust/embedding/src/lib.rs          | 12 ++++++++----
 lib/sia/rust/encoding/src/lib.rs           | 13 +++++++++----
 lib/sia/rust/watermarking/src/process.rs   | 19 +++++++++++++++----
 lib/sia/rust/watermarking/src/watermark.rs | 14 +++++++++-----
 5 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 921eec4..39108c5 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -27,11 +27,15 @@ impl Data {
 }
 
 pub fn deserialize(bytes: &Vec<u8>) -> Data {
-    println!("serialized data bytes: {:?}", bytes);
+    try_deserialize(bytes).expect("too short data")
+}
+
+pub fn try_deserialize(bytes: &Vec<u8>) -> Option<Data> {
     let length = bytes.len();
     if length < 3 {
-        panic!("too short data");
+        return None;
     }
+    println!("serialized data bytes: {:?}", bytes);
 
     let data_length_bytes = &bytes[0..2];
     let data_length = *vec_u16_from_bytes(&data_length_bytes.to_vec())
@@ -43,10 +47,10 @@ pub fn deserialize(bytes: &Vec<u8>) -> Data {
     let data_end = data_start + data_length as usize;
     println!("data bytes: ({:?} - {:?})", data_start, data_end);
 
-    let data_bytes: Vec<u8> = bytes[data_start..data_end].to_vec();
+    let data_bytes: Vec<u8> = bytes.get(data_start..data_end)?.to_vec();
     let data = Data::new(data_bytes);
     println!("deserialized data: {:?}", data);
-    data
+    Some(data)
 }
 
 #[cfg(test)]
diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index ec06665..8b43ad8 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -5,7 +5,7 @@ extern crate ndarray;
 use ndarray::{Array2, Axis, Ix};
 
 use crate::haar::dwt_2d;
-use crate::io::data::{deserialize, Data};
+use crate::io::data::{try_deserialize, Data};
 
 mod haar;
 mod io;
@@ -66,6 +66,10 @@ pub fn embed(
 }
 
 pub fn extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Vec<u8> {
+    try_extract(image_matrix, depth, dwt_levels).expect("no readable data is embedded")
+}
+
+pub fn try_extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Option<Vec<u8>> {
     let (width, height) = image_matrix.dim();
 
     // 1. perform forward Haar 2D multi-level DWT
@@ -86,10 +90,10 @@ pub fn extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Vec<u
     let extracted = io::read(&ll3, depth);
 
     let domain_capacity = get_domain_capacity(ll3_width, ll3_height);
-    let decoded = encoding::decode(extracted, domain_capacity);
+    let decoded = encoding::try_decode(extracted, domain_capacity)?;
 
-    let data = deserialize(&decoded);
-    data.bytes
+    let data = try_deserialize(&decoded)?;
+    Some(data.bytes)
 }
 
 #[cfg(test)]
diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 2debb87..1741cd9 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -106,6 +106,10 @@ fn pad_bits(input: &BitVec<u8>, length: usize) -> BitVec<u8> {
 }
 
 pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    try_decode(bytes, codeword_length).expect("data is too short for its length header")
+}
+
+pub fn try_decode(bytes: Vec<u8>, codeword_length: usize) -> Option<Vec<u8>> {
     let bits: BitVec<u8, Lsb0> = BitVec::from_vec(bytes.clone());
 
     let bits_length = bits.len();
@@ -116,8 +120,8 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     match code_option {
         None => {
             // No code for this capacity: only the length header was prepended
-            let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
-            Vec::from(&bytes[2..bytes_length + 2])
+            let bytes_length = bytes_to_u16(*bytes.get(0)?, *bytes.get(1)?) as usize;
+            bytes.get(2..bytes_length + 2).map(Vec::from)
         }
         Some(code) => {
             let mut decoded_bytes = vec![];
@@ -139,12 +143,13 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
             }
 
             // Get data bytes length
-            let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
+            let bytes_length =
+                bytes_to_u16(*decoded_bytes.get(0)?, *decoded_bytes.get(1)?) as usize;
 
             println!("expected data bytes length: {:?}", bytes_length);
 
             // Return decoded data
-            let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
+            let decoded_bytes = decoded_bytes.get(2..bytes_length + 2).map(Vec::from);
 
             //println!("decoded bytes: {:?}", decoded_bytes);
             decoded_bytes
diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index f5729ef..6aca7a6 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -2,14 +2,14 @@ use image::{GenericImage, GenericImageView, GrayImage, ImageBuffer, Luma};
 use imageproc::contrast::equalize_histogram;
 use ndarray::{Array2, Dim, Ix2};
 
-use embedding::{embed, extract};
+use embedding::{embed, try_extract};
 use image_features::calculate_features;
 use image_features::feature_types::FeaturesType;
 use signature::{sign, verify};
 use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
 use utils::bytes::vec_i64_to_bytes;
 
-use crate::watermark::{deserialize, Watermark};
+use crate::watermark::{try_deserialize, Watermark};
 
 const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
 const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
@@ -92,12 +92,23 @@ pub fn authenticate_channel(
     println!("features: {:?}", features);
 
     // 2. Extract watermark data
-    let extracted_data = extract(pixels_array, embedding_depth, dwt_levels);
+    let extracted_data = match try_extract(pixels_array, embedding_depth, dwt_levels) {
+        Some(extracted_data) => extracted_data,
+        None => return false,
+    };
     println!("extracted watermark data: {:?}", extracted_data);
 
-    let watermark = deserialize(&extracted_data);
+    let watermark = match try_deserialize(&extracted_data) {
+        Some(watermark) => watermark,
+        None => return false,
+    };
     println!("deserialized watermark data: {:?}", watermark);
 
+    // There are three perturbation bits per feature
+    if watermark.perturbation_vector.len() != 3 * features.len() {
+        return false;
+    }
+
     let quantized_features = three_bit_dequantization(
         &features,
         &watermark.perturbation_vector,
diff --git a/lib/sia/rust/watermarking/src/watermark.rs b/lib/sia/rust/watermarking/src/watermark.rs
index 1bb5df4..3ede40f 100644
--- a/lib/sia/rust/watermarking/src/watermark.rs
+++ b/lib/sia/rust/watermarking/src/watermark.rs
@@ -51,9 +51,13 @@ impl Watermark {
 }
 
 pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
+    try_deserialize(bytes).expect("watermark data is corrupted")
+}
+
+pub fn try_deserialize(bytes: &Vec<u8>) -> Option<Watermark> {
     let length = bytes.len();
     if length < 3 {
-        panic!("too short data");
+        return None;
     }
 
     let perturbation_vector_length = *bytes.get(0).unwrap() as usize;
@@ -73,12 +77,12 @@ pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
     // println!("t: ({:?} - {:?})", t_start, t_end);
 
     let p: BitVec<u8> =
-        perturbation_vector_from_bytes(&bytes[p_start..p_end].to_vec(), perturbation_vector_length);
-    let s: Vec<u8> = bytes[s_start..s_end].to_vec();
+        perturbation_vector_from_bytes(&bytes.get(p_start..p_end)?.to_vec(), perturbation_vector_length);
+    let s: Vec<u8> = bytes.get(s_start..s_end)?.to_vec();
 
-    let t: String = String::from_utf8(bytes[t_start..t_end].to_vec()).unwrap();
+    let t: String = String::from_utf8(bytes.get(t_start..t_end)?.to_vec()).ok()?;
 
-    Watermark::new(p, s, t)
+    Some(Watermark::new(p, s, t))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7cfc0279588b71f34c5761dbc2fda7a306e5c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 08/18] fix: do not report an image as watermarked when writing
 its end failed

The PNG and GIF encoders write the end of the image when dropped and
ignore errors there, so a full disk left a truncated file that was
reported as watermarked.
---
 lib/sia/rust/cli/src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/sia/rust/cli/src/main.rs b/lib/sia/rust/cli/src/main.rs
index b6cec75..e7106f2 100644
--- a/lib/sia/rust/cli/src/main.rs
+++ b/lib/sia/rust/cli/src/main.rs
@@ -1,6 +1,6 @@
 extern crate getopts;
 
-use std::fs::File;
+use std::io::Cursor;
 use std::path::Path;
 use std::time::Instant;
 use std::{env, fs};
@@ -54,13 +54,12 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                     );
                 }
 
-                let mut output_file = File::create(output_path.as_str()).unwrap();
+                // Encode in memory: encoders may finish an image when dropped and lose write errors
+                let mut encoded = Cursor::new(vec![]);
                 watermarked
-                    .write_to(
-                        &mut output_file,
-                        ImageFormat::from_path(&output_path).unwrap(),
-                    )
+                    .write_to(&mut encoded, ImageFormat::from_path(&output_path).unwrap())
                     .unwrap();
+                fs::write(output_path.as_str(), encoded.into_inner()).unwrap();
 
                 println!(
                     "Watermarked {} ({} -> {} channels) in {}",
-- 
2.43.0


From bee510721a4e24daf19d70e617cfc91d4350e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 09/18] fix: never overwrite an input or the output of another
 input

Inputs with the same name in different folders replaced the output of
each other, and an output could replace an input of the same run.
---
 lib/sia/rust/cli/src/main.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/sia/rust/cli/src/main.rs b/lib/sia/rust/cli/src/main.rs
index e7106f2..26227d7 100644
--- a/lib/sia/rust/cli/src/main.rs
+++ b/lib/sia/rust/cli/src/main.rs
@@ -1,5 +1,6 @@
 extern crate getopts;
 
+use std::collections::HashSet;
 use std::io::Cursor;
 use std::path::Path;
 use std::time::Instant;
@@ -27,6 +28,7 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                 fs::create_dir_all(output_folder_path).unwrap();
             }
 
+            let mut output_paths = HashSet::new();
             for input in inputs {
                 let timer = Instant::now();
                 let input_image = image::open(input).unwrap();
@@ -54,6 +56,17 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                     );
                 }
 
+                // Neither an input nor the output of another input may be overwritten
+                let is_input = fs::canonicalize(&output_path).map_or(false, |path| {
+                    inputs
+                        .iter()
+                        .any(|other| fs::canonicalize(other).map_or(false, |other| other == path))
+                });
+                if is_input || !output_paths.insert(output_path.clone()) {
+                    println!("{} would be overwritten", output_path);
+                    std::process::exit(1);
+                }
+
                 // Encode in memory: encoders may finish an image when dropped and lose write errors
                 let mut encoded = Cursor::new(vec![]);
                 watermarked
-- 
2.43.0


From 8a4a44bbc8ef65e4e9920ae9aa6e102f4c563de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 10/18] fix: show the image selected last when files finish
 loading out of order

---
 src/Content/Content.tsx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Content/Content.tsx b/src/Content/Content.tsx
index 36e2c21..0939ec0 100644
--- a/src/Content/Content.tsx
+++ b/src/Content/Content.tsx
@@ -1,4 +1,4 @@
-import React, { useEffect, useState } from 'react';
+import React, { useEffect, useRef, useState } from 'react';
 import WatermarkingPreview from '../WatermarkingPreview/WatermarkingPreview';
 import init from 'sia-watermarking-lib';
 import * as loadImage from './peppers.jpg';
@@ -27,17 +27,25 @@ const Content = (_: ContentProps) => {
     WatermarkingProcess | undefined,
     React.Dispatch<React.SetStateAction<WatermarkingProcess | undefined>>,
   ] = useState();
+  const lastLoad = useRef(0);
 
   useEffect(() => {
+    const load = ++lastLoad.current;
     init().then(async () => {
       const sourceImageDataUrl = await toDataURL(loadImage.default);
-      setWatermarkingProcess(getWatermarkingProcess(sourceImageDataUrl));
+      if (load === lastLoad.current) {
+        setWatermarkingProcess(getWatermarkingProcess(sourceImageDataUrl));
+      }
     });
   }, []);
 
   const loadImageFromFile = (file: File) => {
+    const load = ++lastLoad.current;
     fileToBase64(file).then(base64EncodedImage => {
-      setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      // A file selected later may have been read earlier
+      if (load === lastLoad.current) {
+        setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      }
     });
   };
 
-- 
2.43.0


From 9256036f08a94f9bef89e4939bde6642faaf32ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 11/18] fix: load images whose file type the browser does not
 know

Their data URL starts with another type (data:application/octet-stream,
data:image/x-...), which was not removed before decoding.
---
 src/Content/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Content/utils.ts b/src/Content/utils.ts
index cc165a9..a940b3c 100644
--- a/src/Content/utils.ts
+++ b/src/Content/utils.ts
@@ -5,7 +5,7 @@ import {
 } from 'sia-watermarking-lib';
 import { ImageModel, WatermarkingProcess } from './image';
 
-const mimeRegex = /^data:image\/[a-zA-Z0-9]+;base64,/;
+const mimeRegex = /^data:[^,]*;base64,/;
 
 const removeMime = (dataUri: string) => dataUri.replace(mimeRegex, '');
 
-- 
2.43.0


From 10c3365477758f3f7ccbb27943b179b03a88910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 12/18] fix: find nothing embedded in images that cannot hold
 anything

---
 lib/sia/rust/embedding/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index 8b43ad8..fbd3483 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -72,13 +72,21 @@ pub fn extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Vec<u
 pub fn try_extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Option<Vec<u8>> {
     let (width, height) = image_matrix.dim();
 
+    // Nothing can be embedded in images that cannot be transformed or are too small
+    let block = (2 as i32).pow(dwt_levels as u32) as usize;
+    let capacity = io::steganography::get_capacity(width / block, height / block);
+    if width % block != 0 || height % block != 0 || encoding::get_code_for_encode(capacity).is_none()
+    {
+        return None;
+    }
+
     // 1. perform forward Haar 2D multi-level DWT
     let input_float_matrix = image_matrix.mapv(|elem| elem as f64);
     let mut dwt_coefficients = dwt_2d(input_float_matrix, dwt_levels, false);
 
     // 2. embed to LL3 domain
-    let ll3_width = width / ((2 as i32).pow(dwt_levels as u32) as usize);
-    let ll3_height = height / ((2 as i32).pow(dwt_levels as u32) as usize);
+    let ll3_width = width / block;
+    let ll3_height = height / block;
 
     let ll3 = dwt_coefficients
         .view_mut()
-- 
2.43.0


From 07faea0ce91ae0430f9dfecbd4fad7decf9535c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 13/18] fix: recognise inputs and outputs of the same run
 through links

A symbolic or hard link under the name of an output led to the input or
to the output of another input being overwritten.
---
 lib/sia/rust/cli/src/main.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/sia/rust/cli/src/main.rs b/lib/sia/rust/cli/src/main.rs
index 26227d7..51e1b7d 100644
--- a/lib/sia/rust/cli/src/main.rs
+++ b/lib/sia/rust/cli/src/main.rs
@@ -1,6 +1,5 @@
 extern crate getopts;
 
-use std::collections::HashSet;
 use std::io::Cursor;
 use std::path::Path;
 use std::time::Instant;
@@ -14,6 +13,21 @@ use watermarking;
 
 mod timer;
 
+/// Whether both paths lead to the same existing file, also through symbolic or hard links
+fn is_same_file(a: &str, b: &str) -> bool {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+        if let (Ok(a), Ok(b)) = (fs::metadata(a), fs::metadata(b)) {
+            return (a.dev(), a.ino()) == (b.dev(), b.ino());
+        }
+    }
+    match (fs::canonicalize(a), fs::canonicalize(b)) {
+        (Ok(a), Ok(b)) => a == b,
+        _ => false,
+    }
+}
+
 fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: Option<String>) {
     match suffix_option {
         Some(suffix) => {
@@ -28,7 +42,7 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                 fs::create_dir_all(output_folder_path).unwrap();
             }
 
-            let mut output_paths = HashSet::new();
+            let mut output_paths = vec![];
             for input in inputs {
                 let timer = Instant::now();
                 let input_image = image::open(input).unwrap();
@@ -57,15 +71,15 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                 }
 
                 // Neither an input nor the output of another input may be overwritten
-                let is_input = fs::canonicalize(&output_path).map_or(false, |path| {
-                    inputs
-                        .iter()
-                        .any(|other| fs::canonicalize(other).map_or(false, |other| other == path))
-                });
-                if is_input || !output_paths.insert(output_path.clone()) {
+                if inputs
+                    .iter()
+                    .chain(&output_paths)
+                    .any(|other| is_same_file(other, &output_path))
+                {
                     println!("{} would be overwritten", output_path);
                     std::process::exit(1);
                 }
+                output_paths.push(output_path.clone());
 
                 // Encode in memory: encoders may finish an image when dropped and lose write errors
                 let mut encoded = Cursor::new(vec![]);
-- 
2.43.0


From a2e7015cab1bb5e92de0e4940bad47c42f26be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 14/18] fix: retry interrupted reads of input images

The PNG and GIF decoders give up when a read is interrupted.
---
 lib/sia/rust/cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/cli/src/main.rs b/lib/sia/rust/cli/src/main.rs
index 51e1b7d..b81c32d 100644
--- a/lib/sia/rust/cli/src/main.rs
+++ b/lib/sia/rust/cli/src/main.rs
@@ -45,7 +45,11 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
             let mut output_paths = vec![];
             for input in inputs {
                 let timer = Instant::now();
-                let input_image = image::open(input).unwrap();
+                // Read the whole file first: not every decoder continues after an interrupted read
+                let input_format = ImageFormat::from_path(input).unwrap();
+                let input_bytes = fs::read(input).unwrap();
+                let input_image =
+                    image::load_from_memory_with_format(&input_bytes, input_format).unwrap();
 
                 let channels_count = input_image.color().channel_count();
                 let watermarked = watermarking::watermark(input_image, 100.0, 1.0, 11);
-- 
2.43.0


From 1105916daf0c5dc8e5e5a39281dd8ac6a633f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 15/18] fix: refuse signatures for degenerate public keys

---
 lib/sia/rust/signature/src/ecdsa.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sia/rust/signature/src/ecdsa.rs b/lib/sia/rust/signature/src/ecdsa.rs
index 4dc0516..cacbece 100644
--- a/lib/sia/rust/signature/src/ecdsa.rs
+++ b/lib/sia/rust/signature/src/ecdsa.rs
@@ -1,4 +1,5 @@
-use ed25519::signature::{Signer, Verifier};
+use ed25519::signature::Signer;
+use ed25519_dalek::PublicKey;
 
 pub struct DalekSigner<S>
 where
@@ -20,15 +21,14 @@ pub struct DalekVerifier<V> {
     pub verify_key: V,
 }
 
-impl<V> DalekVerifier<V>
-where
-    V: Verifier<ed25519::Signature>,
-{
+impl DalekVerifier<PublicKey> {
+    // A degenerate (all zero, for example) public key has signatures that fit many messages, so
+    // such keys and signatures are refused
     pub fn verify(
         &self,
         data: &[u8],
         signature: &ed25519::Signature,
     ) -> Result<(), ed25519::Error> {
-        self.verify_key.verify(data, signature)
+        self.verify_key.verify_strict(data, signature)
     }
 }
-- 
2.43.0


From 864e582116292d9348f7cea4dd3b389b263fa4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:49 +0000
Subject: [PATCH 16/18] fix: refuse signs in hexadecimal text, which made other
 texts of a public key acceptable

---
 lib/sia/rust/utils/src/format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..951b441 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -3,7 +3,12 @@ use std::{fmt::Write, num::ParseIntError};
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
     (0..s.len())
         .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+        .map(|i| {
+            // Digit by digit, since numbers of several digits may begin with a plus sign
+            let high = u8::from_str_radix(&s[i..i + 1], 16)?;
+            let low = u8::from_str_radix(&s[i + 1..i + 2], 16)?;
+            Ok(high << 4 | low)
+        })
         .collect()
 }
 
-- 
2.43.0


From fb6cebbbe760db9866795ba5743bbe970060b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:12 +0000
Subject: [PATCH 17/18] fix: never quote a key text in an error about it

---
 lib/sia/rust/utils/src/format.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index 951b441..ea21f52 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -1,14 +1,12 @@
 use std::{fmt::Write, num::ParseIntError};
 
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
+    // A text that cannot be divided into digits is not quoted in an error: it may be a private key
+    let digit = |i: usize| u8::from_str_radix(s.get(i..i + 1).unwrap_or(""), 16);
     (0..s.len())
         .step_by(2)
-        .map(|i| {
-            // Digit by digit, since numbers of several digits may begin with a plus sign
-            let high = u8::from_str_radix(&s[i..i + 1], 16)?;
-            let low = u8::from_str_radix(&s[i + 1..i + 2], 16)?;
-            Ok(high << 4 | low)
-        })
+        // Digit by digit, since numbers of several digits may begin with a plus sign
+        .map(|i| Ok(digit(i)? << 4 | digit(i + 1)?))
         .collect()
 }
 
-- 
2.43.0


From 2a2d40e94d0fbcd1bda43768022420e65b95b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:12 +0000
Subject: [PATCH 18/18] fix: refuse to sign with a public key that does not
 belong to the private key

---
 lib/sia/rust/signature/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 376c6c0..fa3065d 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -29,6 +29,11 @@ pub fn sign(data: &Vec<u8>, private_key: &str, public_key: &str) -> Vec<u8> {
     let key_pair_bytes = [private_key_bytes, public_key_bytes].concat();
     let key_pair: Keypair = Keypair::from_bytes(key_pair_bytes.as_slice()).unwrap();
 
+    // Signatures of one message made with different public keys disclose the private key
+    if PublicKey::from(&key_pair.secret) != key_pair.public {
+        panic!("the public key does not belong to the private key");
+    }
+
     let signer = DSSigner { key_pair };
     let signature = signer.sign(data.as_slice());
     signature.to_bytes().to_vec()
-- 
2.43.0

