From 4e70c2dc364aae17f60e1fa7494d67d1eba7db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 1/9] fix: HKDF expand panicked on the 255th block in
 overflow-checked builds

RangeFrom<u8> steps past 255 when it yields the last legal counter.
---
 src/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hkdf.rs b/src/hkdf.rs
index c5ec08e..839f31b 100644
--- a/src/hkdf.rs
+++ b/src/hkdf.rs
@@ -40,7 +40,7 @@ pub fn expand<H: HashFunction>(prk: &[u8], info: &[u8], okm: &mut [u8]) {
     assert!(digest_size <= prk.len());
     assert!(255 * digest_size >= okm.len());
     let mut hmac: Hmac<H> = Hmac::new(prk);
-    for (i, chunk) in (1..).zip(okm.chunks_mut(digest_size)) {
+    for (i, chunk) in (1..=255).zip(okm.chunks_mut(digest_size)) {
         hmac.update(info);
         hmac.update(&[i]);
         let tag = hmac.tag();
-- 
2.43.0


From eaa059c41094203b6f3cb5a5c01b264bab174bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 2/9] fix: Poly1305 returned a wrong tag when the accumulator
 ends in [p, 2^130)

The carry out of h + 5 - 2^130 has to leave the top limb, as the reference's
17th byte addition does; otherwise the 17-limb sum keeps bit 8 and the final
subtraction is not taken.
---
 src/poly1305.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index fce0a06..1599c73 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -223,7 +223,7 @@ fn add(h: &mut [u32; 17], c: &[u8], last_byte: u8) {
         *h_j = u & 255;
         u >>= 8;
     }
-    h[16] += u + u32::from(last_byte);
+    h[16] = (h[16] + u + u32::from(last_byte)) & 255;
 }
 
 fn load_r(key: &[u8; 32]) -> [u8; 17] {
-- 
2.43.0


From 35b490b86ca5bcc6f24492dbc4a23571aa367cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 3/9] fix: GCM's length bounds did not compile for 32-bit
 targets

---
 src/gcm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index 5136370..fd5e6e8 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -127,8 +127,8 @@ fn counter(nonce: &[u8]) -> [u8; 16] {
 fn check_bounds(message: &[u8], ciphertext: &[u8], nonce: &[u8], data: &[u8]) {
     assert_eq!(12, nonce.len());
     assert_eq!(message.len(), ciphertext.len());
-    assert!(1 << 36 > message.len() + 32);
-    assert!(1 << 61 > data.len());
+    assert!(1 << 36 > message.len() as u64 + 32);
+    assert!(1 << 61 > data.len() as u64);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7a3f87385bc27b4e75bbbeaf5a296d196e48256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 4/9] fix: GCM panicked on the last block of the longest legal
 message in overflow-checked builds

---
 src/gcm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gcm.rs b/src/gcm.rs
index fd5e6e8..352a046 100644
--- a/src/gcm.rs
+++ b/src/gcm.rs
@@ -87,7 +87,7 @@ impl<E: BlockCipher> Processor<E> {
 
     fn process(&self, counter: &mut [u8; 16], input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (2..).zip(input.chunks(16).zip(output.chunks_mut(16)))
+            (2..=u32::MAX).zip(input.chunks(16).zip(output.chunks_mut(16)))
         {
             let block = self.block(counter, i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From 5201801754a99083518db8def40480d7b56bec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 5/9] fix: Ed25519 verification accepted scalars at or above
 the group order

RFC 8032 5.1.7 requires S < L; adding L to S gave second signatures.
---
 src/ed25519.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ed25519.rs b/src/ed25519.rs
index 1353faf..feb48ca 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -70,7 +70,7 @@ pub fn sign(message: &[u8], secret_key: &[u8]) -> [u8; 64] {
 /// Panics if `public_key.len()` is not equal to 32.
 pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     assert_eq!(32, public_key.len());
-    if signature.len() != 64 || (signature[63] & 224 != 0) {
+    if signature.len() != 64 || !is_reduced(&signature[32..]) {
         return false;
     }
     let a = match GeP3::from_bytes_negate_vartime(public_key) {
@@ -94,6 +94,18 @@ pub fn verify(message: &[u8], signature: &[u8], public_key: &[u8]) -> bool {
     verify_32(&rcheck, rcopy) == 0
 }
 
+/// The order of the base point, 2^252 + 27742317777372353535851937790883648493.
+const ORDER: [u8; 32] = [
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
+];
+
+/// Whether a little-endian scalar is less than the order of the base point, as RFC 8032 requires of
+/// the second half of a signature; otherwise signatures would be malleable.
+fn is_reduced(s: &[u8]) -> bool {
+    s.iter().rev().lt(ORDER.iter().rev())
+}
+
 const ZERO: [u8; 32] = [0; 32];
 
 impl Fe {
-- 
2.43.0


From 625135b733b10ed7922c309f893e2b9ef770edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 6/9] fix: ChaCha20-Poly1305 reused keystream for messages
 beyond 2^38 - 64 bytes

The block counter wrapped to 0, the block that keys the authenticator, in
release builds and panicked half way through in overflow-checked ones.
RFC 8439 2.8 bounds the message; refuse longer ones first, and count the
blocks of the longest one without stepping past the last counter.
---
 src/poly1305.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/poly1305.rs b/src/poly1305.rs
index 1599c73..e3be9e2 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -4,6 +4,9 @@ use crate::gcm::AeadCipher;
 use crate::util;
 use byteorder::{ByteOrder as _, LittleEndian};
 
+/// The longest message a 32-bit block counter can encrypt, as block 0 keys the authenticator.
+const MAX_LEN: u64 = (1 << 38) - 64;
+
 /// A ChaCha20-Poly1305 AEAD cipher.
 pub struct ChaCha20Poly1305 {
     key: [u8; 32],
@@ -26,9 +29,11 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn encrypt(&self, input: &[u8], nonce: &[u8], data: &[u8], output: &mut [u8]) -> [u8; 16] {
         assert_eq!(input.len(), output.len());
+        assert!(MAX_LEN >= input.len() as u64);
         let cipher = &ChaCha20::new(&self.key, nonce);
         self.process(cipher, input, output);
         self.tag(cipher, output, data)
@@ -38,7 +43,8 @@ impl AeadCipher for ChaCha20Poly1305 {
     ///
     /// # Panics
     ///
-    /// Panics if `input.len()` is not equal to `output.len()` or `nonce.len()` is not equal to 12.
+    /// Panics if `input.len()` is not equal to `output.len()`, `nonce.len()` is not equal to 12, or
+    /// `input.len()` is more than 2^38 - 64.
     fn decrypt(
         &self,
         input: &[u8],
@@ -48,6 +54,7 @@ impl AeadCipher for ChaCha20Poly1305 {
         output: &mut [u8],
     ) -> bool {
         assert_eq!(output.len(), input.len());
+        assert!(MAX_LEN >= input.len() as u64);
         let cipher = &ChaCha20::new(&self.key, nonce);
         let expected_tag = self.tag(cipher, input, data);
         if util::verify_16(&expected_tag, tag) {
@@ -62,7 +69,7 @@ impl AeadCipher for ChaCha20Poly1305 {
 impl ChaCha20Poly1305 {
     fn process(&self, cipher: &ChaCha20, input: &[u8], output: &mut [u8]) {
         for (i, (input_chunk, output_chunk)) in
-            (1..).zip(input.chunks(64).zip(output.chunks_mut(64)))
+            (1..=u32::MAX).zip(input.chunks(64).zip(output.chunks_mut(64)))
         {
             let block = cipher.block(i);
             for (block_byte, (input_byte, output_byte)) in
-- 
2.43.0


From d783971f30b336804ba5648447cde94619bd5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 7/9] Verification hooks behind cfg(crypto_pure_verif)

---
 src/chacha20.rs   |  8 ++++++++
 src/curve25519.rs | 37 +++++++++++++++++++++++++++++++++
 src/ed25519.rs    | 52 +++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs        | 10 +++++++++
 src/poly1305.rs   |  8 ++++++++
 5 files changed, 115 insertions(+)

diff --git a/src/chacha20.rs b/src/chacha20.rs
index d850337..4584209 100644
--- a/src/chacha20.rs
+++ b/src/chacha20.rs
@@ -155,6 +155,14 @@ impl ChaCha20 {
     }
 }
 
+#[cfg(crypto_pure_verif)]
+pub(crate) mod verif {
+    /// Computes one keystream block.
+    pub fn chacha_block(key: &[u8], nonce: &[u8], counter: u32) -> [u8; 64] {
+        super::ChaCha20::new(key, nonce).block(counter)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/curve25519.rs b/src/curve25519.rs
index 1d358ae..61a6c14 100644
--- a/src/curve25519.rs
+++ b/src/curve25519.rs
@@ -1032,6 +1032,43 @@ impl<'a, 'b> SubAssign<&'a Fe> for &'b mut Fe {
     }
 }
 
+#[cfg(crypto_pure_verif)]
+pub(crate) mod verif {
+    use super::Fe;
+
+    /// Applies a field operation to decoded operands and encodes the result.
+    pub fn fe_op(op: u8, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
+        let (mut f, mut g) = (Fe::default(), Fe::default());
+        f.assign_from_bytes(a);
+        g.assign_from_bytes(b);
+        let mut h = f;
+        match op {
+            0 => h.assign_product(&f, &g),
+            1 => h.assign_square(&f),
+            2 => h.assign_sum(&f, &g),
+            3 => h.assign_difference(&f, &g),
+            4 => h = f.inverse(),
+            6 => h.mul121666(&f),
+            9 => {}
+            10 => {
+                let (mut s, mut d) = (f, f);
+                s.assign_sum(&f, &g);
+                d.assign_difference(&f, &g);
+                h.assign_product(&s, &d);
+            }
+            11 => {
+                let mut s = f;
+                s.assign_sum(&f, &g);
+                h.assign_square(&s);
+            }
+            _ => crate::ed25519::verif::fe_op(op, &mut h),
+        }
+        let mut out = [0; 32];
+        h.write_bytes(&mut out);
+        out
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/ed25519.rs b/src/ed25519.rs
index feb48ca..b5b293d 100644
--- a/src/ed25519.rs
+++ b/src/ed25519.rs
@@ -1708,6 +1708,58 @@ fn ge_sub(r: &mut GeP1p1, p: &GeP3, q: &GeCached) {
     r.t += t0;
 }
 
+#[cfg(crypto_pure_verif)]
+pub(crate) mod verif {
+    use super::*;
+
+    pub(crate) fn fe_op(op: u8, f: &mut Fe) {
+        match op {
+            5 => f.pow22523(),
+            7 => {
+                let g = *f;
+                f.assign_twice_square(&g);
+            }
+            8 => f.neg(),
+            _ => unreachable!(),
+        }
+    }
+
+    fn extend(s: &[u8; 32]) -> [u8; 64] {
+        let mut e = [0; 64];
+        e[..32].copy_from_slice(s);
+        e
+    }
+
+    /// Reduces a scalar modulo the group order.
+    pub fn sc_reduce(s: &[u8; 64]) -> [u8; 32] {
+        let mut t = *s;
+        super::sc_reduce(&mut t);
+        let mut out = [0; 32];
+        out.copy_from_slice(&t[..32]);
+        out
+    }
+
+    /// Computes `h * a + r` modulo the group order.
+    pub fn sc_muladd(h: &[u8; 32], a: &[u8; 32], r: &[u8; 32]) -> [u8; 32] {
+        let mut out = [0; 32];
+        super::sc_muladd(&mut out, &extend(h), &extend(a), &extend(r));
+        out
+    }
+
+    /// Encodes `a * B`.
+    pub fn scalarmult_base(a: &[u8; 32]) -> [u8; 32] {
+        let mut out = [0; 32];
+        ge_p3_tobytes(&mut out, &GeP3::from_scalarmult_base(&extend(a)));
+        out
+    }
+
+    /// Encodes `s * B - h * A` for the point A that `public_key` encodes, if any.
+    pub fn double_scalarmult(h: &[u8; 32], public_key: &[u8; 32], s: &[u8; 32]) -> Option<[u8; 32]> {
+        let a = GeP3::from_bytes_negate_vartime(public_key)?;
+        Some(GeP2::from_double_scalarmult_vartime(&extend(h), &a, s).to_bytes())
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 83dc000..554ddf6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)]
 #[cfg(feature = "std")]
 extern crate core;
 
@@ -19,6 +20,15 @@ pub mod poly1305;
 pub mod sha2;
 pub mod util;
 
+/// Entry points to internals for the verification harness.
+#[cfg(crypto_pure_verif)]
+pub mod verif {
+    pub use crate::chacha20::verif::chacha_block;
+    pub use crate::curve25519::verif::fe_op;
+    pub use crate::ed25519::verif::{double_scalarmult, sc_muladd, sc_reduce, scalarmult_base};
+    pub use crate::poly1305::verif::poly1305;
+}
+
 #[cfg(test)]
 pub mod test_helpers {
     use std::str;
diff --git a/src/poly1305.rs b/src/poly1305.rs
index e3be9e2..de309f4 100644
--- a/src/poly1305.rs
+++ b/src/poly1305.rs
@@ -254,6 +254,14 @@ fn load_r(key: &[u8; 32]) -> [u8; 17] {
     r
 }
 
+#[cfg(crypto_pure_verif)]
+pub(crate) mod verif {
+    /// Authenticates padded data and ciphertext and their lengths under a one-time key.
+    pub fn poly1305(key: &[u8; 32], data: &[u8], ciphertext: &[u8]) -> [u8; 16] {
+        super::poly1305(key, data, ciphertext)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 0df24b79aca4ed2e165866736d2c4dd054c349e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 8/9] Verification hooks for objects in far states behind
 cfg(crypto_pure_verif_state)

---
 src/chacha20.rs | 11 +++++++++++
 src/lib.rs      |  7 +++++++
 src/sha2.rs     | 21 +++++++++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/src/chacha20.rs b/src/chacha20.rs
index 4584209..e180088 100644
--- a/src/chacha20.rs
+++ b/src/chacha20.rs
@@ -163,6 +163,17 @@ pub(crate) mod verif {
     }
 }
 
+#[cfg(crypto_pure_verif_state)]
+pub(crate) mod verif_state {
+    /// A stream at the start of block `counter`.
+    pub fn stream_at(key: &[u8], nonce: &[u8], counter: u32) -> super::Stream {
+        let mut stream = super::Stream::new(key, nonce);
+        stream.counter = counter;
+        stream.block = stream.chacha20.block(counter);
+        stream
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 554ddf6..e72c5a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,13 @@ pub mod verif {
     pub use crate::poly1305::verif::poly1305;
 }
 
+/// Objects in states that only very long inputs lead to.
+#[cfg(crypto_pure_verif_state)]
+pub mod verif_state {
+    pub use crate::chacha20::verif_state::stream_at;
+    pub use crate::sha2::verif_state::{sha224_at, sha256_at, sha384_at, sha512_at};
+}
+
 #[cfg(test)]
 pub mod test_helpers {
     use std::str;
diff --git a/src/sha2.rs b/src/sha2.rs
index 769355d..0098aa4 100644
--- a/src/sha2.rs
+++ b/src/sha2.rs
@@ -542,6 +542,27 @@ impl_processor!(
     (17, 19, 10),
 );
 
+#[cfg(crypto_pure_verif_state)]
+pub(crate) mod verif_state {
+    use super::*;
+
+    macro_rules! sha_at {
+        ($name:ident, $function:ident) => {
+            /// A hash object whose message length so far is `len`, whatever its blocks contained.
+            pub fn $name(len: u64) -> $function {
+                let mut sha = $function::default();
+                sha.0.len = len;
+                sha
+            }
+        };
+    }
+
+    sha_at!(sha512_at, Sha512);
+    sha_at!(sha384_at, Sha384);
+    sha_at!(sha256_at, Sha256);
+    sha_at!(sha224_at, Sha224);
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 15149e7d3a376d97cf00242d200513f80b82979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:49 +0000
Subject: [PATCH 9/9] fix: do not link std without the std feature

The no_std configuration still declared extern crate std, which only its tests use, so it could not
be built for a target that has no standard library.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index e72c5a4..1acb21e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,7 +3,7 @@
 #[cfg(feature = "std")]
 extern crate core;
 
-#[cfg(not(feature = "std"))]
+#[cfg(all(test, not(feature = "std")))]
 #[macro_use]
 pub(crate) extern crate std;
 
-- 
2.43.0

