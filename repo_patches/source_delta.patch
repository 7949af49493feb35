From d63f718fa4f6092a1a39ff4233e95fc9a4aaa267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 1/9] fix: salsa20 processes every block of its input

The documentation allows any multiple of BLOCK_SIZE, but only the first
64 bytes were mixed (the rest of the output kept its old content) and an
empty input panicked.
---
 src/salsa20.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/salsa20.rs b/src/salsa20.rs
index 1ccde8b..006ca6c 100644
--- a/src/salsa20.rs
+++ b/src/salsa20.rs
@@ -162,6 +162,15 @@ fn littleendian_inv(x: u32, y: &mut [u8]) {
 /// ```
 ///
 pub fn salsa20(input: &[u8], rounds: usize, output: &mut [u8]) {
+    for (input, output) in input
+        .chunks(BLOCK_SIZE)
+        .zip(output.chunks_mut(BLOCK_SIZE))
+    {
+        salsa20_block(input, rounds, output);
+    }
+}
+
+fn salsa20_block(input: &[u8], rounds: usize, output: &mut [u8]) {
     //
     // In short: Salsa20(x) = x + doubleround^10(x), where each 4-byte sequence is
     // viewed as a word in little-endian form.
-- 
2.43.0


From 2f1d24d4d0972ae07eefa4b2496e4d031161b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 2/9] fix: scrypt refuses n = 1

The documentation, the RFC and the error text all require n > 1.
---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..28b2f34 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n <= 1 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0


From 2e791ab2a14abb0d649acfb67063753254c02cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 3/9] fix: padding length zero is invalid

PKCS#7 always adds at least one byte; a final block ending in 0 was
accepted and returned whole.
---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From 28438acb548179eef13ee5798e2d48afc3a8998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 4/9] fix: Decipher::flush reports ciphertext cut inside a
 block

Left over bytes of an incomplete ciphertext block were ignored, so a
truncated message whose last whole block happened to end in valid padding
was accepted, and the stray bytes corrupted the next message.
---
 src/aes_cbc.rs | 5 +++++
 src/pkcs7.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..82a4c32 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,11 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        // Ciphertext ended in the middle of a block
+        if !self.buffer.is_empty() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..53d5f0e 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -20,6 +20,11 @@ impl Pad {
         }
     }
 
+    /// True when no bytes of an incomplete block are stored.
+    pub fn is_empty(&self) -> bool {
+        self.storage.is_empty()
+    }
+
     pub fn write(&mut self, buf: &[u8]) -> Option<Vec<u8>> {
         for &elem in buf {
             self.storage.push(elem);
-- 
2.43.0


From fd1ff71272b5878b8dc13e0f79a20f45888e4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 5/9] fix: calls on an uninitialised cipher or decipher keep no
 data

write and flush took their input into the padding buffer before noticing
that no key was set, so data of a call that failed was dropped or turned
up in a later message.
---
 src/aes.rs     |  4 ++++
 src/aes_cbc.rs | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index 7ce0a82..4ceb0fd 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -345,6 +345,10 @@ impl AES {
         Ok(())
     }
 
+    pub(crate) fn is_initialized(&self) -> bool {
+        self.round_keys.is_some()
+    }
+
     /// Encrypt block of data.
     pub fn encrypt(&self, b: &[u8; BLOCK_SIZE]) -> Result<[u8; BLOCK_SIZE], AESError> {
         let nr = self.round_count;
diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 82a4c32..a956626 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -63,6 +63,10 @@ impl Cipher {
 
     /// Encrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, AESError> {
+        if !self.aes.is_initialized() {
+            return Err(AESError::NotInitialized);
+        }
+
         let blocks = match self.pad.write(b) {
             None => {
                 return Ok(vec![]);
@@ -80,6 +84,10 @@ impl Cipher {
 
     /// Encrypt and return final cipher block
     pub fn flush(&mut self) -> Result<Vec<u8>, AESError> {
+        if !self.aes.is_initialized() {
+            return Err(AESError::NotInitialized);
+        }
+
         let block = self.pad.flush();
         Ok(self.encrypt_block(&block)?)
     }
@@ -185,6 +193,10 @@ impl Decipher {
 
     /// Decrypt data
     pub fn write(&mut self, b: &[u8]) -> Result<Vec<u8>, DecipherError> {
+        if !self.aes.is_initialized() {
+            return Err(DecipherError::AES(AESError::NotInitialized));
+        }
+
         let blocks = match self.buffer.write(b) {
             Some(blocks) => blocks,
             None => {
-- 
2.43.0


From 95223d40c10c81167d6402cc39ba1fc1fcb47817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 6/9] fix: scrypt refuses n not below 2^(16 r)

The documentation and the RFC require it; a key was derived anyway. Adds
an error variant, because none of the existing ones describes the fault.
---
 src/scrypt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 28b2f34..b0f7371 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -25,6 +25,7 @@ pub enum ScryptError {
     NIsTooSmall,
     NIsNotAPowerOfTwo,
     PIsTooSmall,
+    NIsTooLarge,
 }
 
 impl Display for ScryptError {
@@ -40,6 +41,7 @@ impl Error for ScryptError {
             ScryptError::NIsTooSmall => "`n` must be larger than 1",
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
             ScryptError::PIsTooSmall => "`p` must be larger than 1",
+            ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
         }
     }
 }
@@ -243,6 +245,12 @@ impl Scrypt {
             return Err(ScryptError::PIsTooSmall);
         }
 
+        // n < 2 ^ (16 * r), true for every `n` once the shift exceeds its width
+        let n_bits = self.r.saturating_mul(16);
+        if n_bits < 8 * std::mem::size_of::<usize>() && (self.n >> n_bits) != 0 {
+            return Err(ScryptError::NIsTooLarge);
+        }
+
         //
         //   Algorithm scrypt
         //
-- 
2.43.0


From d9cd3b0f690f29890c0ca8fae7eae02c71d771d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 7/9] fix: scrypt refuses p above (2^32-1)/(4 r)

The documentation and the RFC require it. Without the check p * 128 * r
could overflow: a panic in checked builds, and in release builds for
example p = 2^57 derived a key from an empty block that does not depend
on the salt.
---
 src/scrypt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index b0f7371..3234645 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -26,6 +26,7 @@ pub enum ScryptError {
     NIsNotAPowerOfTwo,
     PIsTooSmall,
     NIsTooLarge,
+    PIsTooLarge,
 }
 
 impl Display for ScryptError {
@@ -42,6 +43,7 @@ impl Error for ScryptError {
             ScryptError::NIsNotAPowerOfTwo => "`n` must be a power of two",
             ScryptError::PIsTooSmall => "`p` must be larger than 1",
             ScryptError::NIsTooLarge => "`n` must be less than 2 ^ (16 * r)",
+            ScryptError::PIsTooLarge => "`p` must be at most (2^32 - 1) / (4 * r)",
         }
     }
 }
@@ -251,6 +253,11 @@ impl Scrypt {
             return Err(ScryptError::NIsTooLarge);
         }
 
+        // p <= (2^32 - 1) / (4 * r)
+        if self.p as u64 > u64::from(u32::max_value()) / 4 / self.r as u64 {
+            return Err(ScryptError::PIsTooLarge);
+        }
+
         //
         //   Algorithm scrypt
         //
-- 
2.43.0


From 2209c33ec9bb3e9122cab517029faeb27bb8a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 8/9] fix: count SHA-256 message length in 64 bits on every
 platform

On 32-bit targets the bit length wrapped at 512 MiB and the byte counter
at 4 GiB, giving wrong digests (or an overflow panic).
---
 src/sha256.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sha256.rs b/src/sha256.rs
index 13095ef..efef351 100644
--- a/src/sha256.rs
+++ b/src/sha256.rs
@@ -169,7 +169,7 @@ fn write_u64_be(data: &mut [u8], value: u64) {
 pub struct SHA256 {
     h: [u32; 8],
     buffer: [u8; BLOCK_SIZE],
-    length: usize,
+    length: u64,
 }
 
 impl SHA256 {
@@ -283,13 +283,13 @@ impl SHA256 {
         let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];
 
         for &b in data {
-            let off = self.length % BLOCK_SIZE;
+            let off = (self.length % BLOCK_SIZE as u64) as usize;
 
             // Fill the buffer
             self.buffer[off] = b;
             self.length += 1;
 
-            if self.length % BLOCK_SIZE != 0 {
+            if self.length % BLOCK_SIZE as u64 != 0 {
                 continue;
             }
 
@@ -326,7 +326,7 @@ impl SHA256 {
         // NOTE: It is simple to calculate `k`, but having it is a bit useless,
         // since we know that this algorithm just wants to zero the rest of the
         // block and to put the 64bit length to the end
-        let mut off = self.length % BLOCK_SIZE;
+        let mut off = (self.length % BLOCK_SIZE as u64) as usize;
 
         // (b)
         for i in off..self.buffer.len() {
@@ -351,7 +351,7 @@ impl SHA256 {
 
         // (c)
         let len_off = self.buffer.len() - 8;
-        write_u64_be(&mut self.buffer[len_off..], (self.length * 8) as u64);
+        write_u64_be(&mut self.buffer[len_off..], self.length * 8);
 
         // (a)
         if !has_overflow {
-- 
2.43.0


From 18781b569e686b962abeb1dcf6f0d7cc182caacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 9/9] fix: do not derive a wrong scrypt key when p * 128 * r
 overflows usize

On 32-bit targets the product wrapped in release builds, e.g. r=1 p=2^25,
and a key was derived from an empty block list.
---
 src/scrypt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3234645..ada488a 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -291,7 +291,13 @@ impl Scrypt {
         //
 
         // Step 1
-        let mut raw_b: Vec<u8> = vec![0; self.p * 2 * BLOCK_SIZE * self.r];
+        // `p * 128 * r` can exceed 2^32, and so `usize` on 32-bit platforms
+        let raw_len = self
+            .r
+            .checked_mul(2 * BLOCK_SIZE)
+            .and_then(|len| len.checked_mul(self.p))
+            .expect("scrypt parameters require too much memory");
+        let mut raw_b: Vec<u8> = vec![0; raw_len];
         pbkdf2_sha256(passphrase, salt, PBKDF2_ROUNDS, &mut raw_b);
 
         let mut b: Vec<Vec<Block>> = raw_b
-- 
2.43.0

