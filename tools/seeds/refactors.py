# Changes that keep the behaviour: no check may raise an alarm on them.
A = "src/aes.rs"; C = "src/aes_cbc.rs"; H = "src/hmac.rs"; K = "src/pkcs7.rs"; PB = "src/pbkdf2.rs"; SC = "src/scrypt.rs"; S = "src/sha256.rs"; SA = "src/salsa20.rs"
REFACTORS = [
 dict(id="r-sha-bulk", edits=[
  (S, """        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];

        for &b in data {
            let off = (self.length % BLOCK_SIZE as u64) as usize;

            // Fill the buffer
            self.buffer[off] = b;
            self.length += 1;

            if self.length % BLOCK_SIZE as u64 != 0 {
                continue;
            }

            fill_block(&self.buffer, &mut block);
            self.process_block(&block);
        }
""", """        let mut rest = data;
        while !rest.is_empty() {
            let off = (self.length % BLOCK_SIZE as u64) as usize;
            let take = std::cmp::min(BLOCK_SIZE - off, rest.len());
            self.buffer[off..off + take].copy_from_slice(&rest[..take]);
            self.length += take as u64;
            rest = &rest[take..];
            if off + take == BLOCK_SIZE {
                self.flush_buffer();
            }
        }
"""),
  (S, "    fn process_block(self: &mut SHA256, block: &[u32; 16]) {", """    fn flush_buffer(&mut self) {
        let mut block: [u32; BLOCK_SIZE / 4] = [0; BLOCK_SIZE / 4];
        fill_block(&self.buffer, &mut block);
        self.process_block(&block);
    }

    fn process_block(self: &mut SHA256, block: &[u32; 16]) {"""),
  (S, "    (n << (32 - s)) | (n >> s)\n", "    n.rotate_right(s)\n"),
  (S, "(x & y) ^ (x & z) ^ (y & z)\n}", "(x & y) | (z & (x | y))\n}"),
 ]),
 dict(id="r-sha-rolling", edits=[
  (S, """        for t in 0..64 {
            let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), K[t], w[t]);""", """        for (k, word) in K.iter().zip(w.iter()) {
            let t1 = wrapping_sum!(h, bsig1(e), ch(e, f, g), *k, *word);"""),
  (S, """        for i in 0..self.h.len() {
            out[i * 4] = (self.h[i] >> 24) as u8;
            out[i * 4 + 1] = (self.h[i] >> 16) as u8;
            out[i * 4 + 2] = (self.h[i] >> 8) as u8;
            out[i * 4 + 3] = (self.h[i]) as u8;
        }""", """        for (dst, word) in out.chunks_exact_mut(4).zip(self.h.iter()) {
            dst.copy_from_slice(&word.to_be_bytes());
        }"""),
  (S, """    data[0] = (value >> 56) as u8;
    data[1] = (value >> 48) as u8;
    data[2] = (value >> 40) as u8;
    data[3] = (value >> 32) as u8;
    data[4] = (value >> 24) as u8;
    data[5] = (value >> 16) as u8;
    data[6] = (value >> 8) as u8;
    data[7] = (value) as u8;
""", "    data.copy_from_slice(&value.to_be_bytes());\n"),
 ]),
 dict(id="r-sha-vec", edits=[  # pending bytes in a vector, digest pads a copy
  (S, "    buffer: [u8; BLOCK_SIZE],\n", "    buffer: Vec<u8>,\n"),
  (S, "            buffer: [0; BLOCK_SIZE],\n", "            buffer: Vec::new(),\n"),
  (S, """        for &b in data {
            let off = (self.length % BLOCK_SIZE as u64) as usize;

            // Fill the buffer
            self.buffer[off] = b;
            self.length += 1;

            if self.length % BLOCK_SIZE as u64 != 0 {
                continue;
            }

            fill_block(&self.buffer, &mut block);
            self.process_block(&block);
        }
""", """        for &b in data {
            self.buffer.push(b);
            self.length = self.length.wrapping_add(1);

            if self.buffer.len() == BLOCK_SIZE {
                let mut full = [0; BLOCK_SIZE];
                full.copy_from_slice(&self.buffer);
                fill_block(&full, &mut block);
                self.process_block(&block);
                self.buffer.clear();
            }
        }
"""),
  (S, """        let mut off = (self.length % BLOCK_SIZE as u64) as usize;

        // (b)
        for i in off..self.buffer.len() {
            self.buffer[i] = 0;
        }
""", """        let mut tail = std::mem::take(&mut self.buffer);
        tail.push(0x80);
        while tail.len() % BLOCK_SIZE != BLOCK_SIZE - 8 {
            tail.push(0);
        }
        let mut bits = [0; 8];
        write_u64_be(&mut bits, self.length.wrapping_mul(8));
        tail.extend_from_slice(&bits);
        for part in tail.chunks(BLOCK_SIZE) {
            let mut full = [0; BLOCK_SIZE];
            full.copy_from_slice(part);
            fill_block(&full, &mut block);
            self.process_block(&block);
        }
"""),
  (S, """        // If the padding does not fit in a single block - append 0x80 and zeroes
        // to the current block and flush it.
        // Then fill the block with zeroes and append size to it, and flush it
        // again.
        let has_overflow = off + 9 > BLOCK_SIZE;
        if has_overflow {
            // (a)
            self.buffer[off] |= 0x80;

            fill_block(&self.buffer, &mut block);
            self.process_block(&block);

            off = 0;
            self.buffer = [0; BLOCK_SIZE];
        }

        // (c)
        let len_off = self.buffer.len() - 8;
        write_u64_be(&mut self.buffer[len_off..], self.length * 8);

        // (a)
        if !has_overflow {
            self.buffer[off] |= 0x80;
        }

        fill_block(&self.buffer, &mut block);
        self.process_block(&block);

""", ""),
 ]),
 dict(id="r-kdf-clone", edits=[  # keyed state cloned instead of rebuilt
  (S, "pub struct SHA256 {", "#[derive(Clone)]\npub struct SHA256 {"),
  (H, "pub struct HMac {", "#[derive(Clone)]\npub struct HMac {"),
  (PB, "    for i in 1..=l {\n", "    let keyed = HMac::new(password);\n    for i in 1..=l {\n"),
  (PB, "        let mut hmac = HMac::new(password);\n        hmac.update(salt);", "        let mut hmac = keyed.clone();\n        hmac.update(salt);"),
  (PB, "            let mut hmac = HMac::new(password);\n            hmac.update(&u);", "            let mut hmac = keyed.clone();\n            hmac.update(&u);"),
  (PB, "        let ctr: [u8; 4] = [(i >> 24) as u8, (i >> 16) as u8, (i >> 8) as u8, i as u8];\n", "        let ctr = (i as u32).to_be_bytes();\n"),
 ]),
 dict(id="r-hmac-lazy", edits=[  # outer hash created when asked for
  (H, "    inner: SHA256,\n    outer: SHA256,\n", "    inner: SHA256,\n    pad: [u8; BLOCK_SIZE],\n"),
  (H, "        let mut outer = SHA256::new();\n", ""),
  (H, "        outer.update(&block);\n\n        HMac { inner, outer }", "        HMac { inner, pad: block }"),
  (H, "        self.outer.update(&self.inner.digest());\n        self.outer.digest()", "        let mut outer = SHA256::new();\n        outer.update(&self.pad);\n        outer.update(&self.inner.digest());\n        outer.digest()"),
 ]),
 dict(id="r-scrypt-order", edits=[  # parameters checked in another order, power of two by the library
  (SC, """        if self.r < 1 {
            return Err(ScryptError::RIsTooSmall);
        }

        if self.n <= 1 {
            return Err(ScryptError::NIsTooSmall);
        }

        if ((self.n - 1) & self.n) != 0 {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }

        if self.p < 1 {
            return Err(ScryptError::PIsTooSmall);
        }
""", """        if self.p == 0 {
            return Err(ScryptError::PIsTooSmall);
        }
        if self.n > 1 && !self.n.is_power_of_two() {
            return Err(ScryptError::NIsNotAPowerOfTwo);
        }
        if self.n < 2 {
            return Err(ScryptError::NIsTooSmall);
        }
        if self.r == 0 {
            return Err(ScryptError::RIsTooSmall);
        }
"""),
  (SC, "            let j = (integerify(&x) as usize) % self.n;", "            let j = (integerify(&x) & (self.n as u64 - 1)) as usize;"),
 ]),
 dict(id="r-scrypt-threads", edits=[  # the p lanes computed in parallel
  (SC, "        b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();", """        if self.p > 1 && self.p <= 4 {
            let lanes: Vec<Vec<Block>> = std::mem::take(&mut b);
            b = std::thread::scope(|s| {
                let hs: Vec<_> = lanes.into_iter().map(|elem| s.spawn(move || self.ro_mix(elem))).collect();
                hs.into_iter().map(|h| h.join().expect("lane")).collect()
            });
        } else {
            b = b.into_iter().map(|elem| self.ro_mix(elem)).collect();
        }"""),
 ]),
 dict(id="r-aes-lazy", edits=[  # tables computed once on first use
  (A, "impl AESSide for AESEncrypt {\n    fn lookup_sbox(b: u8) -> u8 {\n        SBOX[usize::from(b)]", """static FORWARD: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();

fn forward() -> &'static [u8] {
    FORWARD.get_or_init(|| (0..=255u8).map(|b| SBOX[usize::from(b)]).collect())
}

impl AESSide for AESEncrypt {
    fn lookup_sbox(b: u8) -> u8 {
        forward()[usize::from(b)]"""),
 ]),
 dict(id="r-aes-once", edits=[
  (A, "fn mul(b: u8, mut by: usize) -> u8 {", """static PRODUCTS: std::sync::Once = std::sync::Once::new();
static mut TABLE: [[u8; 256]; 16] = [[0; 256]; 16];

fn mul(b: u8, by: usize) -> u8 {
    if by < 16 {
        PRODUCTS.call_once(|| {
            for k in 0..16 {
                for x in 0..256 {
                    unsafe { TABLE[k][x] = slow_mul(x as u8, k) };
                }
            }
        });
        return unsafe { TABLE[by][usize::from(b)] };
    }
    slow_mul(b, by)
}

fn slow_mul(b: u8, mut by: usize) -> u8 {"""),
 ]),
 dict(id="r-counter", edits=[  # statistics nobody reads
  (S, "        let mut w: [u32; 64] = [0; 64];\n", "        BLOCKS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let mut w: [u32; 64] = [0; 64];\n"),
  (S, "fn fill_block(", "static BLOCKS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nfn fill_block("),
 ]),
 dict(id="r-counter-store", edits=[  # a statistic with plain load and store
  (A, "        let nr = self.round_count;\n\n        let mut state = to_block(b);\n        let round_keys = match &self.round_keys {\n            Some(keys) => keys,\n            None => {\n                return Err(AESError::NotInitialized);\n            }\n        };\n\n        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);", "        let nr = self.round_count;\n        let n = USES.load(std::sync::atomic::Ordering::Relaxed);\n        USES.store(n.wrapping_add(1), std::sync::atomic::Ordering::Relaxed);\n\n        let mut state = to_block(b);\n        let round_keys = match &self.round_keys {\n            Some(keys) => keys,\n            None => {\n                return Err(AESError::NotInitialized);\n            }\n        };\n\n        AESEncrypt::add_round_key(&mut state, &round_keys[0..NB]);"),
  (A, "trait AESSide {", "static USES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\ntrait AESSide {"),
 ]),
 dict(id="r-salsa-array", edits=[
  (SA, "    (n << s) | (n >> (32 - s))\n", "    n.rotate_left(u32::from(s))\n"),
 ]),
 dict(id="r-pkcs7-drain", edits=[
  (K, """        for &elem in buf {
            self.storage.push(elem);
        }

        if self.storage.len() < self.block_size {
            return None;
        }

        let tail_len = self.storage.len() % self.block_size;
        let tail_pos = self.storage.len() - tail_len;

        let mut tail = self.storage.split_off(tail_pos);
        let head = self.storage.clone();
        self.storage.clear();
        self.storage.append(&mut tail);

        Some(head)
""", """        self.storage.extend_from_slice(buf);

        let whole = self.storage.len() / self.block_size * self.block_size;
        if whole == 0 {
            return None;
        }
        Some(self.storage.drain(..whole).collect())
"""),
  (K, """        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {
            return Err(UnpadError::InvalidPadding);
        }
""", """        if !self.storage[pad_off..].iter().all(|&b| b == len) {
            return Err(UnpadError::InvalidPadding);
        }
"""),
 ]),
 dict(id="r-cbc-take", edits=[
  (C, "    iv: [u8; BLOCK_SIZE],\n    buffer: pkcs7::Pad,\n}", "    iv: [u8; BLOCK_SIZE],\n    buffer: pkcs7::Pad,\n    blocks: u64,\n}"),
  (C, "            buffer: pkcs7::Pad::new(BLOCK_SIZE),\n", "            buffer: pkcs7::Pad::new(BLOCK_SIZE),\n            blocks: 0,\n"),
  (C, "            self.iv = block;\n", "            self.blocks = self.blocks.wrapping_add(1);\n            self.iv = block;\n"),
  (C, "        let mut result: Vec<u8> = Vec::with_capacity(blocks.len());\n        for block in blocks.chunks(BLOCK_SIZE) {\n            let mut ciphertext = self.encrypt_block(block)?;\n            result.append(&mut ciphertext);\n        }\n        Ok(result)", "        blocks\n            .chunks(BLOCK_SIZE)\n            .try_fold(Vec::new(), |mut all, block| {\n                all.extend(self.encrypt_block(block)?);\n                Ok(all)\n            })"),
 ]),
 dict(id="r-zeroize", edits=[  # secrets wiped when dropped
  (S, "impl Default for SHA256 {", "impl Drop for SHA256 {\n    fn drop(&mut self) {\n        self.buffer = [0; BLOCK_SIZE];\n        self.h = [0; 8];\n    }\n}\n\nimpl Default for SHA256 {"),
  (A, "impl Default for AES {", "impl Drop for AES {\n    fn drop(&mut self) {\n        if let Some(keys) = &mut self.round_keys {\n            for k in keys.iter_mut() {\n                *k = 0;\n            }\n        }\n    }\n}\n\nimpl Default for AES {"),
 ]),
 dict(id="r-texts", edits=[
  (SC, '"`r` must be larger than 1"', '"`r` must be at least 1"'),
  (C, "            DecipherError::AES(err) => err.description(),\n            DecipherError::PKCS7(err) => err.description(),", "            DecipherError::AES(_) => \"cipher error\",\n            DecipherError::PKCS7(_) => \"padding error\","),
 ]),
 dict(id="r-pad-fold", edits=[
  (K, """        // XXX(indutny): hopefully this won't be optimized away
        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {
            return Err(UnpadError::InvalidPadding);
        }
""", """        let diff = self.storage[pad_off..].iter().fold(0u8, |acc, b| acc | (len ^ b));
        if diff != 0 {
            return Err(UnpadError::InvalidPadding);
        }
"""),
 ]),
 dict(id="r-pad-flag", edits=[
  (K, """        // XXX(indutny): hopefully this won't be optimized away
        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {
            return Err(UnpadError::InvalidPadding);
        }
""", """        let mut same = true;
        for &b in &self.storage[pad_off..] {
            same &= b == len;
        }
        if !same {
            return Err(UnpadError::InvalidPadding);
        }
"""),
 ]),
 dict(id="r-pad-count", edits=[
  (K, """        // XXX(indutny): hopefully this won't be optimized away
        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {
            return Err(UnpadError::InvalidPadding);
        }
""", """        let mut wrong = 0usize;
        for &b in &self.storage[pad_off..] {
            wrong += usize::from(b != len);
        }
        if wrong > 0 {
            return Err(UnpadError::InvalidPadding);
        }
"""),
 ]),
 dict(id="r-pad-rev", edits=[
  (K, """        // XXX(indutny): hopefully this won't be optimized away
        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {
            return Err(UnpadError::InvalidPadding);
        }
""", """        let mut acc: u32 = 0;
        for k in (pad_off..self.block_size).rev() {
            acc |= u32::from(self.storage[k]) ^ u32::from(len);
        }
        let bad = ((acc + 0xff) >> 8) & 1;
        if bad == 1 {
            return Err(UnpadError::InvalidPadding);
        }
"""),
 ]),
 dict(id="r-pad-mask", edits=[
  (K, """        // XXX(indutny): hopefully this won't be optimized away
        let mut is_same: u8 = 0;
        for b in self.storage[pad_off..].iter() {
            is_same |= len ^ b;
        }

        if is_same != 0 {
            return Err(UnpadError::InvalidPadding);
        }
""", """        let mut diff: u8 = 0;
        for (k, b) in self.storage.iter().enumerate() {
            let inside = ((pad_off as i32 - 1 - k as i32) >> 31) as u8;
            diff |= inside & (len ^ b);
        }
        match diff {
            0 => (),
            _ => return Err(UnpadError::InvalidPadding),
        }
"""),
 ]),
]
