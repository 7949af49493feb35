//! Reference models, written from the standards alone.
//!
//! Every table is derived from its definition (roots of primes, the field
//! inverse plus the affine map, ...), none is copied, so a wrong table entry in
//! the code under test cannot be shared with the model.
pub mod aes;
pub mod cbc;
pub mod kdf;
pub mod salsa;
pub mod sha;

/// Published vectors; `Err` names the model that is wrong (a harness error,
/// never a verdict on the code under test).
pub fn selftest() -> Result<(), String> {
    fn hx(s: &str) -> Vec<u8> {
        let v: Vec<u8> = s.bytes().filter(|b| !b.is_ascii_whitespace()).collect();
        v.chunks(2)
            .map(|c| {
                let d = |x: u8| (x as char).to_digit(16).unwrap() as u8;
                d(c[0]) * 16 + d(c[1])
            })
            .collect()
    }
    fn eq(what: &str, a: &[u8], b: &str) -> Result<(), String> {
        if a == &hx(b)[..] {
            Ok(())
        } else {
            Err(format!("reference model self-test failed: {}", what))
        }
    }
    // FIPS 180-4 examples
    eq("sha abc", &sha::sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    eq("sha empty", &sha::sha256(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    eq(
        "sha 56",
        &sha::sha256(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
    )?;
    eq(
        "sha 1e6 a",
        &sha::sha256(&vec![b'a'; 1_000_000]),
        "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0",
    )?;
    // RFC 4231
    eq("hmac 1", &sha::hmac(&[0x0b; 20], b"Hi There"), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7")?;
    eq(
        "hmac 6",
        &sha::hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"),
        "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54",
    )?;
    // RFC 7914 section 11 / 12 / 8
    eq(
        "pbkdf2",
        &kdf::pbkdf2(b"passwd", b"salt", 1, 64),
        "55ac046e56e3089fec1691c22544b605f94185216dde0465e68b9d57c20dacbc\
         49ca9cccf179b645991664b39d77ef317c71b845b1e30bd509112041d3a19783",
    )?;
    eq(
        "scrypt",
        &kdf::scrypt(b"", b"", 1, 16, 1, 64),
        "77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442\
         fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906",
    )?;
    eq(
        "scrypt2",
        &kdf::scrypt(b"password", b"NaCl", 8, 1024, 16, 64),
        "fdbabe1c9d3472007856e7190d01e9fe7c6ad7cbc8237830e77376634b373162\
         2eaf30d92e22a3886ff109279d9830dac727afb94a83ee6d8360cbdfa2cc0640",
    )?;
    let mut o = [0u8; 64];
    salsa::core(
        &hx("7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1d\
             ee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e"),
        4,
        &mut o,
    );
    eq(
        "salsa20/8",
        &o,
        "a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29\
         b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81",
    )?;
    // FIPS 197 appendix C
    let pt = hx("00112233445566778899aabbccddeeff");
    let mut b = [0u8; 16];
    b.copy_from_slice(&pt);
    let key: Vec<u8> = (0u8..32).collect();
    for (n, ct) in [
        (16, "69c4e0d86a7b0430d8cdb78070b4c55a"),
        (24, "dda97ca4864cdfe06eaf70a0ec0d7191"),
        (32, "8ea2b7ca516745bfeafc49904b496089"),
    ] {
        let k = aes::RefAes::new(&key[..n]);
        eq("aes enc", &k.encrypt(&b), ct)?;
        let mut c = [0u8; 16];
        c.copy_from_slice(&hx(ct));
        if k.decrypt(&c) != b {
            return Err("reference model self-test failed: aes dec".into());
        }
    }
    // NIST SP 800-38A F.2.1 (first two blocks)
    let mut iv = [0u8; 16];
    iv.copy_from_slice(&hx("000102030405060708090a0b0c0d0e0f"));
    let c = cbc::encrypt_blocks(
        &aes::RefAes::new(&hx("2b7e151628aed2a6abf7158809cf4f3c")),
        &iv,
        &hx("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51"),
    );
    eq("cbc", &c, "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2")
}
