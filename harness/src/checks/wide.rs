//! C21: the 32-bit build runs the spaces of the other checks. A case that fails
//! there and fails in the same way in the 64-bit build is no matter of the
//! pointer width and is not judged here.
use crate::checks::kdf::run_probe;
use crate::checks::{aes, cbc, isolation, kdf, placement, resources, salsa, sha};
use crate::engine::*;

/// Configurations within the limits whose working memory does not fit a 32-bit
/// address space, with the key the reference model gives on a 64-bit machine
/// (`mc model R N P`).
const BEYOND: &[(usize, usize, usize, &str)] = &[
    (1, 2, 33_554_432, "bb20505708c9dd88bccd901fc87c73e17298bcca91cd38e1"),
    (1, 2, 33_554_433, "54b91df8101c155f56b8322906433092286cbdcda308f5ff"),
    (1, 2, 50_331_648, "18c2d38d19c759d594acd90efb818ec4191e06dc80307985"),
    (8, 2, 4_194_304, "3e20e64f802c2646e81f7f3a4fa95bfb2a24432c159df90e"),
    (4096, 2, 8192, "9da5ca1a0ae09274f33ff75dea0154ac31a0505497916493"),
    (4096, 2, 8193, "fef2b255af9c714a69bc60a2628acf781ed08fe7aec0a122"),
    (33_554_432, 2, 1, "05e1f9c71a60eca6baa61181f19fe1f70992a16635b9ef19"),
    (33_554_433, 2, 1, "08a6c736091db0557c43f36ea1e9a3abd9af54fd2db843bc"),
    (16_777_216, 2, 2, "0ebd9a501969cfbf2cf7b14ee389601e1b33848b6764c0f9"),
    (2, 16_777_216, 1, "c51bdfcea299379ab2678ccaf3a22f9e39bbb785fe52cd0e"),
    (1024, 32_768, 1, "6c0ea3506c0850b458774e6f0aa29869dee34fa96171c3fb"),
    (3, 33_554_432, 1, "e0a54daefa6517009eb8643d897becadd60e61f6628ac01b"),
];

pub fn c21(t: Tier) -> Check {
    let mut spaces = vec![];
    let mut take = |from: Check, but: &[&str]| {
        let id = from.id;
        for mut s in from.spaces {
            if but.contains(&s.name) {
                continue;
            }
            s.name = Box::leak(format!("{}.{}", id, s.name).into_boxed_str());
            spaces.push(s);
        }
    };
    let q = Tier::Quick;
    // Millions of cases in which word size plays no part; thorough only.
    let skip: &[&str] = if t.thorough() { &[] } else { &["all_byte_pairs", "key_byte_pairs", "sessions", "write_sequences", "sequences", "three_way"] };
    take(sha::c01(q), &[]);
    take(sha::c02(q), skip);
    take(sha::c03(q), skip);
    take(kdf::c04(q), &[]);
    take(salsa::c05(q), &[]);
    take(kdf::c06(q), &[]);
    take(kdf::c07(q), &[]);
    take(aes::c08(q), skip);
    take(aes::c09(q), skip);
    take(aes::c10(q), skip);
    take(cbc::c11(q), skip);
    take(cbc::c12(q), skip);
    take(cbc::c13(q), &[]);
    take(kdf::c19(q), &[]);
    take(kdf::c20(q), &[]);
    take(placement::c23(q), &[]);
    if t.thorough() {
        take(cbc::c14(q), &[]);
        take(isolation::c15(q), &[]);
        take(resources::c17(q), &[]);
        take(resources::c18(q), &[]);
        let mut more = sha::c01(Tier::Thorough);
        more.spaces.retain(|s| s.name == "huge");
        more.id = "C01-thorough";
        take(more, &[]);
    }
    spaces.push(
        Space::new(
            "beyond",
            "scrypt configurations within the limits that need 4 GiB or more of working memory: the key of the 64-bit machine or a failure, never another key",
            BEYOND.len() as u64,
            |i, cx| {
                let (r, n, p, key) = BEYOND[i as usize];
                cx.state(&(r, n, p));
                let o = run_probe(r, n, p)?;
                cx.outcome(&o);
                match o.strip_prefix("accepted ") {
                    Some(k) if k != key => Err(format!("scrypt r={} n={} p={} needs more than the address space; it gave the key {} where a 64-bit machine gives {}", r, n, p, k, key)),
                    _ => Ok(()),
                }
            },
        )
        .heavy(200),
    );
    Check {
        id: "C21",
        spaces,
        assumptions: vec![
            "Executed as a native 32-bit x86 process (std built from rust-src for i686-unknown-linux-gnu).".into(),
            "Running out of address space (panic, abort or error) is accepted where the operation needs 4 GiB or more; a different result is not.".into(),
        ],
        bounds: "The quick bounds of the checks whose spaces are listed, run with 32-bit words; messages to 2^32+9 bytes; little-endian x86 only".into(),
    }
}
