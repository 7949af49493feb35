use crate::engine::{Check, Tier};

mod aes;
mod cbc;
pub mod isolation;
pub mod kdf;
#[cfg(target_arch = "x86_64")]
mod outside;
mod placement;
mod resources;
mod salsa;
mod sha;
#[cfg(target_arch = "x86_64")]
mod timing;
mod wide;
#[cfg(trace)]
mod work;

type Builder = fn(Tier) -> Check;

const ALL: &[(&str, Builder)] = &[
    ("C01", sha::c01),
    ("C02", sha::c02),
    ("C03", sha::c03),
    ("C04", kdf::c04),
    ("C05", salsa::c05),
    ("C06", kdf::c06),
    ("C07", kdf::c07),
    ("C08", aes::c08),
    ("C09", aes::c09),
    ("C10", aes::c10),
    ("C11", cbc::c11),
    ("C12", cbc::c12),
    ("C13", cbc::c13),
    ("C14", cbc::c14),
    ("C15", isolation::c15),
    ("C17", resources::c17),
    ("C18", resources::c18),
    ("C19", kdf::c19),
    ("C20", kdf::c20),
    #[cfg(target_arch = "x86_64")]
    ("C22", timing::c22),
    ("C23", placement::c23),
    #[cfg(target_arch = "x86_64")]
    ("C24", outside::c24),
    #[cfg(trace)]
    ("C25", work::c25),
    // Run by the 32-bit build; the 64-bit one is asked about single cases.
    ("C21", wide::c21),
];

pub fn ids() -> Vec<&'static str> {
    ALL.iter().map(|x| x.0).collect()
}

pub fn build(id: &str, tier: Tier) -> Option<Check> {
    ALL.iter().find(|x| x.0 == id).map(|x| (x.1)(tier))
}
