//! Generated configurations (tools/gen.py).
#[cfg(feature = "fam_base")]
pub mod base;
#[cfg(feature = "fam_domain")]
pub mod domain;
#[cfg(feature = "fam_email")]
pub mod email;
#[cfg(feature = "fam_hex")]
pub mod hex;
#[cfg(feature = "fam_host")]
pub mod host;
#[cfg(feature = "fam_int")]
pub mod int;
#[cfg(feature = "fam_ip")]
pub mod ip;
#[cfg(feature = "fam_linetext")]
pub mod linetext;
#[cfg(feature = "fam_number")]
pub mod number;
#[cfg(feature = "fam_unit")]
pub mod unit;
