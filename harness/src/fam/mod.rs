//! One module per family of validators: configurations, generators, reference.
#[cfg(feature = "fam_base")]
pub mod base;
#[cfg(feature = "fam_boolean")]
pub mod boolean;
#[cfg(feature = "fam_delegate")]
pub mod delegate;
#[cfg(feature = "net")]
pub mod domain;
#[cfg(feature = "fam_email")]
pub mod email;
#[cfg(feature = "fam_hex")]
pub mod hex;
#[cfg(feature = "fam_host")]
pub mod host;
#[cfg(feature = "fam_int")]
pub mod int;
#[cfg(feature = "net")]
pub mod ip;
#[cfg(feature = "fam_json")]
pub mod json;
#[cfg(feature = "fam_length")]
pub mod length;
#[cfg(feature = "fam_linetext")]
pub mod linetext;
#[cfg(feature = "net")]
pub mod net;
#[cfg(feature = "fam_number")]
pub mod number;
#[cfg(feature = "fam_phone")]
pub mod phone;
#[cfg(feature = "fam_unit")]
pub mod unit;
#[cfg(feature = "fam_url")]
pub mod url;

use crate::core::Family;

/// every family compiled into this build
pub fn all() -> Vec<Family> {
    vec![
        #[cfg(feature = "fam_base")]
        base::family(),
        #[cfg(feature = "fam_int")]
        int::family(),
        #[cfg(feature = "fam_number")]
        number::family(),
        #[cfg(feature = "fam_boolean")]
        boolean::family(),
        #[cfg(feature = "fam_unit")]
        unit::family(),
        #[cfg(feature = "fam_linetext")]
        linetext::family(),
        #[cfg(feature = "fam_length")]
        length::family(),
        #[cfg(feature = "fam_hex")]
        hex::family(),
        #[cfg(feature = "fam_ip")]
        ip::family(),
        #[cfg(feature = "fam_domain")]
        domain::family(),
        #[cfg(feature = "fam_host")]
        host::family(),
        #[cfg(feature = "fam_email")]
        email::family(),
        #[cfg(feature = "fam_url")]
        url::family(),
        #[cfg(feature = "fam_phone")]
        phone::family(),
        #[cfg(feature = "fam_delegate")]
        delegate::family(),
        #[cfg(feature = "fam_json")]
        json::family(),
    ]
}
