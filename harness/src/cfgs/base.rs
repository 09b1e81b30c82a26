// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::base::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32)]
pub struct Bs0(pub String);
impl Dump for Bs0 { fn dump(&self) -> String { dump_text(&self.0) } }
subject!(Bs0; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32(padding(Must)))]
pub struct Bs1(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Bs1 { fn dump(&self) -> String { dump_text(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs1; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32(padding(Allow)))]
pub struct Bs2(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Bs2 { fn dump(&self) -> String { dump_text(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs2; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32(padding(Disallow)))]
pub struct Bs3(pub String);
impl Dump for Bs3 { fn dump(&self) -> String { dump_text(&self.0) } }
subject!(Bs3; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded)]
pub struct Bs4(pub Vec<u8>);
impl Dump for Bs4 { fn dump(&self) -> String { dump_bytes(&self.0) } }
subject!(Bs4; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Must)))]
pub struct Bs5(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs5 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs5; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Allow)))]
pub struct Bs6(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs6 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs6; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Disallow)))]
pub struct Bs7(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs7 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs7; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64)]
pub struct Bs8(pub String);
impl Dump for Bs8 { fn dump(&self) -> String { dump_text(&self.0) } }
subject!(Bs8; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64(padding(Must)))]
pub struct Bs9(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Bs9 { fn dump(&self) -> String { dump_text(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs9; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64(padding(Allow)))]
pub struct Bs10(pub String);
impl Dump for Bs10 { fn dump(&self) -> String { dump_text(&self.0) } }
subject!(Bs10; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64(padding(Disallow)))]
pub struct Bs11(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Bs11 { fn dump(&self) -> String { dump_text(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs11; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded)]
pub struct Bs12(pub Vec<u8>);
impl Dump for Bs12 { fn dump(&self) -> String { dump_bytes(&self.0) } }
subject!(Bs12; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Must)))]
pub struct Bs13(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs13 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs13; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Allow)))]
pub struct Bs14(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs14 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs14; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Disallow)))]
pub struct Bs15(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs15 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs15; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url)]
pub struct Bs16(pub String);
impl Dump for Bs16 { fn dump(&self) -> String { dump_text(&self.0) } }
subject!(Bs16; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url(padding(Must)))]
pub struct Bs17(pub String);
impl Dump for Bs17 { fn dump(&self) -> String { dump_text(&self.0) } }
subject!(Bs17; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url(padding(Allow)))]
pub struct Bs18(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Bs18 { fn dump(&self) -> String { dump_text(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs18; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url(padding(Disallow)))]
pub struct Bs19(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Bs19 { fn dump(&self) -> String { dump_text(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs19; text, bytes);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded)]
pub struct Bs20(pub Vec<u8>);
impl Dump for Bs20 { fn dump(&self) -> String { dump_bytes(&self.0) } }
subject!(Bs20; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Must)))]
pub struct Bs21(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs21 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs21; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct Bs22(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs22 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs22; text, bytes);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Disallow)))]
pub struct Bs23(pub Vec<u8>);
#[cfg(not(feature = "lite"))]
impl Dump for Bs23 { fn dump(&self) -> String { dump_bytes(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Bs23; text, bytes);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Bs0, "base32", r#"base32"#, |t| judge(&Cfg { enc: Enc::B32, decoded: false, pad: Allow }, t)), Bs0, validators::errors::Base32Error, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs1, "base32", r#"base32(padding(Must))"#, |t| judge(&Cfg { enc: Enc::B32, decoded: false, pad: Must }, t)), Bs1, validators::errors::Base32Error, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs2, "base32", r#"base32(padding(Allow))"#, |t| judge(&Cfg { enc: Enc::B32, decoded: false, pad: Allow }, t)), Bs2, validators::errors::Base32Error, |_| None));
    v.push(ws!(target!(Bs3, "base32", r#"base32(padding(Disallow))"#, |t| judge(&Cfg { enc: Enc::B32, decoded: false, pad: Disallow }, t)), Bs3, validators::errors::Base32Error, |_| None));
    v.push(ws!(target!(Bs4, "base32_decoded", r#"base32_decoded"#, |t| judge(&Cfg { enc: Enc::B32, decoded: true, pad: Allow }, t)), Bs4, validators::errors::Base32DecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs5, "base32_decoded", r#"base32_decoded(padding(Must))"#, |t| judge(&Cfg { enc: Enc::B32, decoded: true, pad: Must }, t)), Bs5, validators::errors::Base32DecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs6, "base32_decoded", r#"base32_decoded(padding(Allow))"#, |t| judge(&Cfg { enc: Enc::B32, decoded: true, pad: Allow }, t)), Bs6, validators::errors::Base32DecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs7, "base32_decoded", r#"base32_decoded(padding(Disallow))"#, |t| judge(&Cfg { enc: Enc::B32, decoded: true, pad: Disallow }, t)), Bs7, validators::errors::Base32DecodedError, |_| None));
    v.push(ws!(target!(Bs8, "base64", r#"base64"#, |t| judge(&Cfg { enc: Enc::B64, decoded: false, pad: Allow }, t)), Bs8, validators::errors::Base64Error, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs9, "base64", r#"base64(padding(Must))"#, |t| judge(&Cfg { enc: Enc::B64, decoded: false, pad: Must }, t)), Bs9, validators::errors::Base64Error, |_| None));
    v.push(ws!(target!(Bs10, "base64", r#"base64(padding(Allow))"#, |t| judge(&Cfg { enc: Enc::B64, decoded: false, pad: Allow }, t)), Bs10, validators::errors::Base64Error, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs11, "base64", r#"base64(padding(Disallow))"#, |t| judge(&Cfg { enc: Enc::B64, decoded: false, pad: Disallow }, t)), Bs11, validators::errors::Base64Error, |_| None));
    v.push(ws!(target!(Bs12, "base64_decoded", r#"base64_decoded"#, |t| judge(&Cfg { enc: Enc::B64, decoded: true, pad: Allow }, t)), Bs12, validators::errors::Base64DecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs13, "base64_decoded", r#"base64_decoded(padding(Must))"#, |t| judge(&Cfg { enc: Enc::B64, decoded: true, pad: Must }, t)), Bs13, validators::errors::Base64DecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs14, "base64_decoded", r#"base64_decoded(padding(Allow))"#, |t| judge(&Cfg { enc: Enc::B64, decoded: true, pad: Allow }, t)), Bs14, validators::errors::Base64DecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs15, "base64_decoded", r#"base64_decoded(padding(Disallow))"#, |t| judge(&Cfg { enc: Enc::B64, decoded: true, pad: Disallow }, t)), Bs15, validators::errors::Base64DecodedError, |_| None));
    v.push(ws!(target!(Bs16, "base64_url", r#"base64_url"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: false, pad: Allow }, t)), Bs16, validators::errors::Base64UrlError, |_| None));
    v.push(ws!(target!(Bs17, "base64_url", r#"base64_url(padding(Must))"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: false, pad: Must }, t)), Bs17, validators::errors::Base64UrlError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs18, "base64_url", r#"base64_url(padding(Allow))"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: false, pad: Allow }, t)), Bs18, validators::errors::Base64UrlError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs19, "base64_url", r#"base64_url(padding(Disallow))"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: false, pad: Disallow }, t)), Bs19, validators::errors::Base64UrlError, |_| None));
}

fn part1(v: &mut Vec<Target>) {
    v.push(ws!(target!(Bs20, "base64_url_decoded", r#"base64_url_decoded"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: true, pad: Allow }, t)), Bs20, validators::errors::Base64UrlDecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs21, "base64_url_decoded", r#"base64_url_decoded(padding(Must))"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: true, pad: Must }, t)), Bs21, validators::errors::Base64UrlDecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs22, "base64_url_decoded", r#"base64_url_decoded(padding(Allow))"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: true, pad: Allow }, t)), Bs22, validators::errors::Base64UrlDecodedError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Bs23, "base64_url_decoded", r#"base64_url_decoded(padding(Disallow))"#, |t| judge(&Cfg { enc: Enc::B64U, decoded: true, pad: Disallow }, t)), Bs23, validators::errors::Base64UrlDecodedError, |_| None));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    v
}
