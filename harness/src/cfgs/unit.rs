// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::unit::*;

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit)]
pub struct Un0(pub validators::byte_unit::Bit);
impl Dump for Un0 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un0; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1)))]
pub struct Un1(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un1 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un1; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000)))]
pub struct Un2(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un2 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un2; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 8, max = 8192)))]
pub struct Un3(pub validators::byte_unit::Bit);
impl Dump for Un3 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un3; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1024, max = 1024)))]
pub struct Un4(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un4 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un4; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 8, max = 8192, inclusive = false)))]
pub struct Un5(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un5 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un5; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 8, max = 9, inclusive = false)))]
pub struct Un6(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un6 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un6; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000, max = 1000000000)))]
pub struct Un7(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un7 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un7; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 18446744073709551614, max = 18446744073709551615)))]
pub struct Un8(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un8 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un8; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 0)))]
pub struct Un9(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un9 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un9; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 0, max = 0)))]
pub struct Un10(pub validators::byte_unit::Bit);
impl Dump for Un10 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un10; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 0)))]
pub struct Un11(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un11 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un11; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 0, max = 1, inclusive = false)))]
pub struct Un12(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un12 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un12; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1, inclusive = false)))]
pub struct Un13(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un13 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un13; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 1000, inclusive = false)))]
pub struct Un14(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un14 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un14; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 7, inclusive = false)))]
pub struct Un15(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un15 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un15; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 0, max = 18446744073709551615, inclusive = false)))]
pub struct Un16(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un16 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un16; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 18446744073709551615)))]
pub struct Un17(pub validators::byte_unit::Bit);
impl Dump for Un17 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un17; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 18446744073709551615, max = 18446744073709551615)))]
pub struct Un18(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un18 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un18; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 999, max = 1000, inclusive = false)))]
pub struct Un19(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un19 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un19; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1000, max = 1002, inclusive = false)))]
pub struct Un20(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un20 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un20; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(max = 18446744073709551615, inclusive = false)))]
pub struct Un21(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un21 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un21; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 1125899906842624, max = 1152921504606846976, inclusive = false)))]
pub struct Un22(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un22 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un22; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(min = 123456789, max = 987654321)))]
pub struct Un23(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un23 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un23; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(8..=8192)))]
pub struct Un24(pub validators::byte_unit::Bit);
impl Dump for Un24 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un24; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(bit(range(8..8192)))]
pub struct Un25(pub validators::byte_unit::Bit);
#[cfg(not(feature = "lite"))]
impl Dump for Un25 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un25; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte)]
pub struct Un26(pub validators::byte_unit::Byte);
impl Dump for Un26 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un26; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1)))]
pub struct Un27(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un27 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un27; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000)))]
pub struct Un28(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un28 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un28; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 8, max = 8192)))]
pub struct Un29(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un29 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un29; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1024)))]
pub struct Un30(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un30 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un30; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 8, max = 8192, inclusive = false)))]
pub struct Un31(pub validators::byte_unit::Byte);
impl Dump for Un31 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un31; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 8, max = 9, inclusive = false)))]
pub struct Un32(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un32 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un32; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1000000000)))]
pub struct Un33(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un33 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un33; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551614, max = 18446744073709551615)))]
pub struct Un34(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un34 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un34; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0)))]
pub struct Un35(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un35 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un35; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0, max = 0)))]
pub struct Un36(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un36 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un36; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 0)))]
pub struct Un37(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un37 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un37; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0, max = 1, inclusive = false)))]
pub struct Un38(pub validators::byte_unit::Byte);
impl Dump for Un38 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un38; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1, inclusive = false)))]
pub struct Un39(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un39 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un39; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 1000, inclusive = false)))]
pub struct Un40(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un40 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un40; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 7, inclusive = false)))]
pub struct Un41(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un41 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un41; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 0, max = 18446744073709551615, inclusive = false)))]
pub struct Un42(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un42 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un42; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551615)))]
pub struct Un43(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un43 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un43; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 18446744073709551615, max = 18446744073709551615)))]
pub struct Un44(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un44 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un44; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 999, max = 1000, inclusive = false)))]
pub struct Un45(pub validators::byte_unit::Byte);
impl Dump for Un45 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un45; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1000, max = 1002, inclusive = false)))]
pub struct Un46(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un46 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un46; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(max = 18446744073709551615, inclusive = false)))]
pub struct Un47(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un47 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un47; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1125899906842624, max = 1152921504606846976, inclusive = false)))]
pub struct Un48(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un48 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un48; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 123456789, max = 987654321)))]
pub struct Un49(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un49 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un49; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..=8192)))]
pub struct Un50(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un50 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un50; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(8..8192)))]
pub struct Un51(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un51 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un51; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(ignore_case = false))]
pub struct Un52(pub validators::byte_unit::Byte);
impl Dump for Un52 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
subject!(Un52; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(ignore_case = true))]
pub struct Un53(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un53 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un53; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 8, max = 8192), ignore_case = false))]
pub struct Un54(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un54 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un54; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(byte(range(min = 1024, max = 1024), ignore_case = false))]
pub struct Un55(pub validators::byte_unit::Byte);
#[cfg(not(feature = "lite"))]
impl Dump for Un55 { fn dump(&self) -> String { dump_u(self.0.as_u128()) } }
#[cfg(not(feature = "lite"))]
subject!(Un55; text, uint);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Un0, "bit", r#"bit"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: None, max: None, inclusive: true }, t)), Un0, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un1, "bit", r#"bit(range(min = 1))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(1), max: None, inclusive: true }, t)), Un1, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un2, "bit", r#"bit(range(max = 1000))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: None, max: Some(1000), inclusive: true }, t)), Un2, validators::errors::BitError, |_| None));
    v.push(ws!(target!(Un3, "bit", r#"bit(range(min = 8, max = 8192))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(8), max: Some(8192), inclusive: true }, t)), Un3, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un4, "bit", r#"bit(range(min = 1024, max = 1024))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(1024), max: Some(1024), inclusive: true }, t)), Un4, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un5, "bit", r#"bit(range(min = 8, max = 8192, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(8), max: Some(8192), inclusive: false }, t)), Un5, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un6, "bit", r#"bit(range(min = 8, max = 9, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(8), max: Some(9), inclusive: false }, t)), Un6, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un7, "bit", r#"bit(range(min = 1000, max = 1000000000))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(1000), max: Some(1000000000), inclusive: true }, t)), Un7, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un8, "bit", r#"bit(range(min = 18446744073709551614, max = 18446744073709551615))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: true }, t)), Un8, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un9, "bit", r#"bit(range(min = 0))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(0), max: None, inclusive: true }, t)), Un9, validators::errors::BitError, |_| None));
    v.push(ws!(target!(Un10, "bit", r#"bit(range(min = 0, max = 0))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(0), max: Some(0), inclusive: true }, t)), Un10, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un11, "bit", r#"bit(range(max = 0))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: None, max: Some(0), inclusive: true }, t)), Un11, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un12, "bit", r#"bit(range(min = 0, max = 1, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(0), max: Some(1), inclusive: false }, t)), Un12, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un13, "bit", r#"bit(range(max = 1, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: None, max: Some(1), inclusive: false }, t)), Un13, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un14, "bit", r#"bit(range(max = 1000, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: None, max: Some(1000), inclusive: false }, t)), Un14, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un15, "bit", r#"bit(range(min = 7, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(7), max: None, inclusive: false }, t)), Un15, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un16, "bit", r#"bit(range(min = 0, max = 18446744073709551615, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(0), max: Some(18446744073709551615), inclusive: false }, t)), Un16, validators::errors::BitError, |_| None));
    v.push(ws!(target!(Un17, "bit", r#"bit(range(min = 18446744073709551615))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(18446744073709551615), max: None, inclusive: true }, t)), Un17, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un18, "bit", r#"bit(range(min = 18446744073709551615, max = 18446744073709551615))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(18446744073709551615), max: Some(18446744073709551615), inclusive: true }, t)), Un18, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un19, "bit", r#"bit(range(min = 999, max = 1000, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(999), max: Some(1000), inclusive: false }, t)), Un19, validators::errors::BitError, |_| None));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un20, "bit", r#"bit(range(min = 1000, max = 1002, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(1000), max: Some(1002), inclusive: false }, t)), Un20, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un21, "bit", r#"bit(range(max = 18446744073709551615, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: None, max: Some(18446744073709551615), inclusive: false }, t)), Un21, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un22, "bit", r#"bit(range(min = 1125899906842624, max = 1152921504606846976, inclusive = false))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(1125899906842624), max: Some(1152921504606846976), inclusive: false }, t)), Un22, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un23, "bit", r#"bit(range(min = 123456789, max = 987654321))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(123456789), max: Some(987654321), inclusive: true }, t)), Un23, validators::errors::BitError, |_| None));
    v.push(ws!(target!(Un24, "bit", r#"bit(range(8..=8192))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(8), max: Some(8192), inclusive: true }, t)), Un24, validators::errors::BitError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un25, "bit", r#"bit(range(8..8192))"#, |t| judge(&Cfg { bit: true, ignore_case: false, min: Some(8), max: Some(8192), inclusive: false }, t)), Un25, validators::errors::BitError, |_| None));
    v.push(ws!(target!(Un26, "byte", r#"byte"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: None, inclusive: true }, t)), Un26, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un27, "byte", r#"byte(range(min = 1))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(1), max: None, inclusive: true }, t)), Un27, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un28, "byte", r#"byte(range(max = 1000))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: Some(1000), inclusive: true }, t)), Un28, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un29, "byte", r#"byte(range(min = 8, max = 8192))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(8), max: Some(8192), inclusive: true }, t)), Un29, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un30, "byte", r#"byte(range(min = 1024, max = 1024))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(1024), max: Some(1024), inclusive: true }, t)), Un30, validators::errors::ByteError, |_| None));
    v.push(ws!(target!(Un31, "byte", r#"byte(range(min = 8, max = 8192, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(8), max: Some(8192), inclusive: false }, t)), Un31, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un32, "byte", r#"byte(range(min = 8, max = 9, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(8), max: Some(9), inclusive: false }, t)), Un32, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un33, "byte", r#"byte(range(min = 1000, max = 1000000000))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(1000), max: Some(1000000000), inclusive: true }, t)), Un33, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un34, "byte", r#"byte(range(min = 18446744073709551614, max = 18446744073709551615))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: true }, t)), Un34, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un35, "byte", r#"byte(range(min = 0))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(0), max: None, inclusive: true }, t)), Un35, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un36, "byte", r#"byte(range(min = 0, max = 0))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(0), max: Some(0), inclusive: true }, t)), Un36, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un37, "byte", r#"byte(range(max = 0))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: Some(0), inclusive: true }, t)), Un37, validators::errors::ByteError, |_| None));
    v.push(ws!(target!(Un38, "byte", r#"byte(range(min = 0, max = 1, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(0), max: Some(1), inclusive: false }, t)), Un38, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un39, "byte", r#"byte(range(max = 1, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: Some(1), inclusive: false }, t)), Un39, validators::errors::ByteError, |_| None));
}

fn part2(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un40, "byte", r#"byte(range(max = 1000, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: Some(1000), inclusive: false }, t)), Un40, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un41, "byte", r#"byte(range(min = 7, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(7), max: None, inclusive: false }, t)), Un41, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un42, "byte", r#"byte(range(min = 0, max = 18446744073709551615, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(0), max: Some(18446744073709551615), inclusive: false }, t)), Un42, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un43, "byte", r#"byte(range(min = 18446744073709551615))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(18446744073709551615), max: None, inclusive: true }, t)), Un43, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un44, "byte", r#"byte(range(min = 18446744073709551615, max = 18446744073709551615))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(18446744073709551615), max: Some(18446744073709551615), inclusive: true }, t)), Un44, validators::errors::ByteError, |_| None));
    v.push(ws!(target!(Un45, "byte", r#"byte(range(min = 999, max = 1000, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(999), max: Some(1000), inclusive: false }, t)), Un45, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un46, "byte", r#"byte(range(min = 1000, max = 1002, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(1000), max: Some(1002), inclusive: false }, t)), Un46, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un47, "byte", r#"byte(range(max = 18446744073709551615, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: Some(18446744073709551615), inclusive: false }, t)), Un47, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un48, "byte", r#"byte(range(min = 1125899906842624, max = 1152921504606846976, inclusive = false))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(1125899906842624), max: Some(1152921504606846976), inclusive: false }, t)), Un48, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un49, "byte", r#"byte(range(min = 123456789, max = 987654321))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(123456789), max: Some(987654321), inclusive: true }, t)), Un49, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un50, "byte", r#"byte(range(8..=8192))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(8), max: Some(8192), inclusive: true }, t)), Un50, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un51, "byte", r#"byte(range(8..8192))"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: Some(8), max: Some(8192), inclusive: false }, t)), Un51, validators::errors::ByteError, |_| None));
    v.push(ws!(target!(Un52, "byte", r#"byte(ignore_case = false)"#, |t| judge(&Cfg { bit: false, ignore_case: false, min: None, max: None, inclusive: true }, t)), Un52, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un53, "byte", r#"byte(ignore_case = true)"#, |t| judge(&Cfg { bit: false, ignore_case: true, min: None, max: None, inclusive: true }, t)), Un53, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un54, "byte", r#"byte(range(min = 8, max = 8192), ignore_case = false)"#, |t| judge(&Cfg { bit: false, ignore_case: false, min: Some(8), max: Some(8192), inclusive: true }, t)), Un54, validators::errors::ByteError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Un55, "byte", r#"byte(range(min = 1024, max = 1024), ignore_case = false)"#, |t| judge(&Cfg { bit: false, ignore_case: false, min: Some(1024), max: Some(1024), inclusive: true }, t)), Un55, validators::errors::ByteError, |_| None));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    v
}
