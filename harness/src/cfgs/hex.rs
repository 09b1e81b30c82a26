// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::hex::*;

#[derive(Debug, Clone, Validator)]
#[validator(mac_address)]
pub struct Hx0(pub u64);
impl Dump for Hx0 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx0; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b':'))))]
pub struct Hx1(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx1 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx1; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b':'))))]
pub struct Hx2(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx2 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx2; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'-'))))]
pub struct Hx3(pub u64);
impl Dump for Hx3 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx3; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'-'))))]
pub struct Hx4(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx4 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx4; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'.'))))]
pub struct Hx5(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx5 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx5; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'.'))))]
pub struct Hx6(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx6 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx6; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Disallow)))]
pub struct Hx7(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx7 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx7; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b':'))))]
pub struct Hx8(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx8 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx8; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Allow(b':'))))]
pub struct Hx9(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx9 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx9; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'-'))))]
pub struct Hx10(pub u64);
impl Dump for Hx10 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx10; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Allow(b'-'))))]
pub struct Hx11(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx11 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx11; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'.'))))]
pub struct Hx12(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx12 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx12; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Allow(b'.'))))]
pub struct Hx13(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx13 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx13; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Disallow)))]
pub struct Hx14(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx14 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx14; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b':'))))]
pub struct Hx15(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx15 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx15; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b':'))))]
pub struct Hx16(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx16 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx16; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b'-'))))]
pub struct Hx17(pub u64);
impl Dump for Hx17 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx17; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'-'))))]
pub struct Hx18(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx18 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx18; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Must(b'.'))))]
pub struct Hx19(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx19 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx19; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'.'))))]
pub struct Hx20(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx20 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx20; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Disallow)))]
pub struct Hx21(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx21 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx21; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case = Upper))]
pub struct Hx22(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx22 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx22; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(separator(Disallow)))]
pub struct Hx23(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx23 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx23; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(separator(Must(b'_'))))]
pub struct Hx24(pub u64);
impl Dump for Hx24 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx24; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(separator(Must(b' '))))]
pub struct Hx25(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx25 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx25; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'/'))))]
pub struct Hx26(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx26 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx26; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'/'))))]
pub struct Hx27(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx27 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx27; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'@'))))]
pub struct Hx28(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx28 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx28; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'@'))))]
pub struct Hx29(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx29 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx29; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'G'))))]
pub struct Hx30(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx30 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx30; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'G'))))]
pub struct Hx31(pub u64);
impl Dump for Hx31 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx31; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'`'))))]
pub struct Hx32(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx32 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx32; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'`'))))]
pub struct Hx33(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx33 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx33; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'g'))))]
pub struct Hx34(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx34 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx34; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'g'))))]
pub struct Hx35(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx35 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx35; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'\''))))]
pub struct Hx36(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx36 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx36; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'\''))))]
pub struct Hx37(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx37 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx37; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'\\'))))]
pub struct Hx38(pub u64);
impl Dump for Hx38 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx38; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'\\'))))]
pub struct Hx39(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx39 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx39; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'\x00'))))]
pub struct Hx40(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx40 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx40; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'\x00'))))]
pub struct Hx41(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx41 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx41; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Allow(b'\x7f'))))]
pub struct Hx42(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx42 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx42; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Upper), separator(Must(b'\x7f'))))]
pub struct Hx43(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx43 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx43; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Any), separator(Must(b'~'))))]
pub struct Hx44(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Hx44 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx44; text);

#[derive(Debug, Clone, Validator)]
#[validator(mac_address(case(Lower), separator(Allow(b'~'))))]
pub struct Hx45(pub u64);
impl Dump for Hx45 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx45; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid)]
pub struct Hx46(pub u128);
impl Dump for Hx46 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx46; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b':'))))]
pub struct Hx47(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx47 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx47; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b':'))))]
pub struct Hx48(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx48 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx48; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'-'))))]
pub struct Hx49(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx49 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx49; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'-'))))]
pub struct Hx50(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx50 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx50; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'.'))))]
pub struct Hx51(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx51 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx51; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'.'))))]
pub struct Hx52(pub u128);
impl Dump for Hx52 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx52; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Disallow)))]
pub struct Hx53(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx53 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx53; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b':'))))]
pub struct Hx54(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx54 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx54; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b':'))))]
pub struct Hx55(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx55 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx55; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'-'))))]
pub struct Hx56(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx56 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx56; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'-'))))]
pub struct Hx57(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx57 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx57; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'.'))))]
pub struct Hx58(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx58 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx58; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Allow(b'.'))))]
pub struct Hx59(pub u128);
impl Dump for Hx59 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx59; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Disallow)))]
pub struct Hx60(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx60 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx60; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Must(b':'))))]
pub struct Hx61(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx61 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx61; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b':'))))]
pub struct Hx62(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx62 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx62; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'-'))))]
pub struct Hx63(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx63 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx63; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'-'))))]
pub struct Hx64(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx64 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx64; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Must(b'.'))))]
pub struct Hx65(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx65 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx65; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'.'))))]
pub struct Hx66(pub u128);
impl Dump for Hx66 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx66; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Disallow)))]
pub struct Hx67(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx67 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx67; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case = Upper))]
pub struct Hx68(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx68 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx68; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(separator(Disallow)))]
pub struct Hx69(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx69 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx69; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(separator(Must(b'_'))))]
pub struct Hx70(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx70 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx70; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(separator(Must(b' '))))]
pub struct Hx71(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx71 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx71; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'/'))))]
pub struct Hx72(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx72 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx72; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'/'))))]
pub struct Hx73(pub u128);
impl Dump for Hx73 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx73; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'@'))))]
pub struct Hx74(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx74 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx74; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'@'))))]
pub struct Hx75(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx75 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx75; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'G'))))]
pub struct Hx76(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx76 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx76; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'G'))))]
pub struct Hx77(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx77 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx77; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'`'))))]
pub struct Hx78(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx78 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx78; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'`'))))]
pub struct Hx79(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx79 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx79; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'g'))))]
pub struct Hx80(pub u128);
impl Dump for Hx80 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx80; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'g'))))]
pub struct Hx81(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx81 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx81; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'\''))))]
pub struct Hx82(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx82 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx82; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'\''))))]
pub struct Hx83(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx83 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx83; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'\\'))))]
pub struct Hx84(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx84 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx84; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'\\'))))]
pub struct Hx85(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx85 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx85; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'\x00'))))]
pub struct Hx86(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx86 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx86; text);

#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'\x00'))))]
pub struct Hx87(pub u128);
impl Dump for Hx87 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
subject!(Hx87; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Allow(b'\x7f'))))]
pub struct Hx88(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx88 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx88; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Upper), separator(Must(b'\x7f'))))]
pub struct Hx89(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx89 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx89; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Any), separator(Must(b'~'))))]
pub struct Hx90(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx90 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx90; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(uuid(case(Lower), separator(Allow(b'~'))))]
pub struct Hx91(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Hx91 { fn dump(&self) -> String { dump_hex(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Hx91; text);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Hx0, "mac_address", r#"mac_address"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b':' }, t)), Hx0, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx1, "mac_address", r#"mac_address(case(Any), separator(Must(b':')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b':' }, t)), Hx1, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx2, "mac_address", r#"mac_address(case(Any), separator(Allow(b':')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b':' }, t)), Hx2, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx3, "mac_address", r#"mac_address(case(Any), separator(Must(b'-')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'-' }, t)), Hx3, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx4, "mac_address", r#"mac_address(case(Any), separator(Allow(b'-')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'-' }, t)), Hx4, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx5, "mac_address", r#"mac_address(case(Any), separator(Must(b'.')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'.' }, t)), Hx5, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx6, "mac_address", r#"mac_address(case(Any), separator(Allow(b'.')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'.' }, t)), Hx6, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx7, "mac_address", r#"mac_address(case(Any), separator(Disallow))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Disallow, ch: b'x' }, t)), Hx7, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx8, "mac_address", r#"mac_address(case(Upper), separator(Must(b':')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b':' }, t)), Hx8, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx9, "mac_address", r#"mac_address(case(Upper), separator(Allow(b':')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Allow, ch: b':' }, t)), Hx9, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx10, "mac_address", r#"mac_address(case(Upper), separator(Must(b'-')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'-' }, t)), Hx10, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx11, "mac_address", r#"mac_address(case(Upper), separator(Allow(b'-')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Allow, ch: b'-' }, t)), Hx11, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx12, "mac_address", r#"mac_address(case(Upper), separator(Must(b'.')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'.' }, t)), Hx12, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx13, "mac_address", r#"mac_address(case(Upper), separator(Allow(b'.')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Allow, ch: b'.' }, t)), Hx13, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx14, "mac_address", r#"mac_address(case(Upper), separator(Disallow))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Disallow, ch: b'x' }, t)), Hx14, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx15, "mac_address", r#"mac_address(case(Lower), separator(Must(b':')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Must, ch: b':' }, t)), Hx15, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx16, "mac_address", r#"mac_address(case(Lower), separator(Allow(b':')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b':' }, t)), Hx16, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx17, "mac_address", r#"mac_address(case(Lower), separator(Must(b'-')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Must, ch: b'-' }, t)), Hx17, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx18, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'-')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'-' }, t)), Hx18, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx19, "mac_address", r#"mac_address(case(Lower), separator(Must(b'.')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Must, ch: b'.' }, t)), Hx19, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx20, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'.')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'.' }, t)), Hx20, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx21, "mac_address", r#"mac_address(case(Lower), separator(Disallow))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Disallow, ch: b'x' }, t)), Hx21, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx22, "mac_address", r#"mac_address(case = Upper)"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Allow, ch: b':' }, t)), Hx22, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx23, "mac_address", r#"mac_address(separator(Disallow))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Disallow, ch: b'x' }, t)), Hx23, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx24, "mac_address", r#"mac_address(separator(Must(b'_')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'_' }, t)), Hx24, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx25, "mac_address", r#"mac_address(separator(Must(b' ')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b' ' }, t)), Hx25, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx26, "mac_address", r#"mac_address(case(Any), separator(Allow(b'/')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'/' }, t)), Hx26, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx27, "mac_address", r#"mac_address(case(Upper), separator(Must(b'/')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'/' }, t)), Hx27, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx28, "mac_address", r#"mac_address(case(Any), separator(Must(b'@')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'@' }, t)), Hx28, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx29, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'@')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'@' }, t)), Hx29, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx30, "mac_address", r#"mac_address(case(Any), separator(Allow(b'G')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'G' }, t)), Hx30, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx31, "mac_address", r#"mac_address(case(Upper), separator(Must(b'G')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'G' }, t)), Hx31, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx32, "mac_address", r#"mac_address(case(Any), separator(Must(b'`')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'`' }, t)), Hx32, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx33, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'`')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'`' }, t)), Hx33, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx34, "mac_address", r#"mac_address(case(Any), separator(Allow(b'g')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'g' }, t)), Hx34, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx35, "mac_address", r#"mac_address(case(Upper), separator(Must(b'g')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'g' }, t)), Hx35, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx36, "mac_address", r#"mac_address(case(Any), separator(Must(b'\'')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'\'' }, t)), Hx36, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx37, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'\'')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'\'' }, t)), Hx37, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx38, "mac_address", r#"mac_address(case(Any), separator(Allow(b'\\')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'\\' }, t)), Hx38, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx39, "mac_address", r#"mac_address(case(Upper), separator(Must(b'\\')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'\\' }, t)), Hx39, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
}

fn part2(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx40, "mac_address", r#"mac_address(case(Any), separator(Must(b'\x00')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'\x00' }, t)), Hx40, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx41, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'\x00')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'\x00' }, t)), Hx41, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx42, "mac_address", r#"mac_address(case(Any), separator(Allow(b'\x7f')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Allow, ch: b'\x7f' }, t)), Hx42, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx43, "mac_address", r#"mac_address(case(Upper), separator(Must(b'\x7f')))"#, |t| judge(&Cfg { mac: true, case: Case::Upper, sep: Must, ch: b'\x7f' }, t)), Hx43, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx44, "mac_address", r#"mac_address(case(Any), separator(Must(b'~')))"#, |t| judge(&Cfg { mac: true, case: Case::Any, sep: Must, ch: b'~' }, t)), Hx44, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx45, "mac_address", r#"mac_address(case(Lower), separator(Allow(b'~')))"#, |t| judge(&Cfg { mac: true, case: Case::Lower, sep: Allow, ch: b'~' }, t)), Hx45, validators::errors::MacAddressError, |v| Some(v.to_mac_address_string())));
    v.push(ws!(target!(Hx46, "uuid", r#"uuid"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'-' }, t)), Hx46, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx47, "uuid", r#"uuid(case(Any), separator(Must(b':')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b':' }, t)), Hx47, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx48, "uuid", r#"uuid(case(Any), separator(Allow(b':')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b':' }, t)), Hx48, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx49, "uuid", r#"uuid(case(Any), separator(Must(b'-')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'-' }, t)), Hx49, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx50, "uuid", r#"uuid(case(Any), separator(Allow(b'-')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'-' }, t)), Hx50, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx51, "uuid", r#"uuid(case(Any), separator(Must(b'.')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'.' }, t)), Hx51, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    v.push(ws!(target!(Hx52, "uuid", r#"uuid(case(Any), separator(Allow(b'.')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'.' }, t)), Hx52, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx53, "uuid", r#"uuid(case(Any), separator(Disallow))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Disallow, ch: b'x' }, t)), Hx53, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx54, "uuid", r#"uuid(case(Upper), separator(Must(b':')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b':' }, t)), Hx54, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx55, "uuid", r#"uuid(case(Upper), separator(Allow(b':')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Allow, ch: b':' }, t)), Hx55, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx56, "uuid", r#"uuid(case(Upper), separator(Must(b'-')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'-' }, t)), Hx56, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx57, "uuid", r#"uuid(case(Upper), separator(Allow(b'-')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Allow, ch: b'-' }, t)), Hx57, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx58, "uuid", r#"uuid(case(Upper), separator(Must(b'.')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'.' }, t)), Hx58, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    v.push(ws!(target!(Hx59, "uuid", r#"uuid(case(Upper), separator(Allow(b'.')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Allow, ch: b'.' }, t)), Hx59, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
}

fn part3(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx60, "uuid", r#"uuid(case(Upper), separator(Disallow))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Disallow, ch: b'x' }, t)), Hx60, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx61, "uuid", r#"uuid(case(Lower), separator(Must(b':')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Must, ch: b':' }, t)), Hx61, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx62, "uuid", r#"uuid(case(Lower), separator(Allow(b':')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b':' }, t)), Hx62, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx63, "uuid", r#"uuid(case(Lower), separator(Must(b'-')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Must, ch: b'-' }, t)), Hx63, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx64, "uuid", r#"uuid(case(Lower), separator(Allow(b'-')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'-' }, t)), Hx64, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx65, "uuid", r#"uuid(case(Lower), separator(Must(b'.')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Must, ch: b'.' }, t)), Hx65, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    v.push(ws!(target!(Hx66, "uuid", r#"uuid(case(Lower), separator(Allow(b'.')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'.' }, t)), Hx66, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx67, "uuid", r#"uuid(case(Lower), separator(Disallow))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Disallow, ch: b'x' }, t)), Hx67, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx68, "uuid", r#"uuid(case = Upper)"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Allow, ch: b'-' }, t)), Hx68, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx69, "uuid", r#"uuid(separator(Disallow))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Disallow, ch: b'x' }, t)), Hx69, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx70, "uuid", r#"uuid(separator(Must(b'_')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'_' }, t)), Hx70, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx71, "uuid", r#"uuid(separator(Must(b' ')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b' ' }, t)), Hx71, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx72, "uuid", r#"uuid(case(Any), separator(Allow(b'/')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'/' }, t)), Hx72, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    v.push(ws!(target!(Hx73, "uuid", r#"uuid(case(Upper), separator(Must(b'/')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'/' }, t)), Hx73, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx74, "uuid", r#"uuid(case(Any), separator(Must(b'@')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'@' }, t)), Hx74, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx75, "uuid", r#"uuid(case(Lower), separator(Allow(b'@')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'@' }, t)), Hx75, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx76, "uuid", r#"uuid(case(Any), separator(Allow(b'G')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'G' }, t)), Hx76, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx77, "uuid", r#"uuid(case(Upper), separator(Must(b'G')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'G' }, t)), Hx77, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx78, "uuid", r#"uuid(case(Any), separator(Must(b'`')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'`' }, t)), Hx78, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx79, "uuid", r#"uuid(case(Lower), separator(Allow(b'`')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'`' }, t)), Hx79, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
}

fn part4(v: &mut Vec<Target>) {
    v.push(ws!(target!(Hx80, "uuid", r#"uuid(case(Any), separator(Allow(b'g')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'g' }, t)), Hx80, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx81, "uuid", r#"uuid(case(Upper), separator(Must(b'g')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'g' }, t)), Hx81, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx82, "uuid", r#"uuid(case(Any), separator(Must(b'\'')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'\'' }, t)), Hx82, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx83, "uuid", r#"uuid(case(Lower), separator(Allow(b'\'')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'\'' }, t)), Hx83, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx84, "uuid", r#"uuid(case(Any), separator(Allow(b'\\')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'\\' }, t)), Hx84, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx85, "uuid", r#"uuid(case(Upper), separator(Must(b'\\')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'\\' }, t)), Hx85, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx86, "uuid", r#"uuid(case(Any), separator(Must(b'\x00')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'\x00' }, t)), Hx86, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    v.push(ws!(target!(Hx87, "uuid", r#"uuid(case(Lower), separator(Allow(b'\x00')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'\x00' }, t)), Hx87, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx88, "uuid", r#"uuid(case(Any), separator(Allow(b'\x7f')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Allow, ch: b'\x7f' }, t)), Hx88, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx89, "uuid", r#"uuid(case(Upper), separator(Must(b'\x7f')))"#, |t| judge(&Cfg { mac: false, case: Case::Upper, sep: Must, ch: b'\x7f' }, t)), Hx89, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx90, "uuid", r#"uuid(case(Any), separator(Must(b'~')))"#, |t| judge(&Cfg { mac: false, case: Case::Any, sep: Must, ch: b'~' }, t)), Hx90, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hx91, "uuid", r#"uuid(case(Lower), separator(Allow(b'~')))"#, |t| judge(&Cfg { mac: false, case: Case::Lower, sep: Allow, ch: b'~' }, t)), Hx91, validators::errors::UuidError, |v| Some(v.to_uuid_string())));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    v
}
