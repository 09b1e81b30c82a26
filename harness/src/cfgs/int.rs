// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::int::*;

pub const BOUNDS_I: &[i128] = &[-170141183460469231731687303715884105728, -170141183460469231731687303715884105727, -109169663090665213492745738461027491424, -59699772911548574317351335952589566564, -9223372036854775808, -9223372036854775807, -7056208832932214867, -2147483648, -1852698862, -253616096, -32768, -32767, -22853, -128, -127, -120, -100, -88, -79, -31, -29, -16, -11, -10, -7, -3, -2, 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 14, 15, 16, 20, 23, 31, 32, 34, 35, 36, 38, 42, 43, 44, 46, 48, 52, 53, 57, 60, 62, 63, 64, 66, 71, 76, 77, 78, 79, 81, 83, 84, 85, 92, 94, 95, 99, 100, 126, 127, 128, 188, 196, 200, 202, 254, 255, 256, 1023, 1024, 2047, 2048, 8191, 8192, 16383, 16384, 31527, 32766, 32767, 47449, 65025, 65534, 65535, 131072, 2097151, 2097152, 8388608, 16777215, 67108864, 339776577, 372569693, 514609530, 536870912, 1530033346, 2147483646, 2147483647, 2147483648, 3673935633, 4294967294, 4294967295, 17179869183, 137438953471, 2199023255552, 8796093022208, 140737488355327, 446082758517385551, 2703883883229841109, 3265483882328030129, 4451570832452314832, 4611686018427387904, 5079924205024343488, 5181579491152079684, 5369622003753079162, 6018000090171030460, 6161429164487165544, 7781771086903328442, 8294763151655465846, 9223372036854775806, 9223372036854775807, 17928330477110304782, 18446744073709551614, 18446744073709551615, 9903520314283042199192993792, 1298074214633706907132624082305024, 41538374868278621028243970633760767, 4945664756613009631901082939597919787, 49283703904715756608412159456055210270, 84753533801234359665754352477460589920, 154371081616485851237958523672842021964, 160683589678842699372225092488588553499, 170141183460469231731687303715884105726, 170141183460469231731687303715884105727];
pub const BOUNDS_U: &[u128] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 14, 15, 16, 20, 23, 31, 32, 34, 35, 36, 38, 42, 43, 44, 46, 48, 52, 53, 57, 60, 62, 63, 64, 66, 71, 76, 77, 78, 79, 81, 83, 84, 85, 92, 94, 95, 99, 100, 126, 127, 128, 188, 196, 200, 202, 254, 255, 256, 1023, 1024, 2047, 2048, 8191, 8192, 16383, 16384, 31527, 32766, 32767, 47449, 65025, 65534, 65535, 131072, 2097151, 2097152, 8388608, 16777215, 67108864, 339776577, 372569693, 514609530, 536870912, 1530033346, 2147483646, 2147483647, 2147483648, 3673935633, 4294967294, 4294967295, 17179869183, 137438953471, 2199023255552, 8796093022208, 140737488355327, 446082758517385551, 2703883883229841109, 3265483882328030129, 4451570832452314832, 4611686018427387904, 5079924205024343488, 5181579491152079684, 5369622003753079162, 6018000090171030460, 6161429164487165544, 7781771086903328442, 8294763151655465846, 9223372036854775806, 9223372036854775807, 17928330477110304782, 18446744073709551614, 18446744073709551615, 9903520314283042199192993792, 1298074214633706907132624082305024, 41538374868278621028243970633760767, 4945664756613009631901082939597919787, 49283703904715756608412159456055210270, 84753533801234359665754352477460589920, 154371081616485851237958523672842021964, 160683589678842699372225092488588553499, 170141183460469231731687303715884105726, 170141183460469231731687303715884105727, 174839350336743349169539279083011106825, 189230829700244183221363748044870552610, 297403054219645275682933661731244106498, 340282366920938463463374607431768211454, 340282366920938463463374607431768211455];

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct Int0(pub i8);
impl Dump for Int0 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int0; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -3, max = 100))))]
pub struct Int1(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int1 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int1; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 126, max = 127))))]
pub struct Int2(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int2 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int2; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 5))))]
pub struct Int3(pub i8);
impl Dump for Int3 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int3; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -7))))]
pub struct Int4(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int4 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int4; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct Int5(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int5 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int5; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2, max = 9, inclusive = false))))]
pub struct Int6(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int6 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int6; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int7(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int7 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int7; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -3, max = 100))))]
pub struct Int8(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int8 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int8; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct Int9(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int9 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int9; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5))))]
pub struct Int10(pub i8);
impl Dump for Int10 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int10; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct Int11(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int11 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int11; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct Int12(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int12 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int12; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2, max = 9, inclusive = false))))]
pub struct Int13(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int13 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int13; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 126, max = 127))))]
pub struct Int14(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int14 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int14; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=9))))]
pub struct Int15(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int15 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int15; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..9))))]
pub struct Int16(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int16 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int16; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct Int17(pub i8);
impl Dump for Int17 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int17; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -128, max = -128))))]
pub struct Int18(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int18 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int18; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 127, max = 127))))]
pub struct Int19(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int19 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int19; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -127, max = 127))))]
pub struct Int20(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int20 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int20; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 127))))]
pub struct Int21(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int21 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int21; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 127))))]
pub struct Int22(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int22 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int22; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 127, inclusive = false))))]
pub struct Int23(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int23 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int23; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 60, max = 62, inclusive = false))))]
pub struct Int24(pub i8);
impl Dump for Int24 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int24; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 60, inclusive = false))))]
pub struct Int25(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int25 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int25; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -11, max = 1, inclusive = false))))]
pub struct Int26(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int26 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int26; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 4, max = 64, inclusive = false))))]
pub struct Int27(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int27 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int27; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 3, max = 32))))]
pub struct Int28(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int28 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int28; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -128, max = 126))))]
pub struct Int29(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int29 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int29; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -127, max = 127))))]
pub struct Int30(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int30 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int30; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 127))))]
pub struct Int31(pub i8);
impl Dump for Int31 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int31; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -128))))]
pub struct Int32(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int32 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int32; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 127))))]
pub struct Int33(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int33 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int33; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 127, inclusive = false))))]
pub struct Int34(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int34 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int34; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 60, inclusive = false))))]
pub struct Int35(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int35 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int35; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -29, max = 4, inclusive = false))))]
pub struct Int36(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int36 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int36; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -120, max = 85))))]
pub struct Int37(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int37 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int37; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -16, max = 94, inclusive = false))))]
pub struct Int38(pub i8);
impl Dump for Int38 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int38; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct Int39(pub i16);
impl Dump for Int39 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int39; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -3, max = 100))))]
pub struct Int40(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int40 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int40; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32766, max = 32767))))]
pub struct Int41(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int41 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int41; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 5))))]
pub struct Int42(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int42 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int42; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -7))))]
pub struct Int43(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int43 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int43; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct Int44(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int44 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int44; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2, max = 9, inclusive = false))))]
pub struct Int45(pub i16);
impl Dump for Int45 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int45; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int46(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int46 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int46; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -3, max = 100))))]
pub struct Int47(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int47 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int47; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct Int48(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int48 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int48; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5))))]
pub struct Int49(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int49 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int49; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct Int50(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int50 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int50; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct Int51(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int51 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int51; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2, max = 9, inclusive = false))))]
pub struct Int52(pub i16);
impl Dump for Int52 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int52; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 32766, max = 32767))))]
pub struct Int53(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int53 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int53; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=9))))]
pub struct Int54(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int54 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int54; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..9))))]
pub struct Int55(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int55 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int55; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct Int56(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int56 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int56; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32767, max = 32767))))]
pub struct Int57(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int57 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int57; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -32768, max = 32766))))]
pub struct Int58(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int58 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int58; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -32768, max = 32767, inclusive = false))))]
pub struct Int59(pub i16);
impl Dump for Int59 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int59; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 32766, max = 32767, inclusive = false))))]
pub struct Int60(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int60 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int60; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -32768, max = -32767, inclusive = false))))]
pub struct Int61(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int61 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int61; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -32768))))]
pub struct Int62(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int62 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int62; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -32768))))]
pub struct Int63(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int63 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int63; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 4, max = 77, inclusive = false))))]
pub struct Int64(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int64 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int64; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -22853, max = 81, inclusive = false))))]
pub struct Int65(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int65 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int65; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 46, max = 2047, inclusive = true))))]
pub struct Int66(pub i16);
impl Dump for Int66 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int66; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -32768, max = 32767, inclusive = false))))]
pub struct Int67(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int67 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int67; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 32766, max = 32767, inclusive = false))))]
pub struct Int68(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int68 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int68; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -32768, max = 60))))]
pub struct Int69(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int69 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int69; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -32768))))]
pub struct Int70(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int70 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int70; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -32768))))]
pub struct Int71(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int71 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int71; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 32767, inclusive = false))))]
pub struct Int72(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int72 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int72; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 60, max = 62, inclusive = false))))]
pub struct Int73(pub i16);
impl Dump for Int73 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int73; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2, max = 4, inclusive = false))))]
pub struct Int74(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int74 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int74; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 3, max = 99, inclusive = true))))]
pub struct Int75(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int75 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int75; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -10, max = 255))))]
pub struct Int76(pub i16);
#[cfg(not(feature = "lite"))]
impl Dump for Int76 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int76; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct Int77(pub i32);
impl Dump for Int77 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int77; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -3, max = 100))))]
pub struct Int78(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int78 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int78; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2147483646, max = 2147483647))))]
pub struct Int79(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int79 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int79; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 5))))]
pub struct Int80(pub i32);
impl Dump for Int80 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int80; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -7))))]
pub struct Int81(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int81 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int81; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct Int82(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int82 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int82; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2, max = 9, inclusive = false))))]
pub struct Int83(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int83 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int83; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int84(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int84 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int84; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -3, max = 100))))]
pub struct Int85(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int85 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int85; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct Int86(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int86 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int86; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5))))]
pub struct Int87(pub i32);
impl Dump for Int87 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int87; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct Int88(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int88 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int88; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct Int89(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int89 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int89; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2, max = 9, inclusive = false))))]
pub struct Int90(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int90 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int90; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2147483646, max = 2147483647))))]
pub struct Int91(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int91 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int91; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=9))))]
pub struct Int92(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int92 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int92; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..9))))]
pub struct Int93(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int93 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int93; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct Int94(pub i32);
impl Dump for Int94 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int94; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2147483646, max = 2147483647, inclusive = false))))]
pub struct Int95(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int95 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int95; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2147483648, max = 60))))]
pub struct Int96(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int96 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int96; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -2147483648))))]
pub struct Int97(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int97 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int97; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2147483648))))]
pub struct Int98(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int98 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int98; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 1, max = 2048, inclusive = true))))]
pub struct Int99(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int99 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int99; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 339776577, max = 536870912, inclusive = true))))]
pub struct Int100(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int100 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int100; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -253616096, max = 63))))]
pub struct Int101(pub i32);
impl Dump for Int101 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int101; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2147483648, max = 60))))]
pub struct Int102(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int102 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int102; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2147483647))))]
pub struct Int103(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int103 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int103; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 2147483647))))]
pub struct Int104(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int104 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int104; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 2147483647, inclusive = false))))]
pub struct Int105(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int105 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int105; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 1, max = 16384, inclusive = true))))]
pub struct Int106(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int106 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int106; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 256, max = 8192, inclusive = false))))]
pub struct Int107(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int107 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int107; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -1852698862, max = 372569693, inclusive = true))))]
pub struct Int108(pub i32);
impl Dump for Int108 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int108; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct Int109(pub i64);
impl Dump for Int109 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int109; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -3, max = 100))))]
pub struct Int110(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int110 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int110; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807))))]
pub struct Int111(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int111 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int111; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 5))))]
pub struct Int112(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int112 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int112; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -7))))]
pub struct Int113(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int113 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int113; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct Int114(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int114 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int114; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2, max = 9, inclusive = false))))]
pub struct Int115(pub i64);
impl Dump for Int115 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int115; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int116(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int116 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int116; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -3, max = 100))))]
pub struct Int117(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int117 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int117; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct Int118(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int118 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int118; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5))))]
pub struct Int119(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int119 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int119; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct Int120(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int120 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int120; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct Int121(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int121 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int121; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2, max = 9, inclusive = false))))]
pub struct Int122(pub i64);
impl Dump for Int122 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int122; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775806, max = 9223372036854775807))))]
pub struct Int123(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int123 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int123; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=9))))]
pub struct Int124(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int124 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int124; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..9))))]
pub struct Int125(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int125 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int125; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct Int126(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int126 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int126; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775808))))]
pub struct Int127(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int127 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int127; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = 9223372036854775807, inclusive = false))))]
pub struct Int128(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int128 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int128; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807, inclusive = false))))]
pub struct Int129(pub i64);
impl Dump for Int129 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int129; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 9223372036854775807))))]
pub struct Int130(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int130 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int130; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 60, max = 62, inclusive = false))))]
pub struct Int131(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int131 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int131; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 2097151, max = 7781771086903328442, inclusive = false))))]
pub struct Int132(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int132 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int132; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 1023, max = 2199023255552, inclusive = false))))]
pub struct Int133(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int133 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int133; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 23, max = 8294763151655465846, inclusive = true))))]
pub struct Int134(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int134 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int134; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct Int135(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int135 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int135; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775806))))]
pub struct Int136(pub i64);
impl Dump for Int136 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int136; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775807, max = 9223372036854775807))))]
pub struct Int137(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int137 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int137; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807, inclusive = false))))]
pub struct Int138(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int138 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int138; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775807, inclusive = false))))]
pub struct Int139(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int139 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int139; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 60, max = 9223372036854775807))))]
pub struct Int140(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int140 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int140; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -9223372036854775808))))]
pub struct Int141(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int141 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int141; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 9223372036854775807, inclusive = false))))]
pub struct Int142(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int142 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int142; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 83, max = 4451570832452314832, inclusive = true))))]
pub struct Int143(pub i64);
impl Dump for Int143 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int143; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 67108864, max = 140737488355327))))]
pub struct Int144(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int144 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int144; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 2703883883229841109, max = 5181579491152079684))))]
pub struct Int145(pub i64);
#[cfg(not(feature = "lite"))]
impl Dump for Int145 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int145; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct Int146(pub i128);
impl Dump for Int146 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int146; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -3, max = 100))))]
pub struct Int147(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int147 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int147; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 170141183460469231731687303715884105726, max = 170141183460469231731687303715884105727))))]
pub struct Int148(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int148 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int148; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 5))))]
pub struct Int149(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int149 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int149; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -7))))]
pub struct Int150(pub i128);
impl Dump for Int150 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int150; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct Int151(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int151 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int151; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2, max = 9, inclusive = false))))]
pub struct Int152(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int152 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int152; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int153(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int153 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int153; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -3, max = 100))))]
pub struct Int154(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int154 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int154; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct Int155(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int155 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int155; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5))))]
pub struct Int156(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int156 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int156; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct Int157(pub i128);
impl Dump for Int157 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int157; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct Int158(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int158 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int158; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2, max = 9, inclusive = false))))]
pub struct Int159(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int159 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int159; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 170141183460469231731687303715884105726, max = 170141183460469231731687303715884105727))))]
pub struct Int160(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int160 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int160; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=9))))]
pub struct Int161(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int161 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int161; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..9))))]
pub struct Int162(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int162 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int162; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct Int163(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int163 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int163; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105728))))]
pub struct Int164(pub i128);
impl Dump for Int164 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int164; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105726))))]
pub struct Int165(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int165 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int165; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))))]
pub struct Int166(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int166 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int166; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727, inclusive = false))))]
pub struct Int167(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int167 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int167; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105727, inclusive = false))))]
pub struct Int168(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int168 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int168; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 60, max = 170141183460469231731687303715884105727))))]
pub struct Int169(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int169 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int169; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -170141183460469231731687303715884105728))))]
pub struct Int170(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int170 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int170; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -170141183460469231731687303715884105728))))]
pub struct Int171(pub i128);
impl Dump for Int171 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int171; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -79, max = 1298074214633706907132624082305024, inclusive = false))))]
pub struct Int172(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int172 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int172; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -88, max = 160683589678842699372225092488588553499, inclusive = false))))]
pub struct Int173(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int173 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int173; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 35, max = 1298074214633706907132624082305024, inclusive = true))))]
pub struct Int174(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int174 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int174; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105728))))]
pub struct Int175(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int175 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int175; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105726))))]
pub struct Int176(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int176 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int176; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))))]
pub struct Int177(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int177 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int177; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727, inclusive = false))))]
pub struct Int178(pub i128);
impl Dump for Int178 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int178; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 60))))]
pub struct Int179(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int179 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int179; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 170141183460469231731687303715884105727))))]
pub struct Int180(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int180 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int180; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -170141183460469231731687303715884105728))))]
pub struct Int181(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int181 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int181; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -170141183460469231731687303715884105728))))]
pub struct Int182(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int182 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int182; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 170141183460469231731687303715884105727))))]
pub struct Int183(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int183 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int183; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 170141183460469231731687303715884105727, inclusive = false))))]
pub struct Int184(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int184 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int184; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 60, inclusive = false))))]
pub struct Int185(pub i128);
impl Dump for Int185 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int185; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -109169663090665213492745738461027491424, max = 16383, inclusive = false))))]
pub struct Int186(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int186 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int186; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -79, max = 8388608))))]
pub struct Int187(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int187 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int187; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -59699772911548574317351335952589566564, max = 14, inclusive = true))))]
pub struct Int188(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int188 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int188; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer)]
pub struct Int189(pub isize);
impl Dump for Int189 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int189; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -3, max = 100))))]
pub struct Int190(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int190 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int190; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807))))]
pub struct Int191(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int191 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int191; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 5))))]
pub struct Int192(pub isize);
impl Dump for Int192 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int192; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -7))))]
pub struct Int193(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int193 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int193; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 42, max = 42))))]
pub struct Int194(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int194 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int194; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -2, max = 9, inclusive = false))))]
pub struct Int195(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int195 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int195; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int196(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int196 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int196; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -3, max = 100))))]
pub struct Int197(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int197 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int197; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 0, max = 0))))]
pub struct Int198(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int198 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int198; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5))))]
pub struct Int199(pub isize);
impl Dump for Int199 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int199; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7))))]
pub struct Int200(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int200 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int200; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -7, inclusive = false))))]
pub struct Int201(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int201 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int201; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -2, max = 9, inclusive = false))))]
pub struct Int202(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int202 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int202; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775806, max = 9223372036854775807))))]
pub struct Int203(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int203 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int203; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..=9))))]
pub struct Int204(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int204 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int204; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(3..9))))]
pub struct Int205(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int205 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int205; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(3..))))]
pub struct Int206(pub isize);
impl Dump for Int206 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int206; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775808))))]
pub struct Int207(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int207 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int207; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct Int208(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int208 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int208; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807, inclusive = false))))]
pub struct Int209(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int209 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int209; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = -9223372036854775808))))]
pub struct Int210(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int210 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int210; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -9223372036854775808))))]
pub struct Int211(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int211 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int211; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(max = 9223372036854775807))))]
pub struct Int212(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int212 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int212; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 60, max = 62, inclusive = false))))]
pub struct Int213(pub isize);
impl Dump for Int213 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int213; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = 44, max = 2147483648))))]
pub struct Int214(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int214 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int214; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -7056208832932214867, max = 71, inclusive = true))))]
pub struct Int215(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int215 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int215; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -31, max = 536870912, inclusive = true))))]
pub struct Int216(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int216 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int216; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775808))))]
pub struct Int217(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int217 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int217; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807))))]
pub struct Int218(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int218 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int218; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775806))))]
pub struct Int219(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int219 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int219; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807, inclusive = false))))]
pub struct Int220(pub isize);
impl Dump for Int220 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int220; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 9223372036854775807))))]
pub struct Int221(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int221 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int221; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = -9223372036854775808))))]
pub struct Int222(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int222 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int222; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max = 9223372036854775807))))]
pub struct Int223(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int223 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int223; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 60, max = 62, inclusive = false))))]
pub struct Int224(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int224 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int224; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 60, inclusive = false))))]
pub struct Int225(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int225 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int225; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 8388608, max = 3265483882328030129, inclusive = true))))]
pub struct Int226(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int226 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int226; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = -7, max = 1024))))]
pub struct Int227(pub isize);
impl Dump for Int227 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int227; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(min = 5, max = 6161429164487165544, inclusive = true))))]
pub struct Int228(pub isize);
#[cfg(not(feature = "lite"))]
impl Dump for Int228 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int228; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct Int229(pub u8);
impl Dump for Int229 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int229; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct Int230(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int230 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int230; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 254, max = 255))))]
pub struct Int231(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int231 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int231; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 5))))]
pub struct Int232(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int232 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int232; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 7))))]
pub struct Int233(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int233 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int233; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct Int234(pub u8);
impl Dump for Int234 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int234; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))))]
pub struct Int235(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int235 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int235; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int236(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int236 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int236; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct Int237(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int237 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int237; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int238(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int238 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int238; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 5))))]
pub struct Int239(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int239 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int239; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7))))]
pub struct Int240(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int240 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int240; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7, inclusive = false))))]
pub struct Int241(pub u8);
impl Dump for Int241 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int241; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))))]
pub struct Int242(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int242 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int242; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 254, max = 255))))]
pub struct Int243(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int243 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int243; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=9))))]
pub struct Int244(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int244 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int244; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..9))))]
pub struct Int245(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int245 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int245; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=9))))]
pub struct Int246(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int246 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int246; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 0))))]
pub struct Int247(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int247 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int247; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 255, max = 255))))]
pub struct Int248(pub u8);
impl Dump for Int248 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int248; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 255))))]
pub struct Int249(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int249 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int249; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 255, inclusive = false))))]
pub struct Int250(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int250 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int250; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 254, max = 255, inclusive = false))))]
pub struct Int251(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int251 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int251; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Int252(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int252 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int252; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 0))))]
pub struct Int253(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int253 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int253; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 255))))]
pub struct Int254(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int254 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int254; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))))]
pub struct Int255(pub u8);
impl Dump for Int255 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int255; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 57, max = 127))))]
pub struct Int256(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int256 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int256; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 15, max = 188, inclusive = false))))]
pub struct Int257(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int257 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int257; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 36, max = 196))))]
pub struct Int258(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int258 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int258; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 254))))]
pub struct Int259(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int259 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int259; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 255, inclusive = false))))]
pub struct Int260(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int260 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int260; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Int261(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int261 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int261; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 255))))]
pub struct Int262(pub u8);
impl Dump for Int262 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int262; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 255))))]
pub struct Int263(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int263 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int263; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, inclusive = false))))]
pub struct Int264(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int264 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int264; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 31, inclusive = true))))]
pub struct Int265(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int265 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int265; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 38))))]
pub struct Int266(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int266 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int266; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 43))))]
pub struct Int267(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int267 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int267; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct Int268(pub u16);
impl Dump for Int268 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int268; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct Int269(pub u16);
impl Dump for Int269 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int269; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 65534, max = 65535))))]
pub struct Int270(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int270 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int270; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 5))))]
pub struct Int271(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int271 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int271; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 7))))]
pub struct Int272(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int272 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int272; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct Int273(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int273 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int273; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))))]
pub struct Int274(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int274 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int274; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int275(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int275 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int275; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct Int276(pub u16);
impl Dump for Int276 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int276; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int277(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int277 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int277; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 5))))]
pub struct Int278(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int278 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int278; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7))))]
pub struct Int279(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int279 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int279; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7, inclusive = false))))]
pub struct Int280(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int280 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int280; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))))]
pub struct Int281(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int281 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int281; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 65534, max = 65535))))]
pub struct Int282(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int282 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int282; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=9))))]
pub struct Int283(pub u16);
impl Dump for Int283 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int283; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..9))))]
pub struct Int284(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int284 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int284; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=9))))]
pub struct Int285(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int285 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int285; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 65535, max = 65535))))]
pub struct Int286(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int286 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int286; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 65534))))]
pub struct Int287(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int287 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int287; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 65535, inclusive = false))))]
pub struct Int288(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int288 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int288; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Int289(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int289 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int289; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 200))))]
pub struct Int290(pub u16);
impl Dump for Int290 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int290; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 65535))))]
pub struct Int291(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int291 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int291; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0))))]
pub struct Int292(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int292 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int292; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 65535))))]
pub struct Int293(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int293 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int293; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, inclusive = false))))]
pub struct Int294(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int294 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int294; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 20, max = 65025, inclusive = false))))]
pub struct Int295(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int295 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int295; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 71, max = 85))))]
pub struct Int296(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int296 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int296; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 128, max = 8191))))]
pub struct Int297(pub u16);
impl Dump for Int297 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int297; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 65534))))]
pub struct Int298(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int298 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int298; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 65535))))]
pub struct Int299(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int299 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int299; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 65534, max = 65535, inclusive = false))))]
pub struct Int300(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int300 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int300; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Int301(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int301 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int301; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 65535))))]
pub struct Int302(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int302 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int302; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 65535))))]
pub struct Int303(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int303 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int303; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, inclusive = false))))]
pub struct Int304(pub u16);
impl Dump for Int304 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int304; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 31527, inclusive = true))))]
pub struct Int305(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int305 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int305; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 64, max = 47449))))]
pub struct Int306(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int306 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int306; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 38, inclusive = true))))]
pub struct Int307(pub u16);
#[cfg(not(feature = "lite"))]
impl Dump for Int307 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int307; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct Int308(pub u32);
impl Dump for Int308 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int308; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct Int309(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int309 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int309; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 4294967294, max = 4294967295))))]
pub struct Int310(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int310 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int310; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 5))))]
pub struct Int311(pub u32);
impl Dump for Int311 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int311; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 7))))]
pub struct Int312(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int312 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int312; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct Int313(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int313 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int313; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))))]
pub struct Int314(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int314 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int314; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int315(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int315 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int315; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct Int316(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int316 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int316; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int317(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int317 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int317; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 5))))]
pub struct Int318(pub u32);
impl Dump for Int318 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int318; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7))))]
pub struct Int319(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int319 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int319; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7, inclusive = false))))]
pub struct Int320(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int320 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int320; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))))]
pub struct Int321(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int321 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int321; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 4294967294, max = 4294967295))))]
pub struct Int322(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int322 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int322; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=9))))]
pub struct Int323(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int323 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int323; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..9))))]
pub struct Int324(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int324 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int324; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=9))))]
pub struct Int325(pub u32);
impl Dump for Int325 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int325; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 0))))]
pub struct Int326(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int326 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int326; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Int327(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int327 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int327; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 200))))]
pub struct Int328(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int328 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int328; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 4294967295))))]
pub struct Int329(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int329 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int329; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 4294967295))))]
pub struct Int330(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int330 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int330; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0))))]
pub struct Int331(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int331 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int331; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))))]
pub struct Int332(pub u32);
impl Dump for Int332 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int332; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 31, max = 52, inclusive = true))))]
pub struct Int333(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int333 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int333; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 48, max = 78, inclusive = false))))]
pub struct Int334(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int334 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int334; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2097152, max = 1530033346, inclusive = false))))]
pub struct Int335(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int335 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int335; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int336(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int336 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int336; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 4294967294))))]
pub struct Int337(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int337 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int337; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 4294967295, inclusive = false))))]
pub struct Int338(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int338 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int338; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Int339(pub u32);
impl Dump for Int339 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int339; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 200))))]
pub struct Int340(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int340 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int340; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 4294967295))))]
pub struct Int341(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int341 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int341; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 4294967295))))]
pub struct Int342(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int342 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int342; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct Int343(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int343 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int343; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 4294967295))))]
pub struct Int344(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int344 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int344; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))))]
pub struct Int345(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int345 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int345; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 514609530, max = 3673935633, inclusive = false))))]
pub struct Int346(pub u32);
impl Dump for Int346 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int346; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 8, max = 16777215, inclusive = true))))]
pub struct Int347(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int347 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int347; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 66, max = 84))))]
pub struct Int348(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int348 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int348; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct Int349(pub u64);
impl Dump for Int349 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int349; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct Int350(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int350 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int350; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551614, max = 18446744073709551615))))]
pub struct Int351(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int351 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int351; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 5))))]
pub struct Int352(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int352 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int352; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 7))))]
pub struct Int353(pub u64);
impl Dump for Int353 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int353; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct Int354(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int354 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int354; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))))]
pub struct Int355(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int355 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int355; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int356(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int356 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int356; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct Int357(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int357 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int357; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int358(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int358 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int358; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 5))))]
pub struct Int359(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int359 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int359; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7))))]
pub struct Int360(pub u64);
impl Dump for Int360 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int360; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7, inclusive = false))))]
pub struct Int361(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int361 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int361; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))))]
pub struct Int362(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int362 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int362; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551614, max = 18446744073709551615))))]
pub struct Int363(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int363 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int363; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=9))))]
pub struct Int364(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int364 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int364; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..9))))]
pub struct Int365(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int365 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int365; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=9))))]
pub struct Int366(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int366 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int366; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct Int367(pub u64);
impl Dump for Int367 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int367; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 18446744073709551615))))]
pub struct Int368(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int368 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int368; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615, inclusive = false))))]
pub struct Int369(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int369 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int369; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551614, max = 18446744073709551615, inclusive = false))))]
pub struct Int370(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int370 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int370; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Int371(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int371 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int371; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 200))))]
pub struct Int372(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int372 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int372; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615))))]
pub struct Int373(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int373 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int373; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0))))]
pub struct Int374(pub u64);
impl Dump for Int374 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int374; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 18446744073709551615, inclusive = false))))]
pub struct Int375(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int375 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int375; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 43, max = 17928330477110304782, inclusive = false))))]
pub struct Int376(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int376 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int376; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 8796093022208))))]
pub struct Int377(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int377 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int377; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551614, max = 18446744073709551615, inclusive = false))))]
pub struct Int378(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int378 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int378; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Int379(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int379 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int379; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 18446744073709551615))))]
pub struct Int380(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int380 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int380; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct Int381(pub u64);
impl Dump for Int381 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int381; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))))]
pub struct Int382(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int382 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int382; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 34, max = 17179869183, inclusive = false))))]
pub struct Int383(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int383 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int383; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 92, inclusive = false))))]
pub struct Int384(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int384 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int384; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 446082758517385551, max = 4611686018427387904, inclusive = false))))]
pub struct Int385(pub u64);
#[cfg(not(feature = "lite"))]
impl Dump for Int385 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int385; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct Int386(pub u128);
impl Dump for Int386 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int386; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct Int387(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int387 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int387; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211454, max = 340282366920938463463374607431768211455))))]
pub struct Int388(pub u128);
impl Dump for Int388 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int388; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 5))))]
pub struct Int389(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int389 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int389; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 7))))]
pub struct Int390(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int390 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int390; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct Int391(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int391 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int391; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))))]
pub struct Int392(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int392 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int392; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int393(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int393 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int393; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct Int394(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int394 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int394; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int395(pub u128);
impl Dump for Int395 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int395; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 5))))]
pub struct Int396(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int396 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int396; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7))))]
pub struct Int397(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int397 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int397; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7, inclusive = false))))]
pub struct Int398(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int398 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int398; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))))]
pub struct Int399(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int399 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int399; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211454, max = 340282366920938463463374607431768211455))))]
pub struct Int400(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int400 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int400; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=9))))]
pub struct Int401(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int401 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int401; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..9))))]
pub struct Int402(pub u128);
impl Dump for Int402 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int402; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=9))))]
pub struct Int403(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int403 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int403; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 0))))]
pub struct Int404(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int404 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int404; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))))]
pub struct Int405(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int405 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int405; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 340282366920938463463374607431768211455, inclusive = false))))]
pub struct Int406(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int406 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int406; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 340282366920938463463374607431768211455))))]
pub struct Int407(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int407 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int407; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455))))]
pub struct Int408(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int408 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int408; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 340282366920938463463374607431768211455))))]
pub struct Int409(pub u128);
impl Dump for Int409 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int409; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))))]
pub struct Int410(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int410 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int410; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, inclusive = false))))]
pub struct Int411(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int411 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int411; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 78, max = 137438953471, inclusive = false))))]
pub struct Int412(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int412 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int412; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 41538374868278621028243970633760767, max = 174839350336743349169539279083011106825, inclusive = true))))]
pub struct Int413(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int413 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int413; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 49283703904715756608412159456055210270, max = 297403054219645275682933661731244106498, inclusive = false))))]
pub struct Int414(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int414 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int414; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int415(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int415 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int415; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))))]
pub struct Int416(pub u128);
impl Dump for Int416 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int416; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 340282366920938463463374607431768211454, max = 340282366920938463463374607431768211455, inclusive = false))))]
pub struct Int417(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int417 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int417; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 200))))]
pub struct Int418(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int418 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int418; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 340282366920938463463374607431768211455))))]
pub struct Int419(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int419 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int419; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))))]
pub struct Int420(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int420 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int420; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 154371081616485851237958523672842021964, max = 189230829700244183221363748044870552610, inclusive = false))))]
pub struct Int421(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int421 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int421; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 53, max = 4945664756613009631901082939597919787, inclusive = true))))]
pub struct Int422(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int422 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int422; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 9903520314283042199192993792, max = 84753533801234359665754352477460589920, inclusive = false))))]
pub struct Int423(pub u128);
impl Dump for Int423 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int423; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer)]
pub struct Int424(pub usize);
impl Dump for Int424 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int424; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 3, max = 100))))]
pub struct Int425(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int425 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int425; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551614, max = 18446744073709551615))))]
pub struct Int426(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int426 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int426; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 5))))]
pub struct Int427(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int427 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int427; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 7))))]
pub struct Int428(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int428 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int428; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 42, max = 42))))]
pub struct Int429(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int429 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int429; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))))]
pub struct Int430(pub usize);
impl Dump for Int430 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int430; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))))]
pub struct Int431(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int431 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int431; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 3, max = 100))))]
pub struct Int432(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int432 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int432; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int433(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int433 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int433; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 5))))]
pub struct Int434(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int434 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int434; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7))))]
pub struct Int435(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int435 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int435; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 7, inclusive = false))))]
pub struct Int436(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int436 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int436; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))))]
pub struct Int437(pub usize);
impl Dump for Int437 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int437; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551614, max = 18446744073709551615))))]
pub struct Int438(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int438 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int438; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(3..=9))))]
pub struct Int439(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int439 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int439; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(3..9))))]
pub struct Int440(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int440 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int440; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(..=9))))]
pub struct Int441(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int441 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int441; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct Int442(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int442 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int442; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551614))))]
pub struct Int443(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int443 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int443; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 1, max = 18446744073709551615))))]
pub struct Int444(pub usize);
impl Dump for Int444 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int444; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 18446744073709551615, inclusive = false))))]
pub struct Int445(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int445 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int445; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Int446(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int446 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int446; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 200))))]
pub struct Int447(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int447 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int447; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 18446744073709551615))))]
pub struct Int448(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int448 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int448; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(max = 18446744073709551615))))]
pub struct Int449(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int449 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int449; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))))]
pub struct Int450(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int450 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int450; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 200, inclusive = false))))]
pub struct Int451(pub usize);
impl Dump for Int451 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int451; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0, max = 131072))))]
pub struct Int452(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int452 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int452; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 95, max = 5369622003753079162, inclusive = true))))]
pub struct Int453(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int453 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int453; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 76, max = 5079924205024343488, inclusive = false))))]
pub struct Int454(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int454 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int454; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 0))))]
pub struct Int455(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int455 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int455; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 18446744073709551615, max = 18446744073709551615))))]
pub struct Int456(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int456 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int456; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 18446744073709551614))))]
pub struct Int457(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int457 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int457; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 1, max = 18446744073709551615))))]
pub struct Int458(pub usize);
impl Dump for Int458 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int458; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 18446744073709551615, inclusive = false))))]
pub struct Int459(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int459 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int459; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Int460(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int460 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int460; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max = 0))))]
pub struct Int461(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int461 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int461; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0))))]
pub struct Int462(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int462 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int462; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))))]
pub struct Int463(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int463 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int463; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 79, inclusive = true))))]
pub struct Int464(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int464 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int464; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 536870912, inclusive = true))))]
pub struct Int465(pub usize);
impl Dump for Int465 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int465; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(min = 0, max = 6018000090171030460))))]
pub struct Int466(pub usize);
#[cfg(not(feature = "lite"))]
impl Dump for Int466 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int466; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -0x10, max = 0b1111))))]
pub struct Int467(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int467 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int467; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max(0o100), min(-1_0_0)))))]
pub struct Int468(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int468 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int468; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(inclusive(false), min = -7i8, max = 1_00i8))))]
pub struct Int469(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int469 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int469; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(0x0..=0x64))))]
pub struct Int470(pub i8);
#[cfg(not(feature = "lite"))]
impl Dump for Int470 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int470; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -0x10, max = 0b1111))))]
pub struct Int471(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int471 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int471; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max(0o100), min(-1_0_0)))))]
pub struct Int472(pub i32);
impl Dump for Int472 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
subject!(Int472; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(inclusive(false), min = -7i32, max = 1_00i32))))]
pub struct Int473(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int473 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int473; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(0x0..=0x64))))]
pub struct Int474(pub i32);
#[cfg(not(feature = "lite"))]
impl Dump for Int474 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int474; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(min = -0x10, max = 0b1111))))]
pub struct Int475(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int475 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int475; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Outside(max(0o100), min(-1_0_0)))))]
pub struct Int476(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int476 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int476; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(inclusive(false), min = -7i128, max = 1_00i128))))]
pub struct Int477(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int477 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int477; text, sint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(signed_integer(range(Inside(0x0..=0x64))))]
pub struct Int478(pub i128);
#[cfg(not(feature = "lite"))]
impl Dump for Int478 { fn dump(&self) -> String { dump_i(self.0 as i128) } }
#[cfg(not(feature = "lite"))]
subject!(Int478; text, sint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0x10, max = 0xff))))]
pub struct Int479(pub u8);
impl Dump for Int479 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int479; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max(0o100), min(0b1010)))))]
pub struct Int480(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int480 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int480; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(inclusive = false, min = 7u8, max = 1_00u8))))]
pub struct Int481(pub u8);
#[cfg(not(feature = "lite"))]
impl Dump for Int481 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int481; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0x10, max = 0xff))))]
pub struct Int482(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int482 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int482; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max(0o100), min(0b1010)))))]
pub struct Int483(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int483 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int483; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(inclusive = false, min = 7u32, max = 1_00u32))))]
pub struct Int484(pub u32);
#[cfg(not(feature = "lite"))]
impl Dump for Int484 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int484; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(min = 0x10, max = 0xff))))]
pub struct Int485(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int485 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int485; text, uint);

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Outside(max(0o100), min(0b1010)))))]
pub struct Int486(pub u128);
impl Dump for Int486 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
subject!(Int486; text, uint);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(unsigned_integer(range(Inside(inclusive = false, min = 7u128, max = 1_00u128))))]
pub struct Int487(pub u128);
#[cfg(not(feature = "lite"))]
impl Dump for Int487 { fn dump(&self) -> String { dump_u(self.0 as u128) } }
#[cfg(not(feature = "lite"))]
subject!(Int487; text, uint);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Int0, "signed_integer", r#"signed_integer i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int0, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int1, "signed_integer", r#"signed_integer(range(Inside(min = -3, max = 100))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int1, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int2, "signed_integer", r#"signed_integer(range(Inside(min = 126, max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(126), max: Some(127), inclusive: true }, t)), Int2, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int3, "signed_integer", r#"signed_integer(range(Inside(min = 5))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int3, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int4, "signed_integer", r#"signed_integer(range(Inside(max = -7))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: None, max: Some(-7), inclusive: true }, t)), Int4, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int5, "signed_integer", r#"signed_integer(range(Inside(min = 42, max = 42))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int5, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int6, "signed_integer", r#"signed_integer(range(Inside(min = -2, max = 9, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int6, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int7, "signed_integer", r#"signed_integer(range(Inside(min = 10, max = 11, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int7, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int8, "signed_integer", r#"signed_integer(range(Outside(min = -3, max = 100))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int8, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int9, "signed_integer", r#"signed_integer(range(Outside(min = 0, max = 0))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int9, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int10, "signed_integer", r#"signed_integer(range(Outside(min = 5))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int10, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int11, "signed_integer", r#"signed_integer(range(Outside(max = -7))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: None, max: Some(-7), inclusive: true }, t)), Int11, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int12, "signed_integer", r#"signed_integer(range(Outside(max = -7, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: None, max: Some(-7), inclusive: false }, t)), Int12, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int13, "signed_integer", r#"signed_integer(range(Outside(min = -2, max = 9, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int13, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int14, "signed_integer", r#"signed_integer(range(Outside(min = 126, max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(126), max: Some(127), inclusive: true }, t)), Int14, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int15, "signed_integer", r#"signed_integer(range(Inside(3..=9))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int15, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int16, "signed_integer", r#"signed_integer(range(Outside(3..9))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int16, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int17, "signed_integer", r#"signed_integer(range(Inside(3..))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(3), max: None, inclusive: true }, t)), Int17, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int18, "signed_integer", r#"signed_integer(range(Inside(min = -128, max = -128))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-128), max: Some(-128), inclusive: true }, t)), Int18, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int19, "signed_integer", r#"signed_integer(range(Inside(min = 127, max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(127), max: Some(127), inclusive: true }, t)), Int19, validators::errors::SignedIntegerError, |_| None));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int20, "signed_integer", r#"signed_integer(range(Inside(min = -127, max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-127), max: Some(127), inclusive: true }, t)), Int20, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int21, "signed_integer", r#"signed_integer(range(Inside(min = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(127), max: None, inclusive: true }, t)), Int21, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int22, "signed_integer", r#"signed_integer(range(Inside(max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: None, max: Some(127), inclusive: true }, t)), Int22, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int23, "signed_integer", r#"signed_integer(range(Inside(max = 127, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: None, max: Some(127), inclusive: false }, t)), Int23, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int24, "signed_integer", r#"signed_integer(range(Inside(min = 60, max = 62, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(60), max: Some(62), inclusive: false }, t)), Int24, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int25, "signed_integer", r#"signed_integer(range(Inside(min = 60, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(60), max: None, inclusive: false }, t)), Int25, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int26, "signed_integer", r#"signed_integer(range(Inside(min = -11, max = 1, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-11), max: Some(1), inclusive: false }, t)), Int26, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int27, "signed_integer", r#"signed_integer(range(Inside(min = 4, max = 64, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(4), max: Some(64), inclusive: false }, t)), Int27, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int28, "signed_integer", r#"signed_integer(range(Inside(min = 3, max = 32))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(3), max: Some(32), inclusive: true }, t)), Int28, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int29, "signed_integer", r#"signed_integer(range(Outside(min = -128, max = 126))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-128), max: Some(126), inclusive: true }, t)), Int29, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int30, "signed_integer", r#"signed_integer(range(Outside(min = -127, max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-127), max: Some(127), inclusive: true }, t)), Int30, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int31, "signed_integer", r#"signed_integer(range(Outside(min = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(127), max: None, inclusive: true }, t)), Int31, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int32, "signed_integer", r#"signed_integer(range(Outside(min = -128))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-128), max: None, inclusive: true }, t)), Int32, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int33, "signed_integer", r#"signed_integer(range(Outside(max = 127))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: None, max: Some(127), inclusive: true }, t)), Int33, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int34, "signed_integer", r#"signed_integer(range(Outside(max = 127, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: None, max: Some(127), inclusive: false }, t)), Int34, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int35, "signed_integer", r#"signed_integer(range(Outside(min = 60, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(60), max: None, inclusive: false }, t)), Int35, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int36, "signed_integer", r#"signed_integer(range(Outside(min = -29, max = 4, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-29), max: Some(4), inclusive: false }, t)), Int36, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int37, "signed_integer", r#"signed_integer(range(Outside(min = -120, max = 85))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-120), max: Some(85), inclusive: true }, t)), Int37, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int38, "signed_integer", r#"signed_integer(range(Outside(min = -16, max = 94, inclusive = false))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-16), max: Some(94), inclusive: false }, t)), Int38, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int39, "signed_integer", r#"signed_integer i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int39, validators::errors::SignedIntegerError, |_| None));
}

fn part2(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int40, "signed_integer", r#"signed_integer(range(Inside(min = -3, max = 100))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int40, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int41, "signed_integer", r#"signed_integer(range(Inside(min = 32766, max = 32767))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(32766), max: Some(32767), inclusive: true }, t)), Int41, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int42, "signed_integer", r#"signed_integer(range(Inside(min = 5))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int42, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int43, "signed_integer", r#"signed_integer(range(Inside(max = -7))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: None, max: Some(-7), inclusive: true }, t)), Int43, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int44, "signed_integer", r#"signed_integer(range(Inside(min = 42, max = 42))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int44, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int45, "signed_integer", r#"signed_integer(range(Inside(min = -2, max = 9, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int45, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int46, "signed_integer", r#"signed_integer(range(Inside(min = 10, max = 11, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int46, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int47, "signed_integer", r#"signed_integer(range(Outside(min = -3, max = 100))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int47, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int48, "signed_integer", r#"signed_integer(range(Outside(min = 0, max = 0))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int48, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int49, "signed_integer", r#"signed_integer(range(Outside(min = 5))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int49, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int50, "signed_integer", r#"signed_integer(range(Outside(max = -7))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: None, max: Some(-7), inclusive: true }, t)), Int50, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int51, "signed_integer", r#"signed_integer(range(Outside(max = -7, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: None, max: Some(-7), inclusive: false }, t)), Int51, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int52, "signed_integer", r#"signed_integer(range(Outside(min = -2, max = 9, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int52, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int53, "signed_integer", r#"signed_integer(range(Outside(min = 32766, max = 32767))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(32766), max: Some(32767), inclusive: true }, t)), Int53, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int54, "signed_integer", r#"signed_integer(range(Inside(3..=9))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int54, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int55, "signed_integer", r#"signed_integer(range(Outside(3..9))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int55, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int56, "signed_integer", r#"signed_integer(range(Inside(3..))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(3), max: None, inclusive: true }, t)), Int56, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int57, "signed_integer", r#"signed_integer(range(Inside(min = 32767, max = 32767))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(32767), max: Some(32767), inclusive: true }, t)), Int57, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int58, "signed_integer", r#"signed_integer(range(Inside(min = -32768, max = 32766))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-32768), max: Some(32766), inclusive: true }, t)), Int58, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int59, "signed_integer", r#"signed_integer(range(Inside(min = -32768, max = 32767, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-32768), max: Some(32767), inclusive: false }, t)), Int59, validators::errors::SignedIntegerError, |_| None));
}

fn part3(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int60, "signed_integer", r#"signed_integer(range(Inside(min = 32766, max = 32767, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(32766), max: Some(32767), inclusive: false }, t)), Int60, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int61, "signed_integer", r#"signed_integer(range(Inside(min = -32768, max = -32767, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-32768), max: Some(-32767), inclusive: false }, t)), Int61, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int62, "signed_integer", r#"signed_integer(range(Inside(max = -32768))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: None, max: Some(-32768), inclusive: true }, t)), Int62, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int63, "signed_integer", r#"signed_integer(range(Inside(min = -32768))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-32768), max: None, inclusive: true }, t)), Int63, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int64, "signed_integer", r#"signed_integer(range(Inside(min = 4, max = 77, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(4), max: Some(77), inclusive: false }, t)), Int64, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int65, "signed_integer", r#"signed_integer(range(Inside(min = -22853, max = 81, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(-22853), max: Some(81), inclusive: false }, t)), Int65, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int66, "signed_integer", r#"signed_integer(range(Inside(min = 46, max = 2047, inclusive = true))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Inside, min: Some(46), max: Some(2047), inclusive: true }, t)), Int66, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int67, "signed_integer", r#"signed_integer(range(Outside(min = -32768, max = 32767, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(-32768), max: Some(32767), inclusive: false }, t)), Int67, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int68, "signed_integer", r#"signed_integer(range(Outside(min = 32766, max = 32767, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(32766), max: Some(32767), inclusive: false }, t)), Int68, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int69, "signed_integer", r#"signed_integer(range(Outside(min = -32768, max = 60))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(-32768), max: Some(60), inclusive: true }, t)), Int69, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int70, "signed_integer", r#"signed_integer(range(Outside(max = -32768))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: None, max: Some(-32768), inclusive: true }, t)), Int70, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int71, "signed_integer", r#"signed_integer(range(Outside(min = -32768))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(-32768), max: None, inclusive: true }, t)), Int71, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int72, "signed_integer", r#"signed_integer(range(Outside(max = 32767, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: None, max: Some(32767), inclusive: false }, t)), Int72, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int73, "signed_integer", r#"signed_integer(range(Outside(min = 60, max = 62, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(60), max: Some(62), inclusive: false }, t)), Int73, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int74, "signed_integer", r#"signed_integer(range(Outside(min = 2, max = 4, inclusive = false))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(2), max: Some(4), inclusive: false }, t)), Int74, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int75, "signed_integer", r#"signed_integer(range(Outside(min = 3, max = 99, inclusive = true))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(3), max: Some(99), inclusive: true }, t)), Int75, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int76, "signed_integer", r#"signed_integer(range(Outside(min = -10, max = 255))) i16"#, |t| judge(&Cfg { signed: true, bits: 16, kind: Kind::Outside, min: Some(-10), max: Some(255), inclusive: true }, t)), Int76, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int77, "signed_integer", r#"signed_integer i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int77, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int78, "signed_integer", r#"signed_integer(range(Inside(min = -3, max = 100))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int78, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int79, "signed_integer", r#"signed_integer(range(Inside(min = 2147483646, max = 2147483647))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(2147483646), max: Some(2147483647), inclusive: true }, t)), Int79, validators::errors::SignedIntegerError, |_| None));
}

fn part4(v: &mut Vec<Target>) {
    v.push(ws!(target!(Int80, "signed_integer", r#"signed_integer(range(Inside(min = 5))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int80, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int81, "signed_integer", r#"signed_integer(range(Inside(max = -7))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: None, max: Some(-7), inclusive: true }, t)), Int81, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int82, "signed_integer", r#"signed_integer(range(Inside(min = 42, max = 42))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int82, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int83, "signed_integer", r#"signed_integer(range(Inside(min = -2, max = 9, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int83, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int84, "signed_integer", r#"signed_integer(range(Inside(min = 10, max = 11, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int84, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int85, "signed_integer", r#"signed_integer(range(Outside(min = -3, max = 100))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int85, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int86, "signed_integer", r#"signed_integer(range(Outside(min = 0, max = 0))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int86, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int87, "signed_integer", r#"signed_integer(range(Outside(min = 5))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int87, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int88, "signed_integer", r#"signed_integer(range(Outside(max = -7))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: None, max: Some(-7), inclusive: true }, t)), Int88, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int89, "signed_integer", r#"signed_integer(range(Outside(max = -7, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: None, max: Some(-7), inclusive: false }, t)), Int89, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int90, "signed_integer", r#"signed_integer(range(Outside(min = -2, max = 9, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int90, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int91, "signed_integer", r#"signed_integer(range(Outside(min = 2147483646, max = 2147483647))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(2147483646), max: Some(2147483647), inclusive: true }, t)), Int91, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int92, "signed_integer", r#"signed_integer(range(Inside(3..=9))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int92, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int93, "signed_integer", r#"signed_integer(range(Outside(3..9))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int93, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int94, "signed_integer", r#"signed_integer(range(Inside(3..))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(3), max: None, inclusive: true }, t)), Int94, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int95, "signed_integer", r#"signed_integer(range(Inside(min = 2147483646, max = 2147483647, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(2147483646), max: Some(2147483647), inclusive: false }, t)), Int95, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int96, "signed_integer", r#"signed_integer(range(Inside(min = -2147483648, max = 60))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-2147483648), max: Some(60), inclusive: true }, t)), Int96, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int97, "signed_integer", r#"signed_integer(range(Inside(max = -2147483648))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: None, max: Some(-2147483648), inclusive: true }, t)), Int97, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int98, "signed_integer", r#"signed_integer(range(Inside(min = -2147483648))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-2147483648), max: None, inclusive: true }, t)), Int98, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int99, "signed_integer", r#"signed_integer(range(Inside(min = 1, max = 2048, inclusive = true))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(1), max: Some(2048), inclusive: true }, t)), Int99, validators::errors::SignedIntegerError, |_| None));
}

fn part5(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int100, "signed_integer", r#"signed_integer(range(Inside(min = 339776577, max = 536870912, inclusive = true))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(339776577), max: Some(536870912), inclusive: true }, t)), Int100, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int101, "signed_integer", r#"signed_integer(range(Inside(min = -253616096, max = 63))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-253616096), max: Some(63), inclusive: true }, t)), Int101, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int102, "signed_integer", r#"signed_integer(range(Outside(min = -2147483648, max = 60))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(-2147483648), max: Some(60), inclusive: true }, t)), Int102, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int103, "signed_integer", r#"signed_integer(range(Outside(min = 2147483647))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(2147483647), max: None, inclusive: true }, t)), Int103, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int104, "signed_integer", r#"signed_integer(range(Outside(max = 2147483647))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: None, max: Some(2147483647), inclusive: true }, t)), Int104, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int105, "signed_integer", r#"signed_integer(range(Outside(max = 2147483647, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: None, max: Some(2147483647), inclusive: false }, t)), Int105, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int106, "signed_integer", r#"signed_integer(range(Outside(min = 1, max = 16384, inclusive = true))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(1), max: Some(16384), inclusive: true }, t)), Int106, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int107, "signed_integer", r#"signed_integer(range(Outside(min = 256, max = 8192, inclusive = false))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(256), max: Some(8192), inclusive: false }, t)), Int107, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int108, "signed_integer", r#"signed_integer(range(Outside(min = -1852698862, max = 372569693, inclusive = true))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(-1852698862), max: Some(372569693), inclusive: true }, t)), Int108, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int109, "signed_integer", r#"signed_integer i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int109, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int110, "signed_integer", r#"signed_integer(range(Inside(min = -3, max = 100))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int110, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int111, "signed_integer", r#"signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(9223372036854775806), max: Some(9223372036854775807), inclusive: true }, t)), Int111, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int112, "signed_integer", r#"signed_integer(range(Inside(min = 5))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int112, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int113, "signed_integer", r#"signed_integer(range(Inside(max = -7))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: None, max: Some(-7), inclusive: true }, t)), Int113, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int114, "signed_integer", r#"signed_integer(range(Inside(min = 42, max = 42))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int114, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int115, "signed_integer", r#"signed_integer(range(Inside(min = -2, max = 9, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int115, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int116, "signed_integer", r#"signed_integer(range(Inside(min = 10, max = 11, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int116, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int117, "signed_integer", r#"signed_integer(range(Outside(min = -3, max = 100))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int117, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int118, "signed_integer", r#"signed_integer(range(Outside(min = 0, max = 0))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int118, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int119, "signed_integer", r#"signed_integer(range(Outside(min = 5))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int119, validators::errors::SignedIntegerError, |_| None));
}

fn part6(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int120, "signed_integer", r#"signed_integer(range(Outside(max = -7))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(-7), inclusive: true }, t)), Int120, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int121, "signed_integer", r#"signed_integer(range(Outside(max = -7, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(-7), inclusive: false }, t)), Int121, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int122, "signed_integer", r#"signed_integer(range(Outside(min = -2, max = 9, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int122, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int123, "signed_integer", r#"signed_integer(range(Outside(min = 9223372036854775806, max = 9223372036854775807))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(9223372036854775806), max: Some(9223372036854775807), inclusive: true }, t)), Int123, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int124, "signed_integer", r#"signed_integer(range(Inside(3..=9))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int124, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int125, "signed_integer", r#"signed_integer(range(Outside(3..9))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int125, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int126, "signed_integer", r#"signed_integer(range(Inside(3..))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(3), max: None, inclusive: true }, t)), Int126, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int127, "signed_integer", r#"signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775808))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-9223372036854775808), max: Some(-9223372036854775808), inclusive: true }, t)), Int127, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int128, "signed_integer", r#"signed_integer(range(Inside(min = -9223372036854775808, max = 9223372036854775807, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-9223372036854775808), max: Some(9223372036854775807), inclusive: false }, t)), Int128, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int129, "signed_integer", r#"signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(9223372036854775806), max: Some(9223372036854775807), inclusive: false }, t)), Int129, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int130, "signed_integer", r#"signed_integer(range(Inside(max = 9223372036854775807))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: None, max: Some(9223372036854775807), inclusive: true }, t)), Int130, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int131, "signed_integer", r#"signed_integer(range(Inside(min = 60, max = 62, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(60), max: Some(62), inclusive: false }, t)), Int131, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int132, "signed_integer", r#"signed_integer(range(Inside(min = 2097151, max = 7781771086903328442, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(2097151), max: Some(7781771086903328442), inclusive: false }, t)), Int132, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int133, "signed_integer", r#"signed_integer(range(Inside(min = 1023, max = 2199023255552, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(1023), max: Some(2199023255552), inclusive: false }, t)), Int133, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int134, "signed_integer", r#"signed_integer(range(Inside(min = 23, max = 8294763151655465846, inclusive = true))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(23), max: Some(8294763151655465846), inclusive: true }, t)), Int134, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int135, "signed_integer", r#"signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(9223372036854775807), max: Some(9223372036854775807), inclusive: true }, t)), Int135, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int136, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775806))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775808), max: Some(9223372036854775806), inclusive: true }, t)), Int136, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int137, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775807, max = 9223372036854775807))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775807), max: Some(9223372036854775807), inclusive: true }, t)), Int137, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int138, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775808), max: Some(9223372036854775807), inclusive: false }, t)), Int138, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int139, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775807, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775808), max: Some(-9223372036854775807), inclusive: false }, t)), Int139, validators::errors::SignedIntegerError, |_| None));
}

fn part7(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int140, "signed_integer", r#"signed_integer(range(Outside(min = 60, max = 9223372036854775807))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(60), max: Some(9223372036854775807), inclusive: true }, t)), Int140, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int141, "signed_integer", r#"signed_integer(range(Outside(max = -9223372036854775808))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(-9223372036854775808), inclusive: true }, t)), Int141, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int142, "signed_integer", r#"signed_integer(range(Outside(max = 9223372036854775807, inclusive = false))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(9223372036854775807), inclusive: false }, t)), Int142, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int143, "signed_integer", r#"signed_integer(range(Outside(min = 83, max = 4451570832452314832, inclusive = true))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(83), max: Some(4451570832452314832), inclusive: true }, t)), Int143, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int144, "signed_integer", r#"signed_integer(range(Outside(min = 67108864, max = 140737488355327))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(67108864), max: Some(140737488355327), inclusive: true }, t)), Int144, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int145, "signed_integer", r#"signed_integer(range(Outside(min = 2703883883229841109, max = 5181579491152079684))) i64"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(2703883883229841109), max: Some(5181579491152079684), inclusive: true }, t)), Int145, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int146, "signed_integer", r#"signed_integer i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int146, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int147, "signed_integer", r#"signed_integer(range(Inside(min = -3, max = 100))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int147, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int148, "signed_integer", r#"signed_integer(range(Inside(min = 170141183460469231731687303715884105726, max = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(170141183460469231731687303715884105726), max: Some(170141183460469231731687303715884105727), inclusive: true }, t)), Int148, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int149, "signed_integer", r#"signed_integer(range(Inside(min = 5))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int149, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int150, "signed_integer", r#"signed_integer(range(Inside(max = -7))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: None, max: Some(-7), inclusive: true }, t)), Int150, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int151, "signed_integer", r#"signed_integer(range(Inside(min = 42, max = 42))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int151, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int152, "signed_integer", r#"signed_integer(range(Inside(min = -2, max = 9, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int152, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int153, "signed_integer", r#"signed_integer(range(Inside(min = 10, max = 11, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int153, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int154, "signed_integer", r#"signed_integer(range(Outside(min = -3, max = 100))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int154, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int155, "signed_integer", r#"signed_integer(range(Outside(min = 0, max = 0))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int155, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int156, "signed_integer", r#"signed_integer(range(Outside(min = 5))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int156, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int157, "signed_integer", r#"signed_integer(range(Outside(max = -7))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: None, max: Some(-7), inclusive: true }, t)), Int157, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int158, "signed_integer", r#"signed_integer(range(Outside(max = -7, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: None, max: Some(-7), inclusive: false }, t)), Int158, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int159, "signed_integer", r#"signed_integer(range(Outside(min = -2, max = 9, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int159, validators::errors::SignedIntegerError, |_| None));
}

fn part8(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int160, "signed_integer", r#"signed_integer(range(Outside(min = 170141183460469231731687303715884105726, max = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(170141183460469231731687303715884105726), max: Some(170141183460469231731687303715884105727), inclusive: true }, t)), Int160, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int161, "signed_integer", r#"signed_integer(range(Inside(3..=9))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int161, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int162, "signed_integer", r#"signed_integer(range(Outside(3..9))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int162, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int163, "signed_integer", r#"signed_integer(range(Inside(3..))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(3), max: None, inclusive: true }, t)), Int163, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int164, "signed_integer", r#"signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105728))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-170141183460469231731687303715884105728), max: Some(-170141183460469231731687303715884105728), inclusive: true }, t)), Int164, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int165, "signed_integer", r#"signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105726))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-170141183460469231731687303715884105728), max: Some(170141183460469231731687303715884105726), inclusive: true }, t)), Int165, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int166, "signed_integer", r#"signed_integer(range(Inside(min = -170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-170141183460469231731687303715884105727), max: Some(170141183460469231731687303715884105727), inclusive: true }, t)), Int166, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int167, "signed_integer", r#"signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-170141183460469231731687303715884105728), max: Some(170141183460469231731687303715884105727), inclusive: false }, t)), Int167, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int168, "signed_integer", r#"signed_integer(range(Inside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105727, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-170141183460469231731687303715884105728), max: Some(-170141183460469231731687303715884105727), inclusive: false }, t)), Int168, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int169, "signed_integer", r#"signed_integer(range(Inside(min = 60, max = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(60), max: Some(170141183460469231731687303715884105727), inclusive: true }, t)), Int169, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int170, "signed_integer", r#"signed_integer(range(Inside(max = -170141183460469231731687303715884105728))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: None, max: Some(-170141183460469231731687303715884105728), inclusive: true }, t)), Int170, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int171, "signed_integer", r#"signed_integer(range(Inside(min = -170141183460469231731687303715884105728))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-170141183460469231731687303715884105728), max: None, inclusive: true }, t)), Int171, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int172, "signed_integer", r#"signed_integer(range(Inside(min = -79, max = 1298074214633706907132624082305024, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-79), max: Some(1298074214633706907132624082305024), inclusive: false }, t)), Int172, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int173, "signed_integer", r#"signed_integer(range(Inside(min = -88, max = 160683589678842699372225092488588553499, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-88), max: Some(160683589678842699372225092488588553499), inclusive: false }, t)), Int173, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int174, "signed_integer", r#"signed_integer(range(Inside(min = 35, max = 1298074214633706907132624082305024, inclusive = true))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(35), max: Some(1298074214633706907132624082305024), inclusive: true }, t)), Int174, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int175, "signed_integer", r#"signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = -170141183460469231731687303715884105728))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-170141183460469231731687303715884105728), max: Some(-170141183460469231731687303715884105728), inclusive: true }, t)), Int175, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int176, "signed_integer", r#"signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105726))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-170141183460469231731687303715884105728), max: Some(170141183460469231731687303715884105726), inclusive: true }, t)), Int176, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int177, "signed_integer", r#"signed_integer(range(Outside(min = -170141183460469231731687303715884105727, max = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-170141183460469231731687303715884105727), max: Some(170141183460469231731687303715884105727), inclusive: true }, t)), Int177, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int178, "signed_integer", r#"signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 170141183460469231731687303715884105727, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-170141183460469231731687303715884105728), max: Some(170141183460469231731687303715884105727), inclusive: false }, t)), Int178, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int179, "signed_integer", r#"signed_integer(range(Outside(min = -170141183460469231731687303715884105728, max = 60))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-170141183460469231731687303715884105728), max: Some(60), inclusive: true }, t)), Int179, validators::errors::SignedIntegerError, |_| None));
}

fn part9(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int180, "signed_integer", r#"signed_integer(range(Outside(min = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(170141183460469231731687303715884105727), max: None, inclusive: true }, t)), Int180, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int181, "signed_integer", r#"signed_integer(range(Outside(max = -170141183460469231731687303715884105728))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: None, max: Some(-170141183460469231731687303715884105728), inclusive: true }, t)), Int181, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int182, "signed_integer", r#"signed_integer(range(Outside(min = -170141183460469231731687303715884105728))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-170141183460469231731687303715884105728), max: None, inclusive: true }, t)), Int182, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int183, "signed_integer", r#"signed_integer(range(Outside(max = 170141183460469231731687303715884105727))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: None, max: Some(170141183460469231731687303715884105727), inclusive: true }, t)), Int183, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int184, "signed_integer", r#"signed_integer(range(Outside(max = 170141183460469231731687303715884105727, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: None, max: Some(170141183460469231731687303715884105727), inclusive: false }, t)), Int184, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int185, "signed_integer", r#"signed_integer(range(Outside(min = 60, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(60), max: None, inclusive: false }, t)), Int185, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int186, "signed_integer", r#"signed_integer(range(Outside(min = -109169663090665213492745738461027491424, max = 16383, inclusive = false))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-109169663090665213492745738461027491424), max: Some(16383), inclusive: false }, t)), Int186, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int187, "signed_integer", r#"signed_integer(range(Outside(min = -79, max = 8388608))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-79), max: Some(8388608), inclusive: true }, t)), Int187, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int188, "signed_integer", r#"signed_integer(range(Outside(min = -59699772911548574317351335952589566564, max = 14, inclusive = true))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-59699772911548574317351335952589566564), max: Some(14), inclusive: true }, t)), Int188, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int189, "signed_integer", r#"signed_integer isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int189, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int190, "signed_integer", r#"signed_integer(range(Inside(min = -3, max = 100))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int190, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int191, "signed_integer", r#"signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(9223372036854775806), max: Some(9223372036854775807), inclusive: true }, t)), Int191, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int192, "signed_integer", r#"signed_integer(range(Inside(min = 5))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int192, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int193, "signed_integer", r#"signed_integer(range(Inside(max = -7))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: None, max: Some(-7), inclusive: true }, t)), Int193, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int194, "signed_integer", r#"signed_integer(range(Inside(min = 42, max = 42))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int194, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int195, "signed_integer", r#"signed_integer(range(Inside(min = -2, max = 9, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int195, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int196, "signed_integer", r#"signed_integer(range(Inside(min = 10, max = 11, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int196, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int197, "signed_integer", r#"signed_integer(range(Outside(min = -3, max = 100))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-3), max: Some(100), inclusive: true }, t)), Int197, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int198, "signed_integer", r#"signed_integer(range(Outside(min = 0, max = 0))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int198, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int199, "signed_integer", r#"signed_integer(range(Outside(min = 5))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int199, validators::errors::SignedIntegerError, |_| None));
}

fn part10(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int200, "signed_integer", r#"signed_integer(range(Outside(max = -7))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(-7), inclusive: true }, t)), Int200, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int201, "signed_integer", r#"signed_integer(range(Outside(max = -7, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(-7), inclusive: false }, t)), Int201, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int202, "signed_integer", r#"signed_integer(range(Outside(min = -2, max = 9, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-2), max: Some(9), inclusive: false }, t)), Int202, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int203, "signed_integer", r#"signed_integer(range(Outside(min = 9223372036854775806, max = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(9223372036854775806), max: Some(9223372036854775807), inclusive: true }, t)), Int203, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int204, "signed_integer", r#"signed_integer(range(Inside(3..=9))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int204, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int205, "signed_integer", r#"signed_integer(range(Outside(3..9))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int205, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int206, "signed_integer", r#"signed_integer(range(Inside(3..))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(3), max: None, inclusive: true }, t)), Int206, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int207, "signed_integer", r#"signed_integer(range(Inside(min = -9223372036854775808, max = -9223372036854775808))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-9223372036854775808), max: Some(-9223372036854775808), inclusive: true }, t)), Int207, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int208, "signed_integer", r#"signed_integer(range(Inside(min = 9223372036854775807, max = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(9223372036854775807), max: Some(9223372036854775807), inclusive: true }, t)), Int208, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int209, "signed_integer", r#"signed_integer(range(Inside(min = 9223372036854775806, max = 9223372036854775807, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(9223372036854775806), max: Some(9223372036854775807), inclusive: false }, t)), Int209, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int210, "signed_integer", r#"signed_integer(range(Inside(max = -9223372036854775808))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: None, max: Some(-9223372036854775808), inclusive: true }, t)), Int210, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int211, "signed_integer", r#"signed_integer(range(Inside(min = -9223372036854775808))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-9223372036854775808), max: None, inclusive: true }, t)), Int211, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int212, "signed_integer", r#"signed_integer(range(Inside(max = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: None, max: Some(9223372036854775807), inclusive: true }, t)), Int212, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int213, "signed_integer", r#"signed_integer(range(Inside(min = 60, max = 62, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(60), max: Some(62), inclusive: false }, t)), Int213, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int214, "signed_integer", r#"signed_integer(range(Inside(min = 44, max = 2147483648))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(44), max: Some(2147483648), inclusive: true }, t)), Int214, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int215, "signed_integer", r#"signed_integer(range(Inside(min = -7056208832932214867, max = 71, inclusive = true))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-7056208832932214867), max: Some(71), inclusive: true }, t)), Int215, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int216, "signed_integer", r#"signed_integer(range(Inside(min = -31, max = 536870912, inclusive = true))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Inside, min: Some(-31), max: Some(536870912), inclusive: true }, t)), Int216, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int217, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775808, max = -9223372036854775808))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775808), max: Some(-9223372036854775808), inclusive: true }, t)), Int217, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int218, "signed_integer", r#"signed_integer(range(Outside(min = 9223372036854775807, max = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(9223372036854775807), max: Some(9223372036854775807), inclusive: true }, t)), Int218, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int219, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775806))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775808), max: Some(9223372036854775806), inclusive: true }, t)), Int219, validators::errors::SignedIntegerError, |_| None));
}

fn part11(v: &mut Vec<Target>) {
    v.push(ws!(target!(Int220, "signed_integer", r#"signed_integer(range(Outside(min = -9223372036854775808, max = 9223372036854775807, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-9223372036854775808), max: Some(9223372036854775807), inclusive: false }, t)), Int220, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int221, "signed_integer", r#"signed_integer(range(Outside(min = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(9223372036854775807), max: None, inclusive: true }, t)), Int221, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int222, "signed_integer", r#"signed_integer(range(Outside(max = -9223372036854775808))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(-9223372036854775808), inclusive: true }, t)), Int222, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int223, "signed_integer", r#"signed_integer(range(Outside(max = 9223372036854775807))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: None, max: Some(9223372036854775807), inclusive: true }, t)), Int223, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int224, "signed_integer", r#"signed_integer(range(Outside(min = 60, max = 62, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(60), max: Some(62), inclusive: false }, t)), Int224, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int225, "signed_integer", r#"signed_integer(range(Outside(min = 60, inclusive = false))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(60), max: None, inclusive: false }, t)), Int225, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int226, "signed_integer", r#"signed_integer(range(Outside(min = 8388608, max = 3265483882328030129, inclusive = true))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(8388608), max: Some(3265483882328030129), inclusive: true }, t)), Int226, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int227, "signed_integer", r#"signed_integer(range(Outside(min = -7, max = 1024))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(-7), max: Some(1024), inclusive: true }, t)), Int227, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int228, "signed_integer", r#"signed_integer(range(Outside(min = 5, max = 6161429164487165544, inclusive = true))) isize"#, |t| judge(&Cfg { signed: true, bits: 64, kind: Kind::Outside, min: Some(5), max: Some(6161429164487165544), inclusive: true }, t)), Int228, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int229, "unsigned_integer", r#"unsigned_integer u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int229, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int230, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 3, max = 100))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(3), max: Some(100), inclusive: true }, t)), Int230, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int231, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 254, max = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(254), max: Some(255), inclusive: true }, t)), Int231, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int232, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 5))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int232, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int233, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 7))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: None, max: Some(7), inclusive: true }, t)), Int233, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int234, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 42, max = 42))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int234, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int235, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(2), max: Some(9), inclusive: false }, t)), Int235, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int236, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int236, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int237, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 3, max = 100))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(3), max: Some(100), inclusive: true }, t)), Int237, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int238, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int238, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int239, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 5))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int239, validators::errors::UnsignedIntegerError, |_| None));
}

fn part12(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int240, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: None, max: Some(7), inclusive: true }, t)), Int240, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int241, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: None, max: Some(7), inclusive: false }, t)), Int241, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int242, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(2), max: Some(9), inclusive: false }, t)), Int242, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int243, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 254, max = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(254), max: Some(255), inclusive: true }, t)), Int243, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int244, "unsigned_integer", r#"unsigned_integer(range(Inside(3..=9))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int244, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int245, "unsigned_integer", r#"unsigned_integer(range(Outside(3..9))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int245, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int246, "unsigned_integer", r#"unsigned_integer(range(Inside(..=9))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: None, max: Some(9), inclusive: true }, t)), Int246, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int247, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 0))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(0), max: Some(0), inclusive: true }, t)), Int247, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int248, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 255, max = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(255), max: Some(255), inclusive: true }, t)), Int248, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int249, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 1, max = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(1), max: Some(255), inclusive: true }, t)), Int249, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int250, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 255, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(0), max: Some(255), inclusive: false }, t)), Int250, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int251, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 254, max = 255, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(254), max: Some(255), inclusive: false }, t)), Int251, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int252, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(0), max: Some(1), inclusive: false }, t)), Int252, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int253, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 0))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: None, max: Some(0), inclusive: true }, t)), Int253, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int254, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: None, max: Some(255), inclusive: true }, t)), Int254, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int255, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(200), max: Some(202), inclusive: false }, t)), Int255, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int256, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 57, max = 127))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(57), max: Some(127), inclusive: true }, t)), Int256, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int257, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 15, max = 188, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(15), max: Some(188), inclusive: false }, t)), Int257, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int258, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 36, max = 196))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(36), max: Some(196), inclusive: true }, t)), Int258, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int259, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 254))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(254), inclusive: true }, t)), Int259, validators::errors::UnsignedIntegerError, |_| None));
}

fn part13(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int260, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 255, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(255), inclusive: false }, t)), Int260, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int261, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(1), inclusive: false }, t)), Int261, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int262, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(255), max: None, inclusive: true }, t)), Int262, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int263, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 255))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: None, max: Some(255), inclusive: true }, t)), Int263, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int264, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, inclusive = false))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(200), max: None, inclusive: false }, t)), Int264, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int265, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 31, inclusive = true))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(31), inclusive: true }, t)), Int265, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int266, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 38))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(38), inclusive: true }, t)), Int266, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int267, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 43))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(0), max: Some(43), inclusive: true }, t)), Int267, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int268, "unsigned_integer", r#"unsigned_integer u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int268, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int269, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 3, max = 100))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(3), max: Some(100), inclusive: true }, t)), Int269, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int270, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 65534, max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(65534), max: Some(65535), inclusive: true }, t)), Int270, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int271, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 5))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int271, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int272, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 7))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: None, max: Some(7), inclusive: true }, t)), Int272, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int273, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 42, max = 42))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int273, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int274, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(2), max: Some(9), inclusive: false }, t)), Int274, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int275, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int275, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int276, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 3, max = 100))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(3), max: Some(100), inclusive: true }, t)), Int276, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int277, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int277, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int278, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 5))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int278, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int279, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: None, max: Some(7), inclusive: true }, t)), Int279, validators::errors::UnsignedIntegerError, |_| None));
}

fn part14(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int280, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: None, max: Some(7), inclusive: false }, t)), Int280, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int281, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(2), max: Some(9), inclusive: false }, t)), Int281, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int282, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 65534, max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(65534), max: Some(65535), inclusive: true }, t)), Int282, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int283, "unsigned_integer", r#"unsigned_integer(range(Inside(3..=9))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int283, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int284, "unsigned_integer", r#"unsigned_integer(range(Outside(3..9))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int284, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int285, "unsigned_integer", r#"unsigned_integer(range(Inside(..=9))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: None, max: Some(9), inclusive: true }, t)), Int285, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int286, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 65535, max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(65535), max: Some(65535), inclusive: true }, t)), Int286, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int287, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 65534))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(0), max: Some(65534), inclusive: true }, t)), Int287, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int288, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 65535, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(0), max: Some(65535), inclusive: false }, t)), Int288, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int289, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(0), max: Some(1), inclusive: false }, t)), Int289, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int290, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 200))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(0), max: Some(200), inclusive: true }, t)), Int290, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int291, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(200), max: Some(65535), inclusive: true }, t)), Int291, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int292, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(0), max: None, inclusive: true }, t)), Int292, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int293, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: None, max: Some(65535), inclusive: true }, t)), Int293, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int294, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(200), max: None, inclusive: false }, t)), Int294, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int295, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 20, max = 65025, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(20), max: Some(65025), inclusive: false }, t)), Int295, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int296, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 71, max = 85))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(71), max: Some(85), inclusive: true }, t)), Int296, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int297, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 128, max = 8191))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Inside, min: Some(128), max: Some(8191), inclusive: true }, t)), Int297, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int298, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 65534))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(0), max: Some(65534), inclusive: true }, t)), Int298, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int299, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 1, max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(1), max: Some(65535), inclusive: true }, t)), Int299, validators::errors::UnsignedIntegerError, |_| None));
}

fn part15(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int300, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 65534, max = 65535, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(65534), max: Some(65535), inclusive: false }, t)), Int300, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int301, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(0), max: Some(1), inclusive: false }, t)), Int301, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int302, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(200), max: Some(65535), inclusive: true }, t)), Int302, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int303, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 65535))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: None, max: Some(65535), inclusive: true }, t)), Int303, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int304, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, inclusive = false))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(200), max: None, inclusive: false }, t)), Int304, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int305, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 31527, inclusive = true))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(0), max: Some(31527), inclusive: true }, t)), Int305, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int306, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 64, max = 47449))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(64), max: Some(47449), inclusive: true }, t)), Int306, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int307, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 38, inclusive = true))) u16"#, |t| judge_u(&CfgU { signed: false, bits: 16, kind: Kind::Outside, min: Some(0), max: Some(38), inclusive: true }, t)), Int307, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int308, "unsigned_integer", r#"unsigned_integer u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int308, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int309, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 3, max = 100))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(3), max: Some(100), inclusive: true }, t)), Int309, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int310, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 4294967294, max = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(4294967294), max: Some(4294967295), inclusive: true }, t)), Int310, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int311, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 5))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int311, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int312, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 7))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: None, max: Some(7), inclusive: true }, t)), Int312, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int313, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 42, max = 42))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int313, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int314, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(2), max: Some(9), inclusive: false }, t)), Int314, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int315, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int315, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int316, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 3, max = 100))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(3), max: Some(100), inclusive: true }, t)), Int316, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int317, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int317, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int318, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 5))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int318, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int319, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: None, max: Some(7), inclusive: true }, t)), Int319, validators::errors::UnsignedIntegerError, |_| None));
}

fn part16(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int320, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: None, max: Some(7), inclusive: false }, t)), Int320, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int321, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(2), max: Some(9), inclusive: false }, t)), Int321, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int322, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 4294967294, max = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(4294967294), max: Some(4294967295), inclusive: true }, t)), Int322, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int323, "unsigned_integer", r#"unsigned_integer(range(Inside(3..=9))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int323, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int324, "unsigned_integer", r#"unsigned_integer(range(Outside(3..9))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int324, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int325, "unsigned_integer", r#"unsigned_integer(range(Inside(..=9))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: None, max: Some(9), inclusive: true }, t)), Int325, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int326, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 0))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(0), max: Some(0), inclusive: true }, t)), Int326, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int327, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(0), max: Some(1), inclusive: false }, t)), Int327, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int328, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 200))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(0), max: Some(200), inclusive: true }, t)), Int328, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int329, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(200), max: Some(4294967295), inclusive: true }, t)), Int329, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int330, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(4294967295), max: None, inclusive: true }, t)), Int330, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int331, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(0), max: None, inclusive: true }, t)), Int331, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int332, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(200), max: Some(202), inclusive: false }, t)), Int332, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int333, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 31, max = 52, inclusive = true))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(31), max: Some(52), inclusive: true }, t)), Int333, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int334, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 48, max = 78, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(48), max: Some(78), inclusive: false }, t)), Int334, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int335, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2097152, max = 1530033346, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(2097152), max: Some(1530033346), inclusive: false }, t)), Int335, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int336, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int336, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int337, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 4294967294))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(4294967294), inclusive: true }, t)), Int337, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int338, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 4294967295, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(4294967295), inclusive: false }, t)), Int338, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int339, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(1), inclusive: false }, t)), Int339, validators::errors::UnsignedIntegerError, |_| None));
}

fn part17(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int340, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 200))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(0), max: Some(200), inclusive: true }, t)), Int340, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int341, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(200), max: Some(4294967295), inclusive: true }, t)), Int341, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int342, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(4294967295), max: None, inclusive: true }, t)), Int342, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int343, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 0))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: None, max: Some(0), inclusive: true }, t)), Int343, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int344, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 4294967295))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: None, max: Some(4294967295), inclusive: true }, t)), Int344, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int345, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(200), max: Some(202), inclusive: false }, t)), Int345, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int346, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 514609530, max = 3673935633, inclusive = false))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(514609530), max: Some(3673935633), inclusive: false }, t)), Int346, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int347, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 8, max = 16777215, inclusive = true))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(8), max: Some(16777215), inclusive: true }, t)), Int347, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int348, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 66, max = 84))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(66), max: Some(84), inclusive: true }, t)), Int348, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int349, "unsigned_integer", r#"unsigned_integer u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int349, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int350, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 3, max = 100))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(3), max: Some(100), inclusive: true }, t)), Int350, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int351, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 18446744073709551614, max = 18446744073709551615))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: true }, t)), Int351, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int352, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 5))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int352, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int353, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 7))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: None, max: Some(7), inclusive: true }, t)), Int353, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int354, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 42, max = 42))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int354, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int355, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(2), max: Some(9), inclusive: false }, t)), Int355, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int356, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int356, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int357, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 3, max = 100))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(3), max: Some(100), inclusive: true }, t)), Int357, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int358, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int358, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int359, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 5))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int359, validators::errors::UnsignedIntegerError, |_| None));
}

fn part18(v: &mut Vec<Target>) {
    v.push(ws!(target!(Int360, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: None, max: Some(7), inclusive: true }, t)), Int360, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int361, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: None, max: Some(7), inclusive: false }, t)), Int361, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int362, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(2), max: Some(9), inclusive: false }, t)), Int362, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int363, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 18446744073709551614, max = 18446744073709551615))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: true }, t)), Int363, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int364, "unsigned_integer", r#"unsigned_integer(range(Inside(3..=9))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int364, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int365, "unsigned_integer", r#"unsigned_integer(range(Outside(3..9))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int365, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int366, "unsigned_integer", r#"unsigned_integer(range(Inside(..=9))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: None, max: Some(9), inclusive: true }, t)), Int366, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int367, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(18446744073709551615), max: Some(18446744073709551615), inclusive: true }, t)), Int367, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int368, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 1, max = 18446744073709551615))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(1), max: Some(18446744073709551615), inclusive: true }, t)), Int368, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int369, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 18446744073709551615, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(18446744073709551615), inclusive: false }, t)), Int369, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int370, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 18446744073709551614, max = 18446744073709551615, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: false }, t)), Int370, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int371, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(1), inclusive: false }, t)), Int371, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int372, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 200))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(200), inclusive: true }, t)), Int372, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int373, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 18446744073709551615))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(18446744073709551615), max: None, inclusive: true }, t)), Int373, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int374, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: None, inclusive: true }, t)), Int374, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int375, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 18446744073709551615, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: None, max: Some(18446744073709551615), inclusive: false }, t)), Int375, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int376, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 43, max = 17928330477110304782, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(43), max: Some(17928330477110304782), inclusive: false }, t)), Int376, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int377, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 8796093022208))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(8796093022208), inclusive: true }, t)), Int377, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int378, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 18446744073709551614, max = 18446744073709551615, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: false }, t)), Int378, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int379, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(1), inclusive: false }, t)), Int379, validators::errors::UnsignedIntegerError, |_| None));
}

fn part19(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int380, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 18446744073709551615))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(200), max: Some(18446744073709551615), inclusive: true }, t)), Int380, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int381, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 0))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: None, max: Some(0), inclusive: true }, t)), Int381, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int382, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(200), max: Some(202), inclusive: false }, t)), Int382, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int383, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 34, max = 17179869183, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(34), max: Some(17179869183), inclusive: false }, t)), Int383, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int384, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 92, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(92), inclusive: false }, t)), Int384, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int385, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 446082758517385551, max = 4611686018427387904, inclusive = false))) u64"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(446082758517385551), max: Some(4611686018427387904), inclusive: false }, t)), Int385, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int386, "unsigned_integer", r#"unsigned_integer u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int386, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int387, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 3, max = 100))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(3), max: Some(100), inclusive: true }, t)), Int387, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int388, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 340282366920938463463374607431768211454, max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(340282366920938463463374607431768211454), max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int388, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int389, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 5))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int389, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int390, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 7))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: None, max: Some(7), inclusive: true }, t)), Int390, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int391, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 42, max = 42))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int391, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int392, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(2), max: Some(9), inclusive: false }, t)), Int392, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int393, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int393, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int394, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 3, max = 100))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(3), max: Some(100), inclusive: true }, t)), Int394, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int395, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int395, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int396, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 5))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int396, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int397, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: None, max: Some(7), inclusive: true }, t)), Int397, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int398, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: None, max: Some(7), inclusive: false }, t)), Int398, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int399, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(2), max: Some(9), inclusive: false }, t)), Int399, validators::errors::UnsignedIntegerError, |_| None));
}

fn part20(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int400, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 340282366920938463463374607431768211454, max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(340282366920938463463374607431768211454), max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int400, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int401, "unsigned_integer", r#"unsigned_integer(range(Inside(3..=9))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int401, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int402, "unsigned_integer", r#"unsigned_integer(range(Outside(3..9))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int402, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int403, "unsigned_integer", r#"unsigned_integer(range(Inside(..=9))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: None, max: Some(9), inclusive: true }, t)), Int403, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int404, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 0))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(0), max: Some(0), inclusive: true }, t)), Int404, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int405, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(340282366920938463463374607431768211455), max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int405, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int406, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 340282366920938463463374607431768211455, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(0), max: Some(340282366920938463463374607431768211455), inclusive: false }, t)), Int406, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int407, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(200), max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int407, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int408, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(340282366920938463463374607431768211455), max: None, inclusive: true }, t)), Int408, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int409, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: None, max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int409, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int410, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(200), max: Some(202), inclusive: false }, t)), Int410, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int411, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(200), max: None, inclusive: false }, t)), Int411, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int412, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 78, max = 137438953471, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(78), max: Some(137438953471), inclusive: false }, t)), Int412, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int413, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 41538374868278621028243970633760767, max = 174839350336743349169539279083011106825, inclusive = true))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(41538374868278621028243970633760767), max: Some(174839350336743349169539279083011106825), inclusive: true }, t)), Int413, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int414, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 49283703904715756608412159456055210270, max = 297403054219645275682933661731244106498, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(49283703904715756608412159456055210270), max: Some(297403054219645275682933661731244106498), inclusive: false }, t)), Int414, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int415, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int415, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int416, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 340282366920938463463374607431768211455, max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(340282366920938463463374607431768211455), max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int416, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int417, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 340282366920938463463374607431768211454, max = 340282366920938463463374607431768211455, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(340282366920938463463374607431768211454), max: Some(340282366920938463463374607431768211455), inclusive: false }, t)), Int417, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int418, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 200))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(0), max: Some(200), inclusive: true }, t)), Int418, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int419, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 340282366920938463463374607431768211455))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: None, max: Some(340282366920938463463374607431768211455), inclusive: true }, t)), Int419, validators::errors::UnsignedIntegerError, |_| None));
}

fn part21(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int420, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(200), max: Some(202), inclusive: false }, t)), Int420, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int421, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 154371081616485851237958523672842021964, max = 189230829700244183221363748044870552610, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(154371081616485851237958523672842021964), max: Some(189230829700244183221363748044870552610), inclusive: false }, t)), Int421, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int422, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 53, max = 4945664756613009631901082939597919787, inclusive = true))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(53), max: Some(4945664756613009631901082939597919787), inclusive: true }, t)), Int422, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int423, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 9903520314283042199192993792, max = 84753533801234359665754352477460589920, inclusive = false))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(9903520314283042199192993792), max: Some(84753533801234359665754352477460589920), inclusive: false }, t)), Int423, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int424, "unsigned_integer", r#"unsigned_integer usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Int424, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int425, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 3, max = 100))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(3), max: Some(100), inclusive: true }, t)), Int425, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int426, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 18446744073709551614, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: true }, t)), Int426, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int427, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 5))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(5), max: None, inclusive: true }, t)), Int427, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int428, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 7))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: None, max: Some(7), inclusive: true }, t)), Int428, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int429, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 42, max = 42))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(42), max: Some(42), inclusive: true }, t)), Int429, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int430, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 2, max = 9, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(2), max: Some(9), inclusive: false }, t)), Int430, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int431, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 10, max = 11, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(10), max: Some(11), inclusive: false }, t)), Int431, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int432, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 3, max = 100))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(3), max: Some(100), inclusive: true }, t)), Int432, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int433, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int433, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int434, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 5))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(5), max: None, inclusive: true }, t)), Int434, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int435, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: None, max: Some(7), inclusive: true }, t)), Int435, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int436, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 7, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: None, max: Some(7), inclusive: false }, t)), Int436, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int437, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 2, max = 9, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(2), max: Some(9), inclusive: false }, t)), Int437, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int438, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 18446744073709551614, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(18446744073709551614), max: Some(18446744073709551615), inclusive: true }, t)), Int438, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int439, "unsigned_integer", r#"unsigned_integer(range(Inside(3..=9))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(3), max: Some(9), inclusive: true }, t)), Int439, validators::errors::UnsignedIntegerError, |_| None));
}

fn part22(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int440, "unsigned_integer", r#"unsigned_integer(range(Outside(3..9))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(3), max: Some(9), inclusive: false }, t)), Int440, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int441, "unsigned_integer", r#"unsigned_integer(range(Inside(..=9))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: None, max: Some(9), inclusive: true }, t)), Int441, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int442, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 18446744073709551615, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(18446744073709551615), max: Some(18446744073709551615), inclusive: true }, t)), Int442, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int443, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 18446744073709551614))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(18446744073709551614), inclusive: true }, t)), Int443, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int444, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 1, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(1), max: Some(18446744073709551615), inclusive: true }, t)), Int444, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int445, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 18446744073709551615, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(18446744073709551615), inclusive: false }, t)), Int445, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int446, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 1, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(1), inclusive: false }, t)), Int446, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int447, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 200))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(200), inclusive: true }, t)), Int447, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int448, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(200), max: Some(18446744073709551615), inclusive: true }, t)), Int448, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int449, "unsigned_integer", r#"unsigned_integer(range(Inside(max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: None, max: Some(18446744073709551615), inclusive: true }, t)), Int449, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int450, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, max = 202, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(200), max: Some(202), inclusive: false }, t)), Int450, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int451, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 200, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(200), max: None, inclusive: false }, t)), Int451, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int452, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0, max = 131072))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(0), max: Some(131072), inclusive: true }, t)), Int452, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int453, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 95, max = 5369622003753079162, inclusive = true))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(95), max: Some(5369622003753079162), inclusive: true }, t)), Int453, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int454, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 76, max = 5079924205024343488, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Inside, min: Some(76), max: Some(5079924205024343488), inclusive: false }, t)), Int454, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int455, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 0))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(0), inclusive: true }, t)), Int455, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int456, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 18446744073709551615, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(18446744073709551615), max: Some(18446744073709551615), inclusive: true }, t)), Int456, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int457, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 18446744073709551614))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(18446744073709551614), inclusive: true }, t)), Int457, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int458, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 1, max = 18446744073709551615))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(1), max: Some(18446744073709551615), inclusive: true }, t)), Int458, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int459, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 18446744073709551615, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(18446744073709551615), inclusive: false }, t)), Int459, validators::errors::UnsignedIntegerError, |_| None));
}

fn part23(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int460, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 1, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(1), inclusive: false }, t)), Int460, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int461, "unsigned_integer", r#"unsigned_integer(range(Outside(max = 0))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: None, max: Some(0), inclusive: true }, t)), Int461, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int462, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: None, inclusive: true }, t)), Int462, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int463, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 200, max = 202, inclusive = false))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(200), max: Some(202), inclusive: false }, t)), Int463, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int464, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 79, inclusive = true))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(79), inclusive: true }, t)), Int464, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int465, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 536870912, inclusive = true))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(536870912), inclusive: true }, t)), Int465, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int466, "unsigned_integer", r#"unsigned_integer(range(Outside(min = 0, max = 6018000090171030460))) usize"#, |t| judge_u(&CfgU { signed: false, bits: 64, kind: Kind::Outside, min: Some(0), max: Some(6018000090171030460), inclusive: true }, t)), Int466, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int467, "signed_integer", r#"signed_integer(range(Inside(min = -0x10, max = 0b1111))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-16), max: Some(15), inclusive: true }, t)), Int467, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int468, "signed_integer", r#"signed_integer(range(Outside(max(0o100), min(-1_0_0)))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Outside, min: Some(-100), max: Some(64), inclusive: true }, t)), Int468, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int469, "signed_integer", r#"signed_integer(range(Inside(inclusive(false), min = -7i8, max = 1_00i8))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(-7), max: Some(100), inclusive: false }, t)), Int469, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int470, "signed_integer", r#"signed_integer(range(Inside(0x0..=0x64))) i8"#, |t| judge(&Cfg { signed: true, bits: 8, kind: Kind::Inside, min: Some(0), max: Some(100), inclusive: true }, t)), Int470, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int471, "signed_integer", r#"signed_integer(range(Inside(min = -0x10, max = 0b1111))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-16), max: Some(15), inclusive: true }, t)), Int471, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int472, "signed_integer", r#"signed_integer(range(Outside(max(0o100), min(-1_0_0)))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Outside, min: Some(-100), max: Some(64), inclusive: true }, t)), Int472, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int473, "signed_integer", r#"signed_integer(range(Inside(inclusive(false), min = -7i32, max = 1_00i32))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(-7), max: Some(100), inclusive: false }, t)), Int473, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int474, "signed_integer", r#"signed_integer(range(Inside(0x0..=0x64))) i32"#, |t| judge(&Cfg { signed: true, bits: 32, kind: Kind::Inside, min: Some(0), max: Some(100), inclusive: true }, t)), Int474, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int475, "signed_integer", r#"signed_integer(range(Inside(min = -0x10, max = 0b1111))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-16), max: Some(15), inclusive: true }, t)), Int475, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int476, "signed_integer", r#"signed_integer(range(Outside(max(0o100), min(-1_0_0)))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Outside, min: Some(-100), max: Some(64), inclusive: true }, t)), Int476, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int477, "signed_integer", r#"signed_integer(range(Inside(inclusive(false), min = -7i128, max = 1_00i128))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(-7), max: Some(100), inclusive: false }, t)), Int477, validators::errors::SignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int478, "signed_integer", r#"signed_integer(range(Inside(0x0..=0x64))) i128"#, |t| judge(&Cfg { signed: true, bits: 128, kind: Kind::Inside, min: Some(0), max: Some(100), inclusive: true }, t)), Int478, validators::errors::SignedIntegerError, |_| None));
    v.push(ws!(target!(Int479, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0x10, max = 0xff))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(16), max: Some(255), inclusive: true }, t)), Int479, validators::errors::UnsignedIntegerError, |_| None));
}

fn part24(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int480, "unsigned_integer", r#"unsigned_integer(range(Outside(max(0o100), min(0b1010)))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Outside, min: Some(10), max: Some(64), inclusive: true }, t)), Int480, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int481, "unsigned_integer", r#"unsigned_integer(range(Inside(inclusive = false, min = 7u8, max = 1_00u8))) u8"#, |t| judge_u(&CfgU { signed: false, bits: 8, kind: Kind::Inside, min: Some(7), max: Some(100), inclusive: false }, t)), Int481, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int482, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0x10, max = 0xff))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(16), max: Some(255), inclusive: true }, t)), Int482, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int483, "unsigned_integer", r#"unsigned_integer(range(Outside(max(0o100), min(0b1010)))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Outside, min: Some(10), max: Some(64), inclusive: true }, t)), Int483, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int484, "unsigned_integer", r#"unsigned_integer(range(Inside(inclusive = false, min = 7u32, max = 1_00u32))) u32"#, |t| judge_u(&CfgU { signed: false, bits: 32, kind: Kind::Inside, min: Some(7), max: Some(100), inclusive: false }, t)), Int484, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int485, "unsigned_integer", r#"unsigned_integer(range(Inside(min = 0x10, max = 0xff))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(16), max: Some(255), inclusive: true }, t)), Int485, validators::errors::UnsignedIntegerError, |_| None));
    v.push(ws!(target!(Int486, "unsigned_integer", r#"unsigned_integer(range(Outside(max(0o100), min(0b1010)))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Outside, min: Some(10), max: Some(64), inclusive: true }, t)), Int486, validators::errors::UnsignedIntegerError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Int487, "unsigned_integer", r#"unsigned_integer(range(Inside(inclusive = false, min = 7u128, max = 1_00u128))) u128"#, |t| judge_u(&CfgU { signed: false, bits: 128, kind: Kind::Inside, min: Some(7), max: Some(100), inclusive: false }, t)), Int487, validators::errors::UnsignedIntegerError, |_| None));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    part7(&mut v);
    part8(&mut v);
    part9(&mut v);
    part10(&mut v);
    part11(&mut v);
    part12(&mut v);
    part13(&mut v);
    part14(&mut v);
    part15(&mut v);
    part16(&mut v);
    part17(&mut v);
    part18(&mut v);
    part19(&mut v);
    part20(&mut v);
    part21(&mut v);
    part22(&mut v);
    part23(&mut v);
    part24(&mut v);
    v
}
