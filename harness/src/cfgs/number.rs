// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::number::*;

pub const POINTS: &[f64] = &[-1.7976931348623157e+308, -3.4028234663852886e+38, -10000000000.0, -1000000000.0, -10.5, -7.0, -3.0, -2.0, -1.5, -1.0, -0.5, -0.25, -1.401298464324817e-45, -5e-324, 0.0, 5e-324, 1.401298464324817e-45, 0.001, 0.1, 0.2, 0.30000000000000004, 0.5, 1.0, 1.0000000000000002, 1.0000001192092896, 1.5, 2.0, 2.5, 3.0, 100.0, 250.0, 1000.0, 16777216.0, 16777217.0, 9007199254740992.0, 1e+30, 3.4028234663852886e+38, 1.7976931348623157e+308];

#[derive(Debug, Clone, Validator)]
#[validator(number)]
pub struct Num0(pub f32);
impl Dump for Num0 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num0; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must)))]
pub struct Num1(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num1 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num1; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5, max = 1000)), conflict(Allow)))]
pub struct Num2(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num2 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num2; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0)), conflict(Allow)))]
pub struct Num3(pub f32);
impl Dump for Num3 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num3; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(max = 0.1)), conflict(Allow)))]
pub struct Num4(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num4 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num4; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)))]
pub struct Num5(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num5 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num5; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = -0.25, max = 2.5, inclusive = false)), conflict(Allow)))]
pub struct Num6(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num6 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num6; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(max = 3, inclusive = false)), conflict(Allow)))]
pub struct Num7(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num7 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num7; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5, max = 1000))))]
pub struct Num8(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num8 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num8; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0))))]
pub struct Num9(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num9 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num9; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(max = 0.1))))]
pub struct Num10(pub f32);
impl Dump for Num10 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num10; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 0))))]
pub struct Num11(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num11 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num11; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num12(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num12 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num12; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(max = 3, inclusive = false))))]
pub struct Num13(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num13 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num13; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow)))]
pub struct Num14(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num14 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num14; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5, max = 1000))))]
pub struct Num15(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num15 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num15; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0))))]
pub struct Num16(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num16 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num16; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 0.1))))]
pub struct Num17(pub f32);
impl Dump for Num17 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num17; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.5, max = 0.5))))]
pub struct Num18(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num18 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num18; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num19(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num19 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num19; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 3, inclusive = false))))]
pub struct Num20(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num20 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num20; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5, max = 1000))))]
pub struct Num21(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num21 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num21; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0))))]
pub struct Num22(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num22 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num22; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 0.1))))]
pub struct Num23(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num23 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num23; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 0))))]
pub struct Num24(pub f32);
impl Dump for Num24 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num24; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num25(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num25 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num25; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 3, inclusive = false))))]
pub struct Num26(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num26 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num26; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow)))]
pub struct Num27(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num27 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num27; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 1000))))]
pub struct Num28(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num28 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num28; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0))))]
pub struct Num29(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num29 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num29; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 0.1))))]
pub struct Num30(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num30 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num30; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.5, max = 0.5))))]
pub struct Num31(pub f32);
impl Dump for Num31 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num31; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num32(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num32 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num32; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 3, inclusive = false))))]
pub struct Num33(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num33 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num33; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 1000))))]
pub struct Num34(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num34 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num34; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0))))]
pub struct Num35(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num35 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num35; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 0.1))))]
pub struct Num36(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num36 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num36; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 0))))]
pub struct Num37(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num37 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num37; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num38(pub f32);
impl Dump for Num38 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num38; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 3, inclusive = false))))]
pub struct Num39(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num39 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num39; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(0.5..=2.5))))]
pub struct Num40(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num40 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num40; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan = Disallow, range(Outside(1.0..2.5))))]
pub struct Num41(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num41 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num41; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Num42(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num42 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num42; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1, max = 0, inclusive = false))))]
pub struct Num43(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num43 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num43; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 2, max = 3, inclusive = false))))]
pub struct Num44(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num44 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num44; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.5, max = 1.5, inclusive = false)), conflict(Allow)))]
pub struct Num45(pub f32);
impl Dump for Num45 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num45; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -0.5, max = 0.5, inclusive = false))))]
pub struct Num46(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num46 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num46; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 1, max = 1.0000001192092896, inclusive = false))))]
pub struct Num47(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num47 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num47; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 1, max = 1.0000001192092896))))]
pub struct Num48(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num48 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num48; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 1.401298464324817e-45, inclusive = false)), conflict(Allow)))]
pub struct Num49(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num49 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num49; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1.401298464324817e-45, max = 1.401298464324817e-45))))]
pub struct Num50(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num50 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num50; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.401298464324817e-45, max = 1.401298464324817e-45, inclusive = false))))]
pub struct Num51(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num51 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num51; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38))))]
pub struct Num52(pub f32);
impl Dump for Num52 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num52; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38, inclusive = false)), conflict(Allow)))]
pub struct Num53(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num53 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num53; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 3.4028234663852886e+38))))]
pub struct Num54(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num54 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num54; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(max = -3.4028234663852886e+38))))]
pub struct Num55(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num55 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num55; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = -3.4028234663852886e+38, inclusive = false))))]
pub struct Num56(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num56 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num56; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.0, max = -0.0)), conflict(Allow)))]
pub struct Num57(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num57 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num57; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -0.0, max = 0.0))))]
pub struct Num58(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num58 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num58; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -10000000000.0, max = -1000000000.0, inclusive = false))))]
pub struct Num59(pub f32);
impl Dump for Num59 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num59; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 16777216, max = 16777217))))]
pub struct Num60(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num60 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num60; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 9007199254740992, max = 9007199254740993)), conflict(Allow)))]
pub struct Num61(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num61 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num61; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.2))))]
pub struct Num62(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num62 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num62; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.30000000000000004, max = 0.5))))]
pub struct Num63(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num63 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num63; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -7, max = -7))))]
pub struct Num64(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num64 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num64; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 1e+30, max = 1e+30)), conflict(Allow)))]
pub struct Num65(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num65 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num65; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -2, inclusive = false))))]
pub struct Num66(pub f32);
impl Dump for Num66 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num66; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Num67(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num67 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num67; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1, max = 0, inclusive = false))))]
pub struct Num68(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num68 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num68; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 2, max = 3, inclusive = false))))]
pub struct Num69(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num69 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num69; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.5, max = 1.5, inclusive = false))))]
pub struct Num70(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num70 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num70; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -0.5, max = 0.5, inclusive = false))))]
pub struct Num71(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num71 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num71; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 1, max = 1.0000001192092896, inclusive = false))))]
pub struct Num72(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num72 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num72; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 1, max = 1.0000001192092896))))]
pub struct Num73(pub f32);
impl Dump for Num73 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num73; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 1.401298464324817e-45, inclusive = false))))]
pub struct Num74(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num74 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num74; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -1.401298464324817e-45, max = 1.401298464324817e-45))))]
pub struct Num75(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num75 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num75; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.401298464324817e-45, max = 1.401298464324817e-45, inclusive = false))))]
pub struct Num76(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num76 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num76; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38))))]
pub struct Num77(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num77 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num77; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38, inclusive = false))))]
pub struct Num78(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num78 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num78; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 3.4028234663852886e+38))))]
pub struct Num79(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num79 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num79; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(max = -3.4028234663852886e+38))))]
pub struct Num80(pub f32);
impl Dump for Num80 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num80; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = -3.4028234663852886e+38, inclusive = false))))]
pub struct Num81(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num81 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num81; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.0, max = -0.0))))]
pub struct Num82(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num82 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num82; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -0.0, max = 0.0))))]
pub struct Num83(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num83 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num83; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -10000000000.0, max = -1000000000.0, inclusive = false))))]
pub struct Num84(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num84 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num84; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 16777216, max = 16777217))))]
pub struct Num85(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num85 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num85; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 9007199254740992, max = 9007199254740993))))]
pub struct Num86(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num86 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num86; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.2))))]
pub struct Num87(pub f32);
impl Dump for Num87 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num87; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.30000000000000004, max = 0.5))))]
pub struct Num88(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num88 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num88; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -7, max = -7))))]
pub struct Num89(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num89 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num89; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 1e+30, max = 1e+30))))]
pub struct Num90(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num90 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num90; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -2, inclusive = false))))]
pub struct Num91(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num91 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num91; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1_0.5, max = 1E3))))]
pub struct Num92(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num92 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num92; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min(1e-3), max(2.5e2f32)))))]
pub struct Num93(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num93 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num93; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(inclusive = false, max = 1_000, min = -3)), nan(Disallow)))]
pub struct Num94(pub f32);
impl Dump for Num94 { fn dump(&self) -> String { dump_f32(self.0) } }
subject!(Num94; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(5e-1..1_0e1))))]
pub struct Num95(pub f32);
#[cfg(not(feature = "lite"))]
impl Dump for Num95 { fn dump(&self) -> String { dump_f32(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num95; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number)]
pub struct Num96(pub f64);
impl Dump for Num96 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num96; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must)))]
pub struct Num97(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num97 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num97; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.5, max = 1000)), conflict(Allow)))]
pub struct Num98(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num98 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num98; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0)), conflict(Allow)))]
pub struct Num99(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num99 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num99; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(max = 0.1)), conflict(Allow)))]
pub struct Num100(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num100 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num100; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)))]
pub struct Num101(pub f64);
impl Dump for Num101 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num101; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = -0.25, max = 2.5, inclusive = false)), conflict(Allow)))]
pub struct Num102(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num102 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num102; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(max = 3, inclusive = false)), conflict(Allow)))]
pub struct Num103(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num103 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num103; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.5, max = 1000))))]
pub struct Num104(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num104 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num104; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0))))]
pub struct Num105(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num105 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num105; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(max = 0.1))))]
pub struct Num106(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num106 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num106; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 0))))]
pub struct Num107(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num107 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num107; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num108(pub f64);
impl Dump for Num108 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num108; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(max = 3, inclusive = false))))]
pub struct Num109(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num109 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num109; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow)))]
pub struct Num110(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num110 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num110; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1.5, max = 1000))))]
pub struct Num111(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num111 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num111; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0))))]
pub struct Num112(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num112 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num112; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 0.1))))]
pub struct Num113(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num113 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num113; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.5, max = 0.5))))]
pub struct Num114(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num114 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num114; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num115(pub f64);
impl Dump for Num115 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num115; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(max = 3, inclusive = false))))]
pub struct Num116(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num116 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num116; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1.5, max = 1000))))]
pub struct Num117(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num117 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num117; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0))))]
pub struct Num118(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num118 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num118; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 0.1))))]
pub struct Num119(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num119 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num119; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0, max = 0))))]
pub struct Num120(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num120 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num120; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num121(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num121 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num121; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(max = 3, inclusive = false))))]
pub struct Num122(pub f64);
impl Dump for Num122 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num122; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow)))]
pub struct Num123(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num123 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num123; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.5, max = 1000))))]
pub struct Num124(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num124 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num124; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0))))]
pub struct Num125(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num125 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num125; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 0.1))))]
pub struct Num126(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num126 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num126; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 0.5, max = 0.5))))]
pub struct Num127(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num127 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num127; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num128(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num128 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num128; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = 3, inclusive = false))))]
pub struct Num129(pub f64);
impl Dump for Num129 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num129; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.5, max = 1000))))]
pub struct Num130(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num130 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num130; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0))))]
pub struct Num131(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num131 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num131; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 0.1))))]
pub struct Num132(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num132 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num132; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 0, max = 0))))]
pub struct Num133(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num133 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num133; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -0.25, max = 2.5, inclusive = false))))]
pub struct Num134(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num134 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num134; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = 3, inclusive = false))))]
pub struct Num135(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num135 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num135; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(0.5..=2.5))))]
pub struct Num136(pub f64);
impl Dump for Num136 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num136; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan = Disallow, range(Outside(1.0..2.5))))]
pub struct Num137(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num137 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num137; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0, max = 1, inclusive = false))))]
pub struct Num138(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num138 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num138; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -1, max = 0, inclusive = false))))]
pub struct Num139(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num139 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num139; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 2, max = 3, inclusive = false))))]
pub struct Num140(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num140 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num140; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.5, max = 1.5, inclusive = false)), conflict(Allow)))]
pub struct Num141(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num141 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num141; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -0.5, max = 0.5, inclusive = false))))]
pub struct Num142(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num142 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num142; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 1, max = 1.0000000000000002, inclusive = false))))]
pub struct Num143(pub f64);
impl Dump for Num143 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num143; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 1, max = 1.0000000000000002))))]
pub struct Num144(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num144 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num144; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0, max = 5e-324, inclusive = false)), conflict(Allow)))]
pub struct Num145(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num145 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num145; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -5e-324, max = 5e-324))))]
pub struct Num146(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num146 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num146; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -5e-324, max = 5e-324, inclusive = false))))]
pub struct Num147(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num147 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num147; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308))))]
pub struct Num148(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num148 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num148; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308, inclusive = false)), conflict(Allow)))]
pub struct Num149(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num149 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num149; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 1.7976931348623157e+308))))]
pub struct Num150(pub f64);
impl Dump for Num150 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num150; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(max = -1.7976931348623157e+308))))]
pub struct Num151(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num151 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num151; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(max = -1.7976931348623157e+308, inclusive = false))))]
pub struct Num152(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num152 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num152; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 0.0, max = -0.0)), conflict(Allow)))]
pub struct Num153(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num153 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num153; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -0.0, max = 0.0))))]
pub struct Num154(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num154 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num154; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = -10000000000.0, max = -1000000000.0, inclusive = false))))]
pub struct Num155(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num155 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num155; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = 16777216, max = 16777217))))]
pub struct Num156(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num156 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num156; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 9007199254740992, max = 9007199254740993)), conflict(Allow)))]
pub struct Num157(pub f64);
impl Dump for Num157 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num157; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = 0.1, max = 0.2))))]
pub struct Num158(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num158 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num158; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Inside(min = 0.30000000000000004, max = 0.5))))]
pub struct Num159(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num159 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num159; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Inside(min = -7, max = -7))))]
pub struct Num160(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num160 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num160; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Inside(min = 1e+30, max = 1e+30)), conflict(Allow)))]
pub struct Num161(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num161 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num161; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -2, inclusive = false))))]
pub struct Num162(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num162 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num162; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0, max = 1, inclusive = false))))]
pub struct Num163(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num163 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num163; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -1, max = 0, inclusive = false))))]
pub struct Num164(pub f64);
impl Dump for Num164 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num164; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 2, max = 3, inclusive = false))))]
pub struct Num165(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num165 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num165; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.5, max = 1.5, inclusive = false))))]
pub struct Num166(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num166 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num166; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -0.5, max = 0.5, inclusive = false))))]
pub struct Num167(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num167 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num167; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 1, max = 1.0000000000000002, inclusive = false))))]
pub struct Num168(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num168 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num168; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 1, max = 1.0000000000000002))))]
pub struct Num169(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num169 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num169; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0, max = 5e-324, inclusive = false))))]
pub struct Num170(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num170 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num170; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -5e-324, max = 5e-324))))]
pub struct Num171(pub f64);
impl Dump for Num171 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num171; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -5e-324, max = 5e-324, inclusive = false))))]
pub struct Num172(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num172 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num172; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308))))]
pub struct Num173(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num173 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num173; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308, inclusive = false))))]
pub struct Num174(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num174 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num174; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 1.7976931348623157e+308))))]
pub struct Num175(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num175 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num175; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(max = -1.7976931348623157e+308))))]
pub struct Num176(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num176 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num176; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(max = -1.7976931348623157e+308, inclusive = false))))]
pub struct Num177(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num177 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num177; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 0.0, max = -0.0))))]
pub struct Num178(pub f64);
impl Dump for Num178 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num178; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -0.0, max = 0.0))))]
pub struct Num179(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num179 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num179; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = -10000000000.0, max = -1000000000.0, inclusive = false))))]
pub struct Num180(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num180 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num180; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = 16777216, max = 16777217))))]
pub struct Num181(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num181 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num181; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 9007199254740992, max = 9007199254740993))))]
pub struct Num182(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num182 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num182; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = 0.1, max = 0.2))))]
pub struct Num183(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num183 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num183; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Allow), range(Outside(min = 0.30000000000000004, max = 0.5))))]
pub struct Num184(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num184 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num184; text, num);

#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Disallow), range(Outside(min = -7, max = -7))))]
pub struct Num185(pub f64);
impl Dump for Num185 { fn dump(&self) -> String { dump_f64(self.0) } }
subject!(Num185; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(nan(Must), range(Outside(min = 1e+30, max = 1e+30))))]
pub struct Num186(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num186 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num186; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min = -2, inclusive = false))))]
pub struct Num187(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num187 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num187; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(min = -1_0.5, max = 1E3))))]
pub struct Num188(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num188 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num188; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Outside(min(1e-3), max(2.5e2f64)))))]
pub struct Num189(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num189 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num189; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(inclusive = false, max = 1_000, min = -3)), nan(Disallow)))]
pub struct Num190(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num190 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num190; text, num);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(number(range(Inside(5e-1..1_0e1))))]
pub struct Num191(pub f64);
#[cfg(not(feature = "lite"))]
impl Dump for Num191 { fn dump(&self) -> String { dump_f64(self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Num191; text, num);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Num0, "number", r#"number f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num0, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num1, "number", r#"number(nan(Must)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num1, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num2, "number", r#"number(nan(Must), range(Inside(min = -1.5, max = 1000)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num2, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num3, "number", r#"number(nan(Must), range(Inside(min = 0)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(0.0), max: None, inclusive: true }, t)), Num3, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num4, "number", r#"number(nan(Must), range(Inside(max = 0.1)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: None, max: Some(0.1), inclusive: true }, t)), Num4, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num5, "number", r#"number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(0.5), max: Some(0.5), inclusive: true }, t)), Num5, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num6, "number", r#"number(nan(Must), range(Inside(min = -0.25, max = 2.5, inclusive = false)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num6, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num7, "number", r#"number(nan(Must), range(Inside(max = 3, inclusive = false)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: None, max: Some(3.0), inclusive: false }, t)), Num7, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num8, "number", r#"number(nan(Must), range(Outside(min = -1.5, max = 1000))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num8, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num9, "number", r#"number(nan(Must), range(Outside(min = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(0.0), max: None, inclusive: true }, t)), Num9, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num10, "number", r#"number(nan(Must), range(Outside(max = 0.1))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: None, max: Some(0.1), inclusive: true }, t)), Num10, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num11, "number", r#"number(nan(Must), range(Outside(min = 0, max = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(0.0), max: Some(0.0), inclusive: true }, t)), Num11, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num12, "number", r#"number(nan(Must), range(Outside(min = -0.25, max = 2.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num12, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num13, "number", r#"number(nan(Must), range(Outside(max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: None, max: Some(3.0), inclusive: false }, t)), Num13, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num14, "number", r#"number(nan(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num14, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num15, "number", r#"number(nan(Allow), range(Inside(min = -1.5, max = 1000))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num15, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num16, "number", r#"number(nan(Allow), range(Inside(min = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.0), max: None, inclusive: true }, t)), Num16, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num17, "number", r#"number(nan(Allow), range(Inside(max = 0.1))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: None, max: Some(0.1), inclusive: true }, t)), Num17, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num18, "number", r#"number(nan(Allow), range(Inside(min = 0.5, max = 0.5))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.5), max: Some(0.5), inclusive: true }, t)), Num18, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num19, "number", r#"number(nan(Allow), range(Inside(min = -0.25, max = 2.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num19, validators::errors::NumberError, |_| None));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num20, "number", r#"number(nan(Allow), range(Inside(max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: None, max: Some(3.0), inclusive: false }, t)), Num20, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num21, "number", r#"number(nan(Allow), range(Outside(min = -1.5, max = 1000))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num21, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num22, "number", r#"number(nan(Allow), range(Outside(min = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(0.0), max: None, inclusive: true }, t)), Num22, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num23, "number", r#"number(nan(Allow), range(Outside(max = 0.1))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: None, max: Some(0.1), inclusive: true }, t)), Num23, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num24, "number", r#"number(nan(Allow), range(Outside(min = 0, max = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(0.0), max: Some(0.0), inclusive: true }, t)), Num24, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num25, "number", r#"number(nan(Allow), range(Outside(min = -0.25, max = 2.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num25, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num26, "number", r#"number(nan(Allow), range(Outside(max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: None, max: Some(3.0), inclusive: false }, t)), Num26, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num27, "number", r#"number(nan(Disallow)) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num27, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num28, "number", r#"number(nan(Disallow), range(Inside(min = -1.5, max = 1000))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num28, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num29, "number", r#"number(nan(Disallow), range(Inside(min = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(0.0), max: None, inclusive: true }, t)), Num29, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num30, "number", r#"number(nan(Disallow), range(Inside(max = 0.1))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: None, max: Some(0.1), inclusive: true }, t)), Num30, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num31, "number", r#"number(nan(Disallow), range(Inside(min = 0.5, max = 0.5))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(0.5), max: Some(0.5), inclusive: true }, t)), Num31, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num32, "number", r#"number(nan(Disallow), range(Inside(min = -0.25, max = 2.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num32, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num33, "number", r#"number(nan(Disallow), range(Inside(max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: None, max: Some(3.0), inclusive: false }, t)), Num33, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num34, "number", r#"number(nan(Disallow), range(Outside(min = -1.5, max = 1000))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num34, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num35, "number", r#"number(nan(Disallow), range(Outside(min = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(0.0), max: None, inclusive: true }, t)), Num35, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num36, "number", r#"number(nan(Disallow), range(Outside(max = 0.1))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: None, max: Some(0.1), inclusive: true }, t)), Num36, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num37, "number", r#"number(nan(Disallow), range(Outside(min = 0, max = 0))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(0.0), max: Some(0.0), inclusive: true }, t)), Num37, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num38, "number", r#"number(nan(Disallow), range(Outside(min = -0.25, max = 2.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num38, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num39, "number", r#"number(nan(Disallow), range(Outside(max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: None, max: Some(3.0), inclusive: false }, t)), Num39, validators::errors::NumberError, |_| None));
}

fn part2(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num40, "number", r#"number(range(Inside(0.5..=2.5))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.5), max: Some(2.5), inclusive: true }, t)), Num40, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num41, "number", r#"number(nan = Disallow, range(Outside(1.0..2.5))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(1.0), max: Some(2.5), inclusive: false }, t)), Num41, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num42, "number", r#"number(range(Inside(min = 0, max = 1, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.0), max: Some(1.0), inclusive: false }, t)), Num42, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num43, "number", r#"number(nan(Allow), range(Inside(min = -1, max = 0, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-1.0), max: Some(0.0), inclusive: false }, t)), Num43, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num44, "number", r#"number(nan(Disallow), range(Inside(min = 2, max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(2.0), max: Some(3.0), inclusive: false }, t)), Num44, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num45, "number", r#"number(nan(Must), range(Inside(min = 0.5, max = 1.5, inclusive = false)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(0.5), max: Some(1.5), inclusive: false }, t)), Num45, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num46, "number", r#"number(range(Inside(min = -0.5, max = 0.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-0.5), max: Some(0.5), inclusive: false }, t)), Num46, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num47, "number", r#"number(nan(Allow), range(Inside(min = 1, max = 1.0000001192092896, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(1.0), max: Some(1.0000001192092896), inclusive: false }, t)), Num47, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num48, "number", r#"number(nan(Disallow), range(Inside(min = 1, max = 1.0000001192092896))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(1.0), max: Some(1.0000001192092896), inclusive: true }, t)), Num48, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num49, "number", r#"number(nan(Must), range(Inside(min = 0, max = 1.401298464324817e-45, inclusive = false)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(0.0), max: Some(1.401298464324817e-45), inclusive: false }, t)), Num49, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num50, "number", r#"number(range(Inside(min = -1.401298464324817e-45, max = 1.401298464324817e-45))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-1.401298464324817e-45), max: Some(1.401298464324817e-45), inclusive: true }, t)), Num50, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num51, "number", r#"number(nan(Allow), range(Inside(min = -1.401298464324817e-45, max = 1.401298464324817e-45, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-1.401298464324817e-45), max: Some(1.401298464324817e-45), inclusive: false }, t)), Num51, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num52, "number", r#"number(nan(Disallow), range(Inside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(-3.4028234663852886e+38), max: Some(3.4028234663852886e+38), inclusive: true }, t)), Num52, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num53, "number", r#"number(nan(Must), range(Inside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38, inclusive = false)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(-3.4028234663852886e+38), max: Some(3.4028234663852886e+38), inclusive: false }, t)), Num53, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num54, "number", r#"number(range(Inside(min = 3.4028234663852886e+38))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(3.4028234663852886e+38), max: None, inclusive: true }, t)), Num54, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num55, "number", r#"number(nan(Allow), range(Inside(max = -3.4028234663852886e+38))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: None, max: Some(-3.4028234663852886e+38), inclusive: true }, t)), Num55, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num56, "number", r#"number(nan(Disallow), range(Inside(max = -3.4028234663852886e+38, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: None, max: Some(-3.4028234663852886e+38), inclusive: false }, t)), Num56, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num57, "number", r#"number(nan(Must), range(Inside(min = 0.0, max = -0.0)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(0.0), max: Some(-0.0), inclusive: true }, t)), Num57, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num58, "number", r#"number(range(Inside(min = -0.0, max = 0.0))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-0.0), max: Some(0.0), inclusive: true }, t)), Num58, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num59, "number", r#"number(nan(Allow), range(Inside(min = -10000000000.0, max = -1000000000.0, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-10000000000.0), max: Some(-1000000000.0), inclusive: false }, t)), Num59, validators::errors::NumberError, |_| None));
}

fn part3(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num60, "number", r#"number(nan(Disallow), range(Inside(min = 16777216, max = 16777217))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(16777216.0), max: Some(16777217.0), inclusive: true }, t)), Num60, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num61, "number", r#"number(nan(Must), range(Inside(min = 9007199254740992, max = 9007199254740993)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(9007199254740992.0), max: Some(9007199254740992.0), inclusive: true }, t)), Num61, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num62, "number", r#"number(range(Inside(min = 0.1, max = 0.2))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.1), max: Some(0.2), inclusive: true }, t)), Num62, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num63, "number", r#"number(nan(Allow), range(Inside(min = 0.30000000000000004, max = 0.5))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.30000000000000004), max: Some(0.5), inclusive: true }, t)), Num63, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num64, "number", r#"number(nan(Disallow), range(Inside(min = -7, max = -7))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(-7.0), max: Some(-7.0), inclusive: true }, t)), Num64, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num65, "number", r#"number(nan(Must), range(Inside(min = 1e+30, max = 1e+30)), conflict(Allow)) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Inside, min: Some(1e+30), max: Some(1e+30), inclusive: true }, t)), Num65, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num66, "number", r#"number(range(Inside(min = -2, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-2.0), max: None, inclusive: false }, t)), Num66, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num67, "number", r#"number(range(Outside(min = 0, max = 1, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(0.0), max: Some(1.0), inclusive: false }, t)), Num67, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num68, "number", r#"number(nan(Allow), range(Outside(min = -1, max = 0, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-1.0), max: Some(0.0), inclusive: false }, t)), Num68, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num69, "number", r#"number(nan(Disallow), range(Outside(min = 2, max = 3, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(2.0), max: Some(3.0), inclusive: false }, t)), Num69, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num70, "number", r#"number(nan(Must), range(Outside(min = 0.5, max = 1.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(0.5), max: Some(1.5), inclusive: false }, t)), Num70, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num71, "number", r#"number(range(Outside(min = -0.5, max = 0.5, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-0.5), max: Some(0.5), inclusive: false }, t)), Num71, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num72, "number", r#"number(nan(Allow), range(Outside(min = 1, max = 1.0000001192092896, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(1.0), max: Some(1.0000001192092896), inclusive: false }, t)), Num72, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num73, "number", r#"number(nan(Disallow), range(Outside(min = 1, max = 1.0000001192092896))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(1.0), max: Some(1.0000001192092896), inclusive: true }, t)), Num73, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num74, "number", r#"number(nan(Must), range(Outside(min = 0, max = 1.401298464324817e-45, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(0.0), max: Some(1.401298464324817e-45), inclusive: false }, t)), Num74, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num75, "number", r#"number(range(Outside(min = -1.401298464324817e-45, max = 1.401298464324817e-45))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-1.401298464324817e-45), max: Some(1.401298464324817e-45), inclusive: true }, t)), Num75, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num76, "number", r#"number(nan(Allow), range(Outside(min = -1.401298464324817e-45, max = 1.401298464324817e-45, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-1.401298464324817e-45), max: Some(1.401298464324817e-45), inclusive: false }, t)), Num76, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num77, "number", r#"number(nan(Disallow), range(Outside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(-3.4028234663852886e+38), max: Some(3.4028234663852886e+38), inclusive: true }, t)), Num77, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num78, "number", r#"number(nan(Must), range(Outside(min = -3.4028234663852886e+38, max = 3.4028234663852886e+38, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(-3.4028234663852886e+38), max: Some(3.4028234663852886e+38), inclusive: false }, t)), Num78, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num79, "number", r#"number(range(Outside(min = 3.4028234663852886e+38))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(3.4028234663852886e+38), max: None, inclusive: true }, t)), Num79, validators::errors::NumberError, |_| None));
}

fn part4(v: &mut Vec<Target>) {
    v.push(ws!(target!(Num80, "number", r#"number(nan(Allow), range(Outside(max = -3.4028234663852886e+38))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: None, max: Some(-3.4028234663852886e+38), inclusive: true }, t)), Num80, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num81, "number", r#"number(nan(Disallow), range(Outside(max = -3.4028234663852886e+38, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: None, max: Some(-3.4028234663852886e+38), inclusive: false }, t)), Num81, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num82, "number", r#"number(nan(Must), range(Outside(min = 0.0, max = -0.0))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(0.0), max: Some(-0.0), inclusive: true }, t)), Num82, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num83, "number", r#"number(range(Outside(min = -0.0, max = 0.0))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-0.0), max: Some(0.0), inclusive: true }, t)), Num83, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num84, "number", r#"number(nan(Allow), range(Outside(min = -10000000000.0, max = -1000000000.0, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-10000000000.0), max: Some(-1000000000.0), inclusive: false }, t)), Num84, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num85, "number", r#"number(nan(Disallow), range(Outside(min = 16777216, max = 16777217))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(16777216.0), max: Some(16777217.0), inclusive: true }, t)), Num85, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num86, "number", r#"number(nan(Must), range(Outside(min = 9007199254740992, max = 9007199254740993))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(9007199254740992.0), max: Some(9007199254740992.0), inclusive: true }, t)), Num86, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num87, "number", r#"number(range(Outside(min = 0.1, max = 0.2))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(0.1), max: Some(0.2), inclusive: true }, t)), Num87, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num88, "number", r#"number(nan(Allow), range(Outside(min = 0.30000000000000004, max = 0.5))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(0.30000000000000004), max: Some(0.5), inclusive: true }, t)), Num88, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num89, "number", r#"number(nan(Disallow), range(Outside(min = -7, max = -7))) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Outside, min: Some(-7.0), max: Some(-7.0), inclusive: true }, t)), Num89, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num90, "number", r#"number(nan(Must), range(Outside(min = 1e+30, max = 1e+30))) f32"#, |t| judge(&Cfg { single: true, nan: Must, kind: Kind::Outside, min: Some(1e+30), max: Some(1e+30), inclusive: true }, t)), Num90, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num91, "number", r#"number(range(Outside(min = -2, inclusive = false))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(-2.0), max: None, inclusive: false }, t)), Num91, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num92, "number", r#"number(range(Inside(min = -1_0.5, max = 1E3))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(-10.5), max: Some(1000.0), inclusive: true }, t)), Num92, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num93, "number", r#"number(range(Outside(min(1e-3), max(2.5e2f32)))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Outside, min: Some(0.001), max: Some(250.0), inclusive: true }, t)), Num93, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num94, "number", r#"number(range(Inside(inclusive = false, max = 1_000, min = -3)), nan(Disallow)) f32"#, |t| judge(&Cfg { single: true, nan: Disallow, kind: Kind::Inside, min: Some(-3.0), max: Some(1000.0), inclusive: false }, t)), Num94, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num95, "number", r#"number(range(Inside(5e-1..1_0e1))) f32"#, |t| judge(&Cfg { single: true, nan: Allow, kind: Kind::Inside, min: Some(0.5), max: Some(100.0), inclusive: false }, t)), Num95, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num96, "number", r#"number f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num96, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num97, "number", r#"number(nan(Must)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num97, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num98, "number", r#"number(nan(Must), range(Inside(min = -1.5, max = 1000)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num98, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num99, "number", r#"number(nan(Must), range(Inside(min = 0)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(0.0), max: None, inclusive: true }, t)), Num99, validators::errors::NumberError, |_| None));
}

fn part5(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num100, "number", r#"number(nan(Must), range(Inside(max = 0.1)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: None, max: Some(0.1), inclusive: true }, t)), Num100, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num101, "number", r#"number(nan(Must), range(Inside(min = 0.5, max = 0.5)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(0.5), max: Some(0.5), inclusive: true }, t)), Num101, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num102, "number", r#"number(nan(Must), range(Inside(min = -0.25, max = 2.5, inclusive = false)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num102, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num103, "number", r#"number(nan(Must), range(Inside(max = 3, inclusive = false)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: None, max: Some(3.0), inclusive: false }, t)), Num103, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num104, "number", r#"number(nan(Must), range(Outside(min = -1.5, max = 1000))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num104, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num105, "number", r#"number(nan(Must), range(Outside(min = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(0.0), max: None, inclusive: true }, t)), Num105, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num106, "number", r#"number(nan(Must), range(Outside(max = 0.1))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: None, max: Some(0.1), inclusive: true }, t)), Num106, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num107, "number", r#"number(nan(Must), range(Outside(min = 0, max = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(0.0), max: Some(0.0), inclusive: true }, t)), Num107, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num108, "number", r#"number(nan(Must), range(Outside(min = -0.25, max = 2.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num108, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num109, "number", r#"number(nan(Must), range(Outside(max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: None, max: Some(3.0), inclusive: false }, t)), Num109, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num110, "number", r#"number(nan(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num110, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num111, "number", r#"number(nan(Allow), range(Inside(min = -1.5, max = 1000))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num111, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num112, "number", r#"number(nan(Allow), range(Inside(min = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.0), max: None, inclusive: true }, t)), Num112, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num113, "number", r#"number(nan(Allow), range(Inside(max = 0.1))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: None, max: Some(0.1), inclusive: true }, t)), Num113, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num114, "number", r#"number(nan(Allow), range(Inside(min = 0.5, max = 0.5))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.5), max: Some(0.5), inclusive: true }, t)), Num114, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num115, "number", r#"number(nan(Allow), range(Inside(min = -0.25, max = 2.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num115, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num116, "number", r#"number(nan(Allow), range(Inside(max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: None, max: Some(3.0), inclusive: false }, t)), Num116, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num117, "number", r#"number(nan(Allow), range(Outside(min = -1.5, max = 1000))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num117, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num118, "number", r#"number(nan(Allow), range(Outside(min = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(0.0), max: None, inclusive: true }, t)), Num118, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num119, "number", r#"number(nan(Allow), range(Outside(max = 0.1))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: None, max: Some(0.1), inclusive: true }, t)), Num119, validators::errors::NumberError, |_| None));
}

fn part6(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num120, "number", r#"number(nan(Allow), range(Outside(min = 0, max = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(0.0), max: Some(0.0), inclusive: true }, t)), Num120, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num121, "number", r#"number(nan(Allow), range(Outside(min = -0.25, max = 2.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num121, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num122, "number", r#"number(nan(Allow), range(Outside(max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: None, max: Some(3.0), inclusive: false }, t)), Num122, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num123, "number", r#"number(nan(Disallow)) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Unlimited, min: None, max: None, inclusive: true }, t)), Num123, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num124, "number", r#"number(nan(Disallow), range(Inside(min = -1.5, max = 1000))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num124, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num125, "number", r#"number(nan(Disallow), range(Inside(min = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(0.0), max: None, inclusive: true }, t)), Num125, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num126, "number", r#"number(nan(Disallow), range(Inside(max = 0.1))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: None, max: Some(0.1), inclusive: true }, t)), Num126, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num127, "number", r#"number(nan(Disallow), range(Inside(min = 0.5, max = 0.5))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(0.5), max: Some(0.5), inclusive: true }, t)), Num127, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num128, "number", r#"number(nan(Disallow), range(Inside(min = -0.25, max = 2.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num128, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num129, "number", r#"number(nan(Disallow), range(Inside(max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: None, max: Some(3.0), inclusive: false }, t)), Num129, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num130, "number", r#"number(nan(Disallow), range(Outside(min = -1.5, max = 1000))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(-1.5), max: Some(1000.0), inclusive: true }, t)), Num130, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num131, "number", r#"number(nan(Disallow), range(Outside(min = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(0.0), max: None, inclusive: true }, t)), Num131, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num132, "number", r#"number(nan(Disallow), range(Outside(max = 0.1))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: None, max: Some(0.1), inclusive: true }, t)), Num132, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num133, "number", r#"number(nan(Disallow), range(Outside(min = 0, max = 0))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(0.0), max: Some(0.0), inclusive: true }, t)), Num133, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num134, "number", r#"number(nan(Disallow), range(Outside(min = -0.25, max = 2.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(-0.25), max: Some(2.5), inclusive: false }, t)), Num134, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num135, "number", r#"number(nan(Disallow), range(Outside(max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: None, max: Some(3.0), inclusive: false }, t)), Num135, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num136, "number", r#"number(range(Inside(0.5..=2.5))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.5), max: Some(2.5), inclusive: true }, t)), Num136, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num137, "number", r#"number(nan = Disallow, range(Outside(1.0..2.5))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(1.0), max: Some(2.5), inclusive: false }, t)), Num137, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num138, "number", r#"number(range(Inside(min = 0, max = 1, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.0), max: Some(1.0), inclusive: false }, t)), Num138, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num139, "number", r#"number(nan(Allow), range(Inside(min = -1, max = 0, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-1.0), max: Some(0.0), inclusive: false }, t)), Num139, validators::errors::NumberError, |_| None));
}

fn part7(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num140, "number", r#"number(nan(Disallow), range(Inside(min = 2, max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(2.0), max: Some(3.0), inclusive: false }, t)), Num140, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num141, "number", r#"number(nan(Must), range(Inside(min = 0.5, max = 1.5, inclusive = false)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(0.5), max: Some(1.5), inclusive: false }, t)), Num141, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num142, "number", r#"number(range(Inside(min = -0.5, max = 0.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-0.5), max: Some(0.5), inclusive: false }, t)), Num142, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num143, "number", r#"number(nan(Allow), range(Inside(min = 1, max = 1.0000000000000002, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(1.0), max: Some(1.0000000000000002), inclusive: false }, t)), Num143, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num144, "number", r#"number(nan(Disallow), range(Inside(min = 1, max = 1.0000000000000002))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(1.0), max: Some(1.0000000000000002), inclusive: true }, t)), Num144, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num145, "number", r#"number(nan(Must), range(Inside(min = 0, max = 5e-324, inclusive = false)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(0.0), max: Some(5e-324), inclusive: false }, t)), Num145, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num146, "number", r#"number(range(Inside(min = -5e-324, max = 5e-324))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-5e-324), max: Some(5e-324), inclusive: true }, t)), Num146, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num147, "number", r#"number(nan(Allow), range(Inside(min = -5e-324, max = 5e-324, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-5e-324), max: Some(5e-324), inclusive: false }, t)), Num147, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num148, "number", r#"number(nan(Disallow), range(Inside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(-1.7976931348623157e+308), max: Some(1.7976931348623157e+308), inclusive: true }, t)), Num148, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num149, "number", r#"number(nan(Must), range(Inside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308, inclusive = false)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(-1.7976931348623157e+308), max: Some(1.7976931348623157e+308), inclusive: false }, t)), Num149, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num150, "number", r#"number(range(Inside(min = 1.7976931348623157e+308))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(1.7976931348623157e+308), max: None, inclusive: true }, t)), Num150, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num151, "number", r#"number(nan(Allow), range(Inside(max = -1.7976931348623157e+308))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: None, max: Some(-1.7976931348623157e+308), inclusive: true }, t)), Num151, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num152, "number", r#"number(nan(Disallow), range(Inside(max = -1.7976931348623157e+308, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: None, max: Some(-1.7976931348623157e+308), inclusive: false }, t)), Num152, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num153, "number", r#"number(nan(Must), range(Inside(min = 0.0, max = -0.0)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(0.0), max: Some(-0.0), inclusive: true }, t)), Num153, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num154, "number", r#"number(range(Inside(min = -0.0, max = 0.0))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-0.0), max: Some(0.0), inclusive: true }, t)), Num154, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num155, "number", r#"number(nan(Allow), range(Inside(min = -10000000000.0, max = -1000000000.0, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-10000000000.0), max: Some(-1000000000.0), inclusive: false }, t)), Num155, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num156, "number", r#"number(nan(Disallow), range(Inside(min = 16777216, max = 16777217))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(16777216.0), max: Some(16777217.0), inclusive: true }, t)), Num156, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num157, "number", r#"number(nan(Must), range(Inside(min = 9007199254740992, max = 9007199254740993)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(9007199254740992.0), max: Some(9007199254740992.0), inclusive: true }, t)), Num157, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num158, "number", r#"number(range(Inside(min = 0.1, max = 0.2))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.1), max: Some(0.2), inclusive: true }, t)), Num158, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num159, "number", r#"number(nan(Allow), range(Inside(min = 0.30000000000000004, max = 0.5))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.30000000000000004), max: Some(0.5), inclusive: true }, t)), Num159, validators::errors::NumberError, |_| None));
}

fn part8(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num160, "number", r#"number(nan(Disallow), range(Inside(min = -7, max = -7))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(-7.0), max: Some(-7.0), inclusive: true }, t)), Num160, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num161, "number", r#"number(nan(Must), range(Inside(min = 1e+30, max = 1e+30)), conflict(Allow)) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Inside, min: Some(1e+30), max: Some(1e+30), inclusive: true }, t)), Num161, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num162, "number", r#"number(range(Inside(min = -2, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-2.0), max: None, inclusive: false }, t)), Num162, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num163, "number", r#"number(range(Outside(min = 0, max = 1, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(0.0), max: Some(1.0), inclusive: false }, t)), Num163, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num164, "number", r#"number(nan(Allow), range(Outside(min = -1, max = 0, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-1.0), max: Some(0.0), inclusive: false }, t)), Num164, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num165, "number", r#"number(nan(Disallow), range(Outside(min = 2, max = 3, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(2.0), max: Some(3.0), inclusive: false }, t)), Num165, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num166, "number", r#"number(nan(Must), range(Outside(min = 0.5, max = 1.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(0.5), max: Some(1.5), inclusive: false }, t)), Num166, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num167, "number", r#"number(range(Outside(min = -0.5, max = 0.5, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-0.5), max: Some(0.5), inclusive: false }, t)), Num167, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num168, "number", r#"number(nan(Allow), range(Outside(min = 1, max = 1.0000000000000002, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(1.0), max: Some(1.0000000000000002), inclusive: false }, t)), Num168, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num169, "number", r#"number(nan(Disallow), range(Outside(min = 1, max = 1.0000000000000002))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(1.0), max: Some(1.0000000000000002), inclusive: true }, t)), Num169, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num170, "number", r#"number(nan(Must), range(Outside(min = 0, max = 5e-324, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(0.0), max: Some(5e-324), inclusive: false }, t)), Num170, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num171, "number", r#"number(range(Outside(min = -5e-324, max = 5e-324))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-5e-324), max: Some(5e-324), inclusive: true }, t)), Num171, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num172, "number", r#"number(nan(Allow), range(Outside(min = -5e-324, max = 5e-324, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-5e-324), max: Some(5e-324), inclusive: false }, t)), Num172, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num173, "number", r#"number(nan(Disallow), range(Outside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(-1.7976931348623157e+308), max: Some(1.7976931348623157e+308), inclusive: true }, t)), Num173, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num174, "number", r#"number(nan(Must), range(Outside(min = -1.7976931348623157e+308, max = 1.7976931348623157e+308, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(-1.7976931348623157e+308), max: Some(1.7976931348623157e+308), inclusive: false }, t)), Num174, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num175, "number", r#"number(range(Outside(min = 1.7976931348623157e+308))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(1.7976931348623157e+308), max: None, inclusive: true }, t)), Num175, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num176, "number", r#"number(nan(Allow), range(Outside(max = -1.7976931348623157e+308))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: None, max: Some(-1.7976931348623157e+308), inclusive: true }, t)), Num176, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num177, "number", r#"number(nan(Disallow), range(Outside(max = -1.7976931348623157e+308, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: None, max: Some(-1.7976931348623157e+308), inclusive: false }, t)), Num177, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num178, "number", r#"number(nan(Must), range(Outside(min = 0.0, max = -0.0))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(0.0), max: Some(-0.0), inclusive: true }, t)), Num178, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num179, "number", r#"number(range(Outside(min = -0.0, max = 0.0))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-0.0), max: Some(0.0), inclusive: true }, t)), Num179, validators::errors::NumberError, |_| None));
}

fn part9(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num180, "number", r#"number(nan(Allow), range(Outside(min = -10000000000.0, max = -1000000000.0, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-10000000000.0), max: Some(-1000000000.0), inclusive: false }, t)), Num180, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num181, "number", r#"number(nan(Disallow), range(Outside(min = 16777216, max = 16777217))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(16777216.0), max: Some(16777217.0), inclusive: true }, t)), Num181, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num182, "number", r#"number(nan(Must), range(Outside(min = 9007199254740992, max = 9007199254740993))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(9007199254740992.0), max: Some(9007199254740992.0), inclusive: true }, t)), Num182, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num183, "number", r#"number(range(Outside(min = 0.1, max = 0.2))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(0.1), max: Some(0.2), inclusive: true }, t)), Num183, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num184, "number", r#"number(nan(Allow), range(Outside(min = 0.30000000000000004, max = 0.5))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(0.30000000000000004), max: Some(0.5), inclusive: true }, t)), Num184, validators::errors::NumberError, |_| None));
    v.push(ws!(target!(Num185, "number", r#"number(nan(Disallow), range(Outside(min = -7, max = -7))) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Outside, min: Some(-7.0), max: Some(-7.0), inclusive: true }, t)), Num185, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num186, "number", r#"number(nan(Must), range(Outside(min = 1e+30, max = 1e+30))) f64"#, |t| judge(&Cfg { single: false, nan: Must, kind: Kind::Outside, min: Some(1e+30), max: Some(1e+30), inclusive: true }, t)), Num186, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num187, "number", r#"number(range(Outside(min = -2, inclusive = false))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(-2.0), max: None, inclusive: false }, t)), Num187, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num188, "number", r#"number(range(Inside(min = -1_0.5, max = 1E3))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(-10.5), max: Some(1000.0), inclusive: true }, t)), Num188, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num189, "number", r#"number(range(Outside(min(1e-3), max(2.5e2f64)))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Outside, min: Some(0.001), max: Some(250.0), inclusive: true }, t)), Num189, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num190, "number", r#"number(range(Inside(inclusive = false, max = 1_000, min = -3)), nan(Disallow)) f64"#, |t| judge(&Cfg { single: false, nan: Disallow, kind: Kind::Inside, min: Some(-3.0), max: Some(1000.0), inclusive: false }, t)), Num190, validators::errors::NumberError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Num191, "number", r#"number(range(Inside(5e-1..1_0e1))) f64"#, |t| judge(&Cfg { single: false, nan: Allow, kind: Kind::Inside, min: Some(0.5), max: Some(100.0), inclusive: false }, t)), Num191, validators::errors::NumberError, |_| None));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    part7(&mut v);
    part8(&mut v);
    part9(&mut v);
    v
}
