// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::linetext::*;

#[derive(Debug, Clone, Validator)]
#[validator(line)]
pub struct Lt0(pub String);
impl Dump for Lt0 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt0; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2)))]
pub struct Lt1(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt1 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt1; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 0)))]
pub struct Lt2(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt2 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt2; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 1)))]
pub struct Lt3(pub String);
impl Dump for Lt3 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt3; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 3)))]
pub struct Lt4(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt4 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt4; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 0)))]
pub struct Lt5(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt5 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt5; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 5)))]
pub struct Lt6(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt6 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt6; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 0)))]
pub struct Lt7(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt7 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt7; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 1)))]
pub struct Lt8(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt8 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt8; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 3, trimmed_min = 3)))]
pub struct Lt9(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt9 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt9; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 4, trimmed_min = 2)))]
pub struct Lt10(pub String);
impl Dump for Lt10 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt10; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 0)))]
pub struct Lt11(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt11 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt11; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 0, trimmed_min = 0)))]
pub struct Lt12(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt12 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt12; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, max = 6)))]
pub struct Lt13(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt13 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt13; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 4, max = 4)))]
pub struct Lt14(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt14 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt14; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 1, max = 6)))]
pub struct Lt15(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt15 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt15; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 3, max = 6)))]
pub struct Lt16(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt16 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt16; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 0, max = 6)))]
pub struct Lt17(pub String);
impl Dump for Lt17 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt17; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 4, max = 4)))]
pub struct Lt18(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt18 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt18; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct Lt19(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt19 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt19; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 3, trimmed_min = 3, max = 7)))]
pub struct Lt20(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt20 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt20; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 5, trimmed_min = 2, max = 8)))]
pub struct Lt21(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt21 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt21; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, trimmed_min = 0, max = 6)))]
pub struct Lt22(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt22 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt22; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 0, trimmed_min = 0, max = 0)))]
pub struct Lt23(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt23 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt23; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 0, trimmed_min = 0, max = 5)))]
pub struct Lt24(pub String);
impl Dump for Lt24 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt24; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 4, trimmed_min = 4, max = 4)))]
pub struct Lt25(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt25 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt25; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 4, trimmed_min = 0, max = 4)))]
pub struct Lt26(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt26 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt26; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 1, trimmed_min = 1, max = 1)))]
pub struct Lt27(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt27 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt27; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 5, trimmed_min = 5)))]
pub struct Lt28(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt28 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt28; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 7, trimmed_min = 5)))]
pub struct Lt29(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt29 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt29; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 7)))]
pub struct Lt30(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt30 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt30; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 9, trimmed_min = 8)))]
pub struct Lt31(pub String);
impl Dump for Lt31 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt31; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 6, trimmed_min = 6, max = 12)))]
pub struct Lt32(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt32 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt32; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 7, max = 9)))]
pub struct Lt33(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt33 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt33; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 8, trimmed_min = 5, max = 11)))]
pub struct Lt34(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt34 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt34; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 9)))]
pub struct Lt35(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt35 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt35; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 9, max = 12)))]
pub struct Lt36(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt36 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt36; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 12)))]
pub struct Lt37(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt37 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt37; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 16, trimmed_min = 9, max = 40)))]
pub struct Lt38(pub String);
impl Dump for Lt38 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt38; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 256)))]
pub struct Lt39(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt39 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt39; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 255, max = 257)))]
pub struct Lt40(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt40 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt40; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 256)))]
pub struct Lt41(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt41 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt41; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 257, trimmed_min = 130, max = 300)))]
pub struct Lt42(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt42 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt42; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 255, max = 256)))]
pub struct Lt43(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt43 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt43; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 300, trimmed_min = 256)))]
pub struct Lt44(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt44 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt44; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 1000)))]
pub struct Lt45(pub String);
impl Dump for Lt45 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt45; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 65536)))]
pub struct Lt46(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt46 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt46; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(trimmed_min = 65535, max = 65537)))]
pub struct Lt47(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt47 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt47; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(min = 2, max = 65536)))]
pub struct Lt48(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt48 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt48; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max(0x1_0), trimmed_min = 0b10, min(0o10))))]
pub struct Lt49(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt49 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt49; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(char_length(max = 1_0usize, min = 3usize)))]
pub struct Lt50(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt50 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt50; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2)))]
pub struct Lt51(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt51 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt51; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 0)))]
pub struct Lt52(pub String);
impl Dump for Lt52 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt52; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 1)))]
pub struct Lt53(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt53 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt53; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 3)))]
pub struct Lt54(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt54 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt54; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 0)))]
pub struct Lt55(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt55 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt55; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 5)))]
pub struct Lt56(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt56 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt56; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 0)))]
pub struct Lt57(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt57 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt57; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 1)))]
pub struct Lt58(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt58 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt58; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 3, trimmed_min = 3)))]
pub struct Lt59(pub String);
impl Dump for Lt59 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt59; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 4, trimmed_min = 2)))]
pub struct Lt60(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt60 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt60; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 0)))]
pub struct Lt61(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt61 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt61; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 0, trimmed_min = 0)))]
pub struct Lt62(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt62 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt62; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, max = 6)))]
pub struct Lt63(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt63 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt63; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 4, max = 4)))]
pub struct Lt64(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt64 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt64; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 1, max = 6)))]
pub struct Lt65(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt65 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt65; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 3, max = 6)))]
pub struct Lt66(pub String);
impl Dump for Lt66 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt66; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 0, max = 6)))]
pub struct Lt67(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt67 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt67; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 4, max = 4)))]
pub struct Lt68(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt68 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt68; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct Lt69(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt69 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt69; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 3, trimmed_min = 3, max = 7)))]
pub struct Lt70(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt70 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt70; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 5, trimmed_min = 2, max = 8)))]
pub struct Lt71(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt71 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt71; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, trimmed_min = 0, max = 6)))]
pub struct Lt72(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt72 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt72; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 0, trimmed_min = 0, max = 0)))]
pub struct Lt73(pub String);
impl Dump for Lt73 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt73; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 0, trimmed_min = 0, max = 5)))]
pub struct Lt74(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt74 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt74; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 4, trimmed_min = 4, max = 4)))]
pub struct Lt75(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt75 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt75; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 4, trimmed_min = 0, max = 4)))]
pub struct Lt76(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt76 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt76; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 1, trimmed_min = 1, max = 1)))]
pub struct Lt77(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt77 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt77; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 5, trimmed_min = 5)))]
pub struct Lt78(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt78 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt78; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 7, trimmed_min = 5)))]
pub struct Lt79(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt79 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt79; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 7)))]
pub struct Lt80(pub String);
impl Dump for Lt80 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt80; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 9, trimmed_min = 8)))]
pub struct Lt81(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt81 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt81; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 6, trimmed_min = 6, max = 12)))]
pub struct Lt82(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt82 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt82; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 7, max = 9)))]
pub struct Lt83(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt83 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt83; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 8, trimmed_min = 5, max = 11)))]
pub struct Lt84(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt84 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt84; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 9)))]
pub struct Lt85(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt85 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt85; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 9, max = 12)))]
pub struct Lt86(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt86 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt86; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 12)))]
pub struct Lt87(pub String);
impl Dump for Lt87 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt87; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 16, trimmed_min = 9, max = 40)))]
pub struct Lt88(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt88 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt88; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 256)))]
pub struct Lt89(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt89 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt89; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 255, max = 257)))]
pub struct Lt90(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt90 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt90; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 256)))]
pub struct Lt91(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt91 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt91; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 257, trimmed_min = 130, max = 300)))]
pub struct Lt92(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt92 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt92; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 255, max = 256)))]
pub struct Lt93(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt93 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt93; text);

#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 300, trimmed_min = 256)))]
pub struct Lt94(pub String);
impl Dump for Lt94 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt94; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 1000)))]
pub struct Lt95(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt95 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt95; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 65536)))]
pub struct Lt96(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt96 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt96; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(trimmed_min = 65535, max = 65537)))]
pub struct Lt97(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt97 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt97; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(min = 2, max = 65536)))]
pub struct Lt98(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt98 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt98; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max(0x1_0), trimmed_min = 0b10, min(0o10))))]
pub struct Lt99(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt99 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt99; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(line(byte_length(max = 1_0usize, min = 3usize)))]
pub struct Lt100(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt100 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt100; text);

#[derive(Debug, Clone, Validator)]
#[validator(text)]
pub struct Lt101(pub String);
impl Dump for Lt101 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt101; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2)))]
pub struct Lt102(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt102 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt102; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 0)))]
pub struct Lt103(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt103 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt103; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 1)))]
pub struct Lt104(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt104 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt104; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 3)))]
pub struct Lt105(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt105 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt105; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 0)))]
pub struct Lt106(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt106 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt106; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 5)))]
pub struct Lt107(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt107 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt107; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 0)))]
pub struct Lt108(pub String);
impl Dump for Lt108 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt108; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 1)))]
pub struct Lt109(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt109 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt109; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 3, trimmed_min = 3)))]
pub struct Lt110(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt110 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt110; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 4, trimmed_min = 2)))]
pub struct Lt111(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt111 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt111; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 0)))]
pub struct Lt112(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt112 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt112; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 0, trimmed_min = 0)))]
pub struct Lt113(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt113 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt113; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, max = 6)))]
pub struct Lt114(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt114 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt114; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 4, max = 4)))]
pub struct Lt115(pub String);
impl Dump for Lt115 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt115; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 1, max = 6)))]
pub struct Lt116(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt116 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt116; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 3, max = 6)))]
pub struct Lt117(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt117 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt117; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 0, max = 6)))]
pub struct Lt118(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt118 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt118; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 4, max = 4)))]
pub struct Lt119(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt119 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt119; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct Lt120(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt120 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt120; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 3, trimmed_min = 3, max = 7)))]
pub struct Lt121(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt121 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt121; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 5, trimmed_min = 2, max = 8)))]
pub struct Lt122(pub String);
impl Dump for Lt122 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt122; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, trimmed_min = 0, max = 6)))]
pub struct Lt123(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt123 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt123; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 0, trimmed_min = 0, max = 0)))]
pub struct Lt124(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt124 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt124; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 0, trimmed_min = 0, max = 5)))]
pub struct Lt125(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt125 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt125; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 4, trimmed_min = 4, max = 4)))]
pub struct Lt126(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt126 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt126; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 4, trimmed_min = 0, max = 4)))]
pub struct Lt127(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt127 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt127; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 1, trimmed_min = 1, max = 1)))]
pub struct Lt128(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt128 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt128; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 5, trimmed_min = 5)))]
pub struct Lt129(pub String);
impl Dump for Lt129 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt129; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 7, trimmed_min = 5)))]
pub struct Lt130(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt130 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt130; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 7)))]
pub struct Lt131(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt131 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt131; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 9, trimmed_min = 8)))]
pub struct Lt132(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt132 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt132; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 6, trimmed_min = 6, max = 12)))]
pub struct Lt133(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt133 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt133; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 7, max = 9)))]
pub struct Lt134(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt134 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt134; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 8, trimmed_min = 5, max = 11)))]
pub struct Lt135(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt135 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt135; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 9)))]
pub struct Lt136(pub String);
impl Dump for Lt136 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt136; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 9, max = 12)))]
pub struct Lt137(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt137 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt137; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 12)))]
pub struct Lt138(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt138 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt138; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 16, trimmed_min = 9, max = 40)))]
pub struct Lt139(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt139 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt139; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 256)))]
pub struct Lt140(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt140 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt140; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 255, max = 257)))]
pub struct Lt141(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt141 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt141; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 256)))]
pub struct Lt142(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt142 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt142; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 257, trimmed_min = 130, max = 300)))]
pub struct Lt143(pub String);
impl Dump for Lt143 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt143; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 255, max = 256)))]
pub struct Lt144(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt144 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt144; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 300, trimmed_min = 256)))]
pub struct Lt145(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt145 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt145; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 1000)))]
pub struct Lt146(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt146 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt146; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 65536)))]
pub struct Lt147(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt147 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt147; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(trimmed_min = 65535, max = 65537)))]
pub struct Lt148(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt148 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt148; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(min = 2, max = 65536)))]
pub struct Lt149(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt149 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt149; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max(0x1_0), trimmed_min = 0b10, min(0o10))))]
pub struct Lt150(pub String);
impl Dump for Lt150 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt150; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(char_length(max = 1_0usize, min = 3usize)))]
pub struct Lt151(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt151 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt151; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2)))]
pub struct Lt152(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt152 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt152; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 0)))]
pub struct Lt153(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt153 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt153; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 1)))]
pub struct Lt154(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt154 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt154; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 3)))]
pub struct Lt155(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt155 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt155; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 0)))]
pub struct Lt156(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt156 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt156; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 5)))]
pub struct Lt157(pub String);
impl Dump for Lt157 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt157; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 0)))]
pub struct Lt158(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt158 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt158; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 1)))]
pub struct Lt159(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt159 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt159; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 3, trimmed_min = 3)))]
pub struct Lt160(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt160 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt160; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 4, trimmed_min = 2)))]
pub struct Lt161(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt161 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt161; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 0)))]
pub struct Lt162(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt162 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt162; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 0, trimmed_min = 0)))]
pub struct Lt163(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt163 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt163; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, max = 6)))]
pub struct Lt164(pub String);
impl Dump for Lt164 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt164; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 4, max = 4)))]
pub struct Lt165(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt165 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt165; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 1, max = 6)))]
pub struct Lt166(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt166 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt166; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 3, max = 6)))]
pub struct Lt167(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt167 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt167; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 0, max = 6)))]
pub struct Lt168(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt168 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt168; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 4, max = 4)))]
pub struct Lt169(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt169 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt169; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 1, max = 6)))]
pub struct Lt170(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt170 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt170; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 3, trimmed_min = 3, max = 7)))]
pub struct Lt171(pub String);
impl Dump for Lt171 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt171; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 5, trimmed_min = 2, max = 8)))]
pub struct Lt172(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt172 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt172; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, trimmed_min = 0, max = 6)))]
pub struct Lt173(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt173 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt173; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 0, trimmed_min = 0, max = 0)))]
pub struct Lt174(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt174 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt174; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 0, trimmed_min = 0, max = 5)))]
pub struct Lt175(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt175 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt175; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 4, trimmed_min = 4, max = 4)))]
pub struct Lt176(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt176 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt176; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 4, trimmed_min = 0, max = 4)))]
pub struct Lt177(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt177 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt177; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 1, trimmed_min = 1, max = 1)))]
pub struct Lt178(pub String);
impl Dump for Lt178 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt178; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 5, trimmed_min = 5)))]
pub struct Lt179(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt179 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt179; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 7, trimmed_min = 5)))]
pub struct Lt180(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt180 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt180; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 7)))]
pub struct Lt181(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt181 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt181; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 9, trimmed_min = 8)))]
pub struct Lt182(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt182 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt182; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 6, trimmed_min = 6, max = 12)))]
pub struct Lt183(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt183 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt183; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 7, max = 9)))]
pub struct Lt184(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt184 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt184; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 8, trimmed_min = 5, max = 11)))]
pub struct Lt185(pub String);
impl Dump for Lt185 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt185; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 9)))]
pub struct Lt186(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt186 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt186; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 9, max = 12)))]
pub struct Lt187(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt187 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt187; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 12)))]
pub struct Lt188(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt188 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt188; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 16, trimmed_min = 9, max = 40)))]
pub struct Lt189(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt189 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt189; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 256)))]
pub struct Lt190(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt190 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt190; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 255, max = 257)))]
pub struct Lt191(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt191 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt191; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 256)))]
pub struct Lt192(pub String);
impl Dump for Lt192 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt192; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 257, trimmed_min = 130, max = 300)))]
pub struct Lt193(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt193 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt193; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 255, max = 256)))]
pub struct Lt194(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt194 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt194; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 300, trimmed_min = 256)))]
pub struct Lt195(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt195 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt195; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 1000)))]
pub struct Lt196(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt196 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt196; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 65536)))]
pub struct Lt197(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt197 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt197; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(trimmed_min = 65535, max = 65537)))]
pub struct Lt198(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt198 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt198; text);

#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(min = 2, max = 65536)))]
pub struct Lt199(pub String);
impl Dump for Lt199 { fn dump(&self) -> String { dump_str(&self.0) } }
subject!(Lt199; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max(0x1_0), trimmed_min = 0b10, min(0o10))))]
pub struct Lt200(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt200 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt200; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(text(byte_length(max = 1_0usize, min = 3usize)))]
pub struct Lt201(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Lt201 { fn dump(&self) -> String { dump_str(&self.0) } }
#[cfg(not(feature = "lite"))]
subject!(Lt201; text);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Lt0, "line", r#"line"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: None, max: None }, t)), Lt0, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt1, "line", r#"line(char_length(min = 2))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: None, max: None }, t)), Lt1, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt2, "line", r#"line(char_length(min = 0))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(0), tmin: None, max: None }, t)), Lt2, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt3, "line", r#"line(char_length(trimmed_min = 1))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(1), max: None }, t)), Lt3, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt4, "line", r#"line(char_length(trimmed_min = 3))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(3), max: None }, t)), Lt4, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt5, "line", r#"line(char_length(trimmed_min = 0))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(0), max: None }, t)), Lt5, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt6, "line", r#"line(char_length(max = 5))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: None, max: Some(5) }, t)), Lt6, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt7, "line", r#"line(char_length(max = 0))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: None, max: Some(0) }, t)), Lt7, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt8, "line", r#"line(char_length(min = 2, trimmed_min = 1))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: Some(1), max: None }, t)), Lt8, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt9, "line", r#"line(char_length(min = 3, trimmed_min = 3))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(3), tmin: Some(3), max: None }, t)), Lt9, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt10, "line", r#"line(char_length(min = 4, trimmed_min = 2))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(4), tmin: Some(2), max: None }, t)), Lt10, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt11, "line", r#"line(char_length(min = 2, trimmed_min = 0))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: Some(0), max: None }, t)), Lt11, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt12, "line", r#"line(char_length(min = 0, trimmed_min = 0))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(0), tmin: Some(0), max: None }, t)), Lt12, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt13, "line", r#"line(char_length(min = 2, max = 6))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: None, max: Some(6) }, t)), Lt13, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt14, "line", r#"line(char_length(min = 4, max = 4))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(4), tmin: None, max: Some(4) }, t)), Lt14, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt15, "line", r#"line(char_length(trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(1), max: Some(6) }, t)), Lt15, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt16, "line", r#"line(char_length(trimmed_min = 3, max = 6))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(3), max: Some(6) }, t)), Lt16, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt17, "line", r#"line(char_length(trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(0), max: Some(6) }, t)), Lt17, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt18, "line", r#"line(char_length(trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(4), max: Some(4) }, t)), Lt18, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt19, "line", r#"line(char_length(min = 2, trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: Some(1), max: Some(6) }, t)), Lt19, validators::errors::LineError, |_| None));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt20, "line", r#"line(char_length(min = 3, trimmed_min = 3, max = 7))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(3), tmin: Some(3), max: Some(7) }, t)), Lt20, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt21, "line", r#"line(char_length(min = 5, trimmed_min = 2, max = 8))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(5), tmin: Some(2), max: Some(8) }, t)), Lt21, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt22, "line", r#"line(char_length(min = 2, trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: Some(0), max: Some(6) }, t)), Lt22, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt23, "line", r#"line(char_length(min = 0, trimmed_min = 0, max = 0))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(0), tmin: Some(0), max: Some(0) }, t)), Lt23, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt24, "line", r#"line(char_length(min = 0, trimmed_min = 0, max = 5))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(0), tmin: Some(0), max: Some(5) }, t)), Lt24, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt25, "line", r#"line(char_length(min = 4, trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(4), tmin: Some(4), max: Some(4) }, t)), Lt25, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt26, "line", r#"line(char_length(min = 4, trimmed_min = 0, max = 4))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(4), tmin: Some(0), max: Some(4) }, t)), Lt26, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt27, "line", r#"line(char_length(min = 1, trimmed_min = 1, max = 1))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(1), tmin: Some(1), max: Some(1) }, t)), Lt27, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt28, "line", r#"line(char_length(min = 5, trimmed_min = 5))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(5), tmin: Some(5), max: None }, t)), Lt28, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt29, "line", r#"line(char_length(min = 7, trimmed_min = 5))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(7), tmin: Some(5), max: None }, t)), Lt29, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt30, "line", r#"line(char_length(trimmed_min = 7))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(7), max: None }, t)), Lt30, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt31, "line", r#"line(char_length(min = 9, trimmed_min = 8))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(9), tmin: Some(8), max: None }, t)), Lt31, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt32, "line", r#"line(char_length(min = 6, trimmed_min = 6, max = 12))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(6), tmin: Some(6), max: Some(12) }, t)), Lt32, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt33, "line", r#"line(char_length(trimmed_min = 7, max = 9))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(7), max: Some(9) }, t)), Lt33, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt34, "line", r#"line(char_length(min = 8, trimmed_min = 5, max = 11))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(8), tmin: Some(5), max: Some(11) }, t)), Lt34, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt35, "line", r#"line(char_length(max = 9))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: None, max: Some(9) }, t)), Lt35, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt36, "line", r#"line(char_length(min = 9, max = 12))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(9), tmin: None, max: Some(12) }, t)), Lt36, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt37, "line", r#"line(char_length(min = 12))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(12), tmin: None, max: None }, t)), Lt37, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt38, "line", r#"line(char_length(min = 16, trimmed_min = 9, max = 40))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(16), tmin: Some(9), max: Some(40) }, t)), Lt38, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt39, "line", r#"line(char_length(max = 256))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: None, max: Some(256) }, t)), Lt39, validators::errors::LineError, |_| None));
}

fn part2(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt40, "line", r#"line(char_length(min = 255, max = 257))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(255), tmin: None, max: Some(257) }, t)), Lt40, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt41, "line", r#"line(char_length(trimmed_min = 256))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(256), max: None }, t)), Lt41, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt42, "line", r#"line(char_length(min = 257, trimmed_min = 130, max = 300))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(257), tmin: Some(130), max: Some(300) }, t)), Lt42, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt43, "line", r#"line(char_length(trimmed_min = 255, max = 256))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(255), max: Some(256) }, t)), Lt43, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt44, "line", r#"line(char_length(min = 300, trimmed_min = 256))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(300), tmin: Some(256), max: None }, t)), Lt44, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt45, "line", r#"line(char_length(min = 1000))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(1000), tmin: None, max: None }, t)), Lt45, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt46, "line", r#"line(char_length(min = 65536))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(65536), tmin: None, max: None }, t)), Lt46, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt47, "line", r#"line(char_length(trimmed_min = 65535, max = 65537))"#, |t| judge(&Cfg { line: true, bytes: false, min: None, tmin: Some(65535), max: Some(65537) }, t)), Lt47, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt48, "line", r#"line(char_length(min = 2, max = 65536))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(2), tmin: None, max: Some(65536) }, t)), Lt48, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt49, "line", r#"line(char_length(max(0x1_0), trimmed_min = 0b10, min(0o10)))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(8), tmin: Some(2), max: Some(16) }, t)), Lt49, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt50, "line", r#"line(char_length(max = 1_0usize, min = 3usize))"#, |t| judge(&Cfg { line: true, bytes: false, min: Some(3), tmin: None, max: Some(10) }, t)), Lt50, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt51, "line", r#"line(byte_length(min = 2))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: None, max: None }, t)), Lt51, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt52, "line", r#"line(byte_length(min = 0))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(0), tmin: None, max: None }, t)), Lt52, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt53, "line", r#"line(byte_length(trimmed_min = 1))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(1), max: None }, t)), Lt53, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt54, "line", r#"line(byte_length(trimmed_min = 3))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(3), max: None }, t)), Lt54, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt55, "line", r#"line(byte_length(trimmed_min = 0))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(0), max: None }, t)), Lt55, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt56, "line", r#"line(byte_length(max = 5))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: None, max: Some(5) }, t)), Lt56, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt57, "line", r#"line(byte_length(max = 0))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: None, max: Some(0) }, t)), Lt57, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt58, "line", r#"line(byte_length(min = 2, trimmed_min = 1))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: Some(1), max: None }, t)), Lt58, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt59, "line", r#"line(byte_length(min = 3, trimmed_min = 3))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(3), tmin: Some(3), max: None }, t)), Lt59, validators::errors::LineError, |_| None));
}

fn part3(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt60, "line", r#"line(byte_length(min = 4, trimmed_min = 2))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(4), tmin: Some(2), max: None }, t)), Lt60, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt61, "line", r#"line(byte_length(min = 2, trimmed_min = 0))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: Some(0), max: None }, t)), Lt61, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt62, "line", r#"line(byte_length(min = 0, trimmed_min = 0))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(0), tmin: Some(0), max: None }, t)), Lt62, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt63, "line", r#"line(byte_length(min = 2, max = 6))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: None, max: Some(6) }, t)), Lt63, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt64, "line", r#"line(byte_length(min = 4, max = 4))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(4), tmin: None, max: Some(4) }, t)), Lt64, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt65, "line", r#"line(byte_length(trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(1), max: Some(6) }, t)), Lt65, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt66, "line", r#"line(byte_length(trimmed_min = 3, max = 6))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(3), max: Some(6) }, t)), Lt66, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt67, "line", r#"line(byte_length(trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(0), max: Some(6) }, t)), Lt67, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt68, "line", r#"line(byte_length(trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(4), max: Some(4) }, t)), Lt68, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt69, "line", r#"line(byte_length(min = 2, trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: Some(1), max: Some(6) }, t)), Lt69, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt70, "line", r#"line(byte_length(min = 3, trimmed_min = 3, max = 7))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(3), tmin: Some(3), max: Some(7) }, t)), Lt70, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt71, "line", r#"line(byte_length(min = 5, trimmed_min = 2, max = 8))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(5), tmin: Some(2), max: Some(8) }, t)), Lt71, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt72, "line", r#"line(byte_length(min = 2, trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: Some(0), max: Some(6) }, t)), Lt72, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt73, "line", r#"line(byte_length(min = 0, trimmed_min = 0, max = 0))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(0), tmin: Some(0), max: Some(0) }, t)), Lt73, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt74, "line", r#"line(byte_length(min = 0, trimmed_min = 0, max = 5))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(0), tmin: Some(0), max: Some(5) }, t)), Lt74, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt75, "line", r#"line(byte_length(min = 4, trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(4), tmin: Some(4), max: Some(4) }, t)), Lt75, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt76, "line", r#"line(byte_length(min = 4, trimmed_min = 0, max = 4))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(4), tmin: Some(0), max: Some(4) }, t)), Lt76, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt77, "line", r#"line(byte_length(min = 1, trimmed_min = 1, max = 1))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(1), tmin: Some(1), max: Some(1) }, t)), Lt77, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt78, "line", r#"line(byte_length(min = 5, trimmed_min = 5))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(5), tmin: Some(5), max: None }, t)), Lt78, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt79, "line", r#"line(byte_length(min = 7, trimmed_min = 5))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(7), tmin: Some(5), max: None }, t)), Lt79, validators::errors::LineError, |_| None));
}

fn part4(v: &mut Vec<Target>) {
    v.push(ws!(target!(Lt80, "line", r#"line(byte_length(trimmed_min = 7))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(7), max: None }, t)), Lt80, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt81, "line", r#"line(byte_length(min = 9, trimmed_min = 8))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(9), tmin: Some(8), max: None }, t)), Lt81, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt82, "line", r#"line(byte_length(min = 6, trimmed_min = 6, max = 12))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(6), tmin: Some(6), max: Some(12) }, t)), Lt82, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt83, "line", r#"line(byte_length(trimmed_min = 7, max = 9))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(7), max: Some(9) }, t)), Lt83, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt84, "line", r#"line(byte_length(min = 8, trimmed_min = 5, max = 11))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(8), tmin: Some(5), max: Some(11) }, t)), Lt84, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt85, "line", r#"line(byte_length(max = 9))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: None, max: Some(9) }, t)), Lt85, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt86, "line", r#"line(byte_length(min = 9, max = 12))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(9), tmin: None, max: Some(12) }, t)), Lt86, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt87, "line", r#"line(byte_length(min = 12))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(12), tmin: None, max: None }, t)), Lt87, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt88, "line", r#"line(byte_length(min = 16, trimmed_min = 9, max = 40))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(16), tmin: Some(9), max: Some(40) }, t)), Lt88, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt89, "line", r#"line(byte_length(max = 256))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: None, max: Some(256) }, t)), Lt89, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt90, "line", r#"line(byte_length(min = 255, max = 257))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(255), tmin: None, max: Some(257) }, t)), Lt90, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt91, "line", r#"line(byte_length(trimmed_min = 256))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(256), max: None }, t)), Lt91, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt92, "line", r#"line(byte_length(min = 257, trimmed_min = 130, max = 300))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(257), tmin: Some(130), max: Some(300) }, t)), Lt92, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt93, "line", r#"line(byte_length(trimmed_min = 255, max = 256))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(255), max: Some(256) }, t)), Lt93, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt94, "line", r#"line(byte_length(min = 300, trimmed_min = 256))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(300), tmin: Some(256), max: None }, t)), Lt94, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt95, "line", r#"line(byte_length(min = 1000))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(1000), tmin: None, max: None }, t)), Lt95, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt96, "line", r#"line(byte_length(min = 65536))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(65536), tmin: None, max: None }, t)), Lt96, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt97, "line", r#"line(byte_length(trimmed_min = 65535, max = 65537))"#, |t| judge(&Cfg { line: true, bytes: true, min: None, tmin: Some(65535), max: Some(65537) }, t)), Lt97, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt98, "line", r#"line(byte_length(min = 2, max = 65536))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(2), tmin: None, max: Some(65536) }, t)), Lt98, validators::errors::LineError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt99, "line", r#"line(byte_length(max(0x1_0), trimmed_min = 0b10, min(0o10)))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(8), tmin: Some(2), max: Some(16) }, t)), Lt99, validators::errors::LineError, |_| None));
}

fn part5(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt100, "line", r#"line(byte_length(max = 1_0usize, min = 3usize))"#, |t| judge(&Cfg { line: true, bytes: true, min: Some(3), tmin: None, max: Some(10) }, t)), Lt100, validators::errors::LineError, |_| None));
    v.push(ws!(target!(Lt101, "text", r#"text"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: None, max: None }, t)), Lt101, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt102, "text", r#"text(char_length(min = 2))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: None, max: None }, t)), Lt102, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt103, "text", r#"text(char_length(min = 0))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(0), tmin: None, max: None }, t)), Lt103, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt104, "text", r#"text(char_length(trimmed_min = 1))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(1), max: None }, t)), Lt104, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt105, "text", r#"text(char_length(trimmed_min = 3))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(3), max: None }, t)), Lt105, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt106, "text", r#"text(char_length(trimmed_min = 0))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(0), max: None }, t)), Lt106, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt107, "text", r#"text(char_length(max = 5))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: None, max: Some(5) }, t)), Lt107, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt108, "text", r#"text(char_length(max = 0))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: None, max: Some(0) }, t)), Lt108, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt109, "text", r#"text(char_length(min = 2, trimmed_min = 1))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: Some(1), max: None }, t)), Lt109, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt110, "text", r#"text(char_length(min = 3, trimmed_min = 3))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(3), tmin: Some(3), max: None }, t)), Lt110, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt111, "text", r#"text(char_length(min = 4, trimmed_min = 2))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(4), tmin: Some(2), max: None }, t)), Lt111, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt112, "text", r#"text(char_length(min = 2, trimmed_min = 0))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: Some(0), max: None }, t)), Lt112, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt113, "text", r#"text(char_length(min = 0, trimmed_min = 0))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(0), tmin: Some(0), max: None }, t)), Lt113, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt114, "text", r#"text(char_length(min = 2, max = 6))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: None, max: Some(6) }, t)), Lt114, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt115, "text", r#"text(char_length(min = 4, max = 4))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(4), tmin: None, max: Some(4) }, t)), Lt115, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt116, "text", r#"text(char_length(trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(1), max: Some(6) }, t)), Lt116, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt117, "text", r#"text(char_length(trimmed_min = 3, max = 6))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(3), max: Some(6) }, t)), Lt117, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt118, "text", r#"text(char_length(trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(0), max: Some(6) }, t)), Lt118, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt119, "text", r#"text(char_length(trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(4), max: Some(4) }, t)), Lt119, validators::errors::TextError, |_| None));
}

fn part6(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt120, "text", r#"text(char_length(min = 2, trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: Some(1), max: Some(6) }, t)), Lt120, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt121, "text", r#"text(char_length(min = 3, trimmed_min = 3, max = 7))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(3), tmin: Some(3), max: Some(7) }, t)), Lt121, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt122, "text", r#"text(char_length(min = 5, trimmed_min = 2, max = 8))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(5), tmin: Some(2), max: Some(8) }, t)), Lt122, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt123, "text", r#"text(char_length(min = 2, trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: Some(0), max: Some(6) }, t)), Lt123, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt124, "text", r#"text(char_length(min = 0, trimmed_min = 0, max = 0))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(0), tmin: Some(0), max: Some(0) }, t)), Lt124, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt125, "text", r#"text(char_length(min = 0, trimmed_min = 0, max = 5))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(0), tmin: Some(0), max: Some(5) }, t)), Lt125, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt126, "text", r#"text(char_length(min = 4, trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(4), tmin: Some(4), max: Some(4) }, t)), Lt126, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt127, "text", r#"text(char_length(min = 4, trimmed_min = 0, max = 4))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(4), tmin: Some(0), max: Some(4) }, t)), Lt127, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt128, "text", r#"text(char_length(min = 1, trimmed_min = 1, max = 1))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(1), tmin: Some(1), max: Some(1) }, t)), Lt128, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt129, "text", r#"text(char_length(min = 5, trimmed_min = 5))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(5), tmin: Some(5), max: None }, t)), Lt129, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt130, "text", r#"text(char_length(min = 7, trimmed_min = 5))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(7), tmin: Some(5), max: None }, t)), Lt130, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt131, "text", r#"text(char_length(trimmed_min = 7))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(7), max: None }, t)), Lt131, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt132, "text", r#"text(char_length(min = 9, trimmed_min = 8))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(9), tmin: Some(8), max: None }, t)), Lt132, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt133, "text", r#"text(char_length(min = 6, trimmed_min = 6, max = 12))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(6), tmin: Some(6), max: Some(12) }, t)), Lt133, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt134, "text", r#"text(char_length(trimmed_min = 7, max = 9))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(7), max: Some(9) }, t)), Lt134, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt135, "text", r#"text(char_length(min = 8, trimmed_min = 5, max = 11))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(8), tmin: Some(5), max: Some(11) }, t)), Lt135, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt136, "text", r#"text(char_length(max = 9))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: None, max: Some(9) }, t)), Lt136, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt137, "text", r#"text(char_length(min = 9, max = 12))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(9), tmin: None, max: Some(12) }, t)), Lt137, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt138, "text", r#"text(char_length(min = 12))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(12), tmin: None, max: None }, t)), Lt138, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt139, "text", r#"text(char_length(min = 16, trimmed_min = 9, max = 40))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(16), tmin: Some(9), max: Some(40) }, t)), Lt139, validators::errors::TextError, |_| None));
}

fn part7(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt140, "text", r#"text(char_length(max = 256))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: None, max: Some(256) }, t)), Lt140, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt141, "text", r#"text(char_length(min = 255, max = 257))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(255), tmin: None, max: Some(257) }, t)), Lt141, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt142, "text", r#"text(char_length(trimmed_min = 256))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(256), max: None }, t)), Lt142, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt143, "text", r#"text(char_length(min = 257, trimmed_min = 130, max = 300))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(257), tmin: Some(130), max: Some(300) }, t)), Lt143, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt144, "text", r#"text(char_length(trimmed_min = 255, max = 256))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(255), max: Some(256) }, t)), Lt144, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt145, "text", r#"text(char_length(min = 300, trimmed_min = 256))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(300), tmin: Some(256), max: None }, t)), Lt145, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt146, "text", r#"text(char_length(min = 1000))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(1000), tmin: None, max: None }, t)), Lt146, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt147, "text", r#"text(char_length(min = 65536))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(65536), tmin: None, max: None }, t)), Lt147, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt148, "text", r#"text(char_length(trimmed_min = 65535, max = 65537))"#, |t| judge(&Cfg { line: false, bytes: false, min: None, tmin: Some(65535), max: Some(65537) }, t)), Lt148, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt149, "text", r#"text(char_length(min = 2, max = 65536))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(2), tmin: None, max: Some(65536) }, t)), Lt149, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt150, "text", r#"text(char_length(max(0x1_0), trimmed_min = 0b10, min(0o10)))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(8), tmin: Some(2), max: Some(16) }, t)), Lt150, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt151, "text", r#"text(char_length(max = 1_0usize, min = 3usize))"#, |t| judge(&Cfg { line: false, bytes: false, min: Some(3), tmin: None, max: Some(10) }, t)), Lt151, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt152, "text", r#"text(byte_length(min = 2))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: None, max: None }, t)), Lt152, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt153, "text", r#"text(byte_length(min = 0))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(0), tmin: None, max: None }, t)), Lt153, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt154, "text", r#"text(byte_length(trimmed_min = 1))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(1), max: None }, t)), Lt154, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt155, "text", r#"text(byte_length(trimmed_min = 3))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(3), max: None }, t)), Lt155, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt156, "text", r#"text(byte_length(trimmed_min = 0))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(0), max: None }, t)), Lt156, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt157, "text", r#"text(byte_length(max = 5))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: None, max: Some(5) }, t)), Lt157, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt158, "text", r#"text(byte_length(max = 0))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: None, max: Some(0) }, t)), Lt158, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt159, "text", r#"text(byte_length(min = 2, trimmed_min = 1))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: Some(1), max: None }, t)), Lt159, validators::errors::TextError, |_| None));
}

fn part8(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt160, "text", r#"text(byte_length(min = 3, trimmed_min = 3))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(3), tmin: Some(3), max: None }, t)), Lt160, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt161, "text", r#"text(byte_length(min = 4, trimmed_min = 2))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(4), tmin: Some(2), max: None }, t)), Lt161, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt162, "text", r#"text(byte_length(min = 2, trimmed_min = 0))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: Some(0), max: None }, t)), Lt162, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt163, "text", r#"text(byte_length(min = 0, trimmed_min = 0))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(0), tmin: Some(0), max: None }, t)), Lt163, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt164, "text", r#"text(byte_length(min = 2, max = 6))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: None, max: Some(6) }, t)), Lt164, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt165, "text", r#"text(byte_length(min = 4, max = 4))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(4), tmin: None, max: Some(4) }, t)), Lt165, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt166, "text", r#"text(byte_length(trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(1), max: Some(6) }, t)), Lt166, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt167, "text", r#"text(byte_length(trimmed_min = 3, max = 6))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(3), max: Some(6) }, t)), Lt167, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt168, "text", r#"text(byte_length(trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(0), max: Some(6) }, t)), Lt168, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt169, "text", r#"text(byte_length(trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(4), max: Some(4) }, t)), Lt169, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt170, "text", r#"text(byte_length(min = 2, trimmed_min = 1, max = 6))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: Some(1), max: Some(6) }, t)), Lt170, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt171, "text", r#"text(byte_length(min = 3, trimmed_min = 3, max = 7))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(3), tmin: Some(3), max: Some(7) }, t)), Lt171, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt172, "text", r#"text(byte_length(min = 5, trimmed_min = 2, max = 8))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(5), tmin: Some(2), max: Some(8) }, t)), Lt172, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt173, "text", r#"text(byte_length(min = 2, trimmed_min = 0, max = 6))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: Some(0), max: Some(6) }, t)), Lt173, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt174, "text", r#"text(byte_length(min = 0, trimmed_min = 0, max = 0))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(0), tmin: Some(0), max: Some(0) }, t)), Lt174, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt175, "text", r#"text(byte_length(min = 0, trimmed_min = 0, max = 5))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(0), tmin: Some(0), max: Some(5) }, t)), Lt175, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt176, "text", r#"text(byte_length(min = 4, trimmed_min = 4, max = 4))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(4), tmin: Some(4), max: Some(4) }, t)), Lt176, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt177, "text", r#"text(byte_length(min = 4, trimmed_min = 0, max = 4))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(4), tmin: Some(0), max: Some(4) }, t)), Lt177, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt178, "text", r#"text(byte_length(min = 1, trimmed_min = 1, max = 1))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(1), tmin: Some(1), max: Some(1) }, t)), Lt178, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt179, "text", r#"text(byte_length(min = 5, trimmed_min = 5))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(5), tmin: Some(5), max: None }, t)), Lt179, validators::errors::TextError, |_| None));
}

fn part9(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt180, "text", r#"text(byte_length(min = 7, trimmed_min = 5))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(7), tmin: Some(5), max: None }, t)), Lt180, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt181, "text", r#"text(byte_length(trimmed_min = 7))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(7), max: None }, t)), Lt181, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt182, "text", r#"text(byte_length(min = 9, trimmed_min = 8))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(9), tmin: Some(8), max: None }, t)), Lt182, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt183, "text", r#"text(byte_length(min = 6, trimmed_min = 6, max = 12))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(6), tmin: Some(6), max: Some(12) }, t)), Lt183, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt184, "text", r#"text(byte_length(trimmed_min = 7, max = 9))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(7), max: Some(9) }, t)), Lt184, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt185, "text", r#"text(byte_length(min = 8, trimmed_min = 5, max = 11))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(8), tmin: Some(5), max: Some(11) }, t)), Lt185, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt186, "text", r#"text(byte_length(max = 9))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: None, max: Some(9) }, t)), Lt186, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt187, "text", r#"text(byte_length(min = 9, max = 12))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(9), tmin: None, max: Some(12) }, t)), Lt187, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt188, "text", r#"text(byte_length(min = 12))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(12), tmin: None, max: None }, t)), Lt188, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt189, "text", r#"text(byte_length(min = 16, trimmed_min = 9, max = 40))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(16), tmin: Some(9), max: Some(40) }, t)), Lt189, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt190, "text", r#"text(byte_length(max = 256))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: None, max: Some(256) }, t)), Lt190, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt191, "text", r#"text(byte_length(min = 255, max = 257))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(255), tmin: None, max: Some(257) }, t)), Lt191, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt192, "text", r#"text(byte_length(trimmed_min = 256))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(256), max: None }, t)), Lt192, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt193, "text", r#"text(byte_length(min = 257, trimmed_min = 130, max = 300))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(257), tmin: Some(130), max: Some(300) }, t)), Lt193, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt194, "text", r#"text(byte_length(trimmed_min = 255, max = 256))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(255), max: Some(256) }, t)), Lt194, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt195, "text", r#"text(byte_length(min = 300, trimmed_min = 256))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(300), tmin: Some(256), max: None }, t)), Lt195, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt196, "text", r#"text(byte_length(min = 1000))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(1000), tmin: None, max: None }, t)), Lt196, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt197, "text", r#"text(byte_length(min = 65536))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(65536), tmin: None, max: None }, t)), Lt197, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt198, "text", r#"text(byte_length(trimmed_min = 65535, max = 65537))"#, |t| judge(&Cfg { line: false, bytes: true, min: None, tmin: Some(65535), max: Some(65537) }, t)), Lt198, validators::errors::TextError, |_| None));
    v.push(ws!(target!(Lt199, "text", r#"text(byte_length(min = 2, max = 65536))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(2), tmin: None, max: Some(65536) }, t)), Lt199, validators::errors::TextError, |_| None));
}

fn part10(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt200, "text", r#"text(byte_length(max(0x1_0), trimmed_min = 0b10, min(0o10)))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(8), tmin: Some(2), max: Some(16) }, t)), Lt200, validators::errors::TextError, |_| None));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Lt201, "text", r#"text(byte_length(max = 1_0usize, min = 3usize))"#, |t| judge(&Cfg { line: false, bytes: true, min: Some(3), tmin: None, max: Some(10) }, t)), Lt201, validators::errors::TextError, |_| None));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    part6(&mut v);
    part7(&mut v);
    part8(&mut v);
    part9(&mut v);
    part10(&mut v);
    v
}
