// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::domain::*;

#[derive(Debug, Clone, Validator)]
#[validator(domain)]
pub struct Dom0 { pub domain: String, pub port: Option<u16> }
impl Dump for Dom0 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom0; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Must)))]
pub struct Dom1 { pub domain: String, pub port: u16 }
impl Dump for Dom1 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom1; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct Dom2 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom2 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom2; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom3 { pub domain: String, pub port: u16 }
impl Dump for Dom3 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom3; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct Dom4 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom4 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom4; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom5 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom5 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom5; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom6 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom6 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom6; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom7(pub String);
impl Dump for Dom7 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom7; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom8(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom8 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom8; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom9(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom9 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom9; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct Dom10 { pub domain: String, pub port: u16, pub is_local: bool }
impl Dump for Dom10 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom10; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct Dom11 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom11 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom11; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom12 { pub domain: String, pub port: u16, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom12 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom12; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct Dom13 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
impl Dump for Dom13 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom13; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom14 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom14 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom14; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom15 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom15 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom15; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom16 { pub domain: String, pub is_local: bool }
impl Dump for Dom16 { fn dump(&self) -> String { dump_domain(&self.domain, None, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom16; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom17(pub String);
impl Dump for Dom17 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom17; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom18 { pub domain: String, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom18 { fn dump(&self) -> String { dump_domain(&self.domain, None, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom18; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct Dom19 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom19 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom19; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct Dom20 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom20 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom20; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom21 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom21 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom21; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct Dom22 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom22 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom22; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom23 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom23 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom23; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom24 { pub domain: String, pub port: Option<u16> }
impl Dump for Dom24 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom24; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom25(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom25 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom25; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom26(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom26 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom26; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow)))]
pub struct Dom27(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom27 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom27; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Must)))]
pub struct Dom28 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom28 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom28; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct Dom29 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom29 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom29; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct Dom30 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom30 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom30; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct Dom31 { pub domain: String, pub port: Option<u16> }
impl Dump for Dom31 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom31; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom32 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom32 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom32; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct Dom33 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom33 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom33; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom34(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom34 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom34; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom35(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom35 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom35; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Dom36(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom36 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom36; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct Dom37 { pub domain: String, pub port: u16, pub is_local: bool, pub is_ipv4: bool }
impl Dump for Dom37 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom37; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct Dom38 { pub domain: String, pub port: u16 }
impl Dump for Dom38 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom38; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct Dom39 { pub domain: String, pub port: u16, pub is_local: bool, pub is_ipv4: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom39 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom39; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct Dom40 { pub domain: String, pub port: Option<u16>, pub is_local: bool, pub is_ipv4: bool }
impl Dump for Dom40 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom40; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom41 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom41 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom41; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct Dom42 { pub domain: String, pub port: Option<u16>, pub is_local: bool, pub is_ipv4: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom42 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom42; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom43 { pub domain: String, pub is_local: bool, pub is_ipv4: bool }
impl Dump for Dom43 { fn dump(&self) -> String { dump_domain(&self.domain, None, Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom43; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom44(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom44 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom44; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Dom45 { pub domain: String, pub is_local: bool, pub is_ipv4: bool }
impl Dump for Dom45 { fn dump(&self) -> String { dump_domain(&self.domain, None, Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom45; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct Dom46 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom46 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom46; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct Dom47 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom47 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom47; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct Dom48 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom48 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom48; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct Dom49 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom49 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom49; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom50 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom50 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom50; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct Dom51 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom51 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom51; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom52(pub String);
impl Dump for Dom52 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom52; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom53(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom53 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom53; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Dom54(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom54 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom54; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Must)))]
pub struct Dom55 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom55 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom55; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct Dom56 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom56 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom56; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct Dom57 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom57 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom57; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct Dom58 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom58 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom58; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom59 { pub domain: String, pub port: Option<u16> }
impl Dump for Dom59 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom59; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct Dom60 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom60 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom60; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom61(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom61 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom61; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom62(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom62 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom62; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Dom63(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom63 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom63; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct Dom64 { pub domain: String, pub port: u16, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom64 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom64; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct Dom65 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom65 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom65; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct Dom66 { pub domain: String, pub port: u16, pub is_local: bool }
impl Dump for Dom66 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom66; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct Dom67 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom67 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom67; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom68 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom68 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom68; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct Dom69 { pub domain: String, pub port: Option<u16>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom69 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom69; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom70 { pub domain: String, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom70 { fn dump(&self) -> String { dump_domain(&self.domain, None, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom70; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom71(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom71 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom71; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Dom72 { pub domain: String, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom72 { fn dump(&self) -> String { dump_domain(&self.domain, None, Some(self.is_local), None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom72; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct Dom73 { pub domain: String, pub port: u16 }
impl Dump for Dom73 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom73; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct Dom74 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom74 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom74; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct Dom75 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom75 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom75; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct Dom76 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom76 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom76; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct Dom77 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom77 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom77; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct Dom78 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom78 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom78; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct Dom79(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom79 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom79; text);

#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Dom80(pub String);
impl Dump for Dom80 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
subject!(Dom80; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Dom81(pub String);
#[cfg(not(feature = "lite"))]
impl Dump for Dom81 { fn dump(&self) -> String { dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom81; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(ipv4 = Disallow))]
pub struct Dom82 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom82 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom82; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(local = Disallow))]
pub struct Dom83 { pub domain: String, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Dom83 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom83; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(port = Must))]
pub struct Dom84 { pub domain: String, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Dom84 { fn dump(&self) -> String { dump_domain(&self.domain, Some(self.port), None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom84; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(domain(at_least_two_labels = Must))]
pub struct Dom85 { pub domain: String, pub port: Option<u16>, pub is_local: bool, pub is_ipv4: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Dom85 { fn dump(&self) -> String { dump_domain(&self.domain, self.port, Some(self.is_local), Some(self.is_ipv4), self.is_fully_qualified(), self.get_domain_non_fully_qualified()) } }
#[cfg(not(feature = "lite"))]
subject!(Dom85; text);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Dom0, "domain", r#"domain"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Allow, labels: Allow }, t)), Dom0, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom1, "domain", r#"domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Must, labels: Must }, t)), Dom1, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom2, "domain", r#"domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Must, labels: Allow }, t)), Dom2, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom3, "domain", r#"domain(ipv4(Must), local(Must), port(Must), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Must, labels: Disallow }, t)), Dom3, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom4, "domain", r#"domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Allow, labels: Must }, t)), Dom4, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom5, "domain", r#"domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Allow, labels: Allow }, t)), Dom5, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom6, "domain", r#"domain(ipv4(Must), local(Must), port(Allow), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Allow, labels: Disallow }, t)), Dom6, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom7, "domain", r#"domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Disallow, labels: Must }, t)), Dom7, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom8, "domain", r#"domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Disallow, labels: Allow }, t)), Dom8, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom9, "domain", r#"domain(ipv4(Must), local(Must), port(Disallow), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Must, port: Disallow, labels: Disallow }, t)), Dom9, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom10, "domain", r#"domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Must, labels: Must }, t)), Dom10, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom11, "domain", r#"domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Must, labels: Allow }, t)), Dom11, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom12, "domain", r#"domain(ipv4(Must), local(Allow), port(Must), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Must, labels: Disallow }, t)), Dom12, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom13, "domain", r#"domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Allow, labels: Must }, t)), Dom13, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom14, "domain", r#"domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Allow, labels: Allow }, t)), Dom14, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom15, "domain", r#"domain(ipv4(Must), local(Allow), port(Allow), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Allow, labels: Disallow }, t)), Dom15, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom16, "domain", r#"domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Disallow, labels: Must }, t)), Dom16, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom17, "domain", r#"domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Disallow, labels: Allow }, t)), Dom17, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom18, "domain", r#"domain(ipv4(Must), local(Allow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Allow, port: Disallow, labels: Disallow }, t)), Dom18, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom19, "domain", r#"domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Must, labels: Must }, t)), Dom19, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom20, "domain", r#"domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Must, labels: Allow }, t)), Dom20, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom21, "domain", r#"domain(ipv4(Must), local(Disallow), port(Must), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Must, labels: Disallow }, t)), Dom21, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom22, "domain", r#"domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Allow, labels: Must }, t)), Dom22, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom23, "domain", r#"domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Allow, labels: Allow }, t)), Dom23, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom24, "domain", r#"domain(ipv4(Must), local(Disallow), port(Allow), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Allow, labels: Disallow }, t)), Dom24, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom25, "domain", r#"domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Disallow, labels: Must }, t)), Dom25, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom26, "domain", r#"domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Disallow, labels: Allow }, t)), Dom26, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom27, "domain", r#"domain(ipv4(Must), local(Disallow), port(Disallow), at_least_two_labels(Disallow), conflict(Allow))"#, |t| judge(&Cfg { ipv4: Must, local: Disallow, port: Disallow, labels: Disallow }, t)), Dom27, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom28, "domain", r#"domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Must, labels: Must }, t)), Dom28, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom29, "domain", r#"domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Must, labels: Allow }, t)), Dom29, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom30, "domain", r#"domain(ipv4(Allow), local(Must), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Must, labels: Disallow }, t)), Dom30, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom31, "domain", r#"domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Allow, labels: Must }, t)), Dom31, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom32, "domain", r#"domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Allow, labels: Allow }, t)), Dom32, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom33, "domain", r#"domain(ipv4(Allow), local(Must), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Allow, labels: Disallow }, t)), Dom33, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom34, "domain", r#"domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Disallow, labels: Must }, t)), Dom34, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom35, "domain", r#"domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Disallow, labels: Allow }, t)), Dom35, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom36, "domain", r#"domain(ipv4(Allow), local(Must), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Must, port: Disallow, labels: Disallow }, t)), Dom36, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom37, "domain", r#"domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Must, labels: Must }, t)), Dom37, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom38, "domain", r#"domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Must, labels: Allow }, t)), Dom38, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom39, "domain", r#"domain(ipv4(Allow), local(Allow), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Must, labels: Disallow }, t)), Dom39, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
}

fn part2(v: &mut Vec<Target>) {
    v.push(ws!(target!(Dom40, "domain", r#"domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Allow, labels: Must }, t)), Dom40, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom41, "domain", r#"domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Allow, labels: Allow }, t)), Dom41, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom42, "domain", r#"domain(ipv4(Allow), local(Allow), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Allow, labels: Disallow }, t)), Dom42, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom43, "domain", r#"domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Disallow, labels: Must }, t)), Dom43, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom44, "domain", r#"domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Disallow, labels: Allow }, t)), Dom44, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom45, "domain", r#"domain(ipv4(Allow), local(Allow), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Disallow, labels: Disallow }, t)), Dom45, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom46, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Must, labels: Must }, t)), Dom46, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom47, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Must, labels: Allow }, t)), Dom47, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom48, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Must, labels: Disallow }, t)), Dom48, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom49, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Allow, labels: Must }, t)), Dom49, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom50, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Allow, labels: Allow }, t)), Dom50, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom51, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Allow, labels: Disallow }, t)), Dom51, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom52, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Disallow, labels: Must }, t)), Dom52, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom53, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Disallow, labels: Allow }, t)), Dom53, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom54, "domain", r#"domain(ipv4(Allow), local(Disallow), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Disallow, labels: Disallow }, t)), Dom54, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom55, "domain", r#"domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Must, labels: Must }, t)), Dom55, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom56, "domain", r#"domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Must, labels: Allow }, t)), Dom56, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom57, "domain", r#"domain(ipv4(Disallow), local(Must), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Must, labels: Disallow }, t)), Dom57, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom58, "domain", r#"domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Allow, labels: Must }, t)), Dom58, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom59, "domain", r#"domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Allow, labels: Allow }, t)), Dom59, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
}

fn part3(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom60, "domain", r#"domain(ipv4(Disallow), local(Must), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Allow, labels: Disallow }, t)), Dom60, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom61, "domain", r#"domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Disallow, labels: Must }, t)), Dom61, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom62, "domain", r#"domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Disallow, labels: Allow }, t)), Dom62, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom63, "domain", r#"domain(ipv4(Disallow), local(Must), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Must, port: Disallow, labels: Disallow }, t)), Dom63, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom64, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Must, labels: Must }, t)), Dom64, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom65, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Must, labels: Allow }, t)), Dom65, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom66, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Must, labels: Disallow }, t)), Dom66, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom67, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Allow, labels: Must }, t)), Dom67, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom68, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Allow, labels: Allow }, t)), Dom68, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom69, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Allow, labels: Disallow }, t)), Dom69, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom70, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Disallow, labels: Must }, t)), Dom70, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom71, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Disallow, labels: Allow }, t)), Dom71, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom72, "domain", r#"domain(ipv4(Disallow), local(Allow), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Disallow, labels: Disallow }, t)), Dom72, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Dom73, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Must, labels: Must }, t)), Dom73, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom74, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Must, labels: Allow }, t)), Dom74, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom75, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Must, labels: Disallow }, t)), Dom75, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom76, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Allow, labels: Must }, t)), Dom76, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom77, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Allow, labels: Allow }, t)), Dom77, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom78, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Allow, labels: Disallow }, t)), Dom78, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom79, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Disallow, labels: Must }, t)), Dom79, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
}

fn part4(v: &mut Vec<Target>) {
    v.push(ws!(target!(Dom80, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Disallow, labels: Allow }, t)), Dom80, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom81, "domain", r#"domain(ipv4(Disallow), local(Disallow), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { ipv4: Disallow, local: Disallow, port: Disallow, labels: Disallow }, t)), Dom81, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom82, "domain", r#"domain(ipv4 = Disallow)"#, |t| judge(&Cfg { ipv4: Disallow, local: Allow, port: Allow, labels: Allow }, t)), Dom82, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom83, "domain", r#"domain(local = Disallow)"#, |t| judge(&Cfg { ipv4: Allow, local: Disallow, port: Allow, labels: Allow }, t)), Dom83, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom84, "domain", r#"domain(port = Must)"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Must, labels: Allow }, t)), Dom84, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Dom85, "domain", r#"domain(at_least_two_labels = Must)"#, |t| judge(&Cfg { ipv4: Allow, local: Allow, port: Allow, labels: Must }, t)), Dom85, validators::errors::DomainError, |v| Some(v.to_uri_authority_string().into_owned())));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    v
}
