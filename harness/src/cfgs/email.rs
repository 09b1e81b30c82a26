// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::email::*;

#[derive(Debug, Clone, Validator)]
#[validator(email)]
pub struct Em0 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em0 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em0; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em1 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em1 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em1; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em2 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em2 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em2; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em3 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em3 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em3; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em4 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em4 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em4; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct Em5 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em5 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em5; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct Em6 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em6 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em6; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em7 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Dump for Em7 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
subject!(Em7; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em8 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em8 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em8; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em9 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em9 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em9; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em10 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em10 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em10; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct Em11 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em11 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em11; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct Em12 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em12 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em12; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em13 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em13 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em13; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em14 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em14 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em14; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em15 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em15 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em15; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em16 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em16 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em16; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct Em17 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em17 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em17; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct Em18 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em18 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em18; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em19 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em19 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em19; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em20 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em20 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em20; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em21 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em21 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em21; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em22 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em22 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em22; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em23 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em23 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em23; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em24 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em24 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em24; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em25 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Dump for Em25 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
subject!(Em25; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em26 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em26 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em26; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em27 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em27 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em27; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em28 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em28 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em28; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em29 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em29 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em29; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em30 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em30 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em30; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em31 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em31 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em31; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em32 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em32 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em32; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em33 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em33 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em33; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em34 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em34 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em34; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em35 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em35 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em35; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em36 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em36 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em36; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em37 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em37 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em37; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em38 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em38 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em38; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em39 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em39 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em39; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em40 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em40 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em40; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em41 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em41 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em41; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em42 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em42 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em42; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em43 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
impl Dump for Em43 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
subject!(Em43; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em44 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em44 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em44; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em45 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em45 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em45; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em46 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em46 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em46; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em47 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em47 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em47; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em48 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em48 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em48; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em49 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em49 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em49; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em50 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em50 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em50; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em51 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em51 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em51; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em52 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
impl Dump for Em52 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
subject!(Em52; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em53 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em53 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em53; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em54 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em54 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em54; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em55 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
impl Dump for Em55 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
subject!(Em55; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em56 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em56 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em56; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em57 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em57 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em57; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em58 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em58 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em58; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct Em59 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
impl Dump for Em59 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
subject!(Em59; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct Em60 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em60 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em60; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em61 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
impl Dump for Em61 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, Some(self.is_local)) } }
subject!(Em61; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em62 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em62 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em62; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em63 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em63 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em63; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em64 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em64 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em64; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct Em65 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em65 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em65; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct Em66 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr, pub is_local: bool }
impl Dump for Em66 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, Some(self.is_local)) } }
subject!(Em66; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em67 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em67 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em67; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em68 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em68 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em68; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em69 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em69 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em69; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em70 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em70 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em70; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow)))]
pub struct Em71 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em71 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em71; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow)))]
pub struct Em72 { pub local_part: String, pub need_quoted: bool, pub domain_part: std::net::IpAddr }
#[cfg(not(feature = "lite"))]
impl Dump for Em72 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &ip_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em72; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em73 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
impl Dump for Em73 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
subject!(Em73; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em74 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em74 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em74; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em75 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em75 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em75; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em76 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em76 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em76; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em77 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em77 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em77; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em78 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em78 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em78; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em79 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
impl Dump for Em79 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, Some(self.is_local)) } }
subject!(Em79; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em80 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
impl Dump for Em80 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, Some(self.is_local)) } }
subject!(Em80; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em81 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em81 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em81; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em82 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em82 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em82; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em83 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em83 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em83; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em84 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em84 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em84; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em85 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em85 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em85; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em86 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em86 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em86; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em87 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
impl Dump for Em87 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
subject!(Em87; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em88 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em88 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em88; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em89 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em89 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em89; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em90 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em90 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em90; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em91 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Dump for Em91 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
subject!(Em91; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em92 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em92 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em92; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em93 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em93 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em93; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em94 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Dump for Em94 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
subject!(Em94; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em95 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em95 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em95; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em96 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em96 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em96; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em97 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
impl Dump for Em97 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, Some(self.is_local)) } }
subject!(Em97; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em98 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em98 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em98; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em99 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em99 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em99; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em100 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em100 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em100; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em101 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
impl Dump for Em101 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, Some(self.is_local)) } }
subject!(Em101; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em102 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em102 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em102; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow)))]
pub struct Em103 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em103 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em103; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow)))]
pub struct Em104 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em104 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em104; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow)))]
pub struct Em105 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em105 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em105; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow)))]
pub struct Em106 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em106 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em106; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow)))]
pub struct Em107 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
#[cfg(not(feature = "lite"))]
impl Dump for Em107 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em107; text);

#[derive(Debug, Clone, Validator)]
#[validator(email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow)))]
pub struct Em108 { pub local_part: String, pub need_quoted: bool, pub domain_part: String }
impl Dump for Em108 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), None, None) } }
subject!(Em108; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(comment = Disallow))]
pub struct Em109 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host }
#[cfg(not(feature = "lite"))]
impl Dump for Em109 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Em109; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(ip = Disallow))]
pub struct Em110 { pub local_part: String, pub need_quoted: bool, pub domain_part: String, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em110 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &dom_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em110; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(local = Disallow))]
pub struct Em111 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em111 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em111; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(at_least_two_labels = Must))]
pub struct Em112 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Em112 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Em112; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(email(non_ascii = Disallow))]
pub struct Em113 { pub local_part: String, pub need_quoted: bool, pub domain_part: validators::models::Host, pub comment_before_local_part: Option<String>, pub comment_after_local_part: Option<String>, pub comment_before_domain_part: Option<String>, pub comment_after_domain_part: Option<String> }
#[cfg(not(feature = "lite"))]
impl Dump for Em113 { fn dump(&self) -> String { dump_email(&self.local_part, self.need_quoted, &host_str(&self.domain_part), Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part]), None) } }
#[cfg(not(feature = "lite"))]
subject!(Em113; text);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Em0, "email", r#"email"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em0, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em1, "email", r#"email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Must, labels: Must, non_ascii: Allow }, t)), Em1, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em2, "email", r#"email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Must, labels: Must, non_ascii: Disallow }, t)), Em2, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em3, "email", r#"email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Must, labels: Allow, non_ascii: Allow }, t)), Em3, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em4, "email", r#"email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Must, labels: Allow, non_ascii: Disallow }, t)), Em4, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em5, "email", r#"email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Must, labels: Disallow, non_ascii: Allow }, t)), Em5, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em6, "email", r#"email(comment(Allow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Must, labels: Disallow, non_ascii: Disallow }, t)), Em6, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em7, "email", r#"email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Allow, labels: Must, non_ascii: Allow }, t)), Em7, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em8, "email", r#"email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Allow, labels: Must, non_ascii: Disallow }, t)), Em8, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em9, "email", r#"email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em9, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em10, "email", r#"email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em10, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em11, "email", r#"email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Allow, labels: Disallow, non_ascii: Allow }, t)), Em11, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em12, "email", r#"email(comment(Allow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Allow, labels: Disallow, non_ascii: Disallow }, t)), Em12, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em13, "email", r#"email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Disallow, labels: Must, non_ascii: Allow }, t)), Em13, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em14, "email", r#"email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Disallow, labels: Must, non_ascii: Disallow }, t)), Em14, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em15, "email", r#"email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em15, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em16, "email", r#"email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Disallow, labels: Allow, non_ascii: Disallow }, t)), Em16, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em17, "email", r#"email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Disallow, labels: Disallow, non_ascii: Allow }, t)), Em17, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em18, "email", r#"email(comment(Allow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Must, local: Disallow, labels: Disallow, non_ascii: Disallow }, t)), Em18, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em19, "email", r#"email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Must, labels: Must, non_ascii: Allow }, t)), Em19, validators::errors::EmailError, |v| Some(v.to_email_string())));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em20, "email", r#"email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Must, labels: Must, non_ascii: Disallow }, t)), Em20, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em21, "email", r#"email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Must, labels: Allow, non_ascii: Allow }, t)), Em21, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em22, "email", r#"email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Must, labels: Allow, non_ascii: Disallow }, t)), Em22, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em23, "email", r#"email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Must, labels: Disallow, non_ascii: Allow }, t)), Em23, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em24, "email", r#"email(comment(Allow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Must, labels: Disallow, non_ascii: Disallow }, t)), Em24, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em25, "email", r#"email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Must, non_ascii: Allow }, t)), Em25, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em26, "email", r#"email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Must, non_ascii: Disallow }, t)), Em26, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em27, "email", r#"email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em27, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em28, "email", r#"email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em28, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em29, "email", r#"email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Disallow, non_ascii: Allow }, t)), Em29, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em30, "email", r#"email(comment(Allow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Disallow, non_ascii: Disallow }, t)), Em30, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em31, "email", r#"email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Must, non_ascii: Allow }, t)), Em31, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em32, "email", r#"email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Must, non_ascii: Disallow }, t)), Em32, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em33, "email", r#"email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em33, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em34, "email", r#"email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Allow, non_ascii: Disallow }, t)), Em34, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em35, "email", r#"email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Disallow, non_ascii: Allow }, t)), Em35, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em36, "email", r#"email(comment(Allow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Disallow, non_ascii: Disallow }, t)), Em36, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em37, "email", r#"email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Must, labels: Must, non_ascii: Allow }, t)), Em37, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em38, "email", r#"email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Must, labels: Must, non_ascii: Disallow }, t)), Em38, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em39, "email", r#"email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Must, labels: Allow, non_ascii: Allow }, t)), Em39, validators::errors::EmailError, |v| Some(v.to_email_string())));
}

fn part2(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em40, "email", r#"email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Must, labels: Allow, non_ascii: Disallow }, t)), Em40, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em41, "email", r#"email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Must, labels: Disallow, non_ascii: Allow }, t)), Em41, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em42, "email", r#"email(comment(Allow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Must, labels: Disallow, non_ascii: Disallow }, t)), Em42, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em43, "email", r#"email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Must, non_ascii: Allow }, t)), Em43, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em44, "email", r#"email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Must, non_ascii: Disallow }, t)), Em44, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em45, "email", r#"email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em45, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em46, "email", r#"email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em46, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em47, "email", r#"email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Disallow, non_ascii: Allow }, t)), Em47, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em48, "email", r#"email(comment(Allow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Disallow, non_ascii: Disallow }, t)), Em48, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em49, "email", r#"email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Disallow, labels: Must, non_ascii: Allow }, t)), Em49, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em50, "email", r#"email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Disallow, labels: Must, non_ascii: Disallow }, t)), Em50, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em51, "email", r#"email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em51, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em52, "email", r#"email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Disallow, labels: Allow, non_ascii: Disallow }, t)), Em52, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em53, "email", r#"email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Disallow, labels: Disallow, non_ascii: Allow }, t)), Em53, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em54, "email", r#"email(comment(Allow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Disallow, labels: Disallow, non_ascii: Disallow }, t)), Em54, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em55, "email", r#"email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Must, labels: Must, non_ascii: Allow }, t)), Em55, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em56, "email", r#"email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Must, labels: Must, non_ascii: Disallow }, t)), Em56, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em57, "email", r#"email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Must, labels: Allow, non_ascii: Allow }, t)), Em57, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em58, "email", r#"email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Must, labels: Allow, non_ascii: Disallow }, t)), Em58, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em59, "email", r#"email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Must, labels: Disallow, non_ascii: Allow }, t)), Em59, validators::errors::EmailError, |v| Some(v.to_email_string())));
}

fn part3(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em60, "email", r#"email(comment(Disallow), ip(Must), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Must, labels: Disallow, non_ascii: Disallow }, t)), Em60, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em61, "email", r#"email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Allow, labels: Must, non_ascii: Allow }, t)), Em61, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em62, "email", r#"email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Allow, labels: Must, non_ascii: Disallow }, t)), Em62, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em63, "email", r#"email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em63, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em64, "email", r#"email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em64, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em65, "email", r#"email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Allow, labels: Disallow, non_ascii: Allow }, t)), Em65, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em66, "email", r#"email(comment(Disallow), ip(Must), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Allow, labels: Disallow, non_ascii: Disallow }, t)), Em66, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em67, "email", r#"email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Disallow, labels: Must, non_ascii: Allow }, t)), Em67, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em68, "email", r#"email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Disallow, labels: Must, non_ascii: Disallow }, t)), Em68, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em69, "email", r#"email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em69, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em70, "email", r#"email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Disallow, labels: Allow, non_ascii: Disallow }, t)), Em70, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em71, "email", r#"email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow), conflict(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Disallow, labels: Disallow, non_ascii: Allow }, t)), Em71, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em72, "email", r#"email(comment(Disallow), ip(Must), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow), conflict(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Must, local: Disallow, labels: Disallow, non_ascii: Disallow }, t)), Em72, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em73, "email", r#"email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Must, labels: Must, non_ascii: Allow }, t)), Em73, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em74, "email", r#"email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Must, labels: Must, non_ascii: Disallow }, t)), Em74, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em75, "email", r#"email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Must, labels: Allow, non_ascii: Allow }, t)), Em75, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em76, "email", r#"email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Must, labels: Allow, non_ascii: Disallow }, t)), Em76, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em77, "email", r#"email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Must, labels: Disallow, non_ascii: Allow }, t)), Em77, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em78, "email", r#"email(comment(Disallow), ip(Allow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Must, labels: Disallow, non_ascii: Disallow }, t)), Em78, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em79, "email", r#"email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Must, non_ascii: Allow }, t)), Em79, validators::errors::EmailError, |v| Some(v.to_email_string())));
}

fn part4(v: &mut Vec<Target>) {
    v.push(ws!(target!(Em80, "email", r#"email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Must, non_ascii: Disallow }, t)), Em80, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em81, "email", r#"email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em81, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em82, "email", r#"email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em82, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em83, "email", r#"email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Disallow, non_ascii: Allow }, t)), Em83, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em84, "email", r#"email(comment(Disallow), ip(Allow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Disallow, non_ascii: Disallow }, t)), Em84, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em85, "email", r#"email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Disallow, labels: Must, non_ascii: Allow }, t)), Em85, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em86, "email", r#"email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Disallow, labels: Must, non_ascii: Disallow }, t)), Em86, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em87, "email", r#"email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em87, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em88, "email", r#"email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Disallow, labels: Allow, non_ascii: Disallow }, t)), Em88, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em89, "email", r#"email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Disallow, labels: Disallow, non_ascii: Allow }, t)), Em89, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em90, "email", r#"email(comment(Disallow), ip(Allow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Disallow, labels: Disallow, non_ascii: Disallow }, t)), Em90, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em91, "email", r#"email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Must, labels: Must, non_ascii: Allow }, t)), Em91, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em92, "email", r#"email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Must, labels: Must, non_ascii: Disallow }, t)), Em92, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em93, "email", r#"email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Must, labels: Allow, non_ascii: Allow }, t)), Em93, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em94, "email", r#"email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Must, labels: Allow, non_ascii: Disallow }, t)), Em94, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em95, "email", r#"email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Must, labels: Disallow, non_ascii: Allow }, t)), Em95, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em96, "email", r#"email(comment(Disallow), ip(Disallow), local(Must), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Must, labels: Disallow, non_ascii: Disallow }, t)), Em96, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em97, "email", r#"email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Allow, labels: Must, non_ascii: Allow }, t)), Em97, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em98, "email", r#"email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Allow, labels: Must, non_ascii: Disallow }, t)), Em98, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em99, "email", r#"email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em99, validators::errors::EmailError, |v| Some(v.to_email_string())));
}

fn part5(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em100, "email", r#"email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em100, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em101, "email", r#"email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Allow, labels: Disallow, non_ascii: Allow }, t)), Em101, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em102, "email", r#"email(comment(Disallow), ip(Disallow), local(Allow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Allow, labels: Disallow, non_ascii: Disallow }, t)), Em102, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em103, "email", r#"email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Disallow, labels: Must, non_ascii: Allow }, t)), Em103, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em104, "email", r#"email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Must), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Disallow, labels: Must, non_ascii: Disallow }, t)), Em104, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em105, "email", r#"email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em105, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em106, "email", r#"email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Allow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Disallow, labels: Allow, non_ascii: Disallow }, t)), Em106, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em107, "email", r#"email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Allow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Disallow, labels: Disallow, non_ascii: Allow }, t)), Em107, validators::errors::EmailError, |v| Some(v.to_email_string())));
    v.push(ws!(target!(Em108, "email", r#"email(comment(Disallow), ip(Disallow), local(Disallow), at_least_two_labels(Disallow), non_ascii(Disallow))"#, |t| judge(&Cfg { comment: Disallow, ip: Disallow, local: Disallow, labels: Disallow, non_ascii: Disallow }, t)), Em108, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em109, "email", r#"email(comment = Disallow)"#, |t| judge(&Cfg { comment: Disallow, ip: Allow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em109, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em110, "email", r#"email(ip = Disallow)"#, |t| judge(&Cfg { comment: Allow, ip: Disallow, local: Allow, labels: Allow, non_ascii: Allow }, t)), Em110, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em111, "email", r#"email(local = Disallow)"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Disallow, labels: Allow, non_ascii: Allow }, t)), Em111, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em112, "email", r#"email(at_least_two_labels = Must)"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Must, non_ascii: Allow }, t)), Em112, validators::errors::EmailError, |v| Some(v.to_email_string())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Em113, "email", r#"email(non_ascii = Disallow)"#, |t| judge(&Cfg { comment: Allow, ip: Allow, local: Allow, labels: Allow, non_ascii: Disallow }, t)), Em113, validators::errors::EmailError, |v| Some(v.to_email_string())));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    part2(&mut v);
    part3(&mut v);
    part4(&mut v);
    part5(&mut v);
    v
}
