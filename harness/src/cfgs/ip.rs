// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::ip::*;

#[derive(Debug, Clone, Validator)]
#[validator(ip)]
pub struct Ip0 { pub ip: std::net::IpAddr, pub port: Option<u16> }
impl Dump for Ip0 { fn dump(&self) -> String { dump_ip(self.ip.into(), self.port) } }
subject!(Ip0; text);

#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Must), port(Must)))]
pub struct Ip1 { pub ip: std::net::IpAddr, pub port: u16 }
impl Dump for Ip1 { fn dump(&self) -> String { dump_ip(self.ip.into(), Some(self.port)) } }
subject!(Ip1; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Must), port(Allow)))]
pub struct Ip2 { pub ip: std::net::IpAddr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip2 { fn dump(&self) -> String { dump_ip(self.ip.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip2; text);

#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Must), port(Disallow)))]
pub struct Ip3(pub std::net::IpAddr);
impl Dump for Ip3 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
subject!(Ip3; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Allow), port(Must)))]
pub struct Ip4 { pub ip: std::net::IpAddr, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Ip4 { fn dump(&self) -> String { dump_ip(self.ip.into(), Some(self.port)) } }
#[cfg(not(feature = "lite"))]
subject!(Ip4; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Allow), port(Allow)))]
pub struct Ip5 { pub ip: std::net::IpAddr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip5 { fn dump(&self) -> String { dump_ip(self.ip.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip5; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Allow), port(Disallow)))]
pub struct Ip6(pub std::net::IpAddr);
#[cfg(not(feature = "lite"))]
impl Dump for Ip6 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
#[cfg(not(feature = "lite"))]
subject!(Ip6; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Disallow), port(Must)))]
pub struct Ip7 { pub ip: std::net::IpAddr, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Ip7 { fn dump(&self) -> String { dump_ip(self.ip.into(), Some(self.port)) } }
#[cfg(not(feature = "lite"))]
subject!(Ip7; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Disallow), port(Allow)))]
pub struct Ip8 { pub ip: std::net::IpAddr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip8 { fn dump(&self) -> String { dump_ip(self.ip.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip8; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ip(local(Disallow), port(Disallow)))]
pub struct Ip9(pub std::net::IpAddr);
#[cfg(not(feature = "lite"))]
impl Dump for Ip9 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
#[cfg(not(feature = "lite"))]
subject!(Ip9; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv4)]
pub struct Ip10 { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
impl Dump for Ip10 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), self.port) } }
subject!(Ip10; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Must), port(Must)))]
pub struct Ip11 { pub ipv4: std::net::Ipv4Addr, pub port: u16 }
impl Dump for Ip11 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), Some(self.port)) } }
subject!(Ip11; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Must), port(Allow)))]
pub struct Ip12 { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip12 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip12; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Must), port(Disallow)))]
pub struct Ip13(pub std::net::Ipv4Addr);
impl Dump for Ip13 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
subject!(Ip13; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Allow), port(Must)))]
pub struct Ip14 { pub ipv4: std::net::Ipv4Addr, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Ip14 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), Some(self.port)) } }
#[cfg(not(feature = "lite"))]
subject!(Ip14; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Allow), port(Allow)))]
pub struct Ip15 { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip15 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip15; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Allow), port(Disallow)))]
pub struct Ip16(pub std::net::Ipv4Addr);
#[cfg(not(feature = "lite"))]
impl Dump for Ip16 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
#[cfg(not(feature = "lite"))]
subject!(Ip16; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Disallow), port(Must)))]
pub struct Ip17 { pub ipv4: std::net::Ipv4Addr, pub port: u16 }
impl Dump for Ip17 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), Some(self.port)) } }
subject!(Ip17; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Disallow), port(Allow)))]
pub struct Ip18 { pub ipv4: std::net::Ipv4Addr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip18 { fn dump(&self) -> String { dump_ip(self.ipv4.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip18; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv4(local(Disallow), port(Disallow)))]
pub struct Ip19(pub std::net::Ipv4Addr);
#[cfg(not(feature = "lite"))]
impl Dump for Ip19 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
#[cfg(not(feature = "lite"))]
subject!(Ip19; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv6)]
pub struct Ip20 { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
impl Dump for Ip20 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), self.port) } }
subject!(Ip20; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Must), port(Must)))]
pub struct Ip21 { pub ipv6: std::net::Ipv6Addr, pub port: u16 }
impl Dump for Ip21 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), Some(self.port)) } }
subject!(Ip21; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Must), port(Allow)))]
pub struct Ip22 { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip22 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip22; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Must), port(Disallow)))]
pub struct Ip23(pub std::net::Ipv6Addr);
impl Dump for Ip23 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
subject!(Ip23; text);

#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Allow), port(Must)))]
pub struct Ip24 { pub ipv6: std::net::Ipv6Addr, pub port: u16 }
impl Dump for Ip24 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), Some(self.port)) } }
subject!(Ip24; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Allow), port(Allow)))]
pub struct Ip25 { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip25 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip25; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Allow), port(Disallow)))]
pub struct Ip26(pub std::net::Ipv6Addr);
#[cfg(not(feature = "lite"))]
impl Dump for Ip26 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
#[cfg(not(feature = "lite"))]
subject!(Ip26; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Disallow), port(Must)))]
pub struct Ip27 { pub ipv6: std::net::Ipv6Addr, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Ip27 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), Some(self.port)) } }
#[cfg(not(feature = "lite"))]
subject!(Ip27; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Disallow), port(Allow)))]
pub struct Ip28 { pub ipv6: std::net::Ipv6Addr, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Ip28 { fn dump(&self) -> String { dump_ip(self.ipv6.into(), self.port) } }
#[cfg(not(feature = "lite"))]
subject!(Ip28; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(ipv6(local(Disallow), port(Disallow)))]
pub struct Ip29(pub std::net::Ipv6Addr);
#[cfg(not(feature = "lite"))]
impl Dump for Ip29 { fn dump(&self) -> String { dump_ip(self.0.into(), None) } }
#[cfg(not(feature = "lite"))]
subject!(Ip29; text);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Ip0, "ip", r#"ip"#, |t| judge(&Cfg { v4: true, v6: true, local: Allow, port: Allow }, t)), Ip0, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip1, "ip", r#"ip(local(Must), port(Must))"#, |t| judge(&Cfg { v4: true, v6: true, local: Must, port: Must }, t)), Ip1, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip2, "ip", r#"ip(local(Must), port(Allow))"#, |t| judge(&Cfg { v4: true, v6: true, local: Must, port: Allow }, t)), Ip2, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip3, "ip", r#"ip(local(Must), port(Disallow))"#, |t| judge(&Cfg { v4: true, v6: true, local: Must, port: Disallow }, t)), Ip3, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip4, "ip", r#"ip(local(Allow), port(Must))"#, |t| judge(&Cfg { v4: true, v6: true, local: Allow, port: Must }, t)), Ip4, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip5, "ip", r#"ip(local(Allow), port(Allow))"#, |t| judge(&Cfg { v4: true, v6: true, local: Allow, port: Allow }, t)), Ip5, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip6, "ip", r#"ip(local(Allow), port(Disallow))"#, |t| judge(&Cfg { v4: true, v6: true, local: Allow, port: Disallow }, t)), Ip6, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip7, "ip", r#"ip(local(Disallow), port(Must))"#, |t| judge(&Cfg { v4: true, v6: true, local: Disallow, port: Must }, t)), Ip7, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip8, "ip", r#"ip(local(Disallow), port(Allow))"#, |t| judge(&Cfg { v4: true, v6: true, local: Disallow, port: Allow }, t)), Ip8, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip9, "ip", r#"ip(local(Disallow), port(Disallow))"#, |t| judge(&Cfg { v4: true, v6: true, local: Disallow, port: Disallow }, t)), Ip9, validators::errors::IpError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip10, "ipv4", r#"ipv4"#, |t| judge(&Cfg { v4: true, v6: false, local: Allow, port: Allow }, t)), Ip10, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip11, "ipv4", r#"ipv4(local(Must), port(Must))"#, |t| judge(&Cfg { v4: true, v6: false, local: Must, port: Must }, t)), Ip11, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip12, "ipv4", r#"ipv4(local(Must), port(Allow))"#, |t| judge(&Cfg { v4: true, v6: false, local: Must, port: Allow }, t)), Ip12, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip13, "ipv4", r#"ipv4(local(Must), port(Disallow))"#, |t| judge(&Cfg { v4: true, v6: false, local: Must, port: Disallow }, t)), Ip13, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip14, "ipv4", r#"ipv4(local(Allow), port(Must))"#, |t| judge(&Cfg { v4: true, v6: false, local: Allow, port: Must }, t)), Ip14, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip15, "ipv4", r#"ipv4(local(Allow), port(Allow))"#, |t| judge(&Cfg { v4: true, v6: false, local: Allow, port: Allow }, t)), Ip15, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip16, "ipv4", r#"ipv4(local(Allow), port(Disallow))"#, |t| judge(&Cfg { v4: true, v6: false, local: Allow, port: Disallow }, t)), Ip16, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip17, "ipv4", r#"ipv4(local(Disallow), port(Must))"#, |t| judge(&Cfg { v4: true, v6: false, local: Disallow, port: Must }, t)), Ip17, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip18, "ipv4", r#"ipv4(local(Disallow), port(Allow))"#, |t| judge(&Cfg { v4: true, v6: false, local: Disallow, port: Allow }, t)), Ip18, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip19, "ipv4", r#"ipv4(local(Disallow), port(Disallow))"#, |t| judge(&Cfg { v4: true, v6: false, local: Disallow, port: Disallow }, t)), Ip19, validators::errors::Ipv4Error, |v| Some(v.to_uri_authority_string().into_owned())));
}

fn part1(v: &mut Vec<Target>) {
    v.push(ws!(target!(Ip20, "ipv6", r#"ipv6"#, |t| judge(&Cfg { v4: false, v6: true, local: Allow, port: Allow }, t)), Ip20, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip21, "ipv6", r#"ipv6(local(Must), port(Must))"#, |t| judge(&Cfg { v4: false, v6: true, local: Must, port: Must }, t)), Ip21, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip22, "ipv6", r#"ipv6(local(Must), port(Allow))"#, |t| judge(&Cfg { v4: false, v6: true, local: Must, port: Allow }, t)), Ip22, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip23, "ipv6", r#"ipv6(local(Must), port(Disallow))"#, |t| judge(&Cfg { v4: false, v6: true, local: Must, port: Disallow }, t)), Ip23, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Ip24, "ipv6", r#"ipv6(local(Allow), port(Must))"#, |t| judge(&Cfg { v4: false, v6: true, local: Allow, port: Must }, t)), Ip24, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip25, "ipv6", r#"ipv6(local(Allow), port(Allow))"#, |t| judge(&Cfg { v4: false, v6: true, local: Allow, port: Allow }, t)), Ip25, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip26, "ipv6", r#"ipv6(local(Allow), port(Disallow))"#, |t| judge(&Cfg { v4: false, v6: true, local: Allow, port: Disallow }, t)), Ip26, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip27, "ipv6", r#"ipv6(local(Disallow), port(Must))"#, |t| judge(&Cfg { v4: false, v6: true, local: Disallow, port: Must }, t)), Ip27, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip28, "ipv6", r#"ipv6(local(Disallow), port(Allow))"#, |t| judge(&Cfg { v4: false, v6: true, local: Disallow, port: Allow }, t)), Ip28, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Ip29, "ipv6", r#"ipv6(local(Disallow), port(Disallow))"#, |t| judge(&Cfg { v4: false, v6: true, local: Disallow, port: Disallow }, t)), Ip29, validators::errors::Ipv6Error, |v| Some(v.to_uri_authority_string().into_owned())));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    v
}
