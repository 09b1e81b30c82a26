// @generated by tools/gen.py
#![allow(unused_imports, dead_code)]
use validators::prelude::*;
use crate::core::{Dump, Target, Tri::*};
use crate::{subject, target, ws};
use crate::fam::host::*;

#[derive(Debug, Clone, Validator)]
#[validator(host)]
pub struct Hst0 { pub host: validators::models::Host, pub port: Option<u16> }
impl Dump for Hst0 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
subject!(Hst0; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Must)))]
pub struct Hst1 { pub host: validators::models::Host, pub port: u16 }
impl Dump for Hst1 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
subject!(Hst1; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Allow)))]
pub struct Hst2 { pub host: validators::models::Host, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Hst2 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst2; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Must), at_least_two_labels(Disallow)))]
pub struct Hst3 { pub host: validators::models::Host, pub port: u16 }
impl Dump for Hst3 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
subject!(Hst3; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Must)))]
pub struct Hst4 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst4 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst4; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Allow)))]
pub struct Hst5 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst5 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst5; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Allow), at_least_two_labels(Disallow)))]
pub struct Hst6 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst6 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst6; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Must)))]
pub struct Hst7(pub validators::models::Host);
impl Dump for Hst7 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
subject!(Hst7; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Allow)))]
pub struct Hst8(pub validators::models::Host);
#[cfg(not(feature = "lite"))]
impl Dump for Hst8 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst8; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Must), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Hst9(pub validators::models::Host);
#[cfg(not(feature = "lite"))]
impl Dump for Hst9 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst9; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Must)))]
pub struct Hst10 { pub host: validators::models::Host, pub port: u16, pub is_local: bool }
impl Dump for Hst10 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), Some(self.is_local)) } }
subject!(Hst10; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Allow)))]
pub struct Hst11 { pub host: validators::models::Host, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Hst11 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst11; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Must), at_least_two_labels(Disallow)))]
pub struct Hst12 { pub host: validators::models::Host, pub port: u16, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Hst12 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Hst12; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Must)))]
pub struct Hst13 { pub host: validators::models::Host, pub port: Option<u16>, pub is_local: bool }
impl Dump for Hst13 { fn dump(&self) -> String { dump_host(&self.host, self.port, Some(self.is_local)) } }
subject!(Hst13; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Allow)))]
pub struct Hst14 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst14 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst14; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Allow), at_least_two_labels(Disallow)))]
pub struct Hst15 { pub host: validators::models::Host, pub port: Option<u16>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Hst15 { fn dump(&self) -> String { dump_host(&self.host, self.port, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Hst15; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Must)))]
pub struct Hst16 { pub host: validators::models::Host, pub is_local: bool }
impl Dump for Hst16 { fn dump(&self) -> String { dump_host(&self.host, None, Some(self.is_local)) } }
subject!(Hst16; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Hst17(pub validators::models::Host);
impl Dump for Hst17 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
subject!(Hst17; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Allow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Hst18 { pub host: validators::models::Host, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Hst18 { fn dump(&self) -> String { dump_host(&self.host, None, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Hst18; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Must)))]
pub struct Hst19 { pub host: validators::models::Host, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Hst19 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst19; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Allow)))]
pub struct Hst20 { pub host: validators::models::Host, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Hst20 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst20; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Must), at_least_two_labels(Disallow)))]
pub struct Hst21 { pub host: validators::models::Host, pub port: u16 }
#[cfg(not(feature = "lite"))]
impl Dump for Hst21 { fn dump(&self) -> String { dump_host(&self.host, Some(self.port), None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst21; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Must)))]
pub struct Hst22 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst22 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst22; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Allow)))]
pub struct Hst23 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst23 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst23; text);

#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Allow), at_least_two_labels(Disallow)))]
pub struct Hst24 { pub host: validators::models::Host, pub port: Option<u16> }
impl Dump for Hst24 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
subject!(Hst24; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Must)))]
pub struct Hst25(pub validators::models::Host);
#[cfg(not(feature = "lite"))]
impl Dump for Hst25 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst25; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Allow)))]
pub struct Hst26(pub validators::models::Host);
#[cfg(not(feature = "lite"))]
impl Dump for Hst26 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst26; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local(Disallow), port(Disallow), at_least_two_labels(Disallow)))]
pub struct Hst27(pub validators::models::Host);
#[cfg(not(feature = "lite"))]
impl Dump for Hst27 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst27; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(local = Disallow))]
pub struct Hst28 { pub host: validators::models::Host, pub port: Option<u16> }
#[cfg(not(feature = "lite"))]
impl Dump for Hst28 { fn dump(&self) -> String { dump_host(&self.host, self.port, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst28; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(port = Disallow))]
pub struct Hst29(pub validators::models::Host);
#[cfg(not(feature = "lite"))]
impl Dump for Hst29 { fn dump(&self) -> String { dump_host(&self.0, None, None) } }
#[cfg(not(feature = "lite"))]
subject!(Hst29; text);

#[cfg(not(feature = "lite"))]
#[derive(Debug, Clone, Validator)]
#[validator(host(at_least_two_labels = Must))]
pub struct Hst30 { pub host: validators::models::Host, pub port: Option<u16>, pub is_local: bool }
#[cfg(not(feature = "lite"))]
impl Dump for Hst30 { fn dump(&self) -> String { dump_host(&self.host, self.port, Some(self.is_local)) } }
#[cfg(not(feature = "lite"))]
subject!(Hst30; text);

fn part0(v: &mut Vec<Target>) {
    v.push(ws!(target!(Hst0, "host", r#"host"#, |t| judge(&Cfg { local: Allow, port: Allow, labels: Allow }, t)), Hst0, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst1, "host", r#"host(local(Must), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Must, port: Must, labels: Must }, t)), Hst1, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst2, "host", r#"host(local(Must), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Must, port: Must, labels: Allow }, t)), Hst2, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst3, "host", r#"host(local(Must), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Must, port: Must, labels: Disallow }, t)), Hst3, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst4, "host", r#"host(local(Must), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Must, port: Allow, labels: Must }, t)), Hst4, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst5, "host", r#"host(local(Must), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Must, port: Allow, labels: Allow }, t)), Hst5, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst6, "host", r#"host(local(Must), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Must, port: Allow, labels: Disallow }, t)), Hst6, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst7, "host", r#"host(local(Must), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Must, port: Disallow, labels: Must }, t)), Hst7, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst8, "host", r#"host(local(Must), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Must, port: Disallow, labels: Allow }, t)), Hst8, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst9, "host", r#"host(local(Must), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Must, port: Disallow, labels: Disallow }, t)), Hst9, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst10, "host", r#"host(local(Allow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Allow, port: Must, labels: Must }, t)), Hst10, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst11, "host", r#"host(local(Allow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Allow, port: Must, labels: Allow }, t)), Hst11, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst12, "host", r#"host(local(Allow), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Allow, port: Must, labels: Disallow }, t)), Hst12, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst13, "host", r#"host(local(Allow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Allow, port: Allow, labels: Must }, t)), Hst13, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst14, "host", r#"host(local(Allow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Allow, port: Allow, labels: Allow }, t)), Hst14, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst15, "host", r#"host(local(Allow), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Allow, port: Allow, labels: Disallow }, t)), Hst15, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst16, "host", r#"host(local(Allow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Allow, port: Disallow, labels: Must }, t)), Hst16, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst17, "host", r#"host(local(Allow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Allow, port: Disallow, labels: Allow }, t)), Hst17, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst18, "host", r#"host(local(Allow), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Allow, port: Disallow, labels: Disallow }, t)), Hst18, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst19, "host", r#"host(local(Disallow), port(Must), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Disallow, port: Must, labels: Must }, t)), Hst19, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
}

fn part1(v: &mut Vec<Target>) {
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst20, "host", r#"host(local(Disallow), port(Must), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Disallow, port: Must, labels: Allow }, t)), Hst20, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst21, "host", r#"host(local(Disallow), port(Must), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Disallow, port: Must, labels: Disallow }, t)), Hst21, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst22, "host", r#"host(local(Disallow), port(Allow), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Disallow, port: Allow, labels: Must }, t)), Hst22, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst23, "host", r#"host(local(Disallow), port(Allow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Disallow, port: Allow, labels: Allow }, t)), Hst23, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    v.push(ws!(target!(Hst24, "host", r#"host(local(Disallow), port(Allow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Disallow, port: Allow, labels: Disallow }, t)), Hst24, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst25, "host", r#"host(local(Disallow), port(Disallow), at_least_two_labels(Must))"#, |t| judge(&Cfg { local: Disallow, port: Disallow, labels: Must }, t)), Hst25, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst26, "host", r#"host(local(Disallow), port(Disallow), at_least_two_labels(Allow))"#, |t| judge(&Cfg { local: Disallow, port: Disallow, labels: Allow }, t)), Hst26, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst27, "host", r#"host(local(Disallow), port(Disallow), at_least_two_labels(Disallow))"#, |t| judge(&Cfg { local: Disallow, port: Disallow, labels: Disallow }, t)), Hst27, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst28, "host", r#"host(local = Disallow)"#, |t| judge(&Cfg { local: Disallow, port: Allow, labels: Allow }, t)), Hst28, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst29, "host", r#"host(port = Disallow)"#, |t| judge(&Cfg { local: Allow, port: Disallow, labels: Allow }, t)), Hst29, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
    #[cfg(not(feature = "lite"))] v.push(ws!(target!(Hst30, "host", r#"host(at_least_two_labels = Must)"#, |t| judge(&Cfg { local: Allow, port: Allow, labels: Must }, t)), Hst30, validators::errors::HostError, |v| Some(v.to_uri_authority_string().into_owned())));
}

pub fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    part0(&mut v);
    part1(&mut v);
    v
}
