//! host.
use std::net::IpAddr;

use validators::models::Host;

pub use super::net::*;
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

pub struct Cfg {
    pub local:  Tri,
    pub port:   Tri,
    pub labels: Tri,
}

pub fn dump_host(h: &Host, port: Option<u16>, is_local: Option<bool>) -> String {
    format!("{} port={port:?} is_local={is_local:?}", host_str(h))
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let mut bad = vec![];
    // [v6], [v6]:port, v6, name, name:port
    let mut host: Option<Host> = None;
    let p;
    if let Some(rest) = s.strip_prefix('[') {
        if c.labels == Tri::Disallow {
            // an address literal, well formed or not, counts as two labels
            bad.push("AtLeastTwoLabelsDisallow");
        }
        match rest.rfind(']') {
            Some(i) => {
                host = v6(&rest[..i]).map(Host::IPv6);
                let after = &rest[i + 1..];
                p = if after.is_empty() {
                    Port::Absent
                } else if let Some(x) = after.strip_prefix(':') {
                    port(Some(x))
                } else {
                    if c.port == Tri::Disallow {
                        bad.push("PortDisallow");
                    }
                    Port::Bad
                };
                if !after.is_empty() && c.port == Tri::Disallow {
                    bad.push("PortDisallow");
                }
            },
            None => {
                p = Port::Bad;
                if c.port == Tri::Disallow {
                    bad.push("PortDisallow");
                }
            },
        }
    } else if let Some(i) = v6(s) {
        host = Some(Host::IPv6(i));
        p = Port::Absent;
    } else {
        let (name, q) = split(s);
        p = port(q);
        if q.is_some() && c.port == Tri::Disallow {
            bad.push("PortDisallow");
        }
        if let Some(a) = domain_ascii(name) {
            if !a.ends_with('.') {
                host = Some(match quad(&a) {
                    Some(ip) => Host::IPv4(ip),
                    None => Host::Domain(a),
                });
            }
        }
    }
    match p {
        Port::Bad => bad.push("Invalid"),
        Port::Absent if c.port == Tri::Must => bad.push("PortMust"),
        _ => {},
    }
    let Some(h) = host else {
        bad.push("Invalid");
        return Exp::Reject(bad);
    };
    let (is_local, two) = match &h {
        Host::IPv4(i) => (local_v4(*i), true),
        Host::IPv6(i) => (local_v6(*i), true),
        Host::Domain(d) => (local_name(d), two_labels(d)),
    };
    let name_exempt = matches!(h, Host::Domain(_)) && is_local;
    match c.local {
        Tri::Must if !is_local => bad.push("LocalMust"),
        Tri::Disallow if is_local => bad.push("LocalDisallow"),
        _ => {},
    }
    match c.labels {
        Tri::Must if !two && !name_exempt => bad.push("AtLeastTwoLabelsMust"),
        Tri::Disallow if two && !name_exempt => bad.push("AtLeastTwoLabelsDisallow"),
        _ => {},
    }
    if !bad.is_empty() {
        return Exp::Reject(bad);
    }
    let port = match p {
        Port::Odd => return Exp::Unspecified,
        Port::Is(v) => Some(v),
        _ => None,
    };
    let lf = c.local == Tri::Allow && c.labels != Tri::Allow;
    let shown = match &h {
        Host::Domain(d) => d.clone(),
        Host::IPv4(i) => bracketed(&IpAddr::V4(*i)),
        Host::IPv6(i) => bracketed(&IpAddr::V6(*i)),
    };
    Exp::AcceptC(dump_host(&h, port, lf.then_some(is_local)), authority(&shown, port))
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    if r.chance(1, 50) {
        return Tok::Str(gens::any_text(r, 20));
    }
    let mut s = match r.below(5) {
        0 => {
            let i = gen_v6(r);
            let t = v6_text(r, i);
            if r.chance(1, 3) { t } else { format!("[{t}]") }
        },
        1 => gen_v4(r).to_string(),
        _ => gen_domain(r),
    };
    if r.chance(2, 5) {
        s.push_str(&gen_port(r));
    }
    if r.chance(1, 7) {
        s = gens::mutate(r, &s, MUT);
    }
    Tok::Str(s)
}

pub fn corners() -> Vec<Tok> {
    let mut v = super::domain::corners();
    v.extend(gens::strs(gens::all_strings(&["[", "]", ":", "1", "::", "a"], 4)));
    v.extend(super::ip::corners());
    v
}

pub fn family() -> Family {
    Family { name: "host", targets: crate::cfgs::host::targets(), gen_tok, corners }
}
