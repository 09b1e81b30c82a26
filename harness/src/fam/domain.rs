//! domain.
pub use super::net::*;
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

pub struct Cfg {
    pub ipv4:   Tri,
    pub local:  Tri,
    pub port:   Tri,
    pub labels: Tri,
}

pub fn dump_domain(d: &str, port: Option<u16>, is_local: Option<bool>, is_ipv4: Option<bool>, fq: bool, nfq: &str) -> String {
    format!("{} port={port:?} is_local={is_local:?} is_ipv4={is_ipv4:?} fully_qualified={fq} without_root_dot={nfq:?}", dom_str(d))
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let mut bad = vec![];
    let (name, p) = split(s);
    let p = port(p);
    match p {
        Port::Absent if c.port == Tri::Must => bad.push("PortMust"),
        Port::Absent => {},
        Port::Bad => bad.push("Invalid"),
        _ => {},
    }
    if s.contains(':') && c.port == Tri::Disallow {
        bad.push("PortDisallow");
    }
    let ascii = domain_ascii(name);
    let Some(a) = ascii else {
        bad.push("Invalid");
        return Exp::Reject(bad);
    };
    let v4 = quad(&a);
    let is_local = match v4 {
        Some(ip) => local_v4(ip),
        None => local_name(&a),
    };
    match c.ipv4 {
        Tri::Must if v4.is_none() => bad.push("IPv4Must"),
        Tri::Disallow if v4.is_some() => bad.push("IPv4Disallow"),
        _ => {},
    }
    match c.local {
        Tri::Must if !is_local => bad.push("LocalMust"),
        Tri::Disallow if is_local => bad.push("LocalDisallow"),
        _ => {},
    }
    match c.labels {
        Tri::Disallow if v4.is_some() => bad.push("AtLeastTwoLabelsDisallow"),
        Tri::Disallow if !is_local && two_labels(&a) => bad.push("AtLeastTwoLabelsDisallow"),
        Tri::Must if !is_local && !two_labels(&a) => bad.push("AtLeastTwoLabelsMust"),
        _ => {},
    }
    if !bad.is_empty() {
        return Exp::Reject(bad);
    }
    let port = match p {
        Port::Odd => return Exp::Unspecified,
        Port::Is(v) => Some(v),
        _ => None,
    };
    let lf = c.local == Tri::Allow && c.labels != Tri::Allow;
    let vf = lf && c.ipv4 == Tri::Allow;
    let nfq = a.strip_suffix('.').unwrap_or(&a);
    Exp::AcceptC(
        dump_domain(&a, port, lf.then_some(is_local), vf.then_some(v4.is_some()), a.ends_with('.'), nfq),
        authority(nfq, port),
    )
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    if r.chance(1, 50) {
        return Tok::Str(gens::any_text(r, 20));
    }
    let mut s = gen_domain(r);
    if r.chance(2, 5) {
        s.push_str(&gen_port(r));
    }
    if r.chance(1, 7) {
        s = gens::mutate(r, &s, MUT);
    }
    Tok::Str(s)
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["a", ".", ":", "1", "-", "。"], 4));
    v.extend(gens::strs(gens::all_strings(&["localhost", ".", "a", ":1"], 4)));
    for d in ["127.0.0.1", "8.8.8.8", "example.com", "localhost", "a", "１２７.0.0.1", "８。８。８。８", "ｌocalhost", "LOCALHOST", "中文.com", "中文", "xn--fiq228c", "1.2.3", "0.0.0.0", "255.255.255.255", "10.0.0.1", "172.16.0.0", "172.32.0.0"] {
        for dot in ["", ".", "。", ".."] {
            for p in ["", ":", ":80", ":0", ":65535", ":65536", ":080", ":8080:80", ":-1", ":８", ":a"] {
                v.push(Tok::Str(format!("{d}{dot}{p}")));
            }
        }
    }
    for n in [1usize, 61, 62, 63, 64, 65] {
        for suffix in ["", ".", ".com", ":80", ".com.", ".com.:80"] {
            v.push(Tok::Str(format!("{}{suffix}", "a".repeat(n))));
            v.push(Tok::Str(format!("{}{suffix}", "中".repeat(n))));
        }
    }
    for total in 248..=258usize {
        for dot in ["", "."] {
            let mut s = format!("{}.", "a".repeat(63)).repeat(3);
            s.push_str(&"b".repeat(total - s.len()));
            v.push(Tok::Str(format!("{s}{dot}")));
            v.push(Tok::Str(format!("{s}{dot}:80")));
            let mut s = "a.".repeat(120);
            s.push_str(&"b".repeat(total - s.len()));
            v.push(Tok::Str(format!("{s}{dot}")));
        }
    }
    for u in 0..128u8 {
        for pat in ["?", "a?", "?a", "a?b", "a.?", "a?.com", "ab?c.d", "localhost?", "1.2.3.4?"] {
            v.push(Tok::Str(pat.replace('?', &(u as char).to_string())));
        }
    }
    v
}

#[cfg(feature = "fam_domain")]
pub fn family() -> Family {
    Family { name: "domain", targets: crate::cfgs::domain::targets(), gen_tok, corners }
}
