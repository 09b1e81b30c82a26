//! ip / ipv4 / ipv6.
use std::net::IpAddr;

pub use super::net::*;
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

pub struct Cfg {
    pub v4:    bool,
    pub v6:    bool,
    pub local: Tri,
    pub port:  Tri,
}

pub fn dump_ip(i: IpAddr, port: Option<u16>) -> String {
    format!("{} port={port:?}", ip_str(&i))
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let mut bad = vec![];
    let mut ip: Option<IpAddr> = None;
    let mut p = Port::Absent;
    let mut tail = false;
    if s.starts_with('[') && c.v6 {
        if let Some(i) = s.rfind(']') {
            ip = v6(&s[1..i]).map(IpAddr::V6);
            let after = &s[i + 1..];
            tail = !after.is_empty();
            p = match after.strip_prefix(':') {
                Some(x) => port(Some(x)),
                None if after.is_empty() => Port::Absent,
                None => Port::Bad,
            };
        } else {
            // no closing bracket: malformed whatever follows
            p = Port::Bad;
            tail = true;
        }
    } else if let Some(i) = v6(s).filter(|_| c.v6) {
        ip = Some(IpAddr::V6(i));
    } else if c.v4 {
        let (a, q) = split(s);
        tail = q.is_some();
        p = port(q);
        ip = quad(a).filter(|_| !a.ends_with('.')).map(IpAddr::V4);
    }
    if tail && c.port == Tri::Disallow {
        bad.push("PortDisallow");
    }
    match p {
        Port::Bad => bad.push("Invalid"),
        Port::Absent if c.port == Tri::Must => bad.push("PortMust"),
        _ => {},
    }
    let Some(i) = ip else {
        bad.push("Invalid");
        return Exp::Reject(bad);
    };
    let l = local_ip(i);
    match c.local {
        Tri::Must if !l => bad.push("LocalMust"),
        Tri::Disallow if l => bad.push("LocalDisallow"),
        _ => {},
    }
    if !bad.is_empty() {
        return Exp::Reject(bad);
    }
    let port = match p {
        Port::Odd => return Exp::Unspecified,
        Port::Is(v) => Some(v),
        _ => None,
    };
    Exp::AcceptC(dump_ip(i, port), authority(&bracketed(&i), port))
}

const MUT: &[&str] = &[".", ":", "[", "]", "0", "1", "256", "%1", "%eth0", ":80", "::", "ffff", "10000", "g", "0x", " ", "/", ".:", "１"];

pub fn gen_tok(r: &mut Rng) -> Tok {
    if r.chance(1, 60) {
        return Tok::Str(gens::any_text(r, 20));
    }
    let mut s = if r.chance(1, 2) {
        gen_v4(r).to_string()
    } else {
        let i = gen_v6(r);
        let t = v6_text(r, i);
        if r.chance(1, 3) { t } else { format!("[{t}]") }
    };
    if r.chance(2, 5) {
        s.push_str(&gen_port(r));
    }
    if r.chance(1, 6) {
        s = gens::mutate(r, &s, MUT);
    }
    Tok::Str(s)
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["1", ".", ":", "[", "]", "::", "f"], 4));
    let v4 = [
        "0.0.0.0", "0.0.0.1", "9.255.255.255", "10.0.0.0", "10.255.255.255", "11.0.0.0", "126.255.255.255", "127.0.0.0", "127.0.0.1", "127.255.255.255", "128.0.0.0", "169.253.255.255", "169.254.0.0",
        "169.254.255.255", "169.255.0.0", "172.15.255.255", "172.16.0.0", "172.31.255.255", "172.32.0.0", "192.0.1.255", "192.0.2.0", "192.0.2.255", "192.0.3.0", "192.167.255.255", "192.168.0.0",
        "192.168.255.255", "192.169.0.0", "198.51.99.255", "198.51.100.0", "198.51.100.255", "198.51.101.0", "203.0.112.255", "203.0.113.0", "203.0.113.255", "203.0.114.0", "224.0.0.1", "239.255.255.255",
        "240.0.0.1", "255.255.255.254", "255.255.255.255", "8.8.8.8", "100.64.0.1", "198.18.0.1", "1.2.3.4.", "1.2.3", "01.2.3.4", "1.2.3.256", "1.2.3.4.5", "1..2.3", "١.2.3.4",
    ];
    let v6 = [
        "::", "::1", "::2", "::127.0.0.1", "::8.8.8.8", "::ffff:127.0.0.1", "::ffff:8.8.8.8", "::ffff:10.0.0.1", "::ffff:0:8.8.8.8", "::fffe:127.0.0.1", "fe80::", "fe80::1", "febf:ffff::", "fec0::", "feff::1", "ff00::", "ff01::1",
        "ff02::1", "ff05::2", "ff08::1", "ff0e::1", "ff1e::1", "ff3e::1", "ff0f::1", "ff0d::1", "fe7f:ffff::1", "fc00::", "fdff::1", "fbff::1", "fe00::1", "2001:db8::1", "2001:db8:ffff::", "2001:db7::1", "2001:db9::1", "2001:dbf::1",
        "2606:4700::1111", "64:ff9b::7f00:1", "2002:7f00:1::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1::2::3", "12345::", "::g", "1:2:3:4:5:6:1.2.3.4", "::1%1", "FE80::ABCD", "0:0:0:0:0:0:0:0", ":::",
        "1:2:3:4:5:6:7::", "::1:2:3:4:5:6:7", "::0.0.0.2",
    ];
    for p in ["", ":", ":0", ":80", ":65535", ":65536", ":080", ":+1", ":-1", "80", "]", ":80]", ":8:0"] {
        for a in v4 {
            v.push(Tok::Str(format!("{a}{p}")));
            v.push(Tok::Str(format!("[{a}]{p}")));
        }
        for a in v6 {
            v.push(Tok::Str(format!("{a}{p}")));
            v.push(Tok::Str(format!("[{a}]{p}")));
            v.push(Tok::Str(format!("[{a}{p}")));
        }
    }
    v
}

#[cfg(feature = "fam_ip")]
pub fn family() -> Family {
    Family { name: "ip", targets: crate::cfgs::ip::targets(), gen_tok, corners }
}
