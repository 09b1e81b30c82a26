//! Shared references for names and addresses.
use std::{
    net::{IpAddr, Ipv4Addr, Ipv6Addr},
    str::FromStr,
};

use validators::models::Host;

use crate::{core::Rng, gens};

// ---- classification, written from the definitions -------------------------

pub fn local_v4(ip: Ipv4Addr) -> bool {
    let u = u32::from(ip);
    let in_net = |net: [u8; 4], bits: u32| {
        let n = u32::from_be_bytes(net);
        (u ^ n).checked_shr(32 - bits).unwrap_or(0) == 0
    };
    in_net([10, 0, 0, 0], 8)
        || in_net([172, 16, 0, 0], 12)
        || in_net([192, 168, 0, 0], 16)
        || in_net([127, 0, 0, 0], 8)
        || in_net([169, 254, 0, 0], 16)
        || in_net([192, 0, 2, 0], 24)
        || in_net([198, 51, 100, 0], 24)
        || in_net([203, 0, 113, 0], 24)
        || u == 0
        || u == u32::MAX
}

pub fn local_v6(ip: Ipv6Addr) -> bool {
    let u = u128::from(ip);
    let top = |n: u32| (u >> (128 - n)) as u32;
    if top(8) == 0xff {
        // multicast: everything but global scope
        return (u >> 112) & 0xf != 0xe;
    }
    if u == 0 || u == 1 {
        return true;
    }
    if top(10) == 0xfe80 >> 6 || top(10) == 0xfec0 >> 6 || top(7) == 0xfc >> 1 || top(32) == 0x2001_0db8 {
        return true;
    }
    // IPv4-compatible and IPv4-mapped
    if u >> 32 == 0 || u >> 32 == 0xffff {
        return local_v4(Ipv4Addr::from(u as u32));
    }
    false
}

pub fn local_ip(ip: IpAddr) -> bool {
    match ip {
        IpAddr::V4(i) => local_v4(i),
        IpAddr::V6(i) => local_v6(i),
    }
}

pub fn local_name(ascii: &str) -> bool {
    let a = ascii.to_ascii_lowercase();
    a == "localhost" || a == "localhost."
}

pub fn two_labels(ascii: &str) -> bool {
    let labels = ascii.split('.').count();
    if ascii.ends_with('.') { labels > 2 } else { labels > 1 }
}

/// dotted quad, optionally with the root dot
pub fn quad(s: &str) -> Option<Ipv4Addr> {
    let mut p: Vec<&str> = s.split('.').collect();
    if p.len() == 5 && p[4].is_empty() {
        p.pop();
    }
    if p.len() != 4 {
        return None;
    }
    let mut o = [0u8; 4];
    for (i, x) in p.iter().enumerate() {
        if x.is_empty() || x.len() > 3 || !x.bytes().all(|b| b.is_ascii_digit()) || (x.len() > 1 && x.starts_with('0')) {
            return None;
        }
        o[i] = x.parse().ok()?;
    }
    Some(Ipv4Addr::from(o))
}

pub fn v6(s: &str) -> Option<Ipv6Addr> {
    // grammar of RFC 4291 without zone
    if !s.bytes().all(|b| b.is_ascii_hexdigit() || b == b':' || b == b'.') {
        return None;
    }
    Ipv6Addr::from_str(s).ok()
}

/// A domain name in ASCII form (lower case, LDH labels of 1..=63, 253 bytes,
/// optional root dot); None when it is not one.
pub fn domain_ascii(s: &str) -> Option<String> {
    if s.is_ascii() && !s.to_ascii_lowercase().contains("xn--") {
        let low = s.to_ascii_lowercase();
        let body = low.strip_suffix('.').unwrap_or(&low);
        if body.is_empty() || body.len() > 253 {
            return None;
        }
        for l in body.split('.') {
            let b = l.as_bytes();
            if b.is_empty()
                || b.len() > 63
                || b[0] == b'-'
                || b[b.len() - 1] == b'-'
                || !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-')
            {
                return None;
            }
        }
        return Some(low);
    }
    // UTS #46 itself is taken from the idna crate, strict profile
    let a = idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true).to_ascii(s).ok()?;
    Some(a)
}

pub enum Port {
    Absent,
    Bad,
    /// texts like "+80" that are digits only by courtesy
    Odd,
    Is(u16),
}

pub fn port(p: Option<&str>) -> Port {
    match p {
        None => Port::Absent,
        Some(p) => {
            let d = p.strip_prefix('+').unwrap_or(p);
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                return Port::Bad;
            }
            let d0 = d.trim_start_matches('0');
            if d0.len() > 5 {
                return Port::Bad;
            }
            let v: u32 = if d0.is_empty() { 0 } else { d0.parse().unwrap() };
            if v > 65535 {
                return Port::Bad;
            }
            if p.starts_with('+') { Port::Odd } else { Port::Is(v as u16) }
        },
    }
}

/// name[:port] split at the last colon
pub fn split(s: &str) -> (&str, Option<&str>) {
    match s.rfind(':') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    }
}

// ---- dumps ----------------------------------------------------------------

pub fn host_str(h: &Host) -> String {
    match h {
        Host::Domain(d) => dom_str(d),
        Host::IPv4(i) => ip_str(&IpAddr::V4(*i)),
        Host::IPv6(i) => ip_str(&IpAddr::V6(*i)),
    }
}
pub fn ip_str(i: &IpAddr) -> String {
    match i {
        IpAddr::V4(i) => format!("ipv4 {:08x}", u32::from(*i)),
        IpAddr::V6(i) => format!("ipv6 {:032x}", u128::from(*i)),
    }
}
pub fn dom_str(d: &str) -> String {
    format!("domain {d:?}")
}

pub fn authority(host: &str, port: Option<u16>) -> String {
    match port {
        Some(p) => format!("{host}:{p}"),
        None => host.to_string(),
    }
}

pub fn bracketed(i: &IpAddr) -> String {
    match i {
        IpAddr::V4(i) => i.to_string(),
        IpAddr::V6(i) => format!("[{i}]"),
    }
}

// ---- generators -----------------------------------------------------------

pub const LABELS: &[&str] = &[
    "a", "example", "com", "org", "localhost", "LOCALHOST", "LocalHost", "local", "x-y", "-a", "a-", "ab--c", "xn--fiq228c", "xn--", "xn--a", "xn--mgbh0fb", "中文", "例え", "ß", "İ", "bücher", "faß", "1", "0",
    "127", "255", "256", "00", "0x7f", "a_b", "_x", "a b", "", "Ａ", "ｌocalhost", "１２７", "٣", "é", "e\u{301}", "\u{200d}", "a\u{ad}b", "😀", "K", "ſ", "localhos", "localhostx", "xlocalhost",
];
pub const MUT: &[&str] = &[
    ".", ":", "-", "[", "]", "@", ":80", ":0", ":65535", ":65536", ":", "localhost", "127.0.0.1", "。", "．", "｡", "１", "a", "0", "1", "::", "::1", "%", "/", "_", " ", ".:1", "+", "xn--", "::ffff:", "\u{ad}", "ａ",
];

pub fn gen_v4(r: &mut Rng) -> Ipv4Addr {
    match r.below(4) {
        0 => Ipv4Addr::from(r.u64() as u32),
        1 | 2 => {
            // around the edges of the special blocks
            const E: &[(u32, u32)] = &[
                (0x0a00_0000, 8),
                (0xac10_0000, 12),
                (0xc0a8_0000, 16),
                (0x7f00_0000, 8),
                (0xa9fe_0000, 16),
                (0xc000_0200, 24),
                (0xc633_6400, 24),
                (0xcb00_7100, 24),
                (0xffff_ffff, 32),
                (0, 32),
                (0xe000_0000, 4),
                (0x6440_0000, 10),
                (0xc612_0000, 15),
                (0xf000_0000, 4),
                (0xc000_0000, 24),
            ];
            let (n, b) = *r.choose(E);
            let hi = if b == 32 { n } else { n | (u32::MAX >> b) };
            Ipv4Addr::from(match r.below(5) {
                0 => n,
                1 => hi,
                2 => n.wrapping_sub(1),
                3 => hi.wrapping_add(1),
                _ => n | (r.u64() as u32 & (hi ^ n)),
            })
        },
        _ => *r.choose(&[Ipv4Addr::new(8, 8, 8, 8), Ipv4Addr::new(127, 0, 0, 1), Ipv4Addr::new(1, 2, 3, 4), Ipv4Addr::new(192, 168, 1, 1), Ipv4Addr::new(0, 0, 0, 0)]),
    }
}

pub fn gen_v6(r: &mut Rng) -> Ipv6Addr {
    match r.below(6) {
        0 => Ipv6Addr::from(r.u128()),
        1 => Ipv6Addr::from(u32::from(gen_v4(r)) as u128),
        2 => Ipv6Addr::from(0xffff_0000_0000u128 | u32::from(gen_v4(r)) as u128),
        3 => {
            // special prefixes and their neighbours
            let (p, n) = *r.choose(&[(0xffu128, 8u32), (0xfe80 >> 6, 10), (0xfec0 >> 6, 10), (0xfc >> 1, 7), (0x2001_0db8, 32), (0x2001_0000, 32), (0xff0e, 16), (0xff02, 16), (0xff1e, 16), (0x64_ff9b, 32), (0x2002, 16), (0x2000 >> 13, 3)]);
            let p = match r.below(4) {
                0 => p.wrapping_add(1),
                1 => p.wrapping_sub(1),
                _ => p,
            } & ((1 << n) - 1);
            let rest = match r.below(3) {
                0 => 0,
                1 => u128::MAX,
                _ => r.u128(),
            };
            Ipv6Addr::from(p << (128 - n) | rest >> n)
        },
        4 => Ipv6Addr::from(*r.choose(&[0u128, 1, 2, 0xffff, 0xffff_ffff, 0x1_0000_0000, 0xfffe_0808_0808, 0xffff_0808_0808, 0x808_0808, 0x1_ffff_0808_0808])),
        _ => "2001:4860:4860::8888".parse().unwrap(),
    }
}

pub fn v6_text(r: &mut Rng, i: Ipv6Addr) -> String {
    let s = i.segments();
    match r.below(5) {
        0 => s.iter().map(|x| format!("{x:04x}")).collect::<Vec<_>>().join(":"),
        1 => s.iter().map(|x| format!("{x:X}")).collect::<Vec<_>>().join(":"),
        2 => {
            let u = u128::from(i) as u32;
            let v4 = Ipv4Addr::from(u);
            let h = s[..6].iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(":");
            format!("{h}:{v4}")
        },
        _ => i.to_string(),
    }
}

fn fullwidth(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_graphic() { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c }).collect()
}

fn fullwidth_some(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| {
            if c.is_ascii_alphanumeric() && r.chance(1, 4) {
                char::from_u32(c as u32 + 0xfee0).unwrap()
            } else if c == '.' && r.chance(1, 4) {
                *r.choose(&['。', '．', '｡'])
            } else {
                c
            }
        })
        .collect()
}

pub fn gen_domain(r: &mut Rng) -> String {
    let mut s = match r.below(12) {
        0 => gen_v4(r).to_string(),
        1 => r.pick(&["localhost", "localhost.", "LocalHost", "LOCALHOST.", "a.localhost", "localhost.a", "localhost.com", "example.com", "example.com.", "a", "a.", "com", "127.0.0.1.", "8.8.8.8.", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.256", "0x7f.1", ".", "..", "a..b", ".a", "1.2.3.4.."]).to_string(),
        2 => {
            // lengths at the limits
            let mut s = String::new();
            let total = *r.choose(&[62usize, 63, 64, 65, 200, 252, 253, 254, 255, 256]);
            let lab = *r.choose(&[10usize, 31, 50, 61, 62, 63, 64]);
            while s.len() < total {
                if !s.is_empty() {
                    s.push('.');
                }
                let n = lab.min(total.saturating_sub(s.len())).max(1);
                s.push_str(&"a".repeat(n));
            }
            s
        },
        _ => {
            let n = *r.choose(&[1usize, 1, 2, 2, 2, 3, 3, 4, 5]);
            let mut v: Vec<String> = (0..n).map(|_| if r.chance(1, 2) { r.pick(&["a", "example", "com", "b1", "x-y", "org", "localhost", "9"]).to_string() } else { r.pick(LABELS).to_string() }).collect();
            if r.chance(1, 8) {
                v.push(String::new());
            }
            v.join(".")
        },
    };
    match r.below(14) {
        0 => s = fullwidth(&s),
        1 => s = fullwidth_some(r, &s),
        2 => s = gens::flip_case(r, &s),
        3 => s.push('.'),
        4 => s.push_str(r.pick(&["。", "．", "｡"])),
        _ => {},
    }
    s
}

pub fn gen_port(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => format!(":{}", r.below(65536)),
        2 => format!(":{}", r.pick(&["0", "1", "80", "65535", "65536", "65534", "99999", "080", "00080", "000000", "100000000000000000000"])),
        3 => format!(":{}", r.pick(&["", "+80", "-1", " 80", "80 ", "8o", "８０", "0x50", "80:", ":80", "+", "+0"])),
        _ => format!(":{}", r.below(1024)),
    }
}
