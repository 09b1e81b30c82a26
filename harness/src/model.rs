//! The library's own value types and the IPv4 reader.
use std::{
    cmp::Ordering,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    net::{IpAddr, Ipv4Addr, Ipv6Addr},
    time::{Duration, Instant},
};

use serde_json::json;
use validators::models::{Host, Protocol};

use crate::{
    core::{Exp, Family, Out, Rng, Target, Tok},
    extras::{self, Ctx},
    fam::net as refs,
    gens,
};

fn host_of(t: &Tok) -> Option<Host> {
    Some(match t {
        Tok::U(u, 32) => Host::from(Ipv4Addr::from(*u as u32)),
        Tok::U(u, 128) => Host::from(Ipv6Addr::from(*u)),
        Tok::Str(s) => Host::Domain(s.clone()),
        _ => return None,
    })
}

fn kind(t: &Tok) -> Option<String> {
    Some(match t {
        Tok::U(u, 32) => format!("ipv4 {:08x}", *u as u32),
        Tok::U(u, 128) => format!("ipv6 {u:032x}"),
        Tok::Str(s) => format!("domain {s:?}"),
        _ => return None,
    })
}

/// RFC 5952 text, with the mixed notation for IPv4-mapped addresses
fn rfc5952(u: u128) -> String {
    if u >> 32 == 0xffff {
        return format!("::ffff:{}", v4_text(u as u32));
    }
    let g: Vec<u16> = (0..8).map(|i| (u >> (112 - 16 * i)) as u16).collect();
    let (mut at, mut len) = (0, 0);
    for i in 0..8 {
        let n = g[i..].iter().take_while(|x| **x == 0).count();
        if n > len && n > 1 {
            (at, len) = (i, n);
        }
    }
    let hex = |v: &[u16]| v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(":");
    if len == 0 { hex(&g) } else { format!("{}::{}", hex(&g[..at]), hex(&g[at + len..])) }
}

fn v4_text(u: u32) -> String {
    u.to_be_bytes().iter().map(|b| b.to_string()).collect::<Vec<_>>().join(".")
}

fn text(t: &Tok) -> Option<String> {
    Some(match t {
        Tok::U(u, 32) => v4_text(*u as u32),
        Tok::U(u, 128) => rfc5952(*u),
        Tok::Str(s) => s.clone(),
        _ => return None,
    })
}

pub fn family() -> Family {
    let targets = vec![
        extras::function(
            "parse_ipv4_allow_an_ended_dot",
            |t, owned| {
                let Tok::Str(s) = t else { return None };
                let r = if owned { validators::functions::parse_ipv4_allow_an_ended_dot(s.clone()) } else { validators::functions::parse_ipv4_allow_an_ended_dot(s) };
                Some(Out::Ok(format!("{:?}", r.ok())))
            },
            |t| {
                let Tok::Str(s) = t else { return None };
                Some(format!("{:?}", refs::quad(s)))
            },
        ),
        extras::function("Host, kind and contents", |t, _| host_of(t).map(|h| Out::Ok(refs::host_str(&h))), kind),
        extras::function("Host, text", |t, _| host_of(t).map(|h| Out::Ok(h.to_string())), text),
    ];
    Family { name: "model", targets, gen_tok, corners }
}

fn gen_tok(r: &mut Rng) -> Tok {
    match r.below(6) {
        0 => Tok::U(u32::from(refs::gen_v4(r)) as u128, 32),
        1 => Tok::U(u128::from(refs::gen_v6(r)), 128),
        2 => {
            // runs of zero groups of every shape
            let m = r.u64();
            let mut u = 0u128;
            for i in 0..8 {
                u = u << 16 | if m >> i & 1 == 1 { r.u64() as u128 & if m >> 20 & 1 == 1 { 0xf } else { 0xffff } } else { 0 };
            }
            Tok::U(u, 128)
        },
        3 => Tok::Str(refs::gen_domain(r)),
        _ => {
            let mut s = refs::gen_v4(r).to_string();
            if r.chance(1, 2) {
                s.push('.');
            }
            if r.chance(2, 3) {
                s = gens::mutate(r, &s, &[".", "0", "00", "256", "1", "255", " ", "0x", "."]);
            }
            Tok::Str(s)
        },
    }
}

fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["1", ".", "0", "256"], 8));
    for u in 0..256u128 {
        let mut x = 0u128;
        for i in 0..8 {
            x = x << 16 | (u >> i & 1) * 0xa0;
        }
        v.push(Tok::U(x, 128));
        v.push(Tok::U(u * 0x0101_0101, 32));
    }
    v
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// equality, order and hash of hosts and protocols
pub fn laws(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    let mut r = Rng::new(x.seed ^ x.worker as u64 ^ 0x5a);
    let end = Instant::now() + Duration::from_secs_f64(x.budget / 5.0);
    let (mut n, mut same, mut orders) = (0u64, 0u64, [0u64; 3]);
    let all = [Protocol::HTTP, Protocol::HTTPS, Protocol::FTP];
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            if (a == b) != (i == j) || (a.cmp(b) == Ordering::Equal) != (i == j) || (i == j && hash(a) != hash(b)) || a.cmp(b) != b.cmp(a).reverse() {
                return x.broken("Protocol", "law", format!("comparing {a:?} with {b:?}"), json!(null));
            }
        }
    }
    let mut pool: Vec<Tok> = vec![];
    while Instant::now() < end {
        tick();
        for _ in 0..200 {
            pool.push(loop {
                let t = gen_tok(&mut r);
                // the same contents under another kind as well
                match (&t, r.below(3)) {
                    (Tok::U(u, 32), 0) => break Tok::U(0xffff_0000_0000 | u, 128),
                    (Tok::U(..), 1) => break Tok::Str(text(&t).unwrap()),
                    _ => break t,
                }
            });
            let a = pool[r.below(pool.len())].clone();
            let b = pool[r.below(pool.len())].clone();
            let b = if r.chance(1, 4) { a.clone() } else { b };
            let c = pool[r.below(pool.len())].clone();
            let (ha, hb, hc) = (host_of(&a).unwrap(), host_of(&b).unwrap(), host_of(&c).unwrap());
            let eq = kind(&a) == kind(&b);
            n += 1;
            same += eq as u64;
            let o = ha.cmp(&hb);
            orders[(o as i8 + 1) as usize] += 1;
            let bad = if (ha == hb) != eq {
                Some("equality")
            } else if (o == Ordering::Equal) != eq || hb.cmp(&ha) != o.reverse() || ha.partial_cmp(&hb) != Some(o) {
                Some("order")
            } else if o == hb.cmp(&hc) && o != Ordering::Equal && ha.cmp(&hc) != o {
                Some("transitivity of the order")
            } else if eq && hash(&ha) != hash(&hb) {
                Some("hash")
            } else if ha.clone() != ha {
                Some("copy")
            } else {
                None
            };
            if let Some(what) = bad {
                return x.broken("Host", "law", format!("{what} of {ha:?}, {hb:?}, {hc:?}"), json!([a.to_json(), b.to_json(), c.to_json()]));
            }
        }
        if pool.len() > 2000 {
            pool.clear();
        }
    }
    x.evals += n;
    x.saw("laws [pairs of hosts]", n);
    x.saw("laws [equal pairs]", same);
    x.saw("laws [ordered below]", orders[0]);
    x.saw("laws [ordered above]", orders[2]);
}
