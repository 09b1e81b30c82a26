//! base32 / base64 / base64_url, plain and decoded.
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    B32,
    B64,
    B64U,
}

pub struct Cfg {
    pub enc:     Enc,
    pub decoded: bool,
    pub pad:     Tri,
}

pub fn dump_text(s: &str) -> String {
    match std::str::from_utf8(s.as_bytes()) {
        Ok(s) => format!("{s:?}"),
        Err(_) => format!("NOT UTF-8 {:?}", s.as_bytes()),
    }
}

pub fn dump_bytes(b: &[u8]) -> String {
    format!("{b:?}")
}

const A32: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
const A64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const A64U: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn alphabet(e: Enc) -> &'static [u8] {
    match e {
        Enc::B32 => A32,
        Enc::B64 => A64,
        Enc::B64U => A64U,
    }
}

fn bits(e: Enc) -> usize {
    if e == Enc::B32 { 5 } else { 6 }
}

fn block(e: Enc) -> usize {
    if e == Enc::B32 { 8 } else { 4 }
}

pub fn encode(e: Enc, data: &[u8], pad: bool) -> String {
    let (a, b) = (alphabet(e), bits(e));
    let mut out = String::new();
    let (mut acc, mut n) = (0u32, 0usize);
    for x in data {
        acc = (acc << 8) | *x as u32;
        n += 8;
        while n >= b {
            n -= b;
            out.push(a[(acc >> n) as usize & ((1 << b) - 1)] as char);
        }
        acc &= (1 << n) - 1;
    }
    if n > 0 {
        out.push(a[((acc << (b - n)) as usize) & ((1 << b) - 1)] as char);
    }
    if pad {
        while out.len() % block(e) != 0 {
            out.push('=');
        }
    }
    out
}

/// Reference: Ok(decoded bytes, trailing bits are zero) if it is an encoding at all, padded or not.
fn reference(e: Enc, s: &[u8]) -> Option<(Vec<u8>, bool)> {
    let (a, b, blk) = (alphabet(e), bits(e), block(e));
    let data_len = s.iter().position(|c| *c == b'=').unwrap_or(s.len());
    let pads = s.len() - data_len;
    if data_len == 0 || s[data_len..].iter().any(|c| *c != b'=') {
        return None;
    }
    // how many whole bytes, and are the symbols the minimum for them
    let nbytes = data_len * b / 8;
    if nbytes == 0 || (nbytes * 8).div_ceil(b) != data_len {
        return None;
    }
    if pads > 0 && (data_len.div_ceil(blk) * blk - data_len) != pads {
        return None;
    }
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0usize);
    for c in &s[..data_len] {
        let v = a.iter().position(|x| x == c)? as u32;
        acc = (acc << b) | v;
        n += b;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some((out, acc == 0))
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let s: &[u8] = match t {
        Tok::Str(s) => s.as_bytes(),
        Tok::Bytes(b) => b,
        _ => return Exp::Unspecified,
    };
    let mut bad: Vec<&'static str> = vec![];
    let r = reference(c.enc, s);
    match &r {
        None => {
            bad.push("Invalid");
            if c.decoded {
                bad.push("Decode");
            }
        },
        Some((_, false)) if c.decoded => {
            bad.push("Decode");
            bad.push("Invalid");
        },
        _ => {},
    }
    match c.pad {
        Tri::Must if s.len() % block(c.enc) != 0 => bad.push("PaddingMust"),
        Tri::Disallow if s.contains(&b'=') => bad.push("PaddingDisallow"),
        _ => {},
    }
    if !bad.is_empty() {
        return Exp::Reject(bad);
    }
    Exp::Accept(if c.decoded { dump_bytes(&r.unwrap().0) } else { dump_text(std::str::from_utf8(s).unwrap()) })
}

const MUT: &[&str] = &["=", "A", "a", "B", "2", "7", "1", "8", "0", "9", "+", "/", "-", "_", "\n", " ", "Z", "z", "g", "Q", "="];

fn gen_str(r: &mut Rng) -> String {
    let e = *r.choose(&[Enc::B32, Enc::B64, Enc::B64U]);
    let n = match r.below(10) {
        0 => r.range(1, 200),
        1..=3 => r.range(1, 6),
        _ => r.range(1, 20),
    };
    let mut data: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    if r.chance(1, 6) {
        let v = *r.choose(&[0u8, 0xff, 0xfb, 0x3e]);
        data.iter_mut().for_each(|x| *x = v);
    }
    let pad = r.chance(1, 2);
    let mut s = encode(e, &data, pad);
    match r.below(12) {
        0..=3 => {},
        4 => {
            // trailing bits: change the last symbol
            let cut = s.trim_end_matches('=').len();
            let tail = s.split_off(cut);
            s.pop();
            s.push(alphabet(e)[r.below(alphabet(e).len())] as char);
            s.push_str(&tail);
        },
        5 => {
            // drop or add symbols before the padding
            let cut = s.trim_end_matches('=').len();
            let tail = s.split_off(cut);
            for _ in 0..r.range(1, 3) {
                if r.chance(1, 2) {
                    s.pop();
                } else {
                    s.push(alphabet(e)[r.below(alphabet(e).len())] as char);
                }
            }
            s.push_str(&tail);
        },
        6 => {
            // another amount of padding
            s.truncate(s.trim_end_matches('=').len());
            for _ in 0..r.below(9) {
                s.push('=');
            }
        },
        7 => {
            // padding in the middle, data after it
            let extra = encode(e, &data[..r.range(1, n)], r.chance(1, 2));
            s.push_str(&extra);
        },
        8 => s = gens::flip_case(r, &s),
        9 => {
            // one symbol of a foreign alphabet, anywhere
            let f = *r.choose(&[b'+', b'/', b'-', b'_', b'a', b'1', b'0', b'8', b'9', b'=', b'.', b'@', b'[', b'`', b'{', b',', b':']);
            let mut b = s.into_bytes();
            let i = r.below(b.len());
            b[i] = f;
            s = String::from_utf8(b).unwrap();
        },
        _ => s = gens::mutate(r, &s, MUT),
    }
    s
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    let s = if r.chance(1, 40) { gens::any_text(r, 12) } else { gen_str(r) };
    if r.chance(1, 3) {
        let mut b = s.into_bytes();
        if r.chance(1, 4) && !b.is_empty() {
            let i = r.below(b.len());
            b[i] = r.u64() as u8;
        }
        Tok::Bytes(b)
    } else {
        Tok::Str(s)
    }
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["A", "=", "+", "-", "2", "1", "a", "é"], 4));
    for n in 0..=17usize {
        for m in 0..=9usize {
            for last in ["A", "B", "Q", "g", "7", "E", "_", "/"] {
                let mut s = "A".repeat(n);
                if n > 0 {
                    s.pop();
                    s.push_str(last);
                }
                s.push_str(&"=".repeat(m));
                v.push(Tok::Bytes(s.clone().into_bytes()));
                v.push(Tok::Str(s));
            }
        }
    }
    // each byte at each position of a block
    for len in [8usize, 7, 4, 3, 16] {
        for p in 0..len {
            for b in 0..=255u8 {
                let mut s = vec![b'A'; len];
                s[p] = b;
                if let Ok(t) = String::from_utf8(s.clone()) {
                    v.push(Tok::Str(t));
                }
                v.push(Tok::Bytes(s));
            }
        }
    }
    for e in [Enc::B32, Enc::B64, Enc::B64U] {
        for a in 0..=255u8 {
            v.push(Tok::Str(encode(e, &[a], false)));
            v.push(Tok::Str(encode(e, &[a], true)));
            v.push(Tok::Str(encode(e, &[255 - a, a], true)));
            v.push(Tok::Str(encode(e, &[a, 7, a], false)));
        }
    }
    v
}

pub fn family() -> Family {
    Family { name: "base", targets: crate::cfgs::base::targets(), gen_tok, corners }
}
