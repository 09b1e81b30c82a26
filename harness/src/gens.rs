//! Generic input generators and mutators.
use crate::core::{Rng, Tok};

pub const ODD: &[&str] = &[
    "", " ", "\t", "\n", "\r", "\0", "\u{7f}", "\u{1}", "\u{b}", "\u{c}", "\u{1f}", "é", "中", "１", "Ａ", "。", "．", "｡", "\u{200b}",
    "\u{ad}", "\u{feff}", "\u{a0}", "\u{3000}", "\u{85}", "\u{2028}", "😀", "ß", "İ", "ı", "ſ", "K", "\u{301}", "%", "%20", "%00", "=", "==",
    ".", "..", ":", "::", "-", "--", "_", "+", "/", "\\", "\"", "'", "(", ")", "[", "]", "{", "}", "<", ">", "@", "#", "?", "&", ",",
    ";", "!", "$", "*", "~", "^", "|", "`", "0", "1", "9", "a", "A", "z", "Z", "f", "F", "g", "x", "xn--", "İ.", "０", "٣", "\u{10ffff}",
];

pub fn odd_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) {
            0 => r.below(0x20) as u32,
            1 => 0x20 + r.below(0x60) as u32,
            2 => 0x80 + r.below(0x80) as u32,
            3 => r.below(0x3000) as u32,
            4 => 0x2000 + r.below(0x100) as u32,
            5 => 0xff00 + r.below(0xf0) as u32,
            6 => r.below(0x1_0000) as u32,
            _ => r.below(0x11_0000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

pub fn any_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 3) {
            s.push_str(r.pick(ODD));
        } else if r.chance(1, 2) {
            s.push((0x21 + r.below(0x5e)) as u8 as char);
        } else {
            s.push(odd_char(r));
        }
    }
    s
}

/// A few local edits; the result stays near `s`.
pub fn mutate(r: &mut Rng, s: &str, alpha: &[&str]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = match r.below(6) {
        0..=3 => 1,
        4 => 2,
        _ => r.range(2, 4),
    };
    for _ in 0..n {
        let frag: Vec<char> = match r.below(4) {
            0 => vec![odd_char(r)],
            1 => r.pick(ODD).chars().collect(),
            _ => r.pick(alpha).chars().collect(),
        };
        let i = r.below(v.len() + 1);
        match r.below(7) {
            0 | 1 => {
                // insert
                v.splice(i..i, frag);
            },
            2 | 3 => {
                // replace
                if i < v.len() {
                    v.splice(i..i + 1, frag);
                } else {
                    v.extend(frag);
                }
            },
            4 => {
                // delete
                if i < v.len() {
                    v.remove(i);
                }
            },
            5 => {
                // swap / duplicate
                if i + 1 < v.len() {
                    if r.chance(1, 2) {
                        v.swap(i, i + 1);
                    } else {
                        let c = v[i];
                        v.insert(i, c);
                    }
                }
            },
            _ => {
                // at an end
                if r.chance(1, 2) {
                    v.extend(frag);
                } else {
                    v.splice(0..0, frag);
                }
            },
        }
    }
    v.into_iter().collect()
}

pub fn flip_case(r: &mut Rng, s: &str) -> String {
    let mode = r.below(3);
    s.chars()
        .map(|c| match mode {
            0 => c.to_ascii_uppercase(),
            1 => c.to_ascii_lowercase(),
            _ => {
                if r.chance(1, 2) {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            },
        })
        .collect()
}

/// all strings over `alpha` with length (in symbols) up to `n`
pub fn all_strings(alpha: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut layer = vec![String::new()];
    for _ in 0..n {
        let mut next = Vec::with_capacity(layer.len() * alpha.len());
        for s in &layer {
            for a in alpha {
                let mut t = s.clone();
                t.push_str(a);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

pub fn strs<I: IntoIterator<Item = S>, S: Into<String>>(i: I) -> Vec<Tok> {
    i.into_iter().map(|s| Tok::Str(s.into())).collect()
}

pub fn interesting_i128(r: &mut Rng) -> i128 {
    match r.below(8) {
        0 => r.range(0, 300) as i128 - 150,
        1 | 2 => {
            // around a power of two
            let b = 1i128.checked_shl(*r.choose(&[3u32, 4, 7, 8, 15, 16, 31, 32, 63, 64, 126]) ).unwrap_or(0);
            let d = r.range(0, 6) as i128 - 3;
            if r.chance(1, 2) { b.wrapping_add(d) } else { (-b).wrapping_add(d) }
        },
        3 => *r.choose(&[i128::MIN, i128::MIN + 1, i128::MAX, i128::MAX - 1, 0, 1, -1]),
        4 => r.u128() as i128,
        5 => r.u64() as i64 as i128,
        6 => r.u64() as i32 as i128,
        _ => (r.u128() as i128) >> r.below(127),
    }
}

pub fn interesting_u128(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => r.below(300) as u128,
        1 | 2 => {
            let b = 1u128 << *r.choose(&[3u32, 4, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127]);
            b.wrapping_add(r.range(0, 6) as u128).wrapping_sub(3)
        },
        3 => *r.choose(&[u128::MAX, u128::MAX - 1, 0, 1, 2, i128::MAX as u128, i128::MAX as u128 + 1, u64::MAX as u128, u64::MAX as u128 + 1]),
        4 => r.u64() as u128,
        _ => r.u128() >> r.below(127),
    }
}

pub const WIDTHS: &[u8] = &[8, 16, 32, 64, 128, 0];

pub fn fits_i(i: i128, w: u8) -> bool {
    match w {
        8 => i8::try_from(i).is_ok(),
        16 => i16::try_from(i).is_ok(),
        32 => i32::try_from(i).is_ok(),
        64 | 0 => i64::try_from(i).is_ok(),
        _ => true,
    }
}

pub fn fits_u(i: u128, w: u8) -> bool {
    match w {
        8 => u8::try_from(i).is_ok(),
        16 => u16::try_from(i).is_ok(),
        32 => u32::try_from(i).is_ok(),
        64 | 0 => u64::try_from(i).is_ok(),
        _ => true,
    }
}

/// a width able to carry the value
pub fn width_i(r: &mut Rng, i: i128) -> u8 {
    loop {
        let w = *r.choose(WIDTHS);
        if fits_i(i, w) {
            return w;
        }
    }
}

pub fn width_u(r: &mut Rng, i: u128) -> u8 {
    loop {
        let w = *r.choose(WIDTHS);
        if fits_u(i, w) {
            return w;
        }
    }
}
