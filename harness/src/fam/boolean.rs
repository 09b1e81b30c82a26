//! boolean.
use validators::prelude::*;

use crate::{
    core::{Dump, Exp, Family, Rng, Target, Tok},
    gens, subject, target, ws,
};

#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(boolean)]
pub struct Bool(pub bool);
impl Dump for Bool {
    fn dump(&self) -> String {
        format!("{}", self.0)
    }
}
subject!(Bool; text, chr, sint, uint, boolean);

const TRUE: &[&str] = &["true", "t", "yes", "y", "on", "1"];
const FALSE: &[&str] = &["false", "f", "no", "n", "off", "0"];

pub fn judge(t: &Tok) -> Exp {
    let word = |s: &str| {
        let l = s.to_ascii_lowercase();
        if TRUE.contains(&l.as_str()) {
            Some(true)
        } else if FALSE.contains(&l.as_str()) {
            Some(false)
        } else {
            None
        }
    };
    let v = match t {
        Tok::Str(s) => word(s),
        Tok::Char(c) => word(&c.to_string()),
        Tok::Bool(b) => Some(*b),
        Tok::I(1, _) | Tok::U(1, _) => Some(true),
        Tok::I(0, _) | Tok::U(0, _) => Some(false),
        Tok::I(..) | Tok::U(..) => None,
        _ => return Exp::Unspecified,
    };
    match v {
        Some(b) => Exp::Accept(format!("{b}")),
        None => Exp::reject(&["BooleanError"]),
    }
}

const MUT: &[&str] = &["t", "r", "u", "e", "f", "a", "l", "s", "y", "n", "o", "1", "0", " ", "T", "N", "é"];

pub fn gen_tok(r: &mut Rng) -> Tok {
    match r.below(8) {
        0 => {
            let i = if r.chance(1, 2) { r.range(0, 4) as i128 - 2 } else { gens::interesting_i128(r) };
            let w = gens::width_i(r, i);
            Tok::I(i, w)
        },
        1 => {
            let u = if r.chance(1, 2) { r.below(4) as u128 } else { gens::interesting_u128(r) };
            let w = gens::width_u(r, u);
            Tok::U(u, w)
        },
        2 => Tok::Char(if r.chance(1, 2) { gens::odd_char(r) } else { *r.choose(&['t', 'f', 'T', 'F', '1', '0', 'y', 'Y', 'n', 'N', 'o', '2', 'x']) }),
        _ => {
            let all: Vec<&str> = TRUE.iter().chain(FALSE).copied().collect();
            let w = r.pick(&all);
            let s = gens::flip_case(r, w);
            Tok::Str(if r.chance(1, 2) {
                s
            } else if r.chance(1, 4) {
                format!("{s}{}", r.pick(&all))
            } else {
                gens::mutate(r, &s, MUT)
            })
        },
    }
}

pub fn corners() -> Vec<Tok> {
    let mut v = vec![Tok::Bool(true), Tok::Bool(false)];
    v.extend(gens::strs(gens::all_strings(&["t", "r", "u", "e", "f", "a", "l", "s", "y", "n", "o", "1", "0", "T", "E"], 3)));
    // every one-symbol edit of every word, and both cases of each letter
    let sym: Vec<String> = (0..128u8).map(|b| (b as char).to_string()).chain(["é", "ſ", "K", "０", "ｔ", "ﬀ"].map(String::from)).collect();
    for w in TRUE.iter().chain(FALSE) {
        for m in 0..(1u32 << w.len()) {
            v.push(Tok::Str(w.bytes().enumerate().map(|(i, b)| if m >> i & 1 == 1 { b.to_ascii_uppercase() as char } else { b as char }).collect()));
        }
        for i in 0..=w.len() {
            v.push(Tok::Str(w[..i].into()));
            v.push(Tok::Str(w[i..].into()));
            for s in &sym {
                v.push(Tok::Str(format!("{}{s}{}", &w[..i], &w[i..])));
                if i < w.len() {
                    v.push(Tok::Str(format!("{}{s}{}", &w[..i], &w[i + 1..])));
                }
            }
        }
    }
    for u in 0..0x3000u32 {
        if let Some(c) = char::from_u32(u) {
            v.push(Tok::Char(c));
        }
    }
    for u in 0xff00..0xfff0u32 {
        v.push(Tok::Char(char::from_u32(u).unwrap()));
    }
    for i in -130..=130i128 {
        for w in gens::WIDTHS {
            if gens::fits_i(i, *w) {
                v.push(Tok::I(i, *w));
            }
            if i >= 0 && gens::fits_u(i as u128, *w) {
                v.push(Tok::U(i as u128, *w));
            }
        }
    }
    for k in [8u32, 16, 32, 64, 127] {
        for d in 0..=1i128 {
            let i = (1i128.checked_shl(k).unwrap_or(0)).wrapping_add(d);
            v.push(Tok::I(i, 128));
            v.push(Tok::I(i.wrapping_neg(), 128));
            v.push(Tok::U(i as u128, 128));
        }
    }
    v
}

fn targets() -> Vec<Target> {
    vec![ws!(target!(Bool, "boolean", "boolean", judge), Bool, validators::errors::BooleanError, |_| None)]
}

pub fn family() -> Family {
    Family { name: "boolean", targets: targets(), gen_tok, corners }
}
