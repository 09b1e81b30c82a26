//! mac_address / uuid.
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Case {
    Any,
    Upper,
    Lower,
}

pub struct Cfg {
    pub mac:  bool,
    pub case: Case,
    pub sep:  Tri,
    pub ch:   u8,
}

pub fn dump_hex(v: u128) -> String {
    format!("{v:x}")
}

fn groups(mac: bool) -> &'static [usize] {
    if mac { &[2, 2, 2, 2, 2, 2] } else { &[8, 4, 4, 4, 12] }
}

fn digit(case: Case, b: u8) -> Option<u128> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u128),
        b'a'..=b'f' if case != Case::Upper => Some((b - b'a') as u128 + 10),
        b'A'..=b'F' if case != Case::Lower => Some((b - b'A') as u128 + 10),
        _ => None,
    }
}

/// Some((value, separators present)) when `s` is hex digits in the standard
/// groups with each boundary separator present or absent.
fn shape(c: &Cfg, case: Case, s: &[u8]) -> Option<(u128, usize)> {
    let g = groups(c.mac);
    let (mut i, mut v, mut seps) = (0usize, 0u128, 0usize);
    for (k, n) in g.iter().enumerate() {
        if k > 0 && s.get(i) == Some(&c.ch) && c.sep != Tri::Disallow {
            i += 1;
            seps += 1;
        }
        for _ in 0..*n {
            v = v << 4 | digit(case, *s.get(i)?)?;
            i += 1;
        }
    }
    (i == s.len()).then_some((v, seps))
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let b = s.as_bytes();
    let nb = groups(c.mac).len() - 1;
    let sh = shape(c, c.case, b);
    let full = groups(c.mac).iter().sum::<usize>() + nb;
    let Some((v, seps)) = sh else {
        let mut bad = vec!["Invalid"];
        match c.sep {
            // reported when some boundary does not hold the separator
            Tri::Must => {
                let mut at = 0;
                let mut all = b.len() == full;
                for (k, n) in groups(c.mac).iter().enumerate() {
                    if k > 0 {
                        all &= b.get(at) == Some(&c.ch);
                        at += 1;
                    }
                    at += n;
                }
                if !all {
                    bad.push("SeparatorMust");
                }
            },
            // a character that is no digit could be a separator
            Tri::Disallow if b.iter().any(|x| !x.is_ascii_hexdigit()) || b.len() != full - nb => bad.push("SeparatorDisallow"),
            _ => {},
        }
        return Exp::Reject(bad);
    };
    if c.sep == Tri::Must && seps != nb {
        return Exp::reject(&["SeparatorMust"]);
    }
    // canonical string: most significant digit first, upper case only when asked for
    let mut canon = String::new();
    let mut left = groups(c.mac).iter().sum::<usize>();
    for (k, n) in groups(c.mac).iter().enumerate() {
        if k > 0 && c.sep != Tri::Disallow {
            canon.push(c.ch as char);
        }
        for _ in 0..*n {
            left -= 1;
            let d = (v >> (4 * left)) as usize & 15;
            canon.push(if c.case == Case::Upper { b"0123456789ABCDEF"[d] } else { b"0123456789abcdef"[d] } as char);
        }
    }
    Exp::AcceptC(dump_hex(v), canon)
}

const MUT: &[&str] = &[":", "-", ".", "_", " ", "0", "9", "a", "f", "F", "A", "g", "G", "@", "`", "/", "{", "}", "0x"];

fn gen_str(r: &mut Rng) -> String {
    let mac = r.chance(1, 2);
    let g = groups(mac);
    let upper = r.below(3);
    let sep = *r.choose(&[':', '-', '.', ':', '-', '.', '_', ' ', '/', '@', 'G', '`', 'g', '\'', '\\', '\0', '\u{7f}', '~']);
    // all, none, or each independently
    let mode = r.below(5);
    let mut s = String::new();
    for (k, n) in g.iter().enumerate() {
        if k > 0 {
            let put = match mode {
                0 | 1 => true,
                2 => false,
                _ => r.chance(1, 2),
            };
            if put {
                s.push(sep);
            }
        }
        for _ in 0..*n {
            let d = b"0123456789abcdefABCDEF"[r.below(22)];
            s.push(match upper {
                0 => d.to_ascii_uppercase(),
                1 => d.to_ascii_lowercase(),
                _ => d,
            } as char);
        }
    }
    match r.below(12) {
        0..=5 => {},
        6 => {
            // another separator at one boundary
            if let Some(i) = s.find(sep) {
                s.replace_range(i..i + 1, r.pick(&[":", "-", ".", "", "::", " "]));
            }
        },
        7 => {
            // separator at a wrong place
            let i = r.below(s.len() + 1);
            s.insert(i, sep);
        },
        8 => {
            // move a separator
            if let Some(i) = s.rfind(sep) {
                s.remove(i);
                let j = (i + r.range(1, 3)).min(s.len());
                s.insert(j, sep);
            }
        },
        9 => {
            // one foreign character, same length
            let i = r.below(s.len());
            let f = *r.choose(&[b'g', b'G', b'@', b'`', b'/', b':', b';', b' ', b'-', b'x', b'z', b'[', b'^']);
            let mut b = s.into_bytes();
            b[i] = f;
            s = String::from_utf8(b).unwrap();
        },
        10 => {
            // flip one letter's case
            let b = s.as_bytes();
            let p: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphabetic()).collect();
            if !p.is_empty() {
                let i = *r.choose(&p);
                let mut b = s.into_bytes();
                b[i] ^= 0x20;
                s = String::from_utf8(b).unwrap();
            }
        },
        _ => s = gens::mutate(r, &s, MUT),
    }
    s
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    Tok::Str(if r.chance(1, 50) { gens::any_text(r, 40) } else { gen_str(r) })
}

pub fn corners() -> Vec<Tok> {
    let mut v = vec![];
    let bases = [
        "080027B246C3", "080027b246c3", "08:00:27:B2:46:C3", "08-00-27-b2-46-c3", "A866664AF9D34DDE89CB182015FA4F41", "a866664af9d34dde89cb182015fa4f41",
        "A866664A-F9D3-4DDE-89CB-182015FA4F41", "a866664a:f9d3:4dde:89cb:182015fa4f41", "000000000000", "ffffffffffff", "FFFFFFFF-FFFF-FFFF-FFFF-FFFFFFFFFFFF",
        "00000000000000000000000000000000", "0A:0b:0C:0d:0E:0f", "80000000-0000-0000-0000-000000000001",
    ];
    for b in bases {
        v.push(Tok::Str(b.into()));
        for i in 0..=b.len() {
            // truncated, character inserted, character replaced, separators removed
            v.push(Tok::Str(b[..i].into()));
            v.push(Tok::Str(b[i..].into()));
            for c in [":", "-", "0", "g", "é", " ", "\0"] {
                v.push(Tok::Str(format!("{}{c}{}", &b[..i], &b[i..])));
                if i < b.len() {
                    v.push(Tok::Str(format!("{}{c}{}", &b[..i], &b[i + 1..])));
                }
            }
            if i < b.len() {
                v.push(Tok::Str(format!("{}{}", &b[..i], &b[i + 1..])));
                let mut x = b.as_bytes().to_vec();
                if x[i].is_ascii_alphabetic() {
                    x[i] ^= 0x20;
                }
                v.push(Tok::Str(String::from_utf8(x).unwrap()));
            }
        }
    }
    // every subset of separators
    for (g, n) in [(&[2usize, 2, 2, 2, 2, 2][..], 5), (&[8, 4, 4, 4, 12][..], 4)] {
        for m in 0..(1u32 << n) {
            for sep in [':', '-', '.'] {
                let mut s = String::new();
                for (k, w) in g.iter().enumerate() {
                    if k > 0 && m >> (k - 1) & 1 == 1 {
                        s.push(sep);
                    }
                    s.push_str(&"12ab34cd56ef"[..*w]);
                }
                v.push(Tok::Str(s.to_ascii_uppercase()));
                v.push(Tok::Str(s));
            }
        }
    }
    v
}

pub fn family() -> Family {
    Family { name: "hex", targets: crate::cfgs::hex::targets(), gen_tok, corners }
}
