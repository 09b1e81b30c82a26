//! line / text.
use crate::{
    core::{Exp, Family, Rng, Tok},
    gens,
};

pub struct Cfg {
    pub line:  bool,
    pub bytes: bool,
    pub min:   Option<usize>,
    pub tmin:  Option<usize>,
    pub max:   Option<usize>,
}

pub fn dump_str(s: &str) -> String {
    format!("{s:?}")
}

fn forbidden(line: bool, c: char) -> bool {
    let u = c as u32;
    if line { u <= 0x08 || (0x0a..=0x1f).contains(&u) || u == 0x7f } else { u <= 0x08 || u == 0x0c || (0x0e..=0x1f).contains(&u) || u == 0x7f }
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let len = |x: &str| if c.bytes { x.len() } else { x.chars().count() };
    let mut bad = vec![];
    if s.chars().any(|ch| forbidden(c.line, ch)) {
        bad.push("Invalid");
    }
    if c.max.is_some_and(|m| len(s) > m) {
        bad.push("TooLong");
    }
    if c.min.is_some_and(|m| len(s) < m) || c.tmin.is_some_and(|m| len(s.trim()) < m) {
        bad.push("TooShort");
    }
    if bad.is_empty() { Exp::Accept(dump_str(s)) } else { Exp::Reject(bad) }
}

const PARTS: &[&str] = &[
    "a", "b", " ", "  ", "\t", "\u{3000}", "\u{a0}", "\u{2003}", "\u{85}", "\u{2028}", "\n", "\r", "\u{b}", "\u{c}", "\0", "\u{1}", "\u{8}", "\u{e}", "\u{1f}", "\u{7f}", "é", "中",
    "😀", "\u{200b}", "\u{80}", "\u{9f}", "\u{1c}", "\u{feff}", "x", "xy", "\u{1680}",
];
const TAME: &[&str] = &["a", " ", "é", "中", "\u{3000}", "\t", "😀", "b"];

pub fn gen_tok(r: &mut Rng) -> Tok {
    let n = if r.chance(1, 20) { r.range(0, 60) } else { r.range(0, 10) };
    let mut s = String::new();
    let set = if r.chance(2, 3) { TAME } else { PARTS };
    for _ in 0..r.below(4) {
        s.push_str(r.pick(&[" ", "\t", "\u{3000}", " ", "\u{2003}"]));
    }
    for _ in 0..n {
        s.push_str(r.pick(set));
    }
    if r.chance(1, 4) {
        // one special at a random position
        let cs: Vec<char> = s.chars().collect();
        let p = r.below(cs.len() + 1);
        s = cs[..p].iter().collect::<String>() + r.pick(PARTS) + &cs[p..].iter().collect::<String>();
    }
    for _ in 0..r.below(4) {
        s.push_str(r.pick(&[" ", "\t", "\u{3000}", " ", "\u{85}"]));
    }
    if r.chance(1, 30) {
        s = gens::any_text(r, 10);
    }
    Tok::Str(s)
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["a", " ", "é", "\u{3000}", "\n", "\0"], 6));
    for u in 0..0x100u32 {
        let c = char::from_u32(u).unwrap();
        for s in [format!("{c}"), format!("{c}ab"), format!("ab{c}"), format!("a{c}b"), format!(" {c} "), format!("  {c}a  "), format!("a  {c}"), format!("aaaaaaa{c}"), format!("{c}   "), format!("   {c}")] {
            v.push(Tok::Str(s));
        }
    }
    for u in (0..0x11_0000u32).step_by(1) {
        if u < 0x100 || (u >= 0x1680 && u < 0x3001) || u % 257 == 0 {
            if let Some(c) = char::from_u32(u) {
                v.push(Tok::Str(format!("{c}")));
                if c.is_whitespace() {
                    v.push(Tok::Str(format!("{c}{c}a{c}")));
                }
            }
        }
    }
    // around the large bounds: so many characters (or bytes), so many of them blank on either side
    for n in [127usize, 128, 129, 130, 131, 254, 255, 256, 257, 258, 299, 300, 301, 512, 513, 999, 1000, 1001] {
        for (left, right) in [(0, 0), (1, 0), (0, 1), (1, 1), (43, 1), (1, 43), (44, 0), (0, 45), (64, 63), (n - 1, 0), (n, 0), (127, 0), (100, 30)] {
            for c in ["a", "é", "中"] {
                if left + right <= n && (n < 400 || left + right < 3) {
                    let inner = c.repeat((n - left - right) / c.len());
                    let pad = "a".repeat((n - left - right) % c.len());
                    v.push(Tok::Str(format!("{}{pad}{inner}{}", " ".repeat(left), "\t".repeat(right))));
                    if c != "a" && right < 2 {
                        v.push(Tok::Str(format!("{}{}{}", "\u{a0}".repeat(left), c.repeat(n - left - right), " ".repeat(right))));
                    }
                }
            }
        }
    }
    for n in [65535usize, 65536, 65537, 65538] {
        v.push(Tok::Str("b".repeat(n)));
        v.push(Tok::Str(format!(" {}\t", "b".repeat(n - 1))));
    }
    v
}

pub fn family() -> Family {
    Family { name: "linetext", targets: crate::cfgs::linetext::targets(), gen_tok, corners }
}
