//! signed_integer / unsigned_integer.
use crate::{
    core::{Exp, Family, Rng, Tok},
    gens,
};

pub use crate::core::RangeKind as Kind;

pub struct Cfg {
    pub signed:    bool,
    pub bits:      u32,
    pub kind:      Kind,
    pub min:       Option<i128>,
    pub max:       Option<i128>,
    pub inclusive: bool,
}

pub struct CfgU {
    pub signed:    bool,
    pub bits:      u32,
    pub kind:      Kind,
    pub min:       Option<u128>,
    pub max:       Option<u128>,
    pub inclusive: bool,
}

pub fn dump_i(i: i128) -> String {
    format!("{i}")
}
pub fn dump_u(u: u128) -> String {
    format!("{u}")
}

/// sign and magnitude; None when the magnitude exceeds 2^128-1 (huge)
pub enum Big {
    Not,
    Huge(bool),
    Val(bool, u128),
}

pub fn read_decimal(s: &str) -> Big {
    let (neg, d) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return Big::Not;
    }
    let mut v: u128 = 0;
    for b in d.bytes() {
        match v.checked_mul(10).and_then(|v| v.checked_add((b - b'0') as u128)) {
            Some(x) => v = x,
            None => return Big::Huge(neg),
        }
    }
    Big::Val(neg, v)
}

fn in_range<T: PartialOrd + Copy>(x: T, min: Option<T>, max: Option<T>, incl: bool) -> (bool, bool) {
    let below = min.is_some_and(|m| x < m);
    let above = max.is_some_and(|m| if incl { x > m } else { x >= m });
    (below, above)
}

fn range_verdict<T: PartialOrd + Copy>(
    x: T,
    kind: Kind,
    min: Option<T>,
    max: Option<T>,
    incl: bool,
    ok: String,
) -> Exp {
    let (below, above) = in_range(x, min, max, incl);
    match kind {
        Kind::Unlimited => Exp::Accept(ok),
        Kind::Inside if below => Exp::reject(&["TooSmall"]),
        Kind::Inside if above => Exp::reject(&["TooLarge"]),
        Kind::Inside => Exp::Accept(ok),
        Kind::Outside if !below && !above => Exp::reject(&["Forbidden"]),
        Kind::Outside => Exp::Accept(ok),
    }
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let (neg, mag, text) = match t {
        Tok::Str(s) => match read_decimal(s) {
            Big::Not => return Exp::reject(&["ParseIntError"]),
            Big::Huge(neg) => return Exp::reject(&["ParseIntError", if neg { "TooSmall" } else { "TooLarge" }]),
            Big::Val(n, m) => (n, m, true),
        },
        Tok::I(i, _) => (*i < 0, i.unsigned_abs(), false),
        Tok::U(u, _) => (false, *u, false),
        _ => return Exp::Unspecified,
    };
    let lim = 1u128 << (c.bits - 1);
    if neg && mag > lim {
        return Exp::reject(if text { &["ParseIntError", "TooSmall"] } else { &["TooSmall"] });
    }
    if !neg && mag >= lim {
        return Exp::reject(if text { &["ParseIntError", "TooLarge"] } else { &["TooLarge"] });
    }
    let x = if neg { (mag as i128).wrapping_neg() } else { mag as i128 };
    range_verdict(x, c.kind, c.min, c.max, c.inclusive, dump_i(x))
}

pub fn judge_u(c: &CfgU, t: &Tok) -> Exp {
    let (neg, mag, text) = match t {
        Tok::Str(s) => {
            // an unsigned decimal has no minus sign
            if s.starts_with('-') {
                return match read_decimal(s) {
                    Big::Val(_, 0) | Big::Not => Exp::reject(&["ParseIntError"]),
                    _ => Exp::reject(&["ParseIntError", "TooSmall"]),
                };
            }
            match read_decimal(s) {
                Big::Not => return Exp::reject(&["ParseIntError"]),
                Big::Huge(_) => return Exp::reject(&["ParseIntError", "TooLarge"]),
                Big::Val(n, m) => (n, m, true),
            }
        },
        Tok::U(u, _) => (false, *u, false),
        Tok::I(i, _) => (*i < 0, i.unsigned_abs(), false),
        _ => return Exp::Unspecified,
    };
    if neg {
        return Exp::reject(&["TooSmall"]);
    }
    if c.bits < 128 && mag >> c.bits != 0 {
        return Exp::reject(if text { &["ParseIntError", "TooLarge"] } else { &["TooLarge"] });
    }
    range_verdict(mag, c.kind, c.min, c.max, c.inclusive, dump_u(mag))
}

const MUT: &[&str] = &["-", "+", "0", "1", "9", "_", ".", " ", "e", "x", "0x", "１", "٣", "--", "00"];

pub fn gen_tok(r: &mut Rng) -> Tok {
    match r.below(4) {
        0 => {
            let i = near_i(r);
            let w = gens::width_i(r, i);
            Tok::I(i, w)
        },
        1 => {
            let u = near_u(r);
            let w = gens::width_u(r, u);
            Tok::U(u, w)
        },
        _ => {
            let mut s = if r.chance(1, 2) { near_i(r).to_string() } else { near_u(r).to_string() };
            match r.below(10) {
                0 => s = format!("+{s}"),
                1 => s = format!("{}{s}", "0".repeat(r.range(1, 45))),
                2 => s = gens::mutate(r, &s, MUT),
                3 => s.push_str(&r.below(100).to_string()),
                4 => s = s.replacen('-', "-00", 1),
                _ => {},
            }
            Tok::Str(s)
        },
    }
}

/// values at the bounds the configurations use, and at the type bounds
fn near_i(r: &mut Rng) -> i128 {
    if r.chance(1, 2) {
        let b = *r.choose(crate::cfgs::int::BOUNDS_I);
        b.saturating_add(r.range(0, 4) as i128 - 2)
    } else {
        gens::interesting_i128(r)
    }
}

fn near_u(r: &mut Rng) -> u128 {
    if r.chance(1, 2) {
        let b = *r.choose(crate::cfgs::int::BOUNDS_U);
        b.saturating_add(r.range(0, 4) as u128).saturating_sub(2)
    } else {
        gens::interesting_u128(r)
    }
}

pub fn corners() -> Vec<Tok> {
    let mut v = vec![];
    for i in -300..=300i128 {
        for w in gens::WIDTHS {
            if gens::fits_i(i, *w) {
                v.push(Tok::I(i, *w));
            }
            if i >= 0 && gens::fits_u(i as u128, *w) {
                v.push(Tok::U(i as u128, *w));
            }
        }
        v.push(Tok::Str(i.to_string()));
        v.push(Tok::Str(format!("{i:+}")));
        v.push(Tok::Str(format!("{i:05}")));
    }
    for k in [7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        for d in -3..=3i128 {
            let u = if k == 128 { 0u128 } else { 1u128 << k }.wrapping_add(d as u128);
            for w in gens::WIDTHS {
                if gens::fits_u(u, *w) {
                    v.push(Tok::U(u, *w));
                }
                if gens::fits_i(u as i128, *w) {
                    v.push(Tok::I(u as i128, *w));
                }
                if gens::fits_i((u as i128).wrapping_neg(), *w) {
                    v.push(Tok::I((u as i128).wrapping_neg(), *w));
                }
            }
            v.push(Tok::Str(u.to_string()));
            v.push(Tok::Str(format!("-{u}")));
            v.push(Tok::Str((u as i128).to_string()));
        }
    }
    v.extend(gens::strs(gens::all_strings(&["-", "+", "0", "7", "1", " ", "_"], 3)));
    for s in [
        "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456",
        "-170141183460469231731687303715884105728",
        "-170141183460469231731687303715884105729",
        "99999999999999999999999999999999999999999999999999",
        "-99999999999999999999999999999999999999999999999999",
        "0x10", "1e3", "1.0", "١٢٣", "１２", "1 ", " 1", "1\n", "--1", "+-1", "−1",
    ] {
        v.push(Tok::Str(s.into()));
    }
    v
}

pub fn family() -> Family {
    Family { name: "int", targets: crate::cfgs::int::targets(), gen_tok, corners }
}
