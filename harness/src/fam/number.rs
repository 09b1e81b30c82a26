//! number (f32 / f64).
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

pub use crate::core::RangeKind as Kind;

pub struct Cfg {
    pub single:    bool,
    pub nan:       Tri,
    pub kind:      Kind,
    pub min:       Option<f64>,
    pub max:       Option<f64>,
    pub inclusive: bool,
}

pub fn dump_f64(f: f64) -> String {
    if f.is_nan() { "NaN".into() } else { format!("{:016x} {f:e}", f.to_bits()) }
}
pub fn dump_f32(f: f32) -> String {
    if f.is_nan() { "NaN".into() } else { format!("{:08x} {f:e}", f.to_bits()) }
}

/// Rust's documented float grammar
fn is_float_text(s: &str) -> bool {
    let b = s.as_bytes();
    let b = match b.first() {
        Some(b'+' | b'-') => &b[1..],
        _ => b,
    };
    let low = b.to_ascii_lowercase();
    if low == b"inf" || low == b"infinity" || low == b"nan" {
        return true;
    }
    let mut i = 0;
    let mut digits = 0;
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
        digits += 1;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return false;
    }
    if i < b.len() && (b[i] | 0x20) == b'e' {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        let s = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if s == i {
            return false;
        }
    }
    i == b.len()
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    // f: the value held by the target type
    let f: f64 = match t {
        Tok::Str(s) => {
            if !is_float_text(s) {
                return Exp::reject(&["ParseFloatError"]);
            }
            if c.single {
                match s.parse::<f32>() {
                    Ok(f) => f as f64,
                    Err(_) => return Exp::Unspecified,
                }
            } else {
                match s.parse::<f64>() {
                    Ok(f) => f,
                    Err(_) => return Exp::Unspecified,
                }
            }
        },
        Tok::F64(f) => {
            if c.single { *f as f32 as f64 } else { *f }
        },
        Tok::F32(f) => *f as f64,
        _ => return Exp::Unspecified,
    };
    // bounds as the target type holds them
    let conv = |x: f64| if c.single { x as f32 as f64 } else { x };
    let (min, max) = (c.min.map(conv), c.max.map(conv));
    let mut bad = vec![];
    if f.is_nan() {
        if c.nan == Tri::Disallow {
            bad.push("NaNDisallow");
        }
    } else {
        if c.nan == Tri::Must {
            bad.push("NaNMust");
        }
        let below = min.is_some_and(|m| f < m);
        let above = max.is_some_and(|m| if c.inclusive { f > m } else { f >= m });
        match c.kind {
            Kind::Unlimited => {},
            Kind::Inside if below => bad.push("TooSmall"),
            Kind::Inside if above => bad.push("TooLarge"),
            Kind::Inside => {},
            Kind::Outside if !below && !above => bad.push("Forbidden"),
            Kind::Outside => {},
        }
    }
    if !bad.is_empty() {
        return Exp::Reject(bad);
    }
    Exp::Accept(if c.single { dump_f32(f as f32) } else { dump_f64(f) })
}

use crate::cfgs::number::POINTS;

fn next_up(f: f64, n: i64) -> f64 {
    let b = f.to_bits() as i64;
    f64::from_bits(b.wrapping_add(n) as u64)
}
fn next_up32(f: f32, n: i32) -> f32 {
    f32::from_bits((f.to_bits() as i32).wrapping_add(n) as u32)
}

fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => f64::from_bits(r.u64()),
        1 | 2 => next_up(*r.choose(POINTS), r.range(0, 6) as i64 - 3),
        3 => next_up32(*r.choose(POINTS) as f32, r.range(0, 6) as i32 - 3) as f64,
        4 => *r.choose(&[
            0.0,
            -0.0,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            -f64::NAN,
            f64::MIN_POSITIVE,
            5e-324,
            -5e-324,
            f64::MAX,
            f64::MIN,
            f32::MAX as f64,
            f32::MIN as f64,
            3.4028235677973366e38,
            3.40282357e38,
            1e-46,
            7e-46,
            1.4e-45,
            f64::EPSILON,
            0.1f32 as f64,
            16777217.0,
            9007199254740993.0,
        ]),
        5 => (r.range(0, 4000) as f64 - 2000.0) / *r.choose(&[1.0, 2.0, 4.0, 10.0, 100.0]),
        6 => f32::from_bits(r.u64() as u32) as f64,
        _ => -gen_f64(r),
    }
}

const MUT: &[&str] = &["-", "+", "0", "1", ".", "e", "E", "e5", "e-400", "inf", "nan", "_", " ", "f", "x", "e+"];

pub fn gen_tok(r: &mut Rng) -> Tok {
    let f = gen_f64(r);
    match r.below(6) {
        0 | 1 => Tok::F64(f),
        2 => Tok::F32(if r.chance(1, 2) { f as f32 } else { next_up32(f as f32, r.range(0, 2) as i32 - 1) }),
        _ => {
            let mut s = match r.below(7) {
                0 => format!("{f}"),
                1 => format!("{f:?}"),
                2 => format!("{f:e}"),
                3 => format!("{:e}", f as f32),
                4 => r.pick(&["nan", "NaN", "NAN", "-nan", "+NaN", "inf", "-inf", "Infinity", "-INFINITY", "+inf", "infinit", "in", "nanx", ".5", "5.", ".", "1e", "e1", "-.5e-2", "0x1p3", "1_0", ""]).to_string(),
                5 => {
                    // halfway between two floats: nearest, not twice rounded
                    let x = f as f32;
                    let y = next_up32(x, 1);
                    format!("{:e}{}", (x as f64 + y as f64) / 2.0, "")
                },
                _ => {
                    let x = (f as f32) as f64;
                    let y = next_up32(f as f32, 1) as f64;
                    // slightly off the midpoint beyond f64 precision
                    let m = (x + y) / 2.0;
                    let t = format!("{m:.60}");
                    if t.contains('.') { format!("{t}{}", r.pick(&["1", "0000001", ""])) } else { t }
                },
            };
            match r.below(8) {
                0 => s = gens::mutate(r, &s, MUT),
                1 => s = format!("+{s}"),
                2 => s = gens::flip_case(r, &s),
                3 => s = format!("000{s}"),
                _ => {},
            }
            Tok::Str(s)
        },
    }
}

pub fn corners() -> Vec<Tok> {
    let mut v = vec![];
    for p in POINTS {
        for d in -4..=4 {
            for f in [next_up(*p, d), -next_up(*p, d), next_up32(*p as f32, d as i32) as f64, -next_up32(*p as f32, d as i32) as f64] {
                v.push(Tok::F64(f));
                v.push(Tok::F32(f as f32));
                v.push(Tok::Str(format!("{f:?}")));
                v.push(Tok::Str(format!("{f:e}")));
            }
        }
    }
    for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, f64::MAX, f64::MIN, 1e39, -1e39, 3.4028235677973366e38] {
        v.push(Tok::F64(f));
        v.push(Tok::F32(f as f32));
        v.push(Tok::Str(format!("{f}")));
    }
    v.extend(gens::strs(gens::all_strings(&["-", "+", "0", "1", ".", "e", "inf", "nan", " "], 3)));
    v.push(Tok::Str(format!("0.{}1", "0".repeat(400))));
    v.push(Tok::Str("9".repeat(400)));
    v.push(Tok::Str("1.00000017881393421514957253748434595763683319091796875001".into()));
    v
}

pub fn family() -> Family {
    Family { name: "number", targets: crate::cfgs::number::targets(), gen_tok, corners }
}
