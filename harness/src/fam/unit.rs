//! bit / byte.
use crate::{
    core::{Exp, Family, Rng, Tok},
    gens,
};

pub struct Cfg {
    pub bit:         bool,
    pub ignore_case: bool,
    pub min:         Option<u128>,
    pub max:         Option<u128>,
    pub inclusive:   bool,
}

pub fn dump_u(u: u128) -> String {
    format!("{u}")
}

/// Largest amount the unit library itself represents, by its own constructor.
fn representable(bit: bool, u: u128) -> bool {
    if bit { validators::byte_unit::Bit::from_u128(u).is_some() } else { validators::byte_unit::Byte::from_u128(u).is_some() }
}

/// Our own reading of the common forms "<digits>[.digits] <unit>": exact
/// amount; None when this reader does not cover the text.
pub fn read(bit: bool, ignore_case: bool, s: &str) -> Option<u128> {
    let n = s.bytes().take_while(|b| b.is_ascii_digit() || *b == b'.').count();
    let (num, rest) = s.split_at(n);
    let unit = rest.trim_start_matches(' ');
    let unit = unit.strip_suffix("it").map(|_| None).unwrap_or(Some(unit))?; // spelled-out bits not covered
    let (ip, fp) = num.split_once('.').unwrap_or((num, ""));
    if ip.is_empty() || ip.len() > 18 || fp.len() > 6 || num.ends_with('.') || !fp.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut u: Vec<u8> = unit.bytes().collect();
    // final b = bit, B = byte; under ignore_case every form means the subject's own unit
    let last_is_bit = match u.pop()? {
        b'b' => true,
        b'B' => false,
        _ => return None,
    };
    let bits_unit = if ignore_case { bit } else { last_is_bit };
    let (pre, bin) = match u.as_slice() {
        [] => (None, false),
        [p] => (Some(*p), false),
        [p, b'i'] => (Some(*p), true),
        [p, b'I'] if ignore_case => (Some(*p), true),
        _ => return None,
    };
    let k = match pre {
        None => 0u32,
        Some(p) => match p.to_ascii_uppercase() {
            b'K' => 1,
            b'M' => 2,
            b'G' => 3,
            b'T' => 4,
            b'P' => 5,
            b'E' => 6,
            _ => return None,
        },
    };
    let mult: u128 = if bin { 1024u128.pow(k) } else { 1000u128.pow(k) };
    // amount in the subject's unit = num * mult * (8 or 1/8 or 1)
    let scale = 10u128.pow(fp.len() as u32);
    let whole: u128 = format!("{ip}{fp}").parse().ok()?;
    let mut top = whole.checked_mul(mult)?;
    let mut div = scale;
    if bit && !bits_unit {
        top = top.checked_mul(8)?;
    }
    if !bit && bits_unit {
        div *= 8;
    }
    (top % div == 0).then_some(top / div)
}

fn lib(bit: bool, ignore_case: bool, s: &str) -> Option<u128> {
    if bit {
        validators::byte_unit::Bit::parse_str(s).ok().map(|b| b.as_u128())
    } else {
        validators::byte_unit::Byte::parse_str(s, ignore_case).ok().map(|b| b.as_u128())
    }
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let amount = match t {
        Tok::Str(s) => match lib(c.bit, c.ignore_case, s) {
            None => return Exp::reject(&["ParseError"]),
            Some(v) => {
                // where our own reader covers the text, it has the last word
                read(c.bit, c.ignore_case, s).unwrap_or(v)
            },
        },
        Tok::U(u, _) => {
            if !representable(c.bit, *u) {
                return Exp::reject(&["TooLarge"]);
            }
            *u
        },
        _ => return Exp::Unspecified,
    };
    if c.min.is_some_and(|m| amount < m) {
        return Exp::reject(&["TooSmall"]);
    }
    if c.max.is_some_and(|m| if c.inclusive { amount > m } else { amount >= m }) {
        return Exp::reject(&["TooLarge"]);
    }
    Exp::Accept(dump_u(amount))
}

const UNITS: &[&str] = &[
    "b", "B", "Kb", "kb", "KB", "kB", "Kib", "KiB", "kib", "KIB", "Mb", "MB", "MiB", "Mib", "Gb", "GB", "GiB", "Gib", "TB", "TiB", "Tib", "PB", "PiB", "EB", "EiB", "Eib", "ZB", "YB", "ZiB", "YiB", "",
    "bit", "bits", "byte", "bytes", "k", "m", "Ki", "K", "x", "kbit", "Mbit", "mb", "gb", "gib",
];
const MUT: &[&str] = &[" ", ".", "0", "1", "9", "k", "K", "M", "i", "b", "B", "-", "+", "e", ","];

pub fn gen_tok(r: &mut Rng) -> Tok {
    if r.chance(1, 3) {
        let u = if r.chance(1, 2) {
            let b = *r.choose(&[1u128, 8, 9, 1000, 1024, 8192, 1_000_000_000, u64::MAX as u128, 1_000_000_000_000_000_000_000_000_000, 1 << 70, 1_125_899_906_842_624, 1_152_921_504_606_846_976, 123_456_789, 987_654_321, 1002]);
            (b + r.range(0, 4) as u128).saturating_sub(2)
        } else {
            gens::interesting_u128(r)
        };
        let w = gens::width_u(r, u);
        return Tok::U(u, w);
    }
    let n = match r.below(8) {
        0 => r.below(3) as u128,
        1 | 2 => *r.choose(&[1u128, 7, 8, 9, 125, 999, 1000, 1001, 1023, 1024, 1025, 8191, 8192, 8193, 1_000_000_000, u64::MAX as u128, 18446744073709551614, 18446744073709551616]),
        3 => r.below(10000) as u128,
        4 => r.u64() as u128 >> r.below(60),
        5 => r.below(20) as u128,
        _ => r.below(2000) as u128,
    };
    let mut s = n.to_string();
    if r.chance(1, 4) {
        s.push_str(&format!(".{:0w$}", r.below(1000), w = r.range(1, 4)));
    } else if r.chance(1, 5) {
        s.push_str(r.pick(&[".5", ".125", ".25", ".0", ".", ".875", ".001", ".000000001"]));
    }
    s.push_str(r.pick(&["", " ", "", "  ", "\t"]));
    s.push_str(r.pick(UNITS));
    match r.below(10) {
        0 => s = gens::mutate(r, &s, MUT),
        1 => s = gens::flip_case(r, &s),
        _ => {},
    }
    Tok::Str(s)
}

pub fn corners() -> Vec<Tok> {
    let mut v = vec![];
    for n in ["0", "1", "7", "8", "9", "1000", "1023", "1024", "1025", "8191", "8192", "8193", "0.5", "1.5", "0.125", "2.0", "1e3", "-1", "+1", "", "18446744073709551615", "18446744073709551614", "18446744073709551616"] {
        for u in UNITS {
            v.push(Tok::Str(format!("{n}{u}")));
            v.push(Tok::Str(format!("{n} {u}")));
        }
    }
    for b in [0u128, 1, 8, 9, 1000, 1024, 8192, 1_000_000_000, u64::MAX as u128, 1_000_000_000_000_000_000_000_000_000] {
        for d in 0..=4u128 {
            let u = (b + d).saturating_sub(2);
            for w in gens::WIDTHS {
                if gens::fits_u(u, *w) {
                    v.push(Tok::U(u, *w));
                }
            }
        }
    }
    v.push(Tok::U(u128::MAX, 128));
    v
}

pub fn family() -> Family {
    Family { name: "unit", targets: crate::cfgs::unit::targets(), gen_tok, corners }
}
