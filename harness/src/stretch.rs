//! Ordinary inputs made long: counters, chunks and buffers have their edges far
//! beyond the lengths people try by hand. Lengths are counted in characters.
use crate::{
    core::{Rng, Tok},
    gens,
};

fn size(r: &mut Rng, family: &str) -> usize {
    const NEAR: &[usize] = &[63, 64, 127, 128, 191, 192, 250, 253, 254, 255, 256, 257, 258, 300, 319, 320, 321, 383, 384, 385, 511, 512, 513, 640];
    const MID: &[usize] = &[767, 1023, 1024, 1025, 1500, 2047, 2083, 2084, 2048, 2049, 3000, 4095, 4096, 4097];
    const FAR: &[usize] = &[8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 66000, 70_001];
    let (mid, far) = match family {
        "phone" => (0, 0),
        "domain" | "host" | "email" | "ip" | "hex" | "boolean" | "unit" => (10, 0),
        "delegate" | "url" | "number" | "int" | "json" => (25, 2),
        _ => (35, 10),
    };
    let n = r.below(100);
    let base = *r.choose(if n < far { FAR } else if n < far + mid { MID } else { NEAR });
    base + if r.chance(1, 2) { r.below(5) } else { 0 }
}

/// a long relative of a text: one piece of it over and over, or its characters shuffled
fn long(r: &mut Rng, s: &str, n: usize) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() || c.len() >= n {
        return s.to_string();
    }
    let i = r.below(c.len());
    let k = if r.chance(1, 2) { 1 } else { r.range(1, 4.min(c.len() - i)) };
    let piece = &c[i..i + k];
    let more = n - c.len();
    let fill: Vec<char> = if r.chance(2, 3) {
        piece.iter().cycle().take(more).copied().collect()
    } else {
        (0..more).map(|_| if r.chance(1, 40) { *r.choose(&c) } else { *r.choose(piece) }).collect()
    };
    let mut v: Vec<char> = [&c[..i], &fill, &c[i..]].concat();
    if r.chance(1, 4) {
        // one character that does not belong, anywhere
        let p = r.below(v.len());
        v[p] = if r.chance(1, 2) { *r.choose(&c) } else { gens::odd_char(r) };
    }
    v.into_iter().collect()
}

pub fn stretch(r: &mut Rng, family: &str, t: &Tok) -> Option<Tok> {
    let n = size(r, family);
    Some(match t {
        Tok::Str(s) => Tok::Str(long(r, s, n)),
        Tok::Bytes(b) => {
            let s = std::str::from_utf8(b).ok()?;
            Tok::Bytes(long(r, s, n).into_bytes())
        },
        Tok::Json(s) => {
            // the texts in it and the blanks around it
            let v: serde_json::Value = serde_json::from_str(s).ok()?;
            match v {
                serde_json::Value::String(s) => Tok::Json(serde_json::to_string(&long(r, &s, n)).ok()?),
                _ => Tok::Json(format!("{}{s}{}", " ".repeat(r.below(n)), "\n".repeat(r.below(n)))),
            }
        },
        Tok::Len(_) => Tok::Len(n),
        _ => return None,
    })
}
