//! json over several wrapped types.
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};
use validators::prelude::*;

use crate::{
    core::{Dump, Exp, Family, Rng, Target, Tok},
    gens, subject, target, ws,
};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Rec {
    a: i32,
    #[serde(default)]
    b: Option<String>,
    #[serde(default)]
    c: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Unit,
    New(i16),
    Tup(u8, bool),
    St { x: f64 },
}

macro_rules! js {
    ($n:ident, $t:ty) => {
        #[derive(Debug, Clone, Validator)]
        #[validator(json)]
        pub struct $n(pub $t);
        impl Dump for $n {
            fn dump(&self) -> String {
                format!("{:?}", self.0)
            }
        }
        subject!($n; text, sint, uint, num, boolean, jsonv);
    };
}

js!(JI, i64);
js!(JU, u8);
js!(JF, f64);
js!(JB, bool);
js!(JS, String);
js!(JO, Option<i32>);
js!(JV, Vec<u16>);
js!(JM, BTreeMap<String, Option<i32>>);
js!(JR, Rec);
js!(JK, Kind);
js!(JX, serde_json::Value);
js!(JT, (i8, String));
js!(JN, ());

fn engine<T: serde::de::DeserializeOwned + Serialize + std::fmt::Debug>(t: &Tok) -> Exp {
    let r: Result<T, serde_json::Error> = match t {
        Tok::Str(s) => serde_json::from_str(s),
        Tok::Json(s) => match serde_json::from_str::<serde_json::Value>(s) {
            Ok(v) => serde_json::from_value(v),
            Err(_) => return Exp::Unspecified,
        },
        Tok::Bool(b) => serde_json::from_value(serde_json::Value::Bool(*b)),
        Tok::I(i, _) => serde_json::to_value(i).and_then(serde_json::from_value),
        Tok::U(i, _) => serde_json::to_value(i).and_then(serde_json::from_value),
        Tok::F64(f) if f.is_finite() => serde_json::to_value(f).and_then(serde_json::from_value),
        Tok::F32(f) if f.is_finite() => serde_json::to_value(*f as f64).and_then(serde_json::from_value),
        _ => return Exp::Unspecified,
    };
    match r {
        Ok(v) => {
            let d = format!("{v:?}");
            Exp::AcceptC(d, serde_json::to_string(&v).unwrap())
        },
        Err(e) => Exp::RejectMsg(vec!["SerdeJsonError"], e.to_string()),
    }
}

fn scalar(r: &mut Rng) -> String {
    match r.below(8) {
        0 => gens::interesting_i128(r).to_string(),
        1 => (r.below(70000) as i64 - 300).to_string(),
        2 => r.pick(&["true", "false", "null", "nul", "True", "[]", "{}", "\"\"", "0", "-0", "-0.0", "1e2", "1E400", "0.1", "01", "+1", ".5", "1.", "1e5", "255", "256", "65535", "65536", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"]).to_string(),
        3 => format!("{:?}", f64::from_bits(r.u64())),
        4 => serde_json::to_string(&gens::any_text(r, 4)).unwrap(),
        5 => r.pick(&["\"Unit\"", "{\"New\":5}", "{\"Tup\":[1,true]}", "{\"St\":{\"x\":1}}", "{\"New\":40000}", "\"New\"", "{\"Unit\":null}", "\"\\u0000\"", "\"\\ud800\"", "\"\\ud83d\\ude00\"", "\"a\nb\"", "'a'", "\"a"]).to_string(),
        _ => r.below(300).to_string(),
    }
}

fn doc(r: &mut Rng) -> String {
    match r.below(7) {
        0 | 1 | 2 => scalar(r),
        3 => {
            let n = r.below(4);
            format!("[{}]", (0..n).map(|_| scalar(r)).collect::<Vec<_>>().join(","))
        },
        4 => {
            let n = r.below(4);
            format!("{{{}}}", (0..n).map(|_| format!("{}:{}", r.pick(&["\"a\"", "\"b\"", "\"c\"", "\"d\"", "\"\"", "a"]), scalar(r))).collect::<Vec<_>>().join(","))
        },
        5 => format!("{{\"a\":{}{}{}}}", r.below(9), r.pick(&["", ",\"b\":null", ",\"b\":\"x\"", ",\"b\":1"]), r.pick(&["", ",\"c\":[1,2]", ",\"c\":[256]", ",\"c\":\"x\"", ",\"a\":2", ",\"z\":0"])),
        _ => format!("[{},{}]", (r.below(300) as i64 - 150), r.pick(&["\"s\"", "1", "null"])),
    }
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    match r.below(10) {
        0..=3 => {
            let s = doc(r);
            Tok::Str(match r.below(4) {
                0 => gens::mutate(r, &s, &["{", "}", "[", "]", ",", ":", "\"", "1", "null", " ", "\n", "\\", "//", "-", "e", ".", "\u{feff}"]),
                1 => format!("{}{s}{}", r.pick(&["", " ", "\n\t", "\u{a0}"]), r.pick(&["", " ", "\r\n", "x", "1", ",", "\0"])),
                _ => s,
            })
        },
        4..=6 => Tok::Json(doc(r)),
        7 => {
            let i = gens::interesting_i128(r);
            let w = gens::width_i(r, i);
            Tok::I(i, w)
        },
        8 => {
            let i = gens::interesting_u128(r);
            let w = gens::width_u(r, i);
            Tok::U(i, w)
        },
        _ => match r.below(4) {
            0 => Tok::Bool(r.chance(1, 2)),
            1 => Tok::F32(f32::from_bits(r.u64() as u32)),
            2 => Tok::F64((r.below(600) as f64 - 300.0) / 2.0),
            _ => Tok::F64(f64::from_bits(r.u64())),
        },
    }
}

pub fn corners() -> Vec<Tok> {
    let mut v = vec![Tok::Bool(true), Tok::Bool(false)];
    let texts = [
        "", " ", "null", "true", "false", "0", "-0", "1", "255", "256", "-1", "-128", "-129", "127", "128", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
        "18446744073709551616", "1.0", "0.5", "1e2", "1e400", "-0.0", "[]", "{}", "[1,2]", "[65536]", "[null]", "{\"a\":1}", "{\"a\":null}", "{\"a\":1,\"b\":null}", "{\"a\":1,\"b\":\"x\",\"c\":[0,255]}", "{\"a\":1,\"z\":1}", "{\"a\":1,\"a\":2}", "{\"b\":\"x\"}", "[1]", "[1,\"s\"]", "[1,\"s\",2]", "\"\"",
        "\"a\"", "\"Unit\"", "{\"New\":1}", "{\"Tup\":[1,true]}", "{\"Tup\":[1]}", "{\"St\":{\"x\":0.5}}", "{\"St\":{}}", "{\"New\":1,\"Unit\":2}", "\"\\u0041\"", "\"\\ud800\"", "nul", "tru", "[1,]", "{\"a\":1,}", "{a:1}", "'a'", "01", "+1", ".1", "1.", "NaN", "Infinity", "// x\n1", "1 2", "1x", "\u{feff}1",
        " 1 ", "\n1\n", "\u{a0}1",
    ];
    for t in texts {
        v.push(Tok::Str(t.into()));
        if serde_json::from_str::<serde_json::Value>(t).is_ok() {
            v.push(Tok::Json(t.into()));
        }
    }
    for d in [100usize, 120, 126, 127, 128, 129, 200] {
        v.push(Tok::Str("[".repeat(d) + &"]".repeat(d)));
    }
    for i in -300..=300i128 {
        for w in gens::WIDTHS {
            if gens::fits_i(i, *w) {
                v.push(Tok::I(i, *w));
            }
            if i >= 0 && gens::fits_u(i as u128, *w) {
                v.push(Tok::U(i as u128, *w));
            }
        }
        v.push(Tok::F64(i as f64));
        v.push(Tok::F64(i as f64 + 0.5));
        v.push(Tok::F32(i as f32));
    }
    for k in [15u32, 16, 31, 32, 63, 64, 100] {
        for d in -1..=1i128 {
            let i = (1i128 << k) + d;
            v.push(Tok::I(i, 128));
            v.push(Tok::I(-i, 128));
            v.push(Tok::U(i as u128, 128));
            v.push(Tok::F64(i as f64));
        }
    }
    v.push(Tok::I(i128::MIN, 128));
    v.push(Tok::U(u128::MAX, 128));
    for f in [0.0, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1e15, 1e16, 1e21, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
        v.push(Tok::F64(f));
        v.push(Tok::F32(f as f32));
    }
    v
}

fn targets() -> Vec<Target> {
    use validators::errors::JsonError;
    let mut v = Vec::new();
    macro_rules! j {
        ($n:ident, $t:ty, $name:literal) => {{
            let mut t = target!($n, "json", $name, engine::<$t>);
            t.json = Some(|k| if let Tok::Json(s) = k { Some(s.clone()) } else { None });
            v.push(ws!(t, $n, JsonError, |v| {
                let m = v.to_minified_json_string();
                // the other rendering must read back as the same value too
                let b = v.to_beautified_json_string();
                match $n::parse_string(b.clone()) {
                    Ok(w) if w.dump() == v.dump() => Some(m),
                    _ => Some(format!("beautified string {b:?} does not read back as the same value")),
                }
            }));
        }};
    }
    j!(JI, i64, "json i64");
    j!(JU, u8, "json u8");
    j!(JF, f64, "json f64");
    j!(JB, bool, "json bool");
    j!(JS, String, "json String");
    j!(JO, Option<i32>, "json Option<i32>");
    j!(JV, Vec<u16>, "json Vec<u16>");
    j!(JM, BTreeMap<String, Option<i32>>, "json BTreeMap<String, Option<i32>>");
    j!(JR, Rec, "json struct");
    j!(JK, Kind, "json enum");
    j!(JX, serde_json::Value, "json Value");
    j!(JT, (i8, String), "json (i8, String)");
    j!(JN, (), "json ()");
    v
}

pub fn family() -> Family {
    Family { name: "json", targets: targets(), gen_tok, corners }
}
