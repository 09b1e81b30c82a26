//! Inputs nobody sends by accident: very long, deeply nested, all one character.
use crate::core::Tok;

const ATOMS: &[&str] = &[
    "a", ".", "a.", "(", "()", ")", "\"", "\\", "\\\\", "\"\\\"", "@", "a@", ":", "::", ":1", "[", "]", "[::", "0", "9", "1.", "-", "+", "=",
    "A", "Z=", "A=", " ", "\t", "\r\n", "\0", "é", "中", "中.", "。", "ａ", "😀", "\u{200b}", "\u{ad}", "\u{feff}", "%", "%25", "http://", "//", "/",
    "?", "#", "xn--", "{", "[[", "{\"a\":", "[1,", "\u{301}", "ß", "K", "e", "1e", "0x", "KiB", "_", "f", "F:", "((((", "(a|", "a*", "a{9}", "(?i)", "\\p{L}",
    "fe80::", "127.", "٣", "İ",
];

pub fn inputs(family: &'static str) -> impl Iterator<Item = Tok> {
    // some engines are super-linear by design; keep those within reason
    let sizes: &'static [usize] = match family {
        "delegate" | "phone" => &[300, 5_000],
        "domain" | "host" | "email" | "url" => &[255, 1_000, 30_000],
        _ => &[255, 4_096, 100_000],
    };
    ATOMS.iter().flat_map(move |a| {
        sizes.iter().flat_map(move |n| {
            let s = a.repeat(n / a.len() + 1);
            let mut v = vec![Tok::Str(s.clone())];
            if *n < 10_000 {
                v.push(Tok::Str(format!("{s}@example.com")));
                v.push(Tok::Str(format!("a@{s}")));
                v.push(Tok::Str(format!("{s}.com:80")));
                v.push(Tok::Str(format!("http://{s}/")));
                v.push(Tok::Json(serde_json::to_string(&s).unwrap()));
            }
            v.push(Tok::Bytes(s.into_bytes()));
            v
        })
    })
}
