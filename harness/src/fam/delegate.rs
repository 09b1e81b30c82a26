//! regex, semver, semver_req, url: validators that hand the text to an engine.
use std::sync::LazyLock;

use validators::{prelude::*, regex::Regex, semver, url::Url};

use crate::{
    core::{Dump, Exp, Family, Rng, Target, Tok},
    gens, subject, target, ws,
};

macro_rules! one {
    ($n:ident, $t:ty, ($($a:tt)*), |$v:ident| $d:expr) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($($a)*)]
        pub struct $n(pub $t);
        impl Dump for $n {
            fn dump(&self) -> String {
                let $v = &self.0;
                $d
            }
        }
        subject!($n; text);
    };
}

one!(Ver, semver::Version, (semver), |v| format!("{v:?}"));
one!(Req, semver::VersionReq, (semver_req), |v| format!("{v:?}"));
one!(AnyUrl, Url, (url), |v| format!("{:?} {:?}", v.as_str(), v.host_str()));
one!(R0, String, (regex(regex("^[0-9a-fA-F]{2}$"))), |v| format!("{v:?}"));
one!(R1, String, (regex(regex("ab"))), |v| format!("{v:?}"));
one!(R2, String, (regex(regex(""))), |v| format!("{v:?}"));
one!(R3, String, (regex(regex("(?s)^.{3,5}$"))), |v| format!("{v:?}"));
one!(R4, String, (regex(regex(r"(?i)^h\u00e9llo$|^\s+$"))), |v| format!("{v:?}"));
one!(R5, String, (regex(regex = "^a*b$")), |v| format!("{v:?}"));
one!(R6, String, (regex(regex(RX))), |v| format!("{v:?}"));
one!(R7, String, (regex(regex = RX2)), |v| format!("{v:?}"));

static RX: LazyLock<Regex> = LazyLock::new(|| Regex::new("^(a|bc)+$").unwrap());
static RX2: LazyLock<Regex> = LazyLock::new(|| Regex::new("(?m)^x$").unwrap());

fn re(ok: bool, s: &str) -> Exp {
    if ok { Exp::Accept(format!("{s:?}")) } else { Exp::reject(&["RegexError"]) }
}

fn a_bc(mut s: &str) -> bool {
    let mut n = 0;
    loop {
        if let Some(x) = s.strip_prefix('a') {
            s = x;
        } else if let Some(x) = s.strip_prefix("bc") {
            s = x;
        } else {
            return n > 0 && s.is_empty();
        }
        n += 1;
    }
}

fn engine<T, E: std::fmt::Display>(r: Result<T, E>, v: &'static str, f: impl FnOnce(T) -> (String, String)) -> Exp {
    match r {
        Ok(t) => {
            let (d, c) = f(t);
            Exp::AcceptC(d, c)
        },
        Err(e) => Exp::RejectMsg(vec![v], e.to_string()),
    }
}

const MUT: &[&str] = &[
    ".", "-", "+", "0", "1", "*", "x", ">", "=", "<", "^", "~", ",", "a", "b", "c", "\n", "ab", "bc", "00", "18446744073709551615", "18446744073709551616", "alpha", " ", "v", "é", "É", "h", "H", "l", "L", "://", ":", "/", "http", "mailto:", "#", "?", "\u{212a}", "\r", "x\n",
];

pub fn gen_tok(r: &mut Rng) -> Tok {
    fn num(r: &mut Rng) -> String {
        if r.chance(1, 8) { r.pick(&["00", "01", "18446744073709551615", "18446744073709551616", "", "-1", "x", "*"]).to_string() } else { r.below(30).to_string() }
    }
    fn ver(r: &mut Rng) -> String {
        let n = if r.chance(1, 5) { r.below(5) } else { 3 };
        let mut s = (0..n).map(|_| num(r)).collect::<Vec<_>>().join(".");
        if r.chance(1, 3) {
            s.push_str(r.pick(&["-alpha", "-1", "-01", "-a.b.1", "-", "-a..b", "-é", "--", "-a_b", "-0a"]));
        }
        if r.chance(1, 4) {
            s.push_str(r.pick(&["+b", "+001", "+", "+a.b", "+a+b"]));
        }
        s
    }
    let s = match r.below(7) {
        0 | 1 => ver(r),
        2 => {
            let n = r.range(1, 3);
            (0..n)
                .map(|_| format!("{}{}{}", r.pick(&["", "=", ">", ">=", "<", "<=", "~", "^", "*", "!", "> ", " ^"]), ver(r), r.pick(&["", "", " "])))
                .collect::<Vec<_>>()
                .join(r.pick(&[",", ", ", " ", ",,"]))
        },
        3 => {
            let n = r.below(7);
            (0..n).map(|_| *r.choose(&["a", "b", "bc", "x", "\n", "ab", "é"])).collect()
        },
        4 => {
            let s = r.pick(&["ff", "0A", "héllo", "hello", "aab", "x", "a\nx\nb", "abc", "   ", "\t\n", "zzz", "中文字"]);
            if r.chance(1, 2) { s.chars().flat_map(|c| if r.chance(1, 2) { c.to_uppercase().collect::<Vec<_>>() } else { vec![c] }).collect() } else { s.to_string() }
        },
        5 => format!("{}{}{}", r.pick(&["http://", "mailto:", "data:", "file:///", "ftp://", "a:", "a+b://", "1a:", "//", "", "urn:"]), r.pick(&["a.b", "localhost", "x@y", "[::1]", "[::1", "a b", "", "1.2.3.4", "中文", "a:99999", "a:80"]), r.pick(&["", "/", "/p?q#f", "#", " "])),
        _ => gens::any_text(r, 6),
    };
    Tok::Str(if r.chance(1, 3) { gens::mutate(r, &s, MUT) } else { s })
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["a", "b", "c", "x", "\n", "é", "0"], 5));
    v.extend(gens::strs(gens::all_strings(&["1", "0", ".", "-", "+", "a", "*", ">", "="], 4)));
    for a in ["0.0.0", "1.2.3", "01.2.3", "1.2", "1", "1.2.3.4", "1.2.3-", "1.2.3-a", "1.2.3+b", " 1.2.3", "1.2.3 ", "v1.2.3", "18446744073709551615.0.0", "18446744073709551616.0.0", "*", "x", "1.*", "1.x.3", "^1", "~1.2", ">=1, <2", ">=1,<2", ">=1 <2", "=1.2.3", "", " ", ",", "1,", "http://a", "HTTP://a", "a:", "a", "//a", "/a", "http:", "http://", "http:// a", "mailto:x", "\u{feff}a:", "héllo", "HÉLLO", "Héllo\n", "\u{3000}", "AB", "ab", "xaby"] {
        v.push(Tok::Str(a.into()));
    }
    for n in [31usize, 32, 33, 64] {
        v.push(Tok::Str((0..n).map(|_| ">1").collect::<Vec<_>>().join(",")));
    }
    for i in 0..=0x2ffu32 {
        if let Some(c) = char::from_u32(i) {
            v.push(Tok::Str(c.to_string()));
            v.push(Tok::Str(format!("a{c}")));
            v.push(Tok::Str(format!("{c}{c}{c}")));
        }
    }
    v
}

fn targets() -> Vec<Target> {
    use validators::errors::{RegexError, SemverError, UrlError};
    let mut v = Vec::new();
    v.push(ws!(target!(Ver, "semver", "semver", |t| { let Tok::Str(s) = t else { return Exp::Unspecified }; engine(semver::Version::parse(s), "SemverError", |v| (format!("{v:?}"), v.to_string())) }), Ver, SemverError, |v| Some(v.0.to_string())));
    v.push(ws!(target!(Req, "semver_req", "semver_req", |t| { let Tok::Str(s) = t else { return Exp::Unspecified }; engine(semver::VersionReq::parse(s), "SemverError", |v| (format!("{v:?}"), v.to_string())) }), Req, SemverError, |v| Some(v.0.to_string())));
    v.push(ws!(target!(AnyUrl, "url", "url", |t| { let Tok::Str(s) = t else { return Exp::Unspecified }; engine(Url::parse(s), "UrlError", |v| (format!("{:?} {:?}", v.as_str(), v.host_str()), v.to_string())) }), AnyUrl, UrlError, |v| Some(v.0.to_string())));
    macro_rules! r {
        ($n:ident, $name:literal, |$s:ident| $e:expr) => {
            v.push(ws!(target!($n, "regex", $name, |t| { let Tok::Str($s) = t else { return Exp::Unspecified }; re($e, $s) }), $n, RegexError, |_| None));
        };
    }
    r!(R0, "regex(\"^[0-9a-fA-F]{2}$\")", |s| s.len() == 2 && s.bytes().all(|b| b.is_ascii_hexdigit()));
    r!(R1, "regex(\"ab\")", |s| s.contains("ab"));
    r!(R2, "regex(\"\")", |s| !s.is_empty() || s.is_empty());
    r!(R3, "regex(\"(?s)^.{3,5}$\")", |s| (3..=5).contains(&s.chars().count()));
    r!(R4, "regex(\"(?i)^h\\u00e9llo$|^\\s+$\")", |s| s.to_lowercase() == "héllo" || (!s.is_empty() && s.chars().all(char::is_whitespace)));
    r!(R5, "regex = \"^a*b$\"", |s| s.strip_suffix('b').is_some_and(|x| x.bytes().all(|b| b == b'a')));
    r!(R6, "regex(STATIC ^(a|bc)+$)", |s| a_bc(s));
    r!(R7, "regex = STATIC (?m)^x$", |s| s.split('\n').any(|l| l == "x"));
    v
}

pub fn family() -> Family {
    Family { name: "delegate", targets: targets(), gen_tok, corners }
}
