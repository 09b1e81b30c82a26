//! email.
use std::net::IpAddr;

pub use super::net::*;
use crate::{
    core::{Exp, Family, Rng, Tok, Tri},
    gens,
};

pub struct Cfg {
    pub comment:   Tri,
    pub ip:        Tri,
    pub local:     Tri,
    pub labels:    Tri,
    pub non_ascii: Tri,
}

pub fn dump_email(local: &str, nq: bool, host: &str, comments: Option<[&Option<String>; 4]>, is_local: Option<bool>) -> String {
    format!("local={local:?} need_quoted={nq} host={host} comments={comments:?} is_local={is_local:?}")
}

fn atext(c: char) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(c)
}

const SPECIALS: &str = "(),:;<>@[]\"";

/// is `q` (between the quotes) a quoted local part; does it need its quotes
fn quoted_ok(q: &str, non_ascii: bool) -> Option<bool> {
    if q.is_empty() {
        return None;
    }
    let mut esc = false;
    for c in q.chars() {
        if c == '\\' {
            esc = !esc;
            continue;
        }
        let ok = atext(c) || c == '.' || c == ' ' || c == '\t' || (SPECIALS.contains(c) && esc) || (!c.is_ascii() && non_ascii);
        if !ok {
            return None;
        }
        esc = false;
    }
    Some(q.starts_with('.') || q.ends_with('.') || q.contains("..") || q.contains(['\\', ' ', '\t']))
}

fn atoms_ok(a: &str, non_ascii: bool) -> bool {
    !a.is_empty() && a.split('.').all(|x| !x.is_empty() && x.chars().all(|c| atext(c) || (!c.is_ascii() && non_ascii)))
}

/// a leading "(...)": (content, rest); Err when it does not close
fn comment(s: &str) -> Result<(Option<&str>, &str), ()> {
    match s.strip_prefix('(') {
        None => Ok((None, s)),
        Some(r) => match r.find(')') {
            Some(i) => Ok((Some(&r[..i]), &r[i + 1..])),
            None => Err(()),
        },
    }
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    let mut bad: Vec<&'static str> = vec![];
    let na = c.non_ascii != Tri::Disallow;
    let dis = c.comment == Tri::Disallow;
    macro_rules! invalid {
        () => {{
            bad.push("Invalid");
            return Exp::Reject(bad);
        }};
    }
    macro_rules! take_comment {
        ($s:expr) => {{
            if dis && $s.starts_with('(') {
                bad.push("CommentDisallow");
            }
            match comment($s) {
                Ok((c, rest)) => (c.map(str::to_string), rest),
                Err(()) => invalid!(),
            }
        }};
    }
    if s.is_empty() {
        invalid!();
    }
    if s.len() > 320 {
        invalid!();
    }
    let (c1, rest) = take_comment!(s.as_str());
    let (local, nq, rest) = if let Some(q) = rest.strip_prefix('"') {
        // up to the first quote that is not escaped
        let mut esc = false;
        let mut end = None;
        for (i, ch) in q.char_indices() {
            match ch {
                '\\' => esc = !esc,
                '"' if !esc => {
                    end = Some(i);
                    break;
                },
                _ => esc = false,
            }
        }
        let Some(end) = end else { invalid!() };
        let Some(nq) = quoted_ok(&q[..end], na) else { invalid!() };
        (&q[..end], nq, &q[end + 1..])
    } else {
        let Some(end) = rest.find(['@', '(']) else { invalid!() };
        if !atoms_ok(&rest[..end], na) {
            invalid!();
        }
        (&rest[..end], false, &rest[end..])
    };
    let (c2, rest) = take_comment!(rest);
    let Some(side) = rest.strip_prefix('@') else { invalid!() };
    // the local side as written
    if s.len() - rest.len() > 64 || side.len() > 255 {
        bad.push("Invalid");
    }
    if side.is_empty() {
        invalid!();
    }
    let (c3, rest) = take_comment!(side);
    if rest.is_empty() || rest.starts_with('(') {
        invalid!();
    }
    let lf_needed = |is_local: bool, bad: &mut Vec<&'static str>| match c.local {
        Tri::Must if !is_local => bad.push("LocalMust"),
        Tri::Disallow if is_local => bad.push("LocalDisallow"),
        _ => {},
    };
    let (host, shown, is_local, written, canonical, after): (String, String, bool, usize, usize, &str);
    if let Some(lit) = rest.strip_prefix('[') {
        if c.ip == Tri::Disallow {
            bad.push("IPDisallow");
        }
        if c.labels == Tri::Disallow {
            bad.push("AtLeastTwoLabelsDisallow");
        }
        let Some(end) = lit.find(']') else { invalid!() };
        let ip: Option<IpAddr> = match lit[..end].strip_prefix("IPv6:") {
            Some(x) => v6(x).map(IpAddr::V6),
            None => quad(&lit[..end]).filter(|_| !lit[..end].ends_with('.')).map(IpAddr::V4),
        };
        let Some(ip) = ip else { invalid!() };
        is_local = local_ip(ip);
        lf_needed(is_local, &mut bad);
        host = ip_str(&ip);
        shown = match ip {
            IpAddr::V4(i) => format!("[{i}]"),
            IpAddr::V6(i) => format!("[IPv6:{i}]"),
        };
        written = end + 2;
        canonical = shown.len();
        after = &lit[end + 1..];
    } else {
        if c.ip == Tri::Must {
            bad.push("IPMust");
        }
        let end = rest_end(rest);
        let Some(a) = domain_ascii(&rest[..end]) else { invalid!() };
        if a.ends_with('.') {
            invalid!();
        }
        is_local = local_name(&a);
        lf_needed(is_local, &mut bad);
        match c.labels {
            Tri::Must if !is_local && !two_labels(&a) => bad.push("AtLeastTwoLabelsMust"),
            Tri::Disallow if !is_local && two_labels(&a) => bad.push("AtLeastTwoLabelsDisallow"),
            _ => {},
        }
        host = dom_str(&a);
        shown = a.clone();
        written = end;
        canonical = a.len();
        after = &rest[end..];
    }
    if side.len() + canonical - written.min(side.len() + canonical) > 255 {
        bad.push("Invalid");
    }
    let (c4, rest) = take_comment!(after);
    if !rest.is_empty() {
        bad.push("Invalid");
    }
    if !bad.is_empty() {
        return Exp::Reject(bad);
    }
    let lf = c.local == Tri::Allow && c.labels != Tri::Allow;
    let c = |c: &Option<String>| c.as_ref().map(|c| format!("({c})")).unwrap_or_default();
    let q = if nq { "\"" } else { "" };
    let canon = format!("{}{q}{local}{q}{}@{}{shown}{}", c(&c1), c(&c2), c(&c3), c(&c4));
    Exp::AcceptC(dump_email(local, nq, &host, (!dis).then_some([&c1, &c2, &c3, &c4]), lf.then_some(is_local)), canon)
}

fn rest_end(s: &str) -> usize {
    s.find('(').unwrap_or(s.len())
}

const ATOMS: &[&str] = &["a", "joe", "John.Doe", "x.y.z", "!#$%&'*+", "-/=?^_`{|}~", "1", "é", "中文", "a.", ".a", "a..b", "a b", "a\\b", "a@b", "a,b", "a\"b", "A9", "😀", "a\u{7f}", "a\u{1}"];
const QUOTED: &[&str] = &[
    "a", "a b", ".", "..", "a.", ".a", "a..b", "\\\"", "\\\\", "a\\@b", "a@b", "\\(", "(", "\\a", "a\\", "", "a.b", "\t", "a\\ b", "a\\ (", "\\é(", "é", "\\é", "a,b", "a\\,b", "\\[\\]", "\\<\\>", "\\:\\;", "\u{1}", "a\u{7f}", "\\\u{7f}",
    "\\\\\\\"", "\\\\(", "\\.(", "中 文", ".\\.", "a.\\", "x!#$%&'*+-/=?^_`{|}~y", "a\"b",
];
const COMMENTS: &[&str] = &["", "c", "a comment", "\"", "@", "(", "é中", "a\\", "a@b.c", "[", "\n", "<>"];
const MUT: &[&str] = &["@", "\"", "(", ")", "()", "(c)", ".", "\\", "[", "]", "IPv6:", ",", " ", "\t", "é", "a", ":", "中", "@a", "(x", "x)"];

fn gen_domain_part(r: &mut Rng) -> String {
    match r.below(10) {
        0 | 1 => format!("[{}]", gen_v4(r)),
        2 => {
            let i = gen_v6(r);
            format!("[{}{}]", r.pick(&["IPv6:", "IPv6:", "IPv6:", "", "ipv6:", "IPV6:", "IPv4:"]), v6_text(r, i))
        },
        3 => r.pick(&["[", "[]", "[IPv6:", "[IPv6:]", "[1.2.3.4", "[1.2.3.4.]", "[a]", "", "[127.0.0.1]x", "[8.8.8.8].com", "[[1.2.3.4]]", "[1.2.3.4]]", "[IPv6:1.2.3.4]", "[::1]", "127.0.0.1", "8.8.8.8", "localhost"]).to_string(),
        _ => gen_domain(r),
    }
}

fn gen_comment(r: &mut Rng, odds: usize) -> String {
    if r.chance(1, odds) { format!("({})", r.pick(COMMENTS)) } else { String::new() }
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    if r.chance(1, 60) {
        return Tok::Str(gens::any_text(r, 24));
    }
    let c1 = gen_comment(r, 6);
    let mut local = if r.chance(1, 2) {
        let n = r.range(1, 2);
        let mut q = String::new();
        for _ in 0..n {
            q.push_str(r.pick(QUOTED));
        }
        format!("\"{q}\"")
    } else {
        let k = r.range(1, 3);
        let set = if r.chance(1, 2) { &ATOMS[..7] } else { ATOMS };
        (0..k).map(|_| r.pick(set)).collect::<Vec<_>>().join(".")
    };
    let c2 = gen_comment(r, 6);
    let c3 = gen_comment(r, 6);
    let mut dom = gen_domain_part(r);
    let c4 = gen_comment(r, 6);
    let mut parts = [c1, local.clone(), c2, c3, dom.clone(), c4];
    match r.below(8) {
        0 => {
            // local side stretched to around 64 bytes, in one of its pieces
            let want = 60 + r.below(9);
            let used: usize = parts[..3].iter().map(|p| p.len()).sum();
            if want > used {
                let fill = if r.chance(1, 4) { "é" } else { "a" };
                let n = (want - used) / fill.len();
                let i = r.below(3);
                stretch(r, &mut parts[i], fill, n);
                let now: usize = parts[..3].iter().map(|p| p.len()).sum();
                if now < want && r.chance(1, 2) {
                    local = parts[1].clone();
                    let at = local.find(|c: char| c.is_ascii_alphanumeric()).unwrap_or(local.len());
                    local.insert_str(at, &"z".repeat(want - now));
                    parts[1] = local;
                }
            }
        },
        1 => {
            // domain side around 255 bytes
            let want = 250 + r.below(9);
            let used: usize = parts[3..].iter().map(|p| p.len()).sum();
            if want > used {
                let i = 3 + r.below(3);
                if i == 4 && !dom.starts_with('[') {
                    while parts[3].len() + parts[4].len() + parts[5].len() < want {
                        let room = want - (parts[3].len() + parts[4].len() + parts[5].len());
                        if room == 1 {
                            dom = format!("a{}", parts[4]);
                        } else {
                            let n = (room - 1).min(40);
                            dom = format!("{}.{}", "b".repeat(n), parts[4]);
                        }
                        parts[4] = dom.clone();
                    }
                } else {
                    let j = if r.chance(1, 2) { 3 } else { 5 };
                    let fill = if r.chance(1, 4) { "é" } else { "c" };
                    let n = (want - used) / fill.len();
                    stretch(r, &mut parts[j], fill, n);
                }
            }
        },
        _ => {},
    }
    let mut s = format!("{}{}{}@{}{}{}", parts[0], parts[1], parts[2], parts[3], parts[4], parts[5]);
    if r.chance(1, 6) {
        s = gens::mutate(r, &s, MUT);
    }
    Tok::Str(s)
}

fn stretch(r: &mut Rng, p: &mut String, fill: &str, n: usize) {
    let f = fill.repeat(n);
    if p.is_empty() {
        *p = format!("({})", fill.repeat(n.saturating_sub(1)));
    } else if p.starts_with('(') || p.starts_with('"') {
        p.insert_str(1, &f);
    } else if r.chance(1, 2) {
        p.push_str(&f);
    } else {
        p.insert_str(0, &f);
    }
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(gens::all_strings(&["a", "@", ".", "(", ")", "\"", "\\"], 5));
    // every ASCII character in each place
    for u in 0..128u8 {
        let c = u as char;
        for pat in ["?@a.b", "a?@a.b", "?a@a.b", "a?b@a.b", "\"?\"@a.b", "\"a?\"@a.b", "\"?a\"@a.b", "\"\\?\"@a.b", "\"a\\?b\"@a.b", "\"\\\\?\"@a.b", "\"\\a?\"@a.b", "\"\\ ?\"@a.b", "(c)?@a.b", "a(c)?@a.b", "a(c)@?a.b", "a@?a.b", "a@a?b", "a@a.b?", "a@[1.2.3.4]?", "a@[1.2.3.4?]", "a@a.b(c)?", "(?)a@a.b", "a@a.b(?)", "a@(?)a.b", "\"a\"?@a.b", "\"a\"?a.b"] {
            v.push(Tok::Str(pat.replace('?', &c.to_string())));
        }
    }
    for c in ["é", "中", "😀", "\u{80}", "\u{a0}", "\u{ff08}", "＠", "．", "。", "\u{2028}"] {
        for pat in ["?@a.b", "a?@a.b", "\"?\"@a.b", "\"a\\?\"@a.b", "(?)a@a.b", "a(?)@a.b", "a@(?)b.c", "a@b.c(?)", "a@?.c", "a@b.?", "a@b?c", "a@[?]", "a@[IPv6:?]", "?(c)@a.b", "a@[1.2.3.4]?"] {
            v.push(Tok::Str(pat.replace('?', c)));
        }
    }
    // local side lengths, for each shape and filler
    for n in 56..=70usize {
        for f in ["a", "é", "a.", "😀"] {
            let fill = |m: usize| {
                let mut s = String::new();
                while s.len() + f.len() <= m {
                    s.push_str(f);
                }
                while s.len() < m {
                    s.push('z');
                }
                s
            };
            for (pre, post) in [("", ""), ("\"", "\""), ("(", ")a"), ("(", ")\"a\""), ("a(", ")"), ("\"a\"(", ")"), ("(c)", ""), ("(c)\"", "\""), ("", "(c)"), ("\"", "\"(c)"), ("(c)", "(d)"), ("(c)\"", "\"(d)"), ("(", ")"), ("\"\\", "\""), ("\"", "\\\"\""), ("\"", "\\(\""), ("\"", " \""), ("\"", ".\""), ("", "()"), ("()", ""), ("(", ")b()"), ("()b(", ")")] {
                let k = pre.len() + post.len();
                if n > k {
                    v.push(Tok::Str(format!("{pre}{}{post}@a.b", fill(n - k))));
                    v.push(Tok::Str(format!("{pre}{}{post}@", fill(n - k))));
                }
            }
        }
    }
    // domain side lengths
    let dom = |m: usize| {
        let mut s = String::new();
        while s.len() + 64 < m {
            s.push_str(&"d".repeat(49));
            s.push('.');
        }
        let k = m - s.len();
        s.push_str(&"e".repeat(k));
        s
    };
    for n in 248..=258usize {
        for (pre, post) in [("", ""), ("(", ")a.b"), ("(", ")[1.2.3.4]"), ("a.b(", ")"), ("[1.2.3.4](", ")"), ("[IPv6:0:0:0:0:0:0:0:1](", ")"), ("[IPv6:1::1:1:1:1:1:1](", ")"), ("(c)", "(d)"), ("中文.com(", ")"), ("(", ")中"), ("", "(c)"), ("(c)", ""), ("(", ")a(d)"), ("[IPv6:1:2:3:4:5:6:1.2.3.4](", ")"), ("[IPv6:::ffff:102:304](", ")")] {
            let k = pre.len() + post.len();
            if pre.ends_with('(') || post.starts_with(')') {
                v.push(Tok::Str(format!("a@{pre}{}{post}", "c".repeat(n - k))));
                v.push(Tok::Str(format!("{}@{pre}{}{post}", "a".repeat(64), "c".repeat(n - k))));
                v.push(Tok::Str(format!("\"a\"@{pre}{}{post}", "c".repeat(n - k))));
            } else {
                for l in ["a", "\"a\"", "(c)a"] {
                    v.push(Tok::Str(format!("{l}@{pre}{}{post}", dom(n - k))));
                }
                v.push(Tok::Str(format!("{}@{pre}{}{post}", "a".repeat(64), dom(n - k))));
            }
        }
    }
    for d in ["localhost", "LOCALHOST", "localhost.", "a", "a.b", "a.b.", "a。b", "a.b。", "127.0.0.1", "[127.0.0.1]", "[8.8.8.8]", "[IPv6:::1]", "[IPv6:2606::1]", "[IPv6:::ffff:8.8.8.8]", "[IPv6:ff0e::1]", "[IPv6:ff02::1]", "ｌocalhost", "中文.com", "xn--fiq228c.com", "", "[]", "[IPv6:]", "[", "[IPv6:", "[8.8.8.8", "[8.8.8.8]x", "[8.8.8.8](c)", "[8.8.8.8](c)x", "a.b(c)", "a.b(c)(d)", "a.b(", "a.b()", "(c)", "(c)a", "(c)(d)a", "(c)[8.8.8.8](d)", "(", "()a.b()"] {
        for l in ["a", "\"a\"", "(c)a", "a(c)", "\"a b\"", "é", "\"é\"", "(é)a", "(c)\"a\"(d)", "(c)(d)a", "a(c)(d)", "()a()", "", "()", "\"\""] {
            v.push(Tok::Str(format!("{l}@{d}")));
        }
    }
    v
}

pub fn family() -> Family {
    Family { name: "email", targets: crate::cfgs::email::targets(), gen_tok, corners }
}
