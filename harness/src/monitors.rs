//! The oracles. Each is a pure function of one target and one input: it drives
//! the real code and says what it saw, or which observation breaks the property.
use crate::core::{AnyVal, E, Exp, Out, Ser, Target, Tok, clip, guard};

#[derive(Debug, Clone)]
pub enum Seen {
    /// nothing to decide for this pair
    Skip,
    /// held; the tag says what was observed (accept / reject variant / ...)
    Held(String),
    /// broken: (kind, description)
    Broken(&'static str, String),
}

use Seen::*;

pub const DECODED: &[&str] = &["base32_decoded", "base64_decoded", "base64_url_decoded"];

pub fn is_decoded(t: &Target) -> bool {
    DECODED.contains(&t.fam)
}

/// does the check look at this target
pub fn covers(check: &str, t: &Target) -> bool {
    match check {
        "C03" => t.fam.starts_with("base") && !is_decoded(t),
        "C04" => is_decoded(t),
        _ => true,
    }
}

pub fn eval(check: &str, t: &Target, tok: &Tok) -> Seen {
    let s = match check {
        "C01" => total(t, tok),
        "C02" => agree(t, tok),
        "C17" => canonical(t, tok),
        "C21" => deserialize(t, tok),
        "C22" => serialize(t, tok),
        "C23" => wrapper(t, tok),
        "C24" => web(t, tok),
        "C25" => reasons(t, tok),
        "C27" => repeat(t, tok),
        #[cfg(feature = "meter")]
        "C31" => crate::meter::eval(t, tok),
        _ => judged(t, tok),
    };
    s
}

fn tag(o: &Out) -> String {
    match o {
        Out::Ok(_) => "accepted".into(),
        Out::Err(e) => e.variant().to_string(),
        Out::Panic(_) => "panic".into(),
    }
}

fn panicked(o: &Out, how: &str) -> Option<Seen> {
    if let Out::Panic(m) = o { Some(Broken("panic", format!("{how} panicked: {m}"))) } else { None }
}

macro_rules! no_panic {
    ($o:expr, $how:expr) => {
        if let Some(b) = panicked($o, $how) {
            return b;
        }
    };
}

// ---- verdict and value against the independent reference --------------------

fn judged(t: &Target, tok: &Tok) -> Seen {
    let exp = (t.judge)(tok);
    if matches!(exp, Exp::Unspecified) {
        // still must not panic
        return match t.do_parse(tok, false) {
            Some(o) => panicked(&o, "parsing").unwrap_or(Skip),
            None => Skip,
        };
    }
    let Some(o) = t.do_parse(tok, false) else { return Skip };
    let seen = against(&exp, &o, true, "");
    if matches!(seen, Broken(..)) {
        return seen;
    }
    // the other ways to put the same question
    if matches!(tok, Tok::Str(_) | Tok::Bytes(_)) {
        if let Some(o) = t.do_parse(tok, true) {
            if let b @ Broken(..) = against(&exp, &o, true, "parsing it owned: ") {
                return b;
            }
        }
    }
    if let Some(o) = t.do_validate(tok) {
        if let b @ Broken(..) = against(&exp, &o, false, "validating it: ") {
            return b;
        }
    }
    seen
}

fn against(exp: &Exp, o: &Out, value: bool, how: &str) -> Seen {
    no_panic!(o, "parsing");
    match (exp, o) {
        (Exp::Unspecified, _) => Skip,
        (Exp::Accept(_) | Exp::AcceptC(..), Out::Ok(_)) if !value => Held("accepted".into()),
        (Exp::Accept(d) | Exp::AcceptC(d, _), Out::Ok(v)) => {
            if d == v { Held("accepted".into()) } else { Broken("value", format!("{how}accepted with value {}, the reference says {}", clip(v), clip(d))) }
        },
        (Exp::Accept(d) | Exp::AcceptC(d, _), o) => Broken("refused", format!("{how}{}, the reference accepts it as {}", o.brief(), clip(d))),
        (e, Out::Ok(v)) => Broken("let through", format!("{how}accepted as {}, the reference rejects it ({})", clip(v), e.rejects().unwrap_or_default().join(" or "))),
        (_, o) => Held(tag(o)),
    }
}

// ---- rejection reasons -------------------------------------------------------

fn reasons(t: &Target, tok: &Tok) -> Seen {
    let exp = (t.judge)(tok);
    let Some(r) = exp.rejects() else { return Skip };
    let mut last = None;
    for (how, o) in [("parse", t.do_parse(tok, false)), ("parse owned", t.do_parse(tok, true)), ("validate", t.do_validate(tok))] {
        let Some(o) = o else { continue };
        no_panic!(&o, how);
        let Out::Err(e) = &o else { continue };
        if !r.is_empty() && !r.contains(&e.variant()) {
            return Broken("reason", format!("{how} reports {}, but the broken rule is {}", clip(&e.dbg), r.join(" or ")));
        }
        if e.disp.trim().is_empty() {
            return Broken("message", format!("{how} reports {} with an empty message", clip(&e.dbg)));
        }
        if let Exp::RejectMsg(_, m) = &exp {
            if *m != e.disp {
                return Broken("message", format!("{how} says {:?}, the engine says {:?}", clip(&e.disp), clip(m)));
            }
        }
        last = Some(format!("{}\u{1}{}", e.variant(), e.disp));
    }
    last.map(Held).unwrap_or(Skip)
}

// ---- entry points agree --------------------------------------------------------

fn agree(t: &Target, tok: &Tok) -> Seen {
    let Some(p) = t.do_parse(tok, false) else { return Skip };
    no_panic!(&p, "parsing");
    let differs = |how: &str, o: &Out| Broken("disagreement", format!("parsing borrowed data is {}, {how} is {}", p.brief(), o.brief()));
    if let Some(o) = t.do_parse(tok, true) {
        no_panic!(&o, "parsing owned data");
        if o != p {
            return differs("parsing owned data", &o);
        }
    }
    if let Some(v) = t.do_validate(tok) {
        no_panic!(&v, "validating");
        let same = match (&p, &v) {
            (Out::Ok(_), Out::Ok(_)) => true,
            (Out::Err(a), Out::Err(b)) => a == b,
            _ => false,
        };
        if !same {
            return differs("validating", &v);
        }
    }
    // the same datum through entry points of other types
    let mut others: Vec<(String, Tok, bool)> = vec![];
    match tok {
        Tok::I(i, w) => {
            for x in crate::gens::WIDTHS {
                if x != w && crate::gens::fits_i(*i, *x) {
                    others.push((format!("the same number as {}", width(true, *x)), Tok::I(*i, *x), true));
                }
            }
            if *i >= 0 && t.fam == "boolean" {
                others.push(("the same number unsigned".into(), Tok::U(*i as u128, 128), true));
            }
            if matches!(t.fam, "signed_integer" | "boolean") {
                others.push(("the same number as text".into(), Tok::Str(i.to_string()), false));
            }
        },
        Tok::U(i, w) => {
            for x in crate::gens::WIDTHS {
                if x != w && crate::gens::fits_u(*i, *x) {
                    others.push((format!("the same number as {}", width(false, *x)), Tok::U(*i, *x), true));
                }
            }
            if matches!(t.fam, "unsigned_integer" | "boolean") {
                others.push(("the same number as text".into(), Tok::Str(i.to_string()), false));
            }
        },
        Tok::F32(f) => {
            if t.fam == "number" || t.fam == "json" {
                others.push(("the same number as f64".into(), Tok::F64(*f as f64), true));
            }
        },
        Tok::F64(f) => {
            if (t.fam == "number" || t.fam == "json") && (*f as f32) as f64 == *f {
                others.push(("the same number as f32".into(), Tok::F32(*f as f32), true));
            }
            // a text is rounded once, straight to the target type
            if t.fam == "number" && (t.name.contains("f64") || (*f as f32) as f64 == *f) {
                others.push(("the same number as text".into(), Tok::Str(format!("{f:?}")), true));
            }
        },
        Tok::Char(c) => others.push(("the same character as text".into(), Tok::Str(c.to_string()), true)),
        Tok::Str(s) => {
            others.push(("the same text as bytes".into(), Tok::Bytes(s.as_bytes().to_vec()), true));
            let mut it = s.chars();
            if let (Some(c), None) = (it.next(), it.next()) {
                others.push(("the same text as a character".into(), Tok::Char(c), true));
            }
        },
        Tok::Bytes(b) => {
            if let Ok(s) = std::str::from_utf8(b) {
                others.push(("the same bytes as text".into(), Tok::Str(s.to_string()), true));
            }
        },
        Tok::Json(s) => {
            // objects may repeat a key in text only
            if !s.contains('{') {
                others.push(("the same JSON as text".into(), Tok::Str(s.clone()), false));
            }
        },
        Tok::Bool(_) | Tok::Len(_) => {},
    }
    let mut n = 0;
    for (how, k, messages) in others {
        let Some(o) = t.do_parse(&k, false) else { continue };
        no_panic!(&o, &how);
        let same = if messages { o == p } else { o.ok() == p.ok() && (!o.ok() || o == p) };
        if !same {
            return differs(&how, &o);
        }
        if let Some(v) = t.do_validate(&k) {
            no_panic!(&v, &how);
            if v.ok() != p.ok() {
                return differs(&format!("validating {how}"), &v);
            }
        }
        n += 1;
    }
    Held(format!("{} ({} further entry points)", if p.ok() { "accepted" } else { "rejected" }, n))
}

fn width(signed: bool, w: u8) -> String {
    let n = if w == 0 { "size".to_string() } else { w.to_string() };
    format!("{}{n}", if signed { "i" } else { "u" })
}

// ---- totality ------------------------------------------------------------------

fn total(t: &Target, tok: &Tok) -> Seen {
    let mut n = 0;
    let mut ok = false;
    for (how, o) in [("parsing", t.do_parse(tok, false)), ("parsing owned data", t.do_parse(tok, true)), ("validating", t.do_validate(tok))] {
        if let Some(o) = o {
            no_panic!(&o, how);
            if matches!(&o, Out::Ok(d) if d.starts_with("NOT UTF-8")) {
                return Broken("utf-8", format!("{how} hands out a String that is not UTF-8: {}", o.brief()));
            }
            ok |= o.ok();
            n += 1;
        }
    }
    macro_rules! no {
        ($how:expr, $e:expr) => {
            match guard(|| $e) {
                Ok(v) => {
                    n += 1;
                    v
                },
                Err(m) => return Broken("panic", format!("{} panicked: {m}", $how)),
            }
        };
    }
    if let (true, Some(any)) = (ok, t.any) {
        if let Some(a) = no!("parsing", any(tok)) {
            let c = no!("writing the canonical string", a.canon());
            no!("serializing", a.ser(true));
            no!("serializing", a.ser(false));
            no!("serializing to JSON", a.ser_json());
            if let Some(c) = c {
                no!("parsing the canonical string", (t.parse)(&Tok::Str(c), false));
            }
        }
    }
    for h in [true, false] {
        if let Some(de) = t.de {
            no!("deserializing", de(tok, h));
        }
        if let Some(de) = t.der {
            no!("deserializing a Result", de(tok, h));
        }
    }
    if let Some(j) = json_text(t, tok) {
        if let Some(de) = t.de_json {
            no!("deserializing JSON", de(&j));
        }
        if let Some(de) = t.der_json {
            no!("deserializing a Result from JSON", de(&j));
        }
    }
    no!("converting into a Result", (t.wrap)(tok, true));
    if n == 0 { Skip } else { Held(if ok { "accepted".into() } else { "rejected".into() }) }
}

// ---- web front ends ----------------------------------------------------------------

fn web(t: &Target, tok: &Tok) -> Seen {
    let (Some(web), Tok::Str(s)) = (t.web, tok) else { return Skip };
    let Some(p) = t.do_parse(tok, false) else { return Skip };
    no_panic!(&p, "parsing");
    let all = match guard(|| web(s)) {
        Ok(v) => v,
        Err(m) => return Broken("panic", format!("a web front end panicked: {m}")),
    };
    let n = all.len();
    for (how, o) in all {
        let same = match (&p, &o) {
            (Out::Ok(a), Out::Ok(b)) => a == b,
            // forms and responses carry the message
            (Out::Err(a), Out::Err(b)) if b.dbg.is_empty() => a.disp == b.disp,
            (Out::Err(a), Out::Err(b)) => a == b,
            _ => false,
        };
        if !same {
            let o = match &o {
                Out::Err(e) if e.dbg.is_empty() => format!("rejected with {:?}", clip(&e.disp)),
                o => o.brief(),
            };
            return Broken("web", format!("as {how} it is {o} where parsing is {}", p.brief()));
        }
    }
    Held(format!("{} ({n} front ends)", if p.ok() { "accepted" } else { "rejected" }))
}

// ---- same answer every time -----------------------------------------------------

fn repeat(t: &Target, tok: &Tok) -> Seen {
    let a = t.do_parse(tok, false);
    let b = t.do_parse(tok, false);
    let Some(o) = &a else { return Skip };
    no_panic!(o, "parsing");
    if a != b {
        return Broken("unstable", format!("parsing twice: {} then {}", o.brief(), b.map(|x| x.brief()).unwrap_or_default()));
    }
    Held(tag(o))
}

// ---- canonical strings ------------------------------------------------------------

/// the root dot of a domain may be dropped
fn undot(dump: &str) -> String {
    dump.replace(".\"", "\"").replace("fully_qualified=true", "fully_qualified=false")
}

fn live(t: &Target, tok: &Tok) -> Result<Option<Box<dyn AnyVal>>, String> {
    let Some(any) = t.any else { return Ok(None) };
    guard(|| any(tok))
}

fn canonical(t: &Target, tok: &Tok) -> Seen {
    let a = match live(t, tok) {
        Ok(Some(a)) => a,
        Ok(None) => return Skip,
        Err(m) => return Broken("panic", format!("parsing panicked: {m}")),
    };
    let c = match guard(|| a.canon()) {
        Ok(Some(c)) => c,
        Ok(None) => return Skip,
        Err(m) => return Broken("panic", format!("writing the canonical string panicked: {m}")),
    };
    if let Some(x) = (t.judge)(tok).canon() {
        // which case the digits get is free unless configured (reading back decides that)
        let free = matches!(t.fam, "mac_address" | "uuid") && x.eq_ignore_ascii_case(&c);
        if x != c && !free {
            return Broken("canonical", format!("the canonical string is {:?}, should be {:?}", clip(&c), clip(x)));
        }
    }
    let b = match live(t, &Tok::Str(c.clone())) {
        Ok(Some(b)) => b,
        Ok(None) => {
            let why = t.do_parse(&Tok::Str(c.clone()), false).map(|o| o.brief()).unwrap_or_default();
            return Broken("round trip", format!("the canonical string {:?} is {why}", clip(&c)));
        },
        Err(m) => return Broken("panic", format!("parsing the canonical string {:?} panicked: {m}", clip(&c))),
    };
    if b.dump() != a.dump() && undot(&b.dump()) != undot(&a.dump()) {
        return Broken("round trip", format!("the canonical string {:?} reads back as {}, not {}", clip(&c), clip(&b.dump()), clip(&a.dump())));
    }
    match guard(|| b.canon()) {
        Ok(Some(d)) if d == c => Held("round trip".into()),
        o => Broken("round trip", format!("the canonical string {:?} becomes {o:?} after reading it back", clip(&c))),
    }
}

// ---- serde ---------------------------------------------------------------------------

/// the datum as JSON text
pub fn json_text(t: &Target, tok: &Tok) -> Option<String> {
    if let Some(f) = t.json {
        if let Some(s) = f(tok) {
            return if s.is_empty() { None } else { Some(s) };
        }
    }
    match tok {
        Tok::Str(s) => serde_json::to_string(s).ok(),
        Tok::Char(c) => serde_json::to_string(&c.to_string()).ok(),
        Tok::Bool(b) => Some(b.to_string()),
        Tok::I(i, w) if *w != 128 || crate::gens::fits_i(*i, 64) => Some(i.to_string()),
        Tok::U(i, w) if *w != 128 || crate::gens::fits_u(*i, 64) => Some(i.to_string()),
        Tok::F64(f) if f.is_finite() => serde_json::to_string(f).ok(),
        _ => None,
    }
}

/// quantities are read by the unit library's own deserializer, which takes
/// texts from human-readable formats and numbers from others
fn unit_matches(t: &Target, tok: &Tok, human: bool) -> bool {
    if t.fam != "bit" && t.fam != "byte" {
        return true;
    }
    match tok {
        Tok::Str(_) => human,
        Tok::U(..) => !human,
        _ => false,
    }
}

/// what parsing says about the datum a document presents
fn reference(t: &Target, tok: &Tok) -> Option<Out> {
    if t.fam == "json" {
        // a JSON string in a document is a JSON string, not JSON text
        match tok {
            Tok::Str(s) => return t.do_parse(&Tok::Json(serde_json::to_string(s).unwrap()), false),
            Tok::I(i, _) if !crate::gens::fits_i(*i, 64) => return None,
            Tok::U(i, _) if !crate::gens::fits_u(*i, 64) => return None,
            Tok::F32(_) => return None,
            _ => {},
        }
    }
    t.do_parse(tok, false)
}

fn same(p: &Out, d: &Out, msg: Msg) -> Result<(), String> {
    match (p, d) {
        (Out::Ok(a), Out::Ok(b)) if a == b => Ok(()),
        (Out::Err(a), Out::Err(b)) => {
            let ok = match msg {
                Msg::Exact => a.disp == b.disp,
                Msg::Prefix => b.disp.starts_with(&a.disp),
                Msg::Any => true,
            };
            if ok { Ok(()) } else { Err(format!("message {:?} instead of {:?}", clip(&b.disp), clip(&a.disp))) }
        },
        (_, Out::Panic(m)) => Err(format!("panicked: {m}")),
        _ => Err(format!("{} where parsing is {}", d.brief(), p.brief())),
    }
}

#[derive(Clone, Copy)]
enum Msg {
    Exact,
    Prefix,
    Any,
}

fn own_message(t: &Target) -> bool {
    !matches!(t.fam, "bit" | "semver" | "semver_req" | "url")
}

fn deserialize(t: &Target, tok: &Tok) -> Seen {
    let Some(p) = reference(t, tok) else { return Skip };
    no_panic!(&p, "parsing");
    let mut n = 0;
    if let Some(de) = t.de {
        for human in [true, false] {
            let o = match guard(|| de(tok, human)) {
                Ok(Some(o)) => o,
                Ok(None) => continue,
                Err(m) => return Broken("panic", format!("deserializing panicked: {m}")),
            };
            if !unit_matches(t, tok, human) {
                // other presentations may be refused, but never let through
                if o.ok() && o != p {
                    return Broken("deserialize", format!("deserializing {} is {} where parsing is {}", form(human), o.brief(), p.brief()));
                }
                continue;
            }
            if let Err(m) = same(&p, &o, if own_message(t) { Msg::Exact } else { Msg::Any }) {
                return Broken("deserialize", format!("deserializing {}: {m}", form(human)));
            }
            n += 1;
        }
    }
    if let (Some(de), Some(j)) = (t.de_json, json_text(t, tok)) {
        let p = if t.fam == "json" && matches!(tok, Tok::F64(_)) { t.do_parse(&Tok::Json(j.clone()), false).unwrap_or(p.clone()) } else { p.clone() };
        let o = match guard(|| de(&j)) {
            Ok(o) => o,
            Err(m) => return Broken("panic", format!("deserializing JSON panicked: {m}")),
        };
        if !unit_matches(t, tok, true) {
            if o.ok() && o != p {
                return Broken("deserialize", format!("deserializing the JSON document {} is {} where parsing is {}", clip(&j), o.brief(), p.brief()));
            }
        } else if let Err(m) = same(&p, &o, if own_message(t) { Msg::Prefix } else { Msg::Any }) {
            return Broken("deserialize", format!("deserializing the JSON document {}: {m}", clip(&j)));
        } else {
            n += 1;
        }
    }
    if n == 0 { Skip } else { Held(format!("{} ({n} presentations)", if p.ok() { "accepted" } else { "rejected" })) }
}

fn form(human: bool) -> &'static str {
    if human { "a self-describing format" } else { "a compact format" }
}

fn wrapper(t: &Target, tok: &Tok) -> Seen {
    let mut n = 0;
    let direct = t.do_parse(tok, false);
    for owned in [false, true] {
        let w = match guard(|| (t.wrap)(tok, owned)) {
            Ok(w) => w,
            Err(m) => return Broken("panic", format!("converting into a Result panicked: {m}")),
        };
        if let (Some(w), Some(p)) = (w, &direct) {
            if w != *p {
                return Broken("wrapper", format!("converted into a Result it is {} where parsing is {}", w.brief(), p.brief()));
            }
            n += 1;
        }
    }
    let Some(p) = reference(t, tok) else { return if n > 0 { Held("converted".into()) } else { Skip } };
    no_panic!(&p, "parsing");
    let whole = |o: &Out| match (&p, o) {
        // the engine's error of a JSON document carries a position of its own
        (Out::Err(a), Out::Err(b)) if t.fam == "json" => a.variant() == b.variant(),
        _ => *o == p,
    };
    if let Some(der) = t.der {
        for human in [true, false] {
            let o = match guard(|| der(tok, human)) {
                Ok(Some(o)) => o,
                Ok(None) => continue,
                Err(m) => return Broken("panic", format!("deserializing a Result panicked: {m}")),
            };
            if !unit_matches(t, tok, human) {
                if o.ok() && o != p {
                    return Broken("wrapper", format!("a Result deserialized from {} is {} where parsing is {}", form(human), o.brief(), p.brief()));
                }
                continue;
            }
            if !whole(&o) {
                return Broken("wrapper", format!("a Result deserialized from {} is {} where parsing is {}", form(human), o.brief(), p.brief()));
            }
            n += 1;
        }
    }
    if let (Some(der), Some(j)) = (t.der_json, json_text(t, tok)) {
        let p = if t.fam == "json" && matches!(tok, Tok::F64(_)) { t.do_parse(&Tok::Json(j.clone()), false).unwrap_or(p.clone()) } else { p.clone() };
        let o = match guard(|| der(&j)) {
            Ok(o) => o,
            Err(m) => return Broken("panic", format!("deserializing a Result from JSON panicked: {m}")),
        };
        if unit_matches(t, tok, true) {
            let ok = match (&p, &o) {
                (Out::Err(a), Out::Err(b)) if t.fam == "json" => a.variant() == b.variant(),
                _ => o == p,
            };
            if !ok {
                return Broken("wrapper", format!("a Result deserialized from the JSON document {} is {} where parsing is {}", clip(&j), o.brief(), p.brief()));
            }
            n += 1;
        }
    }
    if n == 0 { Skip } else { Held(if p.ok() { "captured success".into() } else { format!("captured {}", tag(&p)) }) }
}

fn fits(t: &Target, a: &dyn AnyVal, s: &Ser, human: bool) -> Result<(), String> {
    let d = a.dump();
    let bad = |want: &str| Err(format!("serialized as {}, should be {want}", clip(&format!("{s:?}"))));
    match t.fam {
        "signed_integer" => match s {
            Ser::I(i) if i.to_string() == d => Ok(()),
            _ => bad(&format!("the number {d}")),
        },
        "unsigned_integer" => match s {
            Ser::U(i) if i.to_string() == d => Ok(()),
            _ => bad(&format!("the number {d}")),
        },
        "number" => match s {
            Ser::F64(b) if d == num64(f64::from_bits(*b)) => Ok(()),
            Ser::F32(b) if d == num32(f32::from_bits(*b)) => Ok(()),
            _ => bad(&format!("the number {d}")),
        },
        "boolean" => match s {
            Ser::Bool(b) if b.to_string() == d => Ok(()),
            _ => bad(&d),
        },
        "line" | "text" | "regex" | "base32" | "base64" | "base64_url" => match s {
            Ser::Str(x) if format!("{x:?}") == d => Ok(()),
            _ => bad(&format!("the text {d}")),
        },
        "base32_decoded" | "base64_decoded" | "base64_url_decoded" => match s {
            Ser::Bytes(x) if format!("{x:?}") == d => Ok(()),
            _ => bad(&format!("the bytes {d}")),
        },
        "bit" | "byte" => match s {
            Ser::Str(_) if human => Ok(()),
            Ser::U(u) if !human && u.to_string() == d => Ok(()),
            _ => bad(&format!("the amount {d}")),
        },
        "length" => match s {
            Ser::Seq(_) | Ser::Map(_) => Ok(()),
            _ => bad("the collection"),
        },
        "phone" => match s {
            Ser::Map(m) if !m.is_empty() => Ok(()),
            _ => bad("a phone number"),
        },
        _ => match a.canon() {
            Some(c) => match s {
                Ser::Str(x) if *x == c => Ok(()),
                _ => bad(&format!("the text {c:?}")),
            },
            None => Ok(()),
        },
    }
}

fn num64(f: f64) -> String {
    if f.is_nan() { "NaN".into() } else { format!("{:016x} {f:e}", f.to_bits()) }
}
fn num32(f: f32) -> String {
    if f.is_nan() { "NaN".into() } else { format!("{:08x} {f:e}", f.to_bits()) }
}

fn serialize(t: &Target, tok: &Tok) -> Seen {
    let a = match live(t, tok) {
        Ok(Some(a)) => a,
        Ok(None) => return Skip,
        Err(m) => return Broken("panic", format!("parsing panicked: {m}")),
    };
    let round = !matches!(t.fam, "base32_decoded" | "base64_decoded" | "base64_url_decoded" | "json" | "phone");
    let mut n = 0;
    for human in [true, false] {
        let s = match guard(|| a.ser(human)) {
            Ok(Some(Ok(s))) => s,
            Ok(Some(Err(m))) => return Broken("serialize", format!("serializing fails: {m}")),
            Ok(None) => return Skip,
            Err(m) => return Broken("panic", format!("serializing panicked: {m}")),
        };
        if let Err(m) = fits(t, &*a, &s, human) {
            return Broken("serialize", m);
        }
        n += 1;
        if round {
            let back = match &s {
                Ser::Str(x) => Tok::Str(x.clone()),
                Ser::I(i) => Tok::I(*i, 128),
                Ser::U(i) => Tok::U(*i, 128),
                Ser::Bool(b) => Tok::Bool(*b),
                Ser::F64(b) => Tok::F64(f64::from_bits(*b)),
                Ser::F32(b) => Tok::F32(f32::from_bits(*b)),
                _ => continue,
            };
            if let Some(de) = t.de {
                match guard(|| de(&back, human)) {
                    Ok(Some(Out::Ok(d))) if d == a.dump() || undot(&d) == undot(&a.dump()) => n += 1,
                    Ok(Some(o)) => return Broken("round trip", format!("serialized as {} it deserializes as {}, not {}", clip(&format!("{s:?}")), o.brief(), clip(&a.dump()))),
                    Ok(None) => {},
                    Err(m) => return Broken("panic", format!("deserializing panicked: {m}")),
                }
            }
        }
    }
    match guard(|| a.ser_json()) {
        Ok(Some(Ok(j))) => {
            // JSON readers keep 64 bits of an integer
            let wide = matches!(t.fam, "signed_integer" | "unsigned_integer") && j.parse::<i128>().map(|i| !crate::gens::fits_i(i, 64) && !(i >= 0 && crate::gens::fits_u(i as u128, 64))).unwrap_or(true);
            if round && j != "null" && !wide {
                if let Some(de) = t.de_json {
                    match guard(|| de(&j)) {
                        Ok(Out::Ok(d)) if d == a.dump() || undot(&d) == undot(&a.dump()) => n += 1,
                        Ok(o) => return Broken("round trip", format!("serialized as the JSON {} it deserializes as {}, not {}", clip(&j), o.brief(), clip(&a.dump()))),
                        Err(m) => return Broken("panic", format!("deserializing panicked: {m}")),
                    }
                }
            }
        },
        // a map may have keys JSON cannot write
        Ok(Some(Err(_))) | Ok(None) => {},
        Err(m) => return Broken("panic", format!("serializing to JSON panicked: {m}")),
    }
    Held(format!("{n} forms"))
}

#[allow(unused)]
fn unused(_: E) {}
