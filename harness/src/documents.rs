//! Documents whose fields are `validators::Result`s, and the wrapper's own laws.
use std::{
    collections::{BTreeMap, hash_map::DefaultHasher},
    fmt::Debug,
    hash::{Hash, Hasher},
    str::FromStr,
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};
use validators::{errors::*, prelude::*};

use crate::{
    core::{Rng, Tok, clip, guard},
    extras::Ctx,
    fam,
    webtypes::*,
};

type VResult<T, E, K = ()> = validators::Result<T, E, K>;

#[derive(Debug, Clone, Validator)]
#[validator(length(min = 1, max = 3))]
pub struct Len(pub Vec<u32>);

type Kind = (&'static str, fn(&Value) -> Option<String>);

fn show<T: Debug, E: Debug>(r: Result<T, E>) -> String {
    format!("{r:?}")
}

macro_rules! text_ref {
    ($t:ty) => {
        |v: &Value| v.as_str().map(|s| show(<$t>::parse_str(s)))
    };
}

macro_rules! docs {
    ($( $f:ident: $t:ident, $e:ident, $fam:literal, $r:expr; )*) => {
        #[derive(Deserialize)]
        pub struct Doc {
            before: u32,
            $( $f: VResult<$t, $e>, )*
            len: VResult<Len, LengthError, Vec<u32>>,
            after: String,
        }
        impl Doc {
            fn get(&self, name: &str) -> String {
                match name {
                    $( stringify!($f) => format!("{:?}", self.$f.as_std_result()), )*
                    "len" => format!("{:?}", self.len.as_std_result()),
                    _ => unreachable!(),
                }
            }
        }
        /// any subset of the fields, in containers
        #[derive(Deserialize)]
        pub struct Opts {
            before: u32,
            $( #[serde(default)] $f: Option<Vec<VResult<$t, $e>>>, )*
            after: String,
        }
        impl Opts {
            fn get(&self, name: &str) -> Option<Vec<String>> {
                match name {
                    $( stringify!($f) => self.$f.as_ref().map(|v| v.iter().map(|x| format!("{:?}", x.as_std_result())).collect()), )*
                    _ => None,
                }
            }
        }
        /// buffered by serde before they are read
        #[derive(Deserialize)]
        pub struct Flat {
            #[serde(flatten)]
            inner: Doc,
            #[serde(flatten)]
            rest: BTreeMap<String, Value>,
        }
        fn fields() -> Vec<(&'static str, Kind)> {
            vec![ $( (stringify!($f), ($fam, $r)), )* ("len", ("", |v: &Value| Some(show(Len::parse_collection(serde_json::from_value(v.clone()).ok()?))))) ]
        }
    };
}

fn num_ref(v: &Value) -> Option<String> {
    match v {
        Value::String(s) => Some(show(Num::parse_str(s))),
        Value::Number(n) => {
            // integers are read through their own conversion
            if n.is_f64() { Some(show(Num::parse_f64(n.as_f64()?))) } else if n.as_f64()?.abs() < 9e15 { Some(show(Num::parse_f64(n.as_f64()?))) } else { None }
        },
        _ => None,
    }
}

docs! {
    b32: B32, Base32Error, "base", text_ref!(B32);
    b32d: B32D, Base32DecodedError, "base", text_ref!(B32D);
    b64: B64, Base64Error, "base", text_ref!(B64);
    b64d: B64D, Base64DecodedError, "base", text_ref!(B64D);
    b64u: B64U, Base64UrlError, "base", text_ref!(B64U);
    b64ud: B64UD, Base64UrlDecodedError, "base", text_ref!(B64UD);
    bits: Bits, BitError, "unit", text_ref!(Bits);
    bytes: Bytes, ByteError, "unit", text_ref!(Bytes);
    flag: Bool, BooleanError, "boolean", |v: &Value| match v {
        Value::String(s) => Some(show(Bool::parse_str(s))),
        Value::Bool(b) => Some(show(Bool::parse_bool(*b))),
        Value::Number(n) => n.as_u64().map(|u| show(Bool::parse_u64(u))).or_else(|| n.as_i64().map(|i| show(Bool::parse_i64(i)))),
        _ => None,
    };
    dom: Dom, DomainError, "domain", text_ref!(Dom);
    mail: Mail, EmailError, "email", text_ref!(Mail);
    host: HostT, HostError, "host", text_ref!(HostT);
    http: Http, HttpURLError, "url", text_ref!(Http);
    ftp: Ftp, HttpFtpURLError, "url", text_ref!(Ftp);
    ip: IpT, IpError, "ip", text_ref!(IpT);
    ip4: Ip4, Ipv4Error, "ip", text_ref!(Ip4);
    ip6: Ip6, Ipv6Error, "ip", text_ref!(Ip6);
    line: LineT, LineError, "linetext", text_ref!(LineT);
    mac: Mac, MacAddressError, "hex", text_ref!(Mac);
    num: Num, NumberError, "number", num_ref;
    phone: PhoneT, PhoneError, "phone", text_ref!(PhoneT);
    re: Re, RegexError, "delegate", text_ref!(Re);
    ver: Ver, SemverError, "delegate", text_ref!(Ver);
    req: Req, SemverError, "delegate", text_ref!(Req);
    int: Int, SignedIntegerError, "int", |v: &Value| match v {
        Value::String(s) => Some(show(Int::parse_str(s))),
        Value::Number(n) => n.as_i64().map(|i| show(Int::parse_i64(i))),
        _ => None,
    };
    text: TextT, TextError, "linetext", text_ref!(TextT);
    uint: Uint, UnsignedIntegerError, "int", |v: &Value| match v {
        Value::String(s) => Some(show(Uint::parse_str(s))),
        Value::Number(n) => n.as_u64().map(|i| show(Uint::parse_u64(i))),
        _ => None,
    };
    url: UrlT, UrlError, "delegate", text_ref!(UrlT);
    uuid: UuidT, UuidError, "hex", text_ref!(UuidT);
}

const GOOD: &[(&str, &str)] = &[
    ("base", "GEZDGNBVGY3TQOI="), ("unit", "12 KiB"), ("boolean", "yes"), ("domain", "example.com:80"), ("email", "a@example.com"), ("host", "[::1]:8"), ("url", "https://example.com/"),
    ("ip", "127.0.0.1:80"), ("linetext", "abc"), ("hex", "080027b246c3"), ("number", "1.5"), ("phone", "+886912345678"), ("delegate", "1.2.3"), ("int", "3"),
];

fn datum(r: &mut Rng, fam: &str, gens: &BTreeMap<&'static str, fn(&mut Rng) -> Tok>, reference: fn(&Value) -> Option<String>) -> Option<(Value, String)> {
    for _ in 0..6 {
        let v = if fam.is_empty() {
            Value::Array((0..r.below(6)).map(|i| json!(i)).collect())
        } else if r.chance(1, 3) {
            json!(GOOD.iter().find(|g| g.0 == fam).unwrap().1)
        } else {
            match (gens.get(fam)?)(r) {
                Tok::Str(s) => json!(s),
                Tok::Bool(b) => json!(b),
                Tok::I(i, _) => match i64::try_from(i) {
                    Ok(i) => json!(i),
                    _ => continue,
                },
                Tok::U(i, _) => match u64::try_from(i) {
                    Ok(i) => json!(i),
                    _ => continue,
                },
                Tok::F64(f) if f.is_finite() => json!(f),
                _ => continue,
            }
        };
        if let Some(want) = reference(&v) {
            return Some((v, want));
        }
    }
    None
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn run(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    laws(x, tick);
    let end = Instant::now() + Duration::from_secs_f64((x.budget * 0.2).max(2.0));
    let gens: BTreeMap<&'static str, fn(&mut Rng) -> Tok> = fam::all().into_iter().map(|f| (f.name, f.gen_tok)).collect();
    let fields = fields();
    let mut r = Rng::new(x.seed ^ 0xd0c ^ (x.worker as u64) << 24);
    let (mut ok, mut err) = (0u64, 0u64);
    let mut docs = 0u64;
    while Instant::now() < end {
        tick();
        let mut m = Map::new();
        let mut want = vec![];
        let after = crate::gens::any_text(&mut r, 6);
        let before = r.u64() as u32;
        m.insert("before".into(), json!(before));
        for (name, (fam, reference)) in &fields {
            let Some((v, w)) = datum(&mut r, fam, &gens, *reference) else { continue };
            m.insert(name.to_string(), v);
            want.push((*name, w));
        }
        m.insert("after".into(), json!(after));
        if want.len() < fields.len() {
            continue;
        }
        // the order of fields in a document is free
        let text = {
            let mut parts: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
            for i in (1..parts.len()).rev() {
                parts.swap(i, r.below(i + 1));
            }
            format!("{{{}}}", parts.join(", "))
        };
        let way = r.below(6);
        let got = guard(|| -> Result<Doc, serde_json::Error> {
            match way {
                0 => serde_json::from_str(&text),
                1 => serde_json::from_slice(text.as_bytes()),
                2 => serde_json::from_reader(text.as_bytes()),
                3 => serde_json::from_value(serde_json::from_str(&text)?),
                4 => Doc::deserialize(&serde_json::from_str::<Value>(&text)?),
                _ => serde_json::from_str::<Flat>(&text).map(|f| f.inner),
            }
        });
        docs += 1;
        x.evals += 1;
        match got {
            Err(p) => return x.broken("document", "panic", format!("reading a document panicked: {p}"), json!(text)),
            Ok(Err(e)) => return x.broken("document", "document", format!("a document failed because of a field that should capture its error (way {way}): {e}"), json!(text)),
            Ok(Ok(d)) => {
                if d.before != before || d.after != after {
                    return x.broken("document", "neighbours", "the plain fields of a document changed".into(), json!(text));
                }
                for (name, w) in &want {
                    let g = d.get(name);
                    x.evals += 1;
                    if g.starts_with("Ok") {
                        ok += 1;
                    } else {
                        err += 1;
                    }
                    if g != *w {
                        return x.broken(name, "captured", format!("field {name} = {} holds {} where parsing gives {} (way {way})", m[*name], clip(&g), clip(w)), m[*name].clone());
                    }
                }
            },
        }
        // sequences of results in optional fields
        let mut m2 = Map::new();
        let mut want2: BTreeMap<&str, Vec<String>> = BTreeMap::new();
        m2.insert("before".into(), json!(before));
        for (name, (fam, reference)) in &fields {
            if *name == "len" || r.chance(2, 3) {
                continue;
            }
            let mut vs = vec![];
            for _ in 0..r.below(4) {
                if let Some((v, w)) = datum(&mut r, fam, &gens, *reference) {
                    vs.push(v);
                    want2.entry(name).or_default().push(w);
                }
            }
            want2.entry(name).or_default();
            m2.insert(name.to_string(), Value::Array(vs));
        }
        m2.insert("after".into(), json!(after));
        let text = Value::Object(m2).to_string();
        match guard(|| serde_json::from_str::<Opts>(&text)) {
            Ok(Ok(d)) => {
                x.evals += 1;
                for (name, _) in fields.iter().filter(|f| f.0 != "len") {
                    let (g, w) = (d.get(name), want2.get(name).cloned());
                    if g != w || d.before != before || d.after != after {
                        return x.broken(name, "captured", format!("the results of field {name} are {g:?} where parsing gives {w:?}"), json!(text));
                    }
                }
            },
            Ok(Err(e)) => return x.broken("document", "document", format!("a document of optional results failed: {e}"), json!(text)),
            Err(p) => return x.broken("document", "panic", format!("reading a document panicked: {p}"), json!(text)),
        }
        if x.samples.is_empty() {
            x.samples.push(json!({"document": clip(&text)}));
        }
    }
    x.saw("documents [read]", docs);
    x.saw("documents [fields captured as success]", ok);
    x.saw("documents [fields captured as error]", err);
}

/// comparison, ordering, hashing, copying and conversion agree with the
/// standard Result inside
fn laws(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    type W = VResult<i8, String>;
    let mut r = Rng::new(x.seed ^ 0x1a3 ^ (x.worker as u64) << 24);
    let any = |r: &mut Rng| -> Result<i8, String> { if r.chance(1, 2) { Ok(r.below(5) as i8 - 2) } else { Err(["", "a", "b", "ab"][r.below(4)].to_string()) } };
    let mut n = 0;
    for k in 0..3000 {
        if k % 100 == 0 {
            tick();
        }
        let (a, b) = (any(&mut r), any(&mut r));
        let (wa, wb) = (W::new(a.clone()), W::from(b.clone()));
        let mut fail = |what: &str| x.broken("laws", "law", format!("{what}: {a:?}, {b:?}"), json!(format!("{a:?} {b:?}")));
        n += 1;
        if (wa == wb) != (a == b) || (wa != wb) != (a != b) {
            return fail("equality differs from the standard Result's");
        }
        if wa.cmp(&wb) != a.cmp(&b) || wa.partial_cmp(&wb) != a.partial_cmp(&b) || (wa < wb) != (a < b) {
            return fail("ordering differs from the standard Result's");
        }
        if hash(&wa) != hash(&a) && (hash(&wa) == hash(&wb)) != (a == b) {
            return fail("hashing disagrees with equality");
        }
        if a == b && hash(&wa) != hash(&wb) {
            return fail("equal wrappers hash differently");
        }
        if format!("{wa:?}") != format!("{a:?}") || format!("{wa:#?}") != format!("{a:#?}") {
            return fail("debug output differs from the standard Result's");
        }
        if *wa.as_std_result() != a || wa.clone().into_std_result() != a || Result::<i8, String>::from(wa.clone()) != a || *wa != a {
            return fail("the standard Result inside changed");
        }
        if wa.is_ok() != a.is_ok() || wa.as_ref().ok() != a.as_ref().ok() {
            return fail("dereferencing shows something else");
        }
        let mut m = wb.clone();
        *m = a.clone();
        if m.into_std_result() != a {
            return fail("writing through the wrapper has no effect");
        }
        let s = crate::gens::any_text(&mut r, 4);
        let f = VResult::<LineT, LineError>::from_str(&s);
        let p = LineT::parse_str(&s);
        if f.map(|f| format!("{f:?}")).ok() != Some(format!("{p:?}")) || format!("{:?}", VResult::<LineT, LineError>::from(s.as_str())) != format!("{p:?}") || format!("{:?}", VResult::<LineT, LineError>::from(s.clone())) != format!("{p:?}") {
            return x.broken("laws", "conversion", format!("converting {s:?} differs from parsing it"), json!(s));
        }
    }
    x.evals += n;
    x.saw("wrapper laws [pairs]", n);
}
