//! Core vocabulary shared by every monitor: inputs (`Tok`), observed outcomes
//! (`Out`), expectations (`Exp`), the subject interface and the PRNG.

use std::{
    cell::RefCell,
    fmt::{Debug, Display},
    panic::{AssertUnwindSafe, catch_unwind},
};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut s = [0u64; 4];
        for e in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *e = x ^ (x >> 31);
        }
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }

    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }

    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }

    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }

    pub fn choose<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- inputs

/// One datum presented to a validator (through whichever entry point takes it).
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Str(String),
    Bytes(Vec<u8>),
    Char(char),
    Bool(bool),
    /// value, width: 8/16/32/64/128, 0 = isize
    I(i128, u8),
    /// value, width: 8/16/32/64/128, 0 = usize
    U(u128, u8),
    F64(f64),
    F32(f32),
    /// a JSON document, presented as `serde_json::Value`
    Json(String),
    /// number of elements of a collection
    Len(usize),
}

impl Tok {
    pub fn kind(&self) -> &'static str {
        match self {
            Tok::Str(_) => "str",
            Tok::Bytes(_) => "bytes",
            Tok::Char(_) => "char",
            Tok::Bool(_) => "bool",
            Tok::I(..) => "int",
            Tok::U(..) => "uint",
            Tok::F64(_) => "f64",
            Tok::F32(_) => "f32",
            Tok::Json(_) => "json",
            Tok::Len(_) => "len",
        }
    }

    pub fn to_json(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            Tok::Str(s) => json!({"k": "str", "v": s}),
            Tok::Bytes(b) => json!({"k": "bytes", "v": b}),
            Tok::Char(c) => json!({"k": "char", "v": *c as u32}),
            Tok::Bool(b) => json!({"k": "bool", "v": b}),
            Tok::I(i, w) => json!({"k": "int", "v": i.to_string(), "w": w}),
            Tok::U(i, w) => json!({"k": "uint", "v": i.to_string(), "w": w}),
            Tok::F64(f) => json!({"k": "f64", "bits": f.to_bits().to_string(), "v": f.to_string()}),
            Tok::F32(f) => json!({"k": "f32", "bits": f.to_bits().to_string(), "v": f.to_string()}),
            Tok::Json(s) => json!({"k": "json", "v": s}),
            Tok::Len(n) => json!({"k": "len", "v": n}),
        }
    }

    pub fn from_json(v: &serde_json::Value) -> Option<Tok> {
        Some(match v["k"].as_str()? {
            "str" => Tok::Str(v["v"].as_str()?.into()),
            "bytes" => {
                Tok::Bytes(v["v"].as_array()?.iter().map(|e| e.as_u64().unwrap() as u8).collect())
            },
            "char" => Tok::Char(char::from_u32(v["v"].as_u64()? as u32)?),
            "bool" => Tok::Bool(v["v"].as_bool()?),
            "int" => Tok::I(v["v"].as_str()?.parse().ok()?, v["w"].as_u64()? as u8),
            "uint" => Tok::U(v["v"].as_str()?.parse().ok()?, v["w"].as_u64()? as u8),
            "f64" => Tok::F64(f64::from_bits(v["bits"].as_str()?.parse().ok()?)),
            "f32" => Tok::F32(f32::from_bits(v["bits"].as_str()?.parse().ok()?)),
            "json" => Tok::Json(v["v"].as_str()?.into()),
            "len" => Tok::Len(v["v"].as_u64()? as usize),
            _ => return None,
        })
    }

    pub fn hash(&self) -> u64 {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        let mut put = |b: &[u8]| {
            for x in b {
                h ^= *x as u64;
                h = h.wrapping_mul(0x0000_0100_0000_01b3);
            }
        };
        match self {
            Tok::Str(s) => put(s.as_bytes()),
            Tok::Bytes(b) => {
                put(&[1]);
                put(b)
            },
            Tok::Json(s) => {
                put(&[2]);
                put(s.as_bytes())
            },
            o => {
                put(&[3]);
                put(format!("{o:?}").as_bytes())
            },
        }
        h ^ (h >> 29)
    }
}

// ---------------------------------------------------------------- outcomes

#[derive(Clone, Debug, PartialEq)]
pub struct E {
    /// `Debug` of the error: the variant, possibly with a payload
    pub dbg:  String,
    /// `Display` of the error
    pub disp: String,
}

impl E {
    pub fn of<T: Debug + Display>(e: T) -> E {
        E { dbg: format!("{e:?}"), disp: format!("{e}") }
    }

    /// the variant name without payload
    pub fn variant(&self) -> &str {
        let end = self.dbg.find(['(', '{', ' ']).unwrap_or(self.dbg.len());
        &self.dbg[..end]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// accepted, with the value written out ("" for validate calls)
    Ok(String),
    Err(E),
    Panic(String),
}

impl Out {
    pub fn from<T, X: Debug + Display>(r: Result<T, X>, f: impl FnOnce(T) -> String) -> Out {
        match r {
            Ok(v) => Out::Ok(f(v)),
            Err(e) => Out::Err(E::of(e)),
        }
    }

    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }

    pub fn panicked(&self) -> bool {
        matches!(self, Out::Panic(_))
    }

    pub fn brief(&self) -> String {
        match self {
            Out::Ok(s) if s.is_empty() => "accepted".to_string(),
            Out::Ok(s) => format!("accepted as {}", clip(s)),
            Out::Err(e) => format!("rejected with {}", clip(&e.dbg)),
            Out::Panic(m) => format!("PANICKED: {}", clip(m)),
        }
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 300 {
        let mut t: String = s.chars().take(300).collect();
        t.push('…');
        t
    } else {
        s.to_string()
    }
}

/// What the independent reference says about an input.
#[derive(Clone, Debug)]
pub enum Exp {
    /// must be accepted with exactly this value
    Accept(String),
    /// must be accepted with exactly this value, whose canonical string is the second
    AcceptC(String, String),
    /// must be rejected, with one of these error variants (empty: any)
    Reject(Vec<&'static str>),
    /// ... and with exactly this message (the delegated engine's own)
    RejectMsg(Vec<&'static str>, String),
    /// deliberately not specified
    Unspecified,
}

impl Exp {
    pub fn accepts(&self) -> Option<&str> {
        match self {
            Exp::Accept(d) | Exp::AcceptC(d, _) => Some(d),
            _ => None,
        }
    }

    pub fn rejects(&self) -> Option<&[&'static str]> {
        match self {
            Exp::Reject(v) | Exp::RejectMsg(v, _) => Some(v),
            _ => None,
        }
    }

    pub fn canon(&self) -> Option<&str> {
        match self {
            Exp::AcceptC(_, c) => Some(c),
            _ => None,
        }
    }

    pub fn reject(v: &[&'static str]) -> Exp {
        Exp::Reject(v.to_vec())
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn guard_out(f: impl FnOnce() -> Out) -> Out {
    match guard(f) {
        Ok(o) => o,
        Err(m) => Out::Panic(m),
    }
}

// ---------------------------------------------------------------- subjects

/// The value a validator hands out, written out unambiguously.
pub trait Dump {
    fn dump(&self) -> String;
}

/// A validator type under observation.
pub trait Subject: Sized {
    /// parse through the entry point for `tok`'s kind; `owned` selects the
    /// by-value flavour where there are two. None: no such entry point.
    fn parse(tok: &Tok, owned: bool) -> Option<Out>;
    fn validate(tok: &Tok) -> Option<Out>;
    fn make(tok: &Tok) -> Option<Self>;
    /// converted straight into `validators::Result`
    fn wrap(_: &Tok, _owned: bool) -> Option<Out> {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tri {
    Must,
    Allow,
    Disallow,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RangeKind {
    Unlimited,
    Inside,
    Outside,
}

/// A value captured by the recording serializer.
#[derive(Clone, Debug, PartialEq)]
pub enum Ser {
    Str(String),
    Bytes(Vec<u8>),
    Bool(bool),
    I(i128),
    U(u128),
    F64(u64),
    F32(u32),
    Seq(Vec<Ser>),
    Map(Vec<(Ser, Ser)>),
    Other(String),
}

/// A live accepted value.
pub trait AnyVal {
    fn dump(&self) -> String;
    /// the canonical string (email, authority, MAC, UUID, JSON), if the type has one
    fn canon(&self) -> Option<String>;
    fn ser(&self, human: bool) -> Option<Result<Ser, String>>;
    fn ser_json(&self) -> Option<Result<String, String>>;
}

#[derive(Clone)]
pub struct Target {
    pub name:     String,
    pub fam:      &'static str,
    pub parse:    fn(&Tok, bool) -> Option<Out>,
    pub validate: fn(&Tok) -> Option<Out>,
    pub wrap:     fn(&Tok, bool) -> Option<Out>,
    pub any:      Option<fn(&Tok) -> Option<Box<dyn AnyVal>>>,
    /// JSON text presenting the datum, where it is not the obvious one
    pub json:     Option<fn(&Tok) -> Option<String>>,
    /// deserialize the datum (presented as a serde token; human readable flag)
    pub de:       Option<fn(&Tok, bool) -> Option<Out>>,
    /// deserialize a JSON text
    pub de_json:  Option<fn(&str) -> Out>,
    /// deserialize into validators::Result and look inside; Err(..) with
    /// variant "OUTER" when the wrapper itself failed
    pub der:      Option<fn(&Tok, bool) -> Option<Out>>,
    pub der_json: Option<fn(&str) -> Out>,
    /// the web front ends, each with its own reading of a text
    pub web:      Option<fn(&str) -> Vec<(&'static str, Out)>>,
    /// independent reference
    pub judge:    std::sync::Arc<dyn Fn(&Tok) -> Exp + Send + Sync>,
}

impl Target {
    pub fn do_parse(&self, tok: &Tok, owned: bool) -> Option<Out> {
        match guard(|| (self.parse)(tok, owned)) {
            Ok(o) => o,
            Err(m) => Some(Out::Panic(m)),
        }
    }

    pub fn do_validate(&self, tok: &Tok) -> Option<Out> {
        match guard(|| (self.validate)(tok)) {
            Ok(o) => o,
            Err(m) => Some(Out::Panic(m)),
        }
    }

    /// does this target take such input at all (is there an entry point)
    pub fn label(&self) -> String {
        format!("{} [{}]", self.fam, self.name)
    }
}

/// A family of validators sharing one input space.
pub struct Family {
    pub name:    &'static str,
    pub targets: Vec<Target>,
    /// one input; the closure may look at any target configuration
    pub gen_tok: fn(&mut Rng) -> Tok,
    /// deterministic corner inputs, always run
    pub corners: fn() -> Vec<Tok>,
}
