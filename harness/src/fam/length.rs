//! length of collections.
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};

use validators::prelude::*;

use crate::{
    core::{Dump, Exp, Family, Out, Rng, Subject, Target, Tok},
    target, ws,
};

/// Builds a collection of exactly n elements and reads one back.
pub trait Coll: Sized {
    fn build(n: usize) -> Self;
    /// the sorted contents
    fn show(&self) -> String;
    fn json(n: usize) -> String {
        format!("[{}]", (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join(","))
    }
}

fn show_ids(mut v: Vec<u32>) -> String {
    v.sort();
    if v.iter().enumerate().all(|(i, x)| i as u32 == *x) { format!("0..{}", v.len()) } else { format!("{v:?}") }
}

fn json_map(n: usize) -> String {
    format!("{{{}}}", (0..n).map(|i| format!("\"{i}\":{}", i % 7)).collect::<Vec<_>>().join(","))
}

impl Coll for Vec<u32> {
    fn build(n: usize) -> Self {
        // room for more than there is, so that the capacity is not the length
        let mut v = Vec::with_capacity(2 * n + 3);
        v.extend(0..n as u32);
        v
    }
    fn show(&self) -> String {
        if self.iter().enumerate().all(|(i, x)| i as u32 == *x) { format!("0..{}", self.len()) } else { format!("{self:?}") }
    }
}
impl Coll for BinaryHeap<u32> {
    fn build(n: usize) -> Self {
        let mut v = BinaryHeap::with_capacity(2 * n + 3);
        v.extend(0..n as u32);
        v
    }
    fn show(&self) -> String {
        show_ids(self.iter().copied().collect())
    }
}
impl Coll for BTreeSet<u32> {
    fn build(n: usize) -> Self {
        (0..n as u32).collect()
    }
    fn show(&self) -> String {
        show_ids(self.iter().copied().collect())
    }
}
impl Coll for HashSet<u32> {
    fn build(n: usize) -> Self {
        (0..n as u32).collect()
    }
    fn show(&self) -> String {
        show_ids(self.iter().copied().collect())
    }
}
impl Coll for BTreeMap<u32, u8> {
    fn build(n: usize) -> Self {
        (0..n as u32).map(|i| (i, (i % 7) as u8)).collect()
    }
    fn show(&self) -> String {
        show_ids(self.keys().copied().collect())
    }
    fn json(n: usize) -> String {
        json_map(n)
    }
}
impl Coll for HashMap<u32, u8> {
    fn build(n: usize) -> Self {
        (0..n as u32).map(|i| (i, (i % 7) as u8)).collect()
    }
    fn show(&self) -> String {
        show_ids(self.keys().copied().collect())
    }
    fn json(n: usize) -> String {
        json_map(n)
    }
}
impl Coll for serde_json::Map<String, serde_json::Value> {
    fn build(n: usize) -> Self {
        (0..n).map(|i| (i.to_string(), serde_json::Value::from(i % 7))).collect()
    }
    fn show(&self) -> String {
        show_ids(self.keys().map(|k| k.parse().unwrap()).collect())
    }
    fn json(n: usize) -> String {
        json_map(n)
    }
}

/// a user's own collection, whose length is not its element count
#[derive(Debug, Clone)]
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Pairs(pub Vec<u32>);
impl CollectionLength for Pairs {
    fn len(&self) -> usize {
        self.0.len() / 2
    }
}
impl Coll for Pairs {
    fn build(n: usize) -> Self {
        Pairs((0..2 * n as u32 + 1).collect())
    }
    fn show(&self) -> String {
        format!("0..{}", self.0.len() / 2)
    }
    fn json(n: usize) -> String {
        format!("[{}]", (0..2 * n + 1).map(|i| i.to_string()).collect::<Vec<_>>().join(","))
    }
}

/// decoded bytes are a collection of bytes
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_decoded(padding(Allow)))]
pub struct Dec64(pub Vec<u8>);
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base32_decoded(padding(Allow)))]
pub struct Dec32(pub Vec<u8>);
#[derive(Debug, Clone, PartialEq, Validator)]
#[validator(base64_url_decoded(padding(Allow)))]
pub struct Dec64U(pub Vec<u8>);

macro_rules! dec {
    ($t:ident) => {
        impl Coll for $t {
            fn build(n: usize) -> Self {
                let mut v = Vec::with_capacity(2 * n + 3);
                v.extend((0..n).map(|i| i as u8));
                $t(v)
            }
            fn show(&self) -> String {
                if self.0.iter().enumerate().all(|(i, x)| i as u8 == *x) { format!("0..{}", self.0.len()) } else { format!("{:?}", self.0) }
            }
            fn json(_: usize) -> String {
                String::new()
            }
        }
    };
}
dec!(Dec64);
dec!(Dec32);
dec!(Dec64U);

pub struct Cfg {
    pub min: Option<usize>,
    pub max: Option<usize>,
}

pub fn judge(c: &Cfg, t: &Tok) -> Exp {
    let Tok::Len(n) = t else { return Exp::Unspecified };
    if c.min.is_some_and(|m| *n < m) {
        Exp::reject(&["TooSmall"])
    } else if c.max.is_some_and(|m| *n > m) {
        Exp::reject(&["TooLarge"])
    } else {
        Exp::Accept(format!("0..{n}"))
    }
}

macro_rules! len_types {
    ($v:ident; $($name:ident: $t:ty, ($($attr:tt)*), $min:expr, $max:expr;)*) => {
        $(
            #[derive(Debug, Clone, Validator)]
            #[validator(length$($attr)*)]
            pub struct $name(pub $t);
            impl Dump for $name {
                fn dump(&self) -> String { self.0.show() }
            }
            impl Subject for $name {
                fn parse(tok: &Tok, _: bool) -> Option<Out> {
                    let Tok::Len(n) = tok else { return None };
                    Some(Out::from(<$name as ValidateLength<$t>>::parse_collection(<$t as Coll>::build(*n)), |v| v.dump()))
                }
                fn validate(tok: &Tok) -> Option<Out> {
                    let Tok::Len(n) = tok else { return None };
                    Some(Out::from(<$name as ValidateLength<$t>>::validate_collection(&<$t as Coll>::build(*n)), |_| String::new()))
                }
                fn make(tok: &Tok) -> Option<Self> {
                    let Tok::Len(n) = tok else { return None };
                    <$name as ValidateLength<$t>>::parse_collection(<$t as Coll>::build(*n)).ok()
                }
            }
            len_types!(@push $v, $name, $t, concat!("length", stringify!($($attr)*), " ", stringify!($t)), $min, $max);
        )*
    };
    (@push $v:ident, $name:ident, $t:ty, $label:expr, $min:expr, $max:expr) => {
        {
            let mut t = target!($name, "length", $label, |t| judge(&Cfg { min: $min, max: $max }, t));
            t.json = Some(|tok| if let Tok::Len(n) = tok { Some(<$t as Coll>::json(*n)) } else { None });
            $v.push(ws!(t, $name, validators::errors::LengthError, |_| None, $t));
        }
    };
}

fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    len_types! { v;
        L0: Vec<u32>, (), None, None;
        L1: Vec<u32>, ((min = 1)), Some(1), None;
        L2: Vec<u32>, ((max = 3)), None, Some(3);
        L3: Vec<u32>, ((min = 2, max = 5)), Some(2), Some(5);
        L4: Vec<u32>, ((min = 4, max = 4)), Some(4), Some(4);
        L5: Vec<u32>, ((min = 0, max = 0)), Some(0), Some(0);
        L6: Vec<u32>, ((min = 0)), Some(0), None;
        L7: Vec<u32>, ((max = 0)), None, Some(0);
        L8: Vec<u32>, ((min = 255, max = 256)), Some(255), Some(256);
        LA: Vec<u32>, ((min = 65536)), Some(65536), None;
        LB: Vec<u32>, ((min = 257, max = 65536)), Some(257), Some(65536);
        LC: Vec<u32>, ((min = 256, max = 256)), Some(256), Some(256);
        LD: BTreeSet<u32>, ((max = 255)), None, Some(255);
        LE: Vec<u32>, ((min = 0x2, max(0b1_01))), Some(2), Some(5);
        L9: Vec<u32>, ((max(7), min(6))), Some(6), Some(7);
        B0: BTreeSet<u32>, ((min = 2, max = 5)), Some(2), Some(5);
        B1: BTreeMap<u32, u8>, ((min = 2, max = 5)), Some(2), Some(5);
        B2: HashSet<u32>, ((min = 2, max = 5)), Some(2), Some(5);
        B3: HashMap<u32, u8>, ((min = 2, max = 5)), Some(2), Some(5);
        B4: BinaryHeap<u32>, ((min = 2, max = 5)), Some(2), Some(5);
        B5: serde_json::Map<String, serde_json::Value>, ((min = 2, max = 5)), Some(2), Some(5);
        B6: Pairs, ((min = 2, max = 5)), Some(2), Some(5);
        C0: BTreeSet<u32>, ((min = 3, max = 3)), Some(3), Some(3);
        C1: HashMap<u32, u8>, ((max = 300)), None, Some(300);
        C2: BinaryHeap<u32>, ((min = 1)), Some(1), None;
        C3: Pairs, ((min = 1, max = 1)), Some(1), Some(1);
    }
    no_serde(&mut v);
    v
}

macro_rules! len_noserde {
    ($v:ident; $($name:ident: $t:ty, ($($attr:tt)*), $min:expr, $max:expr;)*) => {
        $(
            #[derive(Debug, Clone, Validator)]
            #[validator(length$($attr)*)]
            pub struct $name(pub $t);
            impl Dump for $name {
                fn dump(&self) -> String { self.0.show() }
            }
            impl Subject for $name {
                fn parse(tok: &Tok, _: bool) -> Option<Out> {
                    let Tok::Len(n) = tok else { return None };
                    Some(Out::from(<$name as ValidateLength<$t>>::parse_collection(<$t as Coll>::build(*n)), |v| v.dump()))
                }
                fn validate(tok: &Tok) -> Option<Out> {
                    let Tok::Len(n) = tok else { return None };
                    Some(Out::from(<$name as ValidateLength<$t>>::validate_collection(&<$t as Coll>::build(*n)), |_| String::new()))
                }
                fn make(_: &Tok) -> Option<Self> {
                    None
                }
            }
            $v.push(target!($name, "length", concat!("length", stringify!($($attr)*), " ", stringify!($t)), |t| judge(&Cfg { min: $min, max: $max }, t)));
        )*
    };
}

fn no_serde(v: &mut Vec<Target>) {
    len_noserde! { v;
        D0: Dec64, ((min = 2, max = 5)), Some(2), Some(5);
        D1: Dec32, ((min = 2, max = 5)), Some(2), Some(5);
        D2: Dec64U, ((min = 3)), Some(3), None;
        N0: Vec<BTreeSet<u32>>, ((min = 2, max = 5)), Some(2), Some(5);
    }
}

impl Coll for Vec<BTreeSet<u32>> {
    fn build(n: usize) -> Self {
        (0..n).map(|i| BTreeSet::from([i as u32, 7])).collect()
    }
    fn show(&self) -> String {
        format!("0..{}", self.len())
    }
}

pub fn gen_tok(r: &mut Rng) -> Tok {
    Tok::Len(match r.below(4) {
        0 => r.below(12),
        1 => r.range(250, 310),
        2 => r.below(600),
        _ => r.below(40),
    })
}

pub fn corners() -> Vec<Tok> {
    (0..=320usize).chain([511, 512, 1000, 4096, 65535, 65536, 65537]).map(Tok::Len).collect()
}

pub fn family() -> Family {
    Family { name: "length", targets: targets(), gen_tok, corners }
}
