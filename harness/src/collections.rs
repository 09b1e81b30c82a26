//! length over collections with a history: removals, duplicates, nulls, nesting, elements without a size.
use std::{
    collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet},
    time::{Duration, Instant},
};

use serde_json::{Map, Value, json};
use validators::prelude::*;

use crate::{core::Rng, extras::Ctx};

const LO: usize = 2;
const HI: usize = 5;

macro_rules! kinds {
    ($($ranged:ident, $exact:ident, $most:ident: $t:ty;)*) => {
        $(
            #[derive(Debug, Clone, Validator)]
            #[validator(length(min = 2, max = 5))]
            pub struct $ranged(pub $t);
            #[derive(Debug, Clone, Validator)]
            #[validator(length(min = 4, max = 4))]
            pub struct $exact(pub $t);
            #[derive(Debug, Clone, Validator)]
            #[validator(length(max = 3))]
            pub struct $most(pub $t);
        )*
    };
}
kinds! {
    RVecOption, EVecOption, MVecOption: Vec<Option<u8>>;
    RVecUnit, EVecUnit, MVecUnit: Vec<()>;
    RVecValue, EVecValue, MVecValue: Vec<Value>;
    RVecVec, EVecVec, MVecVec: Vec<Vec<u8>>;
    RHeap, EHeap, MHeap: BinaryHeap<u8>;
    RBTreeSet, EBTreeSet, MBTreeSet: BTreeSet<String>;
    RHashSet, EHashSet, MHashSet: HashSet<String>;
    RBTreeMap, EBTreeMap, MBTreeMap: BTreeMap<String, Option<u8>>;
    RHashMap, EHashMap, MHashMap: HashMap<String, Option<u8>>;
    RHashMapUnit, EHashMapUnit, MHashMapUnit: HashMap<u8, ()>;
    RMap, EMap, MMap: Map<String, Value>;
}

/// a collection with a length and no elements
#[derive(Debug, Clone, PartialEq)]
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Ghost(pub usize);
impl CollectionLength for Ghost {
    fn len(&self) -> usize {
        self.0
    }
}
macro_rules! ghosts {
    ($($g:ident, $outer:ident, ($($a:tt)*), $lo:expr, $hi:expr;)*) => {
        $(
            #[derive(Debug, Clone, PartialEq, Validator)]
            #[validator(length($($a)*))]
            pub struct $g(pub Ghost);
            /// a validator over a validator
            #[derive(Debug, Clone, PartialEq, Validator)]
            #[validator(length(min = 3, max = 9223372036854775808))]
            pub struct $outer(pub $g);
        )*

        /// lengths of every magnitude against bounds of every magnitude
        fn ghosts(x: &mut Ctx, r: &mut Rng) -> bool {
            let n = match r.below(4) {
                0 => r.below(12),
                1 => usize::MAX - r.below(5),
                2 => (1usize << r.below(64)).wrapping_add(r.below(7)).wrapping_sub(3),
                _ => (r.u64() >> r.below(64)) as usize,
            };
            $(
                let want = verdict(n, $lo, $hi);
                let told = |v: Result<usize, validators::errors::LengthError>| v.map_or_else(|e| format!("{e:?}"), |k| if k == n { "accepted".into() } else { format!("accepted with length {k}") });
                let all = [
                    ("validate", told($g::validate_collection(&Ghost(n)).map(|()| n))),
                    ("parse", told($g::parse_collection(Ghost(n)).map(|v| v.0.0))),
                    ("length of the validator", told($g::parse_collection(Ghost(n)).map(|v| CollectionLength::len(&v)))),
                ];
                for (how, got) in all {
                    if got != want {
                        x.broken(concat!("a length of its own, ", stringify!($($a)*)), how, format!("length {n}: {got}, should be {want}"), json!(n.to_string()));
                        return false;
                    }
                }
                if let Ok(v) = $g::parse_collection(Ghost(n)) {
                    let want = verdict(n, 3, 1 << 63);
                    for (how, got) in [("validate", told($outer::validate_collection(&v).map(|()| n))), ("parse", told($outer::parse_collection(v.clone()).map(|v| v.0.0.0)))] {
                        if got != want {
                            x.broken(concat!("a validator over a validator, ", stringify!($($a)*)), how, format!("length {n}: {got}, should be {want}"), json!(n.to_string()));
                            return false;
                        }
                    }
                }
            )*
            x.saw("collections [a length of their own]", 1);
            true
        }
    };
}
ghosts! {
    G0, O0, (min = 0), 0, usize::MAX;
    G1, O1, (max = 18446744073709551615), 0, usize::MAX;
    G2, O2, (min = 18446744073709551615), usize::MAX, usize::MAX;
    G3, O3, (min = 9223372036854775807, max = 9223372036854775808), (1 << 63) - 1, 1 << 63;
    G4, O4, (min = 4294967295, max = 4294967296), (1 << 32) - 1, 1 << 32;
    G5, O5, (max = 4294967295), 0, (1 << 32) - 1;
    G6, O6, (min = 1, max = 2147483647), 1, (1 << 31) - 1;
    G7, O7, (min = 2, max = 2), 2, 2;
}

/// an element of few distinct values, so that duplicates are common
fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 1 { 6 } else { 9 }) {
        0 | 1 => Value::Null,
        2 => json!(false),
        3 => json!(0),
        4 => json!(""),
        5 => json!(r.below(3)),
        6 => json!([]),
        7 => Value::Array((0..r.below(7)).map(|_| value(r, depth + 1)).collect()),
        _ => Value::Object((0..r.below(7)).map(|i| (i.to_string(), value(r, depth + 1))).collect()),
    }
}

fn key(r: &mut Rng) -> String {
    let k = ["", "a", "A", "b", "0", "00", "\u{0}", "é", "e\u{301}", "long key"];
    k[r.below(k.len())].to_string()
}

fn opt(r: &mut Rng) -> Option<u8> {
    r.chance(1, 2).then(|| r.below(3) as u8)
}

/// what happened to the collection, and how many elements should be left
struct Story {
    count: usize,
    text:  String,
}

/// a list-like collection: pushes, pops, removals, clearing, room to spare
fn listed<C, E: Clone + PartialEq + std::fmt::Debug>(
    r: &mut Rng,
    mut c: C,
    mut el: impl FnMut(&mut Rng) -> E,
    push: impl Fn(&mut C, E),
    pop: impl Fn(&mut C) -> bool,
    clear: impl Fn(&mut C),
    reserve: impl Fn(&mut C, usize),
) -> (C, Story) {
    let (mut count, mut text) = (0usize, String::new());
    for _ in 0..r.below(14) {
        match r.below(12) {
            0 | 1 => {
                let had = pop(&mut c);
                assert_eq!(had, count > 0);
                count -= had as usize;
                text.push_str("pop ");
            },
            2 => {
                let n = r.below(40);
                reserve(&mut c, n);
                text.push_str("reserve ");
            },
            3 if r.chance(1, 4) => {
                clear(&mut c);
                count = 0;
                text.push_str("clear ");
            },
            _ => {
                let e = el(r);
                text.push_str(&format!("push {e:?} "));
                push(&mut c, e);
                count += 1;
            },
        }
    }
    (c, Story { count, text })
}

/// a keyed collection: insertions (also over an element), removals, clearing; counted by its own key list
fn keyed<C, K: Clone + PartialEq + std::fmt::Debug, E: std::fmt::Debug>(
    r: &mut Rng,
    mut c: C,
    mut k: impl FnMut(&mut Rng) -> K,
    mut el: impl FnMut(&mut Rng) -> E,
    insert: impl Fn(&mut C, K, E),
    remove: impl Fn(&mut C, &K),
    clear: impl Fn(&mut C),
) -> (C, Story) {
    let (mut keys, mut text): (Vec<K>, String) = (vec![], String::new());
    for _ in 0..r.below(16) {
        match r.below(12) {
            0 | 1 => {
                let x = if keys.is_empty() || r.chance(1, 4) { k(r) } else { keys[r.below(keys.len())].clone() };
                remove(&mut c, &x);
                keys.retain(|y| *y != x);
                text.push_str(&format!("remove {x:?} "));
            },
            2 if r.chance(1, 4) => {
                clear(&mut c);
                keys.clear();
                text.push_str("clear ");
            },
            _ => {
                let (x, e) = (k(r), el(r));
                text.push_str(&format!("insert {x:?} {e:?} "));
                if !keys.contains(&x) {
                    keys.push(x.clone());
                }
                insert(&mut c, x, e);
            },
        }
    }
    (c, Story { count: keys.len(), text })
}

fn verdict(n: usize, lo: usize, hi: usize) -> &'static str {
    if n < lo {
        "TooSmall"
    } else if n > hi {
        "TooLarge"
    } else {
        "accepted"
    }
}

pub fn run(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    let mut r = Rng::new(x.seed ^ x.worker as u64 ^ 0xc0);
    let end = Instant::now() + Duration::from_secs_f64((x.budget / 5.0).max(1.0));
    let mut n = 0u64;

    macro_rules! see {
        ($name:literal, $t:ty, $made:expr, $same:expr, $($v:ident, $lo:expr, $hi:expr);*) => {{
            let (c, s): ($t, Story) = $made;
            n += 1;
            let mut kinds = 0;
            if CollectionLength::len(&c) != s.count || CollectionLength::is_empty(&c) != (s.count == 0) {
                return x.broken($name, "count", format!("a collection of {} elements has length {} (is_empty {})", s.count, CollectionLength::len(&c), CollectionLength::is_empty(&c)), json!(s.text));
            }
            $(
                let want = verdict(s.count, $lo, $hi);
                kinds += (want == "accepted") as u64;
                let name = |e: &validators::errors::LengthError| format!("{e:?}");
                let got = match <$v as ValidateLength<$t>>::validate_collection(&c) { Ok(()) => "accepted".to_string(), Err(e) => name(&e) };
                if got != want {
                    return x.broken($name, "validate", format!("{} elements against {}..={}: {got}, should be {want}", s.count, $lo, $hi), json!(s.text));
                }
                let got = match <$v as ValidateLength<$t>>::parse_collection(c.clone()) {
                    Ok(v) => {
                        let f: fn(&$t, &$t) -> bool = $same;
                        // the validator is itself a collection, of the same length
                        if CollectionLength::len(&v) != s.count || CollectionLength::is_empty(&v) != (s.count == 0) {
                            return x.broken($name, "length of the validator", format!("{} elements, but the validator holding them has length {}", s.count, CollectionLength::len(&v)), json!(s.text));
                        }
                        if !f(&v.0, &c) {
                            return x.broken($name, "contents", format!("the accepted collection holds {:?}", v.0), json!(s.text));
                        }
                        "accepted".to_string()
                    },
                    Err(e) => name(&e),
                };
                if got != want {
                    return x.broken($name, "parse", format!("{} elements against {}..={}: {got}, should be {want}", s.count, $lo, $hi), json!(s.text));
                }
            )*
            x.saw(concat!("collections [", $name, "]"), 1);
            x.saw("collections [accepted]", kinds);
            c
        }};
    }
    macro_rules! list {
        ($name:literal, $t:ty, $el:expr, $($v:ident, $lo:expr, $hi:expr);*) => {
            see!($name, $t, listed(&mut r, <$t>::new(), $el, |c: &mut $t, e| c.push(e), |c: &mut $t| c.pop().is_some(), |c: &mut $t| c.clear(), |c: &mut $t, n| c.reserve(n)), |a, b| format!("{a:?}") == format!("{b:?}"), $($v, $lo, $hi);*)
        };
    }
    while Instant::now() < end {
        tick();
        for _ in 0..100 {
            list!("Vec of options", Vec<Option<u8>>, opt, RVecOption, LO, HI; EVecOption, 4, 4; MVecOption, 0, 3);
            list!("Vec of units", Vec<()>, |_: &mut Rng| (), RVecUnit, LO, HI; EVecUnit, 4, 4; MVecUnit, 0, 3);
            list!("Vec of JSON values", Vec<Value>, |r: &mut Rng| value(r, 0), RVecValue, LO, HI; EVecValue, 4, 4; MVecValue, 0, 3);
            list!("Vec of Vecs", Vec<Vec<u8>>, |r: &mut Rng| vec![0; r.below(7)], RVecVec, LO, HI; EVecVec, 4, 4; MVecVec, 0, 3);
            list!("BinaryHeap with duplicates", BinaryHeap<u8>, |r: &mut Rng| r.below(3) as u8, RHeap, LO, HI; EHeap, 4, 4; MHeap, 0, 3);
            see!("BTreeSet", BTreeSet<String>, keyed(&mut r, BTreeSet::new(), key, |_| (), |c: &mut BTreeSet<String>, k, _| { c.insert(k); }, |c, k| { c.remove(k); }, |c| c.clear()), |a, b| a == b, RBTreeSet, LO, HI; EBTreeSet, 4, 4; MBTreeSet, 0, 3);
            see!("HashSet", HashSet<String>, keyed(&mut r, HashSet::with_capacity(30), key, |_| (), |c: &mut HashSet<String>, k, _| { c.insert(k); }, |c, k| { c.remove(k); }, |c| c.clear()), |a, b| a == b, RHashSet, LO, HI; EHashSet, 4, 4; MHashSet, 0, 3);
            see!("BTreeMap", BTreeMap<String, Option<u8>>, keyed(&mut r, BTreeMap::new(), key, opt, |c: &mut BTreeMap<String, Option<u8>>, k, e| { c.insert(k, e); }, |c, k| { c.remove(k); }, |c| c.clear()), |a, b| a == b, RBTreeMap, LO, HI; EBTreeMap, 4, 4; MBTreeMap, 0, 3);
            see!("HashMap", HashMap<String, Option<u8>>, keyed(&mut r, HashMap::with_capacity(30), key, opt, |c: &mut HashMap<String, Option<u8>>, k, e| { c.insert(k, e); }, |c, k| { c.remove(k); }, |c| c.clear()), |a, b| a == b, RHashMap, LO, HI; EHashMap, 4, 4; MHashMap, 0, 3);
            see!("HashMap of units", HashMap<u8, ()>, keyed(&mut r, HashMap::new(), |r: &mut Rng| r.below(9) as u8, |_| (), |c: &mut HashMap<u8, ()>, k, e| { c.insert(k, e); }, |c, k| { c.remove(k); }, |c| c.clear()), |a, b| a == b, RHashMapUnit, LO, HI; EHashMapUnit, 4, 4; MHashMapUnit, 0, 3);
            let m = see!("JSON object", Map<String, Value>, keyed(&mut r, Map::new(), key, |r: &mut Rng| value(r, 0), |c: &mut Map<String, Value>, k, e| { c.insert(k, e); }, |c, k| { c.remove(k); }, |c| c.clear()), |a, b| a == b, RMap, LO, HI; EMap, 4, 4; MMap, 0, 3);
            // the same through deserialization
            let text = Value::Object(m.clone()).to_string();
            let got = serde_json::from_str::<RMap>(&text).map(|v| v.0);
            if got.as_ref().ok() != (LO..=HI).contains(&m.keys().count()).then_some(&m) {
                return x.broken("JSON object", "deserialize", format!("deserialized as {got:?}"), json!(text));
            }
            n += 1;
            if !ghosts(x, &mut r) {
                return;
            }
        }
    }
    x.evals += n;
    x.saw("collections [histories]", n);
}
