//! The default methods of the public traits, seen from types written by hand.
//! Each type records what reaches the methods it does write, so a default that narrows, widens wrongly,
//! calls the other kind of entry or calls twice shows in the log.
use std::cell::RefCell;

use validators::traits::{CollectionLength, ValidateNumber, ValidateSignedInteger, ValidateUnsignedInteger};

use crate::{
    core::{Family, Out, Rng, Target, Tok},
    extras,
};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}

fn taken() -> String {
    LOG.with(|l| l.borrow_mut().drain(..).collect::<Vec<_>>().join(","))
}

#[derive(Debug, PartialEq)]
pub struct Refused(String);

/// refuses about a third of the values
fn refused(v: u128) -> bool {
    v % 3 == 1
}

macro_rules! parse_and_validate {
    ($t:ty: $($parse:ident $validate:ident $v:ident)*) => {
        $(
            fn $parse(i: $t) -> Result<Self, Refused> {
                log(format!("parse {i}"));
                if refused(i as i128 as u128) { Err(Refused(i.to_string())) } else { Ok(Self(i.to_string())) }
            }
            fn $validate(i: $t) -> Result<(), Refused> {
                log(format!("validate {i}"));
                if refused(i as i128 as u128) { Err(Refused(i.to_string())) } else { Ok(()) }
            }
        )*
    };
}

macro_rules! signed {
    ($($name:ident { $($t:ty, $parse:ident, $validate:ident;)* })*) => {
        $(
            #[derive(Debug)]
            struct $name(String);
            impl ValidateSignedInteger for $name {
                type Error = Refused;
                parse_and_validate!(i128: parse_i128 validate_i128 v);
                $(parse_and_validate!($t: $parse $validate v);)*
            }
        )*
    };
}
macro_rules! unsigned {
    ($($name:ident { $($t:ty, $parse:ident, $validate:ident;)* })*) => {
        $(
            #[derive(Debug)]
            struct $name(String);
            impl ValidateUnsignedInteger for $name {
                type Error = Refused;
                parse_and_validate!(u128: parse_u128 validate_u128 v);
                $(parse_and_validate!($t: $parse $validate v);)*
            }
        )*
    };
}

signed! {
    S128 {}
    S64 { i64, parse_i64, validate_i64; }
    S32 { i32, parse_i32, validate_i32; }
    S16 { i16, parse_i16, validate_i16; }
    SSize { isize, parse_isize, validate_isize; i8, parse_i8, validate_i8; }
}
unsigned! {
    U128 {}
    U64 { u64, parse_u64, validate_u64; }
    U32 { u32, parse_u32, validate_u32; }
    U16 { u16, parse_u16, validate_u16; }
    USize { usize, parse_usize, validate_usize; u8, parse_u8, validate_u8; }
}

/// a number type of its own, which sees the bits
#[derive(Debug)]
struct N64(u64);
impl ValidateNumber for N64 {
    type Error = Refused;

    fn parse_f64(f: f64) -> Result<Self, Refused> {
        log(format!("parse {}", bits(f)));
        if refused(f.abs() as u128) { Err(Refused(bits(f))) } else { Ok(Self(f.to_bits())) }
    }

    fn validate_f64(f: f64) -> Result<(), Refused> {
        log(format!("validate {}", bits(f)));
        if refused(f.abs() as u128) { Err(Refused(bits(f))) } else { Ok(()) }
    }
}
#[derive(Debug)]
struct N32(u64);
impl ValidateNumber for N32 {
    type Error = Refused;

    fn parse_f64(f: f64) -> Result<Self, Refused> {
        N64::parse_f64(f).map(|n| Self(n.0))
    }

    fn validate_f64(f: f64) -> Result<(), Refused> {
        N64::validate_f64(f)
    }

    fn parse_f32(f: f32) -> Result<Self, Refused> {
        N64::parse_f64(f as f64).map(|n| Self(n.0))
    }

    fn validate_f32(f: f32) -> Result<(), Refused> {
        N64::validate_f64(f as f64)
    }
}

/// the payload of a NaN is not promised
fn bits(f: f64) -> String {
    if f.is_nan() { "NaN".into() } else { format!("{:016x}", f.to_bits()) }
}

struct Of(usize);
impl CollectionLength for Of {
    fn len(&self) -> usize {
        log(format!("len {}", self.0));
        self.0
    }
}

fn fits_i(v: i128, w: u8) -> bool {
    match w {
        8 => i8::try_from(v).is_ok(),
        16 => i16::try_from(v).is_ok(),
        32 => i32::try_from(v).is_ok(),
        64 => i64::try_from(v).is_ok(),
        0 => isize::try_from(v).is_ok(),
        _ => true,
    }
}
fn fits_u(v: u128, w: u8) -> bool {
    match w {
        8 => u8::try_from(v).is_ok(),
        16 => u16::try_from(v).is_ok(),
        32 => u32::try_from(v).is_ok(),
        64 => u64::try_from(v).is_ok(),
        0 => usize::try_from(v).is_ok(),
        _ => true,
    }
}

fn by_i<T: ValidateSignedInteger<Error = Refused>>(t: &Tok, validate: bool, show: fn(&T) -> String) -> Option<Out> {
    let Tok::I(v, w) = t else { return None };
    let v = *v;
    if !fits_i(v, *w) {
        return None;
    }
    let _ = taken();
    let r = if validate {
        match w {
            8 => T::validate_i8(v as i8),
            16 => T::validate_i16(v as i16),
            32 => T::validate_i32(v as i32),
            64 => T::validate_i64(v as i64),
            0 => T::validate_isize(v as isize),
            _ => T::validate_i128(v),
        }
        .map(|()| "()".to_string())
    } else {
        match w {
            8 => T::parse_i8(v as i8),
            16 => T::parse_i16(v as i16),
            32 => T::parse_i32(v as i32),
            64 => T::parse_i64(v as i64),
            0 => T::parse_isize(v as isize),
            _ => T::parse_i128(v),
        }
        .map(|x| show(&x))
    };
    Some(Out::Ok(format!("{} after {}", told(r), taken())))
}
fn by_u<T: ValidateUnsignedInteger<Error = Refused>>(t: &Tok, validate: bool, show: fn(&T) -> String) -> Option<Out> {
    let Tok::U(v, w) = t else { return None };
    let v = *v;
    if !fits_u(v, *w) {
        return None;
    }
    let _ = taken();
    let r = if validate {
        match w {
            8 => T::validate_u8(v as u8),
            16 => T::validate_u16(v as u16),
            32 => T::validate_u32(v as u32),
            64 => T::validate_u64(v as u64),
            0 => T::validate_usize(v as usize),
            _ => T::validate_u128(v),
        }
        .map(|()| "()".to_string())
    } else {
        match w {
            8 => T::parse_u8(v as u8),
            16 => T::parse_u16(v as u16),
            32 => T::parse_u32(v as u32),
            64 => T::parse_u64(v as u64),
            0 => T::parse_usize(v as usize),
            _ => T::parse_u128(v),
        }
        .map(|x| show(&x))
    };
    Some(Out::Ok(format!("{} after {}", told(r), taken())))
}
fn by_f<T: ValidateNumber<Error = Refused>>(t: &Tok, validate: bool, show: fn(&T) -> String) -> Option<Out> {
    let _ = taken();
    let r = match (t, validate) {
        (Tok::F64(f), true) => T::validate_f64(*f).map(|()| "()".to_string()),
        (Tok::F32(f), true) => T::validate_f32(*f).map(|()| "()".to_string()),
        (Tok::F64(f), false) => T::parse_f64(*f).map(|x| show(&x)),
        (Tok::F32(f), false) => T::parse_f32(*f).map(|x| show(&x)),
        _ => return None,
    };
    Some(Out::Ok(format!("{} after {}", told(r), taken())))
}

fn told(r: Result<String, Refused>) -> String {
    match r {
        Ok(s) => format!("ok {s}"),
        Err(Refused(s)) => format!("refused {s}"),
    }
}

/// what any of the types above must do with a value: one call of its own method, with that value
fn expected(t: &Tok, validate: bool) -> Option<String> {
    let (text, no) = match t {
        Tok::I(v, w) if fits_i(*v, *w) => (v.to_string(), refused(*v as u128)),
        Tok::U(v, w) if fits_u(*v, *w) => (v.to_string(), refused(*v as i128 as u128)),
        Tok::F64(f) => (bits(*f), refused(f.abs() as u128)),
        Tok::F32(f) => (widened(*f), refused(f.abs() as u128)),
        _ => return None,
    };
    Some(match (no, validate) {
        (true, true) => format!("refused {text} after validate {text}"),
        (true, false) => format!("refused {text} after parse {text}"),
        (false, true) => format!("ok () after validate {text}"),
        (false, false) => format!("ok {text} after parse {text}"),
    })
}

/// the f64 bits of a f32, by its fields
fn widened(f: f32) -> String {
    let b = f.to_bits();
    let (s, e, m) = ((b >> 31) as u64, (b >> 23 & 0xff) as i64, (b & 0x7f_ffff) as u64);
    let u = match (e, m) {
        (255, 0) => s << 63 | 0x7ff << 52,
        (255, _) => return "NaN".into(),
        (0, 0) => s << 63,
        (0, _) => {
            let top = 63 - m.leading_zeros() as i64;
            s << 63 | ((top - 149 + 1023) as u64) << 52 | (m << (52 - top) & ((1 << 52) - 1))
        },
        _ => s << 63 | ((e - 127 + 1023) as u64) << 52 | m << 29,
    };
    format!("{u:016x}")
}

fn parsed_i(t: &Tok) -> Option<String> {
    matches!(t, Tok::I(..)).then(|| expected(t, false)).flatten()
}
fn checked_i(t: &Tok) -> Option<String> {
    matches!(t, Tok::I(..)).then(|| expected(t, true)).flatten()
}
fn parsed_u(t: &Tok) -> Option<String> {
    matches!(t, Tok::U(..)).then(|| expected(t, false)).flatten()
}
fn checked_u(t: &Tok) -> Option<String> {
    matches!(t, Tok::U(..)).then(|| expected(t, true)).flatten()
}
fn parsed_f(t: &Tok) -> Option<String> {
    matches!(t, Tok::F64(_) | Tok::F32(_)).then(|| expected(t, false)).flatten()
}
fn checked_f(t: &Tok) -> Option<String> {
    matches!(t, Tok::F64(_) | Tok::F32(_)).then(|| expected(t, true)).flatten()
}

pub fn family() -> Family {
    let mut targets: Vec<Target> = vec![];
    macro_rules! add {
        ($by:ident, $parsed:ident, $checked:ident: $($t:ident)*) => {
            $(
                targets.push(extras::function(concat!("parse into ", stringify!($t)), |t, _| $by::<$t>(t, false, |x| x.0.to_string()), $parsed));
                targets.push(extras::function(concat!("validate as ", stringify!($t)), |t, _| $by::<$t>(t, true, |x| x.0.to_string()), $checked));
            )*
        };
    }
    add!(by_i, parsed_i, checked_i: S128 S64 S32 S16 SSize);
    add!(by_u, parsed_u, checked_u: U128 U64 U32 U16 USize);
    macro_rules! add_f {
        ($($t:ident)*) => {
            $(
                targets.push(extras::function(concat!("parse into ", stringify!($t)), |t, _| by_f::<$t>(t, false, |x| bits(f64::from_bits(x.0))), parsed_f));
                targets.push(extras::function(concat!("validate as ", stringify!($t)), |t, _| by_f::<$t>(t, true, |x| bits(f64::from_bits(x.0))), checked_f));
            )*
        };
    }
    add_f!(N64 N32);
    targets.push(extras::function(
        "is_empty of a collection with a length of its own",
        |t, _| {
            let Tok::Len(n) = t else { return None };
            let _ = taken();
            let e = Of(*n).is_empty();
            // how often the length is asked for is not promised
            let l = taken();
            let l = l.split(',').all(|x| x == format!("len {n}"));
            Some(Out::Ok(format!("{e} {l}")))
        },
        |t| {
            let Tok::Len(n) = t else { return None };
            Some(format!("{} true", *n == 0))
        },
    ));
    Family { name: "defaults", targets, gen_tok, corners }
}

const WIDTHS: [u8; 6] = [8, 16, 32, 64, 128, 0];

fn gen_tok(r: &mut Rng) -> Tok {
    // any number of significant bits
    let wide = (r.u64() as u128) << 64 | r.u64() as u128;
    match r.below(9) {
        0..=2 => {
            let w = WIDTHS[r.below(6)];
            let bits = if w == 0 { 64 } else { w as usize };
            let v = wide >> (128 - 1 - r.below(bits));
            Tok::U(v, w)
        },
        3..=5 => {
            let w = WIDTHS[r.below(6)];
            let bits = if w == 0 { 64 } else { w as usize };
            let v = (wide as i128) >> (128 - 1 - r.below(bits));
            Tok::I(v, w)
        },
        6 => Tok::F64(f64::from_bits(r.u64())),
        7 => Tok::F32(f32::from_bits(r.u64() as u32)),
        _ => Tok::Len((wide as u64 >> r.below(64)) as usize),
    }
}

fn corners() -> Vec<Tok> {
    let mut v = vec![];
    for w in WIDTHS {
        let bits = if w == 0 { 64 } else { w as u32 };
        for b in 0..bits {
            for d in -4i128..=4 {
                for x in [(1u128 << b) as i128, ((1u128 << b) as i128).wrapping_neg()] {
                    let x = x.wrapping_add(d);
                    if fits_i(x, w) {
                        v.push(Tok::I(x, w));
                    }
                }
                let x = (1u128 << b).wrapping_add(d as u128);
                if fits_u(x, w) {
                    v.push(Tok::U(x, w));
                }
            }
        }
        for d in 0..5 {
            v.push(Tok::U(u128::MAX >> (128 - bits) as u32 , w));
            let (lo, hi) = (i128::MIN >> (128 - bits), i128::MAX >> (128 - bits));
            v.push(Tok::I(lo + d, w));
            v.push(Tok::I(hi - d, w));
        }
    }
    for i in 0..=255u32 {
        v.push(Tok::I(i as i8 as i128, 8));
        v.push(Tok::U(i as u128, 8));
    }
    for e in 0..256u32 {
        for m in [0, 1, 2, 3, 0x3f_ffff, 0x40_0000, 0x7f_fffe, 0x7f_ffff] {
            v.push(Tok::F32(f32::from_bits(e << 23 | m)));
            v.push(Tok::F32(f32::from_bits(1 << 31 | e << 23 | m)));
        }
    }
    for e in 0..2048u64 {
        for m in [0, 1, (1 << 29) - 1, 1 << 28, 1 << 29, (1 << 52) - 1] {
            v.push(Tok::F64(f64::from_bits(e << 52 | m)));
            v.push(Tok::F64(f64::from_bits(1 << 63 | e << 52 | m)));
        }
    }
    for b in 0..64 {
        for d in -2i64..=2 {
            v.push(Tok::Len((1u64 << b).wrapping_add(d as u64) as usize));
        }
    }
    v
}
