//! Adapters from a validator type to the uniform `Subject` interface.

/// `subject!(Type; facets...)`: facets among text bytes chr boolean sint uint num jsonv
#[macro_export]
macro_rules! subject {
    ($t:ty; $($f:ident),*) => {
        impl $crate::core::Subject for $t {
            #[allow(unused_variables, unreachable_code)]
            fn parse(tok: &$crate::core::Tok, owned: bool) -> Option<$crate::core::Out> {
                use validators::prelude::*;
                use $crate::core::{Dump, Out, Tok};
                $( $crate::facet_parse!($f, $t, tok, owned); )*
                None
            }
            fn validate(tok: &$crate::core::Tok) -> Option<$crate::core::Out> {
                use validators::prelude::*;
                use $crate::core::{Out, Tok};
                $( $crate::facet_validate!($f, $t, tok); )*
                None
            }
            fn make(tok: &$crate::core::Tok) -> Option<$t> {
                use validators::prelude::*;
                use $crate::core::Tok;
                $( $crate::facet_make!($f, $t, tok); )*
                None
            }
            #[cfg(feature = "serde_facets")]
            #[allow(unused_variables, unreachable_code)]
            fn wrap(tok: &$crate::core::Tok, owned: bool) -> Option<$crate::core::Out> {
                use $crate::core::{Dump, Out, Tok};
                $( $crate::facet_wrap!($f, $t, tok, owned); )*
                None
            }
        }
    };
}

#[macro_export]
macro_rules! facet_parse {
    (text, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Str(s) = $k {
            return Some(if $o {
                Out::from(<$t as ValidateString>::parse_string(s.clone()), |v| v.dump())
            } else {
                Out::from(<$t as ValidateString>::parse_str(s.as_str()), |v| v.dump())
            });
        }
    };
    (bytes, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Bytes(s) = $k {
            return Some(if $o {
                Out::from(<$t as ValidateBytes>::parse_vec_u8(s.clone()), |v| v.dump())
            } else {
                Out::from(<$t as ValidateBytes>::parse_u8_slice(s.as_slice()), |v| v.dump())
            });
        }
    };
    (chr, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Char(c) = $k {
            return Some(Out::from(<$t as ValidateChar>::parse_char(*c), |v| v.dump()));
        }
    };
    (boolean, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Bool(c) = $k {
            return Some(Out::from(<$t as ValidateBoolean>::parse_bool(*c), |v| v.dump()));
        }
    };
    (sint, $t:ty, $k:ident, $o:ident) => {
        if let Tok::I(i, w) = $k {
            let r = match w {
                8 => <$t as ValidateSignedInteger>::parse_i8(*i as i8),
                16 => <$t as ValidateSignedInteger>::parse_i16(*i as i16),
                32 => <$t as ValidateSignedInteger>::parse_i32(*i as i32),
                64 => <$t as ValidateSignedInteger>::parse_i64(*i as i64),
                0 => <$t as ValidateSignedInteger>::parse_isize(*i as isize),
                _ => <$t as ValidateSignedInteger>::parse_i128(*i),
            };
            return Some(Out::from(r, |v| v.dump()));
        }
    };
    (uint, $t:ty, $k:ident, $o:ident) => {
        if let Tok::U(i, w) = $k {
            let r = match w {
                8 => <$t as ValidateUnsignedInteger>::parse_u8(*i as u8),
                16 => <$t as ValidateUnsignedInteger>::parse_u16(*i as u16),
                32 => <$t as ValidateUnsignedInteger>::parse_u32(*i as u32),
                64 => <$t as ValidateUnsignedInteger>::parse_u64(*i as u64),
                0 => <$t as ValidateUnsignedInteger>::parse_usize(*i as usize),
                _ => <$t as ValidateUnsignedInteger>::parse_u128(*i),
            };
            return Some(Out::from(r, |v| v.dump()));
        }
    };
    (num, $t:ty, $k:ident, $o:ident) => {
        match $k {
            Tok::F64(f) => return Some(Out::from(<$t as ValidateNumber>::parse_f64(*f), |v| v.dump())),
            Tok::F32(f) => return Some(Out::from(<$t as ValidateNumber>::parse_f32(*f), |v| v.dump())),
            _ => {},
        }
    };
    (jsonv, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Json(s) = $k {
            let v: serde_json::Value = serde_json::from_str(s).ok()?;
            return Some(Out::from(<$t as ValidateJsonValue>::parse_json_value(v), |v| v.dump()));
        }
    };
}

#[macro_export]
macro_rules! facet_validate {
    (text, $t:ty, $k:ident) => {
        if let Tok::Str(s) = $k {
            return Some(Out::from(<$t as ValidateString>::validate_str(s.as_str()), |_| String::new()));
        }
    };
    (bytes, $t:ty, $k:ident) => {
        if let Tok::Bytes(s) = $k {
            return Some(Out::from(<$t as ValidateBytes>::validate_u8_slice(s.as_slice()), |_| String::new()));
        }
    };
    (chr, $t:ty, $k:ident) => {
        if let Tok::Char(c) = $k {
            return Some(Out::from(<$t as ValidateChar>::validate_char(*c), |_| String::new()));
        }
    };
    (boolean, $t:ty, $k:ident) => {
        if let Tok::Bool(c) = $k {
            return Some(Out::from(<$t as ValidateBoolean>::validate_bool(*c), |_| String::new()));
        }
    };
    (sint, $t:ty, $k:ident) => {
        if let Tok::I(i, w) = $k {
            let r = match w {
                8 => <$t as ValidateSignedInteger>::validate_i8(*i as i8),
                16 => <$t as ValidateSignedInteger>::validate_i16(*i as i16),
                32 => <$t as ValidateSignedInteger>::validate_i32(*i as i32),
                64 => <$t as ValidateSignedInteger>::validate_i64(*i as i64),
                0 => <$t as ValidateSignedInteger>::validate_isize(*i as isize),
                _ => <$t as ValidateSignedInteger>::validate_i128(*i),
            };
            return Some(Out::from(r, |_| String::new()));
        }
    };
    (uint, $t:ty, $k:ident) => {
        if let Tok::U(i, w) = $k {
            let r = match w {
                8 => <$t as ValidateUnsignedInteger>::validate_u8(*i as u8),
                16 => <$t as ValidateUnsignedInteger>::validate_u16(*i as u16),
                32 => <$t as ValidateUnsignedInteger>::validate_u32(*i as u32),
                64 => <$t as ValidateUnsignedInteger>::validate_u64(*i as u64),
                0 => <$t as ValidateUnsignedInteger>::validate_usize(*i as usize),
                _ => <$t as ValidateUnsignedInteger>::validate_u128(*i),
            };
            return Some(Out::from(r, |_| String::new()));
        }
    };
    (num, $t:ty, $k:ident) => {
        match $k {
            Tok::F64(f) => return Some(Out::from(<$t as ValidateNumber>::validate_f64(*f), |_| String::new())),
            Tok::F32(f) => return Some(Out::from(<$t as ValidateNumber>::validate_f32(*f), |_| String::new())),
            _ => {},
        }
    };
    (jsonv, $t:ty, $k:ident) => {
        if let Tok::Json(s) = $k {
            let v: serde_json::Value = serde_json::from_str(s).ok()?;
            return Some(Out::from(<$t as ValidateJsonValue>::validate_json_value(v), |_| String::new()));
        }
    };
}

#[macro_export]
macro_rules! facet_make {
    (text, $t:ty, $k:ident) => {
        if let Tok::Str(s) = $k {
            return <$t as ValidateString>::parse_str(s.as_str()).ok();
        }
    };
    (bytes, $t:ty, $k:ident) => {
        if let Tok::Bytes(s) = $k {
            return <$t as ValidateBytes>::parse_u8_slice(s.as_slice()).ok();
        }
    };
    (chr, $t:ty, $k:ident) => {
        if let Tok::Char(c) = $k {
            return <$t as ValidateChar>::parse_char(*c).ok();
        }
    };
    (boolean, $t:ty, $k:ident) => {
        if let Tok::Bool(c) = $k {
            return <$t as ValidateBoolean>::parse_bool(*c).ok();
        }
    };
    (sint, $t:ty, $k:ident) => {
        if let Tok::I(i, _) = $k {
            return <$t as ValidateSignedInteger>::parse_i128(*i).ok();
        }
    };
    (uint, $t:ty, $k:ident) => {
        if let Tok::U(i, _) = $k {
            return <$t as ValidateUnsignedInteger>::parse_u128(*i).ok();
        }
    };
    (num, $t:ty, $k:ident) => {
        match $k {
            Tok::F64(f) => return <$t as ValidateNumber>::parse_f64(*f).ok(),
            Tok::F32(f) => return <$t as ValidateNumber>::parse_f32(*f).ok(),
            _ => {},
        }
    };
    (jsonv, $t:ty, $k:ident) => {
        if let Tok::Json(s) = $k {
            let v: serde_json::Value = serde_json::from_str(s).ok()?;
            return <$t as ValidateJsonValue>::parse_json_value(v).ok();
        }
    };
}

/// the same datum through `From` into `validators::Result`
#[macro_export]
macro_rules! facet_wrap {
    (@ $t:ty, $v:expr) => {{
        let w: validators::Result<$t, <$t as validators::traits::ValidateString>::Error> = validators::Result::from($v);
        let shown = match &*w {
            Ok(v) => Out::Ok(v.dump()),
            Err(e) => Out::Err($crate::core::E::of(e)),
        };
        // every way of looking inside must show the same thing
        let by_ref = w.as_std_result().is_ok();
        let dbg = format!("{w:?}");
        let owned: Result<$t, _> = w.into_std_result();
        if dbg != format!("{owned:?}") || by_ref != owned.is_ok() {
            return Some(Out::Err($crate::core::E { dbg: "WRAPPER".into(), disp: format!("the wrapper shows {dbg} but holds {owned:?}") }));
        }
        let back: validators::Result<$t, _> = owned.into();
        let again: Result<$t, _> = back.into();
        let last = Out::from(again, |v| v.dump());
        if last != shown {
            return Some(Out::Err($crate::core::E { dbg: "WRAPPER".into(), disp: format!("converting the wrapper there and back changed it: {} to {}", shown.brief(), last.brief()) }));
        }
        return Some(shown);
    }};
    (text, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Str(s) = $k {
            if $o {
                $crate::facet_wrap!(@ $t, s.clone())
            }
            if s.len() % 3 == 0 {
                let r: Result<validators::Result<$t, _>, _> = s.parse();
                let shown = match r {
                    Ok(w) => Out::from(w.into_std_result(), |v| v.dump()),
                    Err(e) => Out::Err($crate::core::E { dbg: "WRAPPER".into(), disp: format!("FromStr failed: {e}") }),
                };
                return Some(shown);
            }
            $crate::facet_wrap!(@ $t, s.as_str())
        }
    };
    (bytes, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Bytes(s) = $k {
            if $o {
                $crate::facet_wrap!(@ $t, s.clone())
            }
            $crate::facet_wrap!(@ $t, s.as_slice())
        }
    };
    (chr, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Char(c) = $k {
            $crate::facet_wrap!(@ $t, *c)
        }
    };
    (boolean, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Bool(c) = $k {
            $crate::facet_wrap!(@ $t, *c)
        }
    };
    (sint, $t:ty, $k:ident, $o:ident) => {
        if let Tok::I(i, w) = $k {
            match w {
                8 => $crate::facet_wrap!(@ $t, *i as i8),
                16 => $crate::facet_wrap!(@ $t, *i as i16),
                32 => $crate::facet_wrap!(@ $t, *i as i32),
                64 => $crate::facet_wrap!(@ $t, *i as i64),
                0 => $crate::facet_wrap!(@ $t, *i as isize),
                _ => $crate::facet_wrap!(@ $t, *i),
            }
        }
    };
    (uint, $t:ty, $k:ident, $o:ident) => {
        if let Tok::U(i, w) = $k {
            match w {
                8 => $crate::facet_wrap!(@ $t, *i as u8),
                16 => $crate::facet_wrap!(@ $t, *i as u16),
                32 => $crate::facet_wrap!(@ $t, *i as u32),
                64 => $crate::facet_wrap!(@ $t, *i as u64),
                0 => $crate::facet_wrap!(@ $t, *i as usize),
                _ => $crate::facet_wrap!(@ $t, *i),
            }
        }
    };
    (num, $t:ty, $k:ident, $o:ident) => {
        match $k {
            Tok::F64(f) => $crate::facet_wrap!(@ $t, *f),
            Tok::F32(f) => $crate::facet_wrap!(@ $t, *f),
            _ => {},
        }
    };
    (jsonv, $t:ty, $k:ident, $o:ident) => {
        if let Tok::Json(s) = $k {
            let v: serde_json::Value = serde_json::from_str(s).ok()?;
            $crate::facet_wrap!(@ $t, v)
        }
    };
}

/// A `Target` without the serde facets.
#[macro_export]
macro_rules! target {
    ($t:ty, $fam:expr, $name:expr, $judge:expr) => {
        $crate::core::Target {
            name:     $name.to_string(),
            fam:      $fam,
            parse:    <$t as $crate::core::Subject>::parse,
            validate: <$t as $crate::core::Subject>::validate,
            wrap:     <$t as $crate::core::Subject>::wrap,
            any:      None,
            json:     None,
            de:       None,
            de_json:  None,
            der:      None,
            der_json: None,
            web:      None,
            judge:    std::sync::Arc::new($judge),
        }
    };
}

/// Adds the canonical-string facet (and, with the `serde_facets` feature, the serde ones).
#[cfg(feature = "web_facets")]
#[macro_export]
macro_rules! ws {
    ($target:expr, $t:ty, $err:ty, $canon:expr) => {
        $crate::web::with_web!($target, $t, $err)
    };
    ($target:expr, $t:ty, $err:ty, $canon:expr, $k:ty) => {
        $target
    };
}
#[cfg(not(any(feature = "serde_facets", feature = "canon_facets", feature = "web_facets")))]
#[macro_export]
macro_rules! ws {
    ($target:expr, $t:ty, $err:ty, $canon:expr) => {
        $target
    };
    ($target:expr, $t:ty, $err:ty, $canon:expr, $k:ty) => {
        $target
    };
}
#[cfg(feature = "serde_facets")]
#[macro_export]
macro_rules! ws {
    ($target:expr, $t:ty, $err:ty, $canon:expr) => {
        $crate::with_serde!($target, $t, $err, $canon, ())
    };
    ($target:expr, $t:ty, $err:ty, $canon:expr, $k:ty) => {
        $crate::with_serde!($target, $t, $err, $canon, $k)
    };
}
#[cfg(all(not(feature = "serde_facets"), feature = "canon_facets"))]
#[macro_export]
macro_rules! ws {
    ($target:expr, $t:ty, $err:ty, $canon:expr) => {
        $crate::with_canon!($target, $t, $canon)
    };
    ($target:expr, $t:ty, $err:ty, $canon:expr, $k:ty) => {
        $crate::with_canon!($target, $t, $canon)
    };
}

/// Adds a live value with its canonical string.
#[macro_export]
macro_rules! with_canon {
    ($target:expr, $t:ty, $canon:expr) => {{
        let mut t: $crate::core::Target = $target;
        t.any = Some(|tok| {
            use $crate::core::Subject;
            struct A($t);
            impl $crate::core::AnyVal for A {
                fn dump(&self) -> String {
                    $crate::core::Dump::dump(&self.0)
                }
                fn canon(&self) -> Option<String> {
                    let f: fn(&$t) -> Option<String> = $canon;
                    f(&self.0)
                }
                fn ser(&self, _: bool) -> Option<Result<$crate::core::Ser, String>> {
                    None
                }
                fn ser_json(&self) -> Option<Result<String, String>> {
                    None
                }
            }
            <$t as Subject>::make(tok).map(|v| Box::new(A(v)) as Box<dyn $crate::core::AnyVal>)
        });
        t
    }};
}

/// Adds the serde facets (any, de, der) to a target. `$canon`: fn(&T) -> Option<String>.
#[macro_export]
macro_rules! with_serde {
    ($target:expr, $t:ty, $err:ty, $canon:expr, $k:ty) => {{
        let mut t: $crate::core::Target = $target;
        t.any = Some(|tok| {
            use $crate::core::Subject;
            struct A($t);
            impl $crate::core::AnyVal for A {
                fn dump(&self) -> String {
                    $crate::core::Dump::dump(&self.0)
                }
                fn canon(&self) -> Option<String> {
                    let f: fn(&$t) -> Option<String> = $canon;
                    f(&self.0)
                }
                fn ser(&self, human: bool) -> Option<Result<$crate::core::Ser, String>> {
                    Some(serde::Serialize::serialize(&self.0, $crate::sertok::Rec { human }).map_err(|e| e.0))
                }
                fn ser_json(&self) -> Option<Result<String, String>> {
                    Some(serde_json::to_string(&self.0).map_err(|e| e.to_string()))
                }
            }
            <$t as Subject>::make(tok).map(|v| Box::new(A(v)) as Box<dyn $crate::core::AnyVal>)
        });
        t.de = Some(|tok, human| {
            let mut last: Option<$crate::core::Out> = None;
            for how in 0..3u8 {
                let p = $crate::sertok::present(tok, how, human)?;
                let r: Result<$t, $crate::sertok::DeErr> = serde::Deserialize::deserialize(p);
                let o = $crate::core::Out::from(r, |v| $crate::core::Dump::dump(&v));
                if let Some(l) = &last {
                    if *l != o {
                        return Some($crate::core::Out::Err($crate::core::E {
                            dbg:  "PRESENTATION".into(),
                            disp: format!("deserializing borrowed/owned/transient data disagree: {} vs {}", l.brief(), o.brief()),
                        }));
                    }
                }
                last = Some(o);
            }
            last
        });
        t.de_json = Some(|s| {
            let r: Result<$t, serde_json::Error> = serde_json::from_str(s);
            $crate::core::Out::from(r, |v| $crate::core::Dump::dump(&v))
        });
        t.der = Some(|tok, human| {
            let mut last: Option<$crate::core::Out> = None;
            for how in 0..3u8 {
                let p = $crate::sertok::present(tok, how, human)?;
                let r: Result<validators::Result<$t, $err, $k>, $crate::sertok::DeErr> = serde::Deserialize::deserialize(p);
                let o = $crate::subject::open_wrapper(r, |v| $crate::core::Dump::dump(v));
                if let Some(l) = &last {
                    if *l != o {
                        return Some($crate::core::Out::Err($crate::core::E {
                            dbg:  "PRESENTATION".into(),
                            disp: format!("deserializing borrowed/owned/transient data disagree: {} vs {}", l.brief(), o.brief()),
                        }));
                    }
                }
                last = Some(o);
            }
            last
        });
        t.der_json = Some(|s| {
            let r: Result<validators::Result<$t, $err, $k>, serde_json::Error> = serde_json::from_str(s);
            $crate::subject::open_wrapper(r, |v| $crate::core::Dump::dump(v))
        });
        t
    }};
}

use std::fmt::{Debug, Display};

use crate::core::{E, Out};

pub fn open_wrapper<T, X: Debug + Display, K, D: Display>(
    r: Result<validators::Result<T, X, K>, D>,
    dump: impl FnOnce(&T) -> String,
) -> Out {
    match r {
        Ok(w) => match w.as_std_result() {
            Ok(v) => Out::Ok(dump(v)),
            Err(e) => Out::Err(E { dbg: format!("{e:?}"), disp: format!("{e}") }),
        },
        Err(d) => Out::Err(E { dbg: "OUTER".into(), disp: d.to_string() }),
    }
}
