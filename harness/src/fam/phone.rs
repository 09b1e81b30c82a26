//! phone.
use std::collections::HashMap;

use validators::{
    phonenumber::{self, PhoneNumber, country::Id},
    prelude::*,
};

use crate::{
    core::{Dump, Exp, Family, Rng, Target, Tok},
    gens, subject, target, ws,
};

macro_rules! single {
    ($n:ident, ($($a:tt)*)) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($($a)*)]
        pub struct $n(pub PhoneNumber);
        impl Dump for $n {
            fn dump(&self) -> String {
                format!("{:?}", self.0)
            }
        }
        subject!($n; text);
    };
}
macro_rules! multi {
    ($n:ident, ($($a:tt)*)) => {
        #[derive(Debug, Clone, Validator)]
        #[validator($($a)*)]
        pub struct $n(pub HashMap<Id, PhoneNumber>);
        impl Dump for $n {
            fn dump(&self) -> String {
                show(self.0.iter().map(|(k, v)| (*k, v.clone())).collect())
            }
        }
        subject!($n; text);
    };
}

fn show(v: Vec<(Id, PhoneNumber)>) -> String {
    let mut v: Vec<String> = v.iter().map(|(k, p)| format!("{k:?}: {p:?}")).collect();
    v.sort();
    v.join("; ")
}

single!(P0, (phone));
single!(P1, (phone(countries(TW))));
single!(P2, (phone(countries(US))));
single!(P3, (phone(countries(GB))));
multi!(M0, (phone(countries(TW, US))));
multi!(M1, (phone(countries(US, TW))));
multi!(M2, (phone(countries(CN, JP, GB))));
multi!(M3, (phone(countries(GB, JP, CN))));
multi!(M4, (phone(countries(US, CA))));
multi!(M5, (phone(countries(CA, RU, KZ, IT, VA, GB, GG, TW, US))));
single!(P4, (phone(countries(DE))));
single!(P5, (phone(countries(IT))));
single!(P6, (phone(countries(AU))));
single!(P8, (phone(countries(AR))));
single!(P9, (phone(countries(IN))));
multi!(M6, (phone(countries(AU, CC, CX))));
multi!(M8, (phone(countries(RU, KZ))));
multi!(M9, (phone(countries(US, CA, BS, JM, PR))));
multi!(MA, (phone(countries(DE, FR, LU, AT, IT, SM))));
multi!(MB, (phone(countries(IN, AU, BR, AR, MX, IL, AE, UA, PL, SE, DK, SG))));
multi!(MC, (phone(countries(FI, AX))));
multi!(MD, (phone(countries(GP, MF, BL, RE, YT))));

/// one reading of the text as a number of one country
fn reading(c: Id, s: &str) -> Result<Option<PhoneNumber>, ()> {
    type Readings = (String, Vec<(Id, Result<Option<PhoneNumber>, ()>)>);
    thread_local! {
        // many configurations are asked about one text
        static LAST: std::cell::RefCell<Readings> = const { std::cell::RefCell::new((String::new(), Vec::new())) };
    }
    LAST.with_borrow_mut(|(text, seen)| {
        if text != s {
            *text = s.to_string();
            seen.clear();
        }
        if let Some((_, r)) = seen.iter().find(|e| e.0 == c) {
            return r.clone();
        }
        let r = match phonenumber::parse(Some(c), s) {
            Ok(p) => Ok((p.country().id() == Some(c) && p.is_valid()).then_some(p)),
            Err(_) => Err(()),
        };
        seen.push((c, r.clone()));
        r
    })
}

pub fn judge(cs: &[Id], t: &Tok) -> Exp {
    let Tok::Str(s) = t else { return Exp::Unspecified };
    match cs {
        [] => match phonenumber::parse(None, s) {
            Ok(p) if p.is_valid() => Exp::Accept(format!("{p:?}")),
            Ok(_) => Exp::reject(&["Invalid"]),
            Err(_) => Exp::reject(&["Failure"]),
        },
        [c] => match reading(*c, s) {
            Ok(Some(p)) => Exp::Accept(format!("{p:?}")),
            Ok(None) => Exp::reject(&["Invalid"]),
            Err(()) => Exp::reject(&["Failure"]),
        },
        _ => {
            let (mut ok, mut fail, mut bad) = (vec![], false, false);
            for c in cs {
                match reading(*c, s) {
                    Ok(Some(p)) => ok.push((*c, p)),
                    Ok(None) => bad = true,
                    Err(()) => fail = true,
                }
            }
            if !ok.is_empty() {
                return Exp::Accept(show(ok));
            }
            let mut r = vec![];
            if bad {
                r.push("Invalid");
            }
            if fail {
                r.push("Failure");
            }
            Exp::Reject(r)
        },
    }
}

const KNOWN: &[&str] = &[
    "+886912345678", "0912345678", "912345678", "02-2345-6789", "+886 2 2345 6789", "(02)23456789", "+1 650-253-0000", "6502530000", "(650) 253-0000", "1-800-356-9377", "+1 416 555 0123", "4165550123", "+44 20 7946 0958", "020 7946 0958", "07911 123456", "+447911123456", "+44 1481 960194",
    "07781123456", "+86 10 6552 9988", "010-6552-9988", "13812345678", "+8613812345678", "+81 3-1234-5678", "03-1234-5678", "090-1234-5678", "+7 912 345 67 89", "8 912 345-67-89", "+7 701 234 5678", "+39 06 698 12345", "06 698 12345", "+390236618300", "0236618300", "+1 242 365 1234", "112", "911",
    "+999123456789", "+0", "+", "", "tel:+886912345678", "tel:0912345678;phone-context=+886", "+886912345678;ext=12", "+1 650 253 0000 x123", "+1 650-253-0000 ext. 99", "００８８６９１２３４５６７８", "＋８８６９１２３４５６７８", "011886912345678", "0011886912345678", "1-800-GOOG-LEG",
    "+49 30 901820", "030 901820", "0151 23456789", "+61 2 9374 4000", "02 9374 4000", "0412 345 678", "+61 8 9162 6651", "+55 11 96123 4567", "+33 1 42 68 53 00", "01 42 68 53 00", "0612345678", "+91 98765 43210", "09876543210", "+54 9 11 2345 6789", "011 15-2345-6789", "+47 22 22 22 22",
    "+47 79 02 12 34", "+358 9 123456", "+358 18 123 456", "018 123456", "+41 44 668 18 00", "044 668 18 00", "+1 787 234 5678", "787-234-5678", "+1 876 523 0123", "8765230123", "+1 441 370 1234", "+7 7172 12 34 56", "8 (7172) 123456", "+590 690 00 12 34", "0690 00 12 34", "+262 692 12 34 56", "+262 639 01 23 45",
    "+852 2123 4567", "21234567", "+65 6123 4567", "+66 2 123 4567", "+34 810 12 34 56", "810123456", "+351 21 234 5678", "+352 27 12 34 56", "+32 2 123 45 67", "+31 10 123 4567", "+43 1 234567890", "+423 234 56 78", "+377 99 12 34 56", "+378 0549 886377", "0549886377",
];
const MUT: &[&str] = &["+", "-", " ", "(", ")", ".", "/", "x", "ext", "#", ",", ";", "0", "1", "9", "886", "1", "44", "011", "00", "tel:", "+886", "+1", "９", "٣", "A", "*"];

pub fn gen_tok(r: &mut Rng) -> Tok {
    let s = match r.below(4) {
        0 => {
            let cc = r.pick(&["+886", "+1", "+44", "+86", "+81", "+7", "+39", "0", "", "+1242", "+379", "+49", "+61", "+54", "+91", "+33", "+47", "+358", "+590", "+262", "+77", "+1787", "02", "03", "04", "06", "08", "8", "+800", "+882", "00886", "011"]);
            let n = r.range(4, 13);
            let mut s = cc.to_string();
            for _ in 0..n {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            s
        },
        1 => {
            // a known number with some digits redrawn
            let k = r.pick(KNOWN);
            k.chars().map(|c| if c.is_ascii_digit() && r.chance(1, 6) { (b'0' + r.below(10) as u8) as char } else { c }).collect()
        },
        _ => r.pick(KNOWN).to_string(),
    };
    Tok::Str(if r.chance(1, 2) { gens::mutate(r, &s, MUT) } else { s })
}

pub fn corners() -> Vec<Tok> {
    let mut v = gens::strs(KNOWN.iter().copied());
    for k in KNOWN {
        for i in 0..k.len() {
            if k.is_char_boundary(i) {
                v.push(Tok::Str(k[..i].into()));
                v.push(Tok::Str(k[i..].into()));
            }
        }
        for p in ["+", "00", "0", "+1", "1", " ", "x"] {
            v.push(Tok::Str(format!("{p}{k}")));
            v.push(Tok::Str(format!("{k}{p}")));
        }
    }
    v.extend(gens::strs(["abc", "中文", "\0", "1", "12", "123", "++886912345678", "+886+912345678", "99999999999999999999999999", "+1", "+1 ", "-", "()", "ext", ";ext=", "tel:", "tel:+", "x1"]));
    v
}

fn targets() -> Vec<Target> {
    use validators::errors::PhoneError;
    let mut v = Vec::new();
    macro_rules! p {
        ($n:ident, $name:literal, [$($c:ident),*]) => {
            v.push(ws!(target!($n, "phone", $name, |t| judge(&[$(Id::$c),*], t)), $n, PhoneError, |_| None));
        };
    }
    p!(P0, "phone", []);
    p!(P1, "phone(countries(TW))", [TW]);
    p!(P2, "phone(countries(US))", [US]);
    p!(P3, "phone(countries(GB))", [GB]);
    p!(M0, "phone(countries(TW, US))", [TW, US]);
    p!(M1, "phone(countries(US, TW))", [US, TW]);
    p!(M2, "phone(countries(CN, JP, GB))", [CN, JP, GB]);
    p!(M3, "phone(countries(GB, JP, CN))", [GB, JP, CN]);
    p!(M4, "phone(countries(US, CA))", [US, CA]);
    p!(M5, "phone(countries(CA, RU, KZ, IT, VA, GB, GG, TW, US))", [CA, RU, KZ, IT, VA, GB, GG, TW, US]);
    p!(P4, "phone(countries(DE))", [DE]);
    p!(P5, "phone(countries(IT))", [IT]);
    p!(P6, "phone(countries(AU))", [AU]);
    p!(P8, "phone(countries(AR))", [AR]);
    p!(P9, "phone(countries(IN))", [IN]);
    p!(M6, "phone(countries(AU, CC, CX))", [AU, CC, CX]);
    p!(M8, "phone(countries(RU, KZ))", [RU, KZ]);
    p!(M9, "phone(countries(US, CA, BS, JM, PR))", [US, CA, BS, JM, PR]);
    p!(MA, "phone(countries(DE, FR, LU, AT, IT, SM))", [DE, FR, LU, AT, IT, SM]);
    p!(MB, "phone(countries(IN, AU, BR, AR, MX, IL, AE, UA, PL, SE, DK, SG))", [IN, AU, BR, AR, MX, IL, AE, UA, PL, SE, DK, SG]);
    p!(MC, "phone(countries(FI, AX))", [FI, AX]);
    p!(MD, "phone(countries(GP, MF, BL, RE, YT))", [GP, MF, BL, RE, YT]);
    v
}

pub fn family() -> Family {
    Family { name: "phone", targets: targets(), gen_tok, corners }
}
