//! The Rocket and Axum front ends.
use std::{
    fmt::{Debug, Display},
    future::Future,
    marker::PhantomData,
    pin::pin,
    task::{Context, Poll, Waker},
};

use axum::response::IntoResponse;
use rocket::{
    form::{Form, FromForm, FromFormField, ValueField},
    http::Method,
    request::FromParam,
    route::{Handler, Outcome, Route},
};
use serde_json::json;
use validators::prelude::*;

use crate::{
    core::{Dump, E, Out, Rng, Tok, clip},
    extras::Ctx,
};

fn message(s: String) -> Out {
    Out::Err(E { dbg: String::new(), disp: s })
}

fn form_out<T: Dump>(r: rocket::form::Result<'_, T>) -> Out {
    match r {
        Ok(v) => Out::Ok(v.dump()),
        Err(es) => message(es.iter().map(|e| e.kind.to_string()).collect::<Vec<_>>().join(" | ")),
    }
}

fn encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'*' => o.push(b as char),
            b' ' => o.push('+'),
            b => o.push_str(&format!("%{b:02X}")),
        }
    }
    o
}

fn now<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..1_000_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("the response body is never ready")
}

/// status and body
fn answer<R: IntoResponse>(r: R) -> (u16, String) {
    let r = r.into_response();
    let status = r.status().as_u16();
    let body = now(axum::body::to_bytes(r.into_body(), 1 << 24)).unwrap();
    (status, String::from_utf8_lossy(&body).into_owned())
}

pub fn fronts<T, X>(s: &str) -> Vec<(&'static str, Out)>
where
    T: Dump + ValidateString<Error = X> + Send + 'static,
    for<'a> T: FromParam<'a, Error = X> + FromFormField<'a>,
    for<'a> validators::Result<T, X>: FromFormField<'a>,
    X: Debug + Display + IntoResponse + Send + 'static, {
    let mut v = vec![];
    v.push(("a path parameter", Out::from(<T as FromParam>::from_param(s), |x| x.dump())));
    v.push(("a form field", form_out(<T as FromFormField>::from_value(ValueField::from_value(s)))));
    let raw = format!("v={}", encode(s));
    v.push(("a form", form_out(Form::<T>::parse_encoded(rocket::http::RawStr::new(&raw)))));
    let all = |r: rocket::form::Result<'_, Vec<T>>| match r {
        Ok(x) if x.len() == 2 && x[0].dump() == x[1].dump() => Out::Ok(x[0].dump()),
        Ok(x) => Out::Err(E { dbg: "LIST".into(), disp: format!("{} values in a list of 2", x.len()) }),
        Err(es) => {
            let m: Vec<String> = es.iter().map(|e| e.kind.to_string()).collect();
            if m.len() == 2 && m[0] == m[1] { message(m[0].clone()) } else { message(m.join(" | ")) }
        },
    };
    v.push(("a list in a form", all(Form::<Vec<T>>::parse_iter([ValueField::from_value(s), ValueField::from_value(s)].into_iter()))));
    let open = |r: rocket::form::Result<'_, validators::Result<T, X>>| match r {
        Ok(w) => match w.into_std_result() {
            Ok(x) => Out::Ok(x.dump()),
            Err(e) => Out::Err(E::of(e)),
        },
        Err(es) => Out::Err(E { dbg: "OUTER".into(), disp: format!("the form failed: {es}") }),
    };
    v.push(("a Result in a form field", open(<validators::Result<T, X> as FromFormField>::from_value(ValueField::from_value(s)))));
    v.push(("a Result in a form", open(Form::<validators::Result<T, X>>::parse_encoded(rocket::http::RawStr::new(&raw)))));
    if let Err(e) = T::parse_str(s) {
        let (status, body) = answer(e);
        v.push(("an Axum response", if status == 400 { message(body) } else { Out::Err(E { dbg: format!("status {status}"), disp: body }) }));
    }
    v
}

#[macro_export]
macro_rules! with_web {
    ($target:expr, $t:ty, $err:ty) => {{
        let mut t: $crate::core::Target = $target;
        t.web = Some(|s| $crate::web::fronts::<$t, $err>(s));
        t
    }};
}
pub use with_web;

// ---- a running application ------------------------------------------------------------

struct Show<T>(PhantomData<fn() -> T>);
impl<T> Clone for Show<T> {
    fn clone(&self) -> Self {
        Show(PhantomData)
    }
}

#[rocket::async_trait]
impl<T> Handler for Show<T>
where
    T: Debug + Send + Sync + 'static,
    for<'a> T: FromParam<'a>,
    for<'a> <T as FromParam<'a>>::Error: Debug,
{
    async fn handle<'r>(&self, req: &'r rocket::Request<'_>, _: rocket::Data<'r>) -> Outcome<'r> {
        let s = match req.param::<T>(1) {
            Some(Ok(v)) => format!("Ok({v:?})"),
            Some(Err(e)) => format!("Err({e:?})"),
            None => "missing".to_string(),
        };
        Outcome::from(req, s)
    }
}

macro_rules! app {
    ($($fam:literal $n:ident $t:ident;)*) => {
        fn routes() -> Vec<Route> {
            vec![ $( {
                let path = concat!("/", stringify!($n), "/<v>");
                let mut r = Route::new(Method::Get, path, Show::<$t>(PhantomData));
                r.name = Some(stringify!($n).into());
                r
            } ),* ]
        }
        fn kinds() -> Vec<(&'static str, &'static str, fn(&str) -> String)> {
            vec![ $( ($fam, stringify!($n), |s: &str| match <$t as ValidateString>::parse_str(s) { Ok(v) => format!("Ok({v:?})"), Err(e) => format!("Err({e:?})") }) ),* ]
        }
        /// axum handlers: the error itself is the response
        fn handlers() -> Vec<(&'static str, fn(&str) -> (u16, String))> {
            vec![ $( (stringify!($n), |s: &str| {
                fn h(s: &str) -> Result<String, <$t as ValidateString>::Error> {
                    let v = <$t as ValidateString>::parse_str(s)?;
                    Ok(format!("Ok({v:?})"))
                }
                answer(h(s))
            }) ),* ]
        }
        #[derive(rocket::FromForm)]
        struct Sheet {
            before: String,
            $( $n: validators::Result<$t, <$t as ValidateString>::Error>, )*
            after: u8,
        }
        impl Sheet {
            fn get(&self, n: &str) -> String {
                match n {
                    $( stringify!($n) => format!("{:?}", self.$n.as_std_result()), )*
                    _ => unreachable!(),
                }
            }
        }
    };
}

use crate::webtypes::*;

app! {
    "base" b32 B32; "base" b32d B32D; "base" b64 B64; "base" b64d B64D; "base" b64u B64U; "base" b64ud B64UD;
    "unit" bits Bits; "unit" bytes Bytes; "boolean" flag Bool; "domain" dom Dom; "email" mail Mail; "host" host HostT;
    "url" http Http; "url" ftp Ftp; "ip" ip IpT; "ip" ip4 Ip4; "ip" ip6 Ip6; "linetext" line LineT; "hex" mac Mac;
    "number" num Num; "phone" phone PhoneT; "delegate" re Re; "delegate" ver Ver; "delegate" req Req; "int" int Int;
    "linetext" text TextT; "int" uint Uint; "delegate" url UrlT; "hex" uuid UuidT;
}

fn percent(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

#[derive(Debug, Clone, Validator)]
#[validator(length(min = 2, max = 4))]
struct WebLength(Vec<u8>);

/// a collection reaches a handler as an extracted body; its error answers like every other
fn length_answers(x: &mut Ctx) {
    let mut n = 0;
    for len in 0..9usize {
        let c = vec![0u8; len];
        match WebLength::parse_collection(c.clone()) {
            Ok(v) => {
                if v.0 != c || !(2..=4).contains(&len) {
                    return x.broken("app", "length", format!("a list of {len} elements is accepted as one of 2 to 4"), json!(len));
                }
            },
            Err(e) => {
                let want = e.to_string();
                let got = answer(e);
                n += 1;
                x.evals += 1;
                if got != (400, want.clone()) {
                    return x.broken("app", "length", format!("an Axum handler answers {got:?} for the rejection of a list of {len} elements: {want}"), json!(len));
                }
            },
        }
    }
    x.saw("application [lists refused]", n);
}

pub fn app(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    use std::collections::BTreeMap;
    use std::time::{Duration, Instant};
    let end = Instant::now() + Duration::from_secs_f64((x.budget * 0.25).max(2.0));
    let gens: BTreeMap<&'static str, fn(&mut Rng) -> Tok> = crate::fam::all().into_iter().map(|f| (f.name, f.gen_tok)).collect();
    let mut r = Rng::new(x.seed ^ 0x3eb ^ (x.worker as u64) << 24);
    let figment = rocket::Config { log_level: rocket::config::LogLevel::Off, ..rocket::Config::debug_default() };
    let client = match rocket::local::blocking::Client::untracked(rocket::custom(figment).mount("/", routes())) {
        Ok(c) => c,
        Err(e) => return x.broken("app", "launch", format!("the application does not launch: {e}"), json!(null)),
    };
    length_answers(x);
    let kinds = kinds();
    let (mut good, mut bad, mut forms) = (0u64, 0u64, 0u64);
    while Instant::now() < end {
        tick();
        let mut sheet = vec![];
        for ((fam, name, reference), (_, axum)) in kinds.iter().zip(handlers()) {
            let Some(Tok::Str(s)) = (0..4).map(|_| (gens[fam])(&mut r)).find(|t| matches!(t, Tok::Str(_))) else { continue };
            let want = reference(&s);
            if want.starts_with("Ok") { good += 1 } else { bad += 1 }
            // the router splits at slashes and drops empty segments
            if !s.is_empty() && s.len() < 4000 {
                let got = client.get(format!("/{name}/{}", percent(&s))).dispatch().into_string().unwrap_or_default();
                x.evals += 1;
                if got != want {
                    return x.broken("app", "path", format!("GET /{name}/{{{s:?}}} answers {}, parsing gives {}", clip(&got), clip(&want)), json!(s));
                }
            }
            let (status, body) = axum(&s);
            x.evals += 1;
            if (status == 200) != want.starts_with("Ok") || (status != 200 && status != 400) || (status == 200 && body != want) {
                return x.broken("app", "handler", format!("an Axum handler for {name} answers {status} {body:?} for {s:?}, parsing gives {}", clip(&want)), json!(s));
            }
            sheet.push((*name, s, want));
        }
        if sheet.len() < kinds.len() {
            continue;
        }
        let before = crate::gens::any_text(&mut r, 5);
        let mut parts: Vec<String> = sheet.iter().map(|(n, s, _)| format!("{n}={}", encode(s))).collect();
        parts.push(format!("before={}", encode(&before)));
        parts.push("after=7".into());
        for i in (1..parts.len()).rev() {
            parts.swap(i, r.below(i + 1));
        }
        let raw = parts.join("&");
        match Form::<Sheet>::parse_encoded(rocket::http::RawStr::new(&raw)) {
            Ok(f) => {
                forms += 1;
                x.evals += 1;
                if f.before != before || f.after != 7 {
                    return x.broken("app", "neighbours", "the plain fields of a form changed".into(), json!(raw));
                }
                for (n, s, want) in &sheet {
                    if f.get(n) != *want {
                        return x.broken("app", "form", format!("form field {n}={s:?} holds {}, parsing gives {}", clip(&f.get(n)), clip(want)), json!(s));
                    }
                }
            },
            Err(e) => return x.broken("app", "form", format!("a form failed because of a field that should capture its error: {e}"), json!(raw)),
        }
    }
    x.saw("application [valid data sent]", good);
    x.saw("application [invalid data sent]", bad);
    x.saw("application [forms of 29 results]", forms);
}
