"""C28: each validator feature works on its own.

For every validator feature, alone and with serde and std, a program declaring
that validator in several configurations is built against the current tree and
run; what it prints is compared with the same program built with every feature.
Validators that do not need the standard library are also built inside a
no_std crate with its own panic handler, which the compiler refuses as soon as
anything below it brings the standard library in."""
import json, os, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from check import VERIF, TARGET, TIER, SEED, ENV, die, finish
from probes import FAMS, ERR, PARAMS, NEED, TRAITS, KIND, shape, attr, spell, body, texts, ints

STD = {"domain", "email", "host", "http_url", "http_ftp_url", "ip", "ipv4", "ipv6", "phone", "regex", "url"}
# features of similar weight side by side; those sharing dependencies in one place
LANES = [["phone", "regex", "line", "length"], ["url", "http_url", "http_ftp_url", "text"], ["domain", "email", "host", "boolean"], ["json", "semver", "semver_req", "uuid", "number"],
         ["bit", "byte", "ip", "mac_address"], ["base32_decoded", "base64_decoded", "base64_url_decoded", "ipv4", "signed_integer"], ["base32", "base64", "base64_url", "ipv6", "unsigned_integer"]]
assert sorted(sum(LANES, [])) == sorted(FAMS)

MANI = """[package]
name = "{name}"
version = "0.0.0"
edition = "2024"
[lib]
path = "src/lib.rs"
[workspace]
[dependencies]
validators = {{ path = "/repo/validators", default-features = false, features = {features} }}
[profile.dev]
debug = 0
incremental = false
"""

PROG = r'''#![allow(warnings)]
use validators::prelude::*;
%(decls)s
static TEXTS: &[&str] = &[%(texts)s];
static INTS: &[i128] = &[%(ints)s];
static NUMS: &[f64] = &[-1e300, -20.5, -2.0, -1.5, -0.0, 0.0, 0.5, 1.5, 2.5, 3.0, 3.5, 4.0, 20.0, 1e10, f64::NAN, f64::INFINITY];
fn norm(s: &str) -> String {
    let mut v: Vec<&str> = s.split([',', '{', '}', '(', ')']).map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
    v.sort_unstable();
    v.join("|")
}
fn show<T: core::fmt::Debug, E: core::fmt::Debug + core::fmt::Display>(tag: &str, name: &str, x: &dyn core::fmt::Debug, r: Result<T, E>) {
    println!("{tag} {name} {x:?} {}", match r { Ok(v) => format!("ok {}", norm(&format!("{v:?}"))), Err(e) => format!("refused {e:?} {e}") }.replace('\n', " "));
}
macro_rules! obs {
    (s, $t:ident) => { for x in TEXTS { show("s", stringify!($t), x, $t::parse_str(x)); show("v", stringify!($t), x, $t::validate_str(x)); } };
    (b, $t:ident) => { for x in TEXTS { show("b", stringify!($t), x, $t::parse_u8_slice(x.as_bytes())); } };
    (c, $t:ident) => { for x in TEXTS { if let Some(c) = x.chars().next() { show("c", stringify!($t), &c, $t::parse_char(c)); } } };
    (i, $t:ident) => { for x in INTS { show("i", stringify!($t), x, $t::parse_i128(*x)); } };
    (u, $t:ident) => { for x in INTS { if *x >= 0 { show("u", stringify!($t), x, $t::parse_u128(*x as u128)); } } };
    (n, $t:ident) => { for x in NUMS { show("n", stringify!($t), x, $t::parse_f64(*x)); } };
    (o, $t:ident) => { for x in [true, false] { show("o", stringify!($t), &x, $t::parse_bool(x)); } };
    (j, $t:ident) => { for x in TEXTS { show("j", stringify!($t), x, $t::parse_json_value(validators::serde_json::Value::from(*x))); } };
    (l, $t:ident) => { for x in 0..40usize { show("l", stringify!($t), &x, $t::parse_collection(vec![0u8; x])); } };
    (q, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("q {} {x:?} {} {}", stringify!($t), v.is_fully_qualified(), v.get_domain_non_fully_qualified()); } } };
    (a, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("a {} {x:?} {}", stringify!($t), v.to_uri_authority_string()); } } };
    (e, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("e {} {x:?} {}", stringify!($t), v.to_email_string()); } } };
    (m, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("m {} {x:?} {}", stringify!($t), v.to_mac_address_string()); } } };
    (U, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("U {} {x:?} {}", stringify!($t), v.to_uuid_string()); } } };
    (J, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("J {} {x:?} {}", stringify!($t), v.to_minified_json_string()); } } };
    (k, $t:ident) => { for x in TEXTS { if let Ok(v) = $t::parse_str(x) { println!("k {} {x:?} {}", stringify!($t), CollectionLength::len(&v)); } } };
    (K, $t:ident) => { for x in 0..40usize { if let Ok(v) = $t::parse_collection(vec![0u8; x]) { println!("K {} {x:?} {}", stringify!($t), CollectionLength::len(&v)); } } };
    (D, $t:ident) => { for x in TEXTS {
        let d = validators::serde::de::value::StrDeserializer::<validators::serde::de::value::Error>::new(x);
        let r = <$t as validators::serde::Deserialize>::deserialize(d);
        if let Ok(v) = &r { println!("W {} {x:?} {}", stringify!($t), { struct A<'a>(&'a $t); impl core::fmt::Display for A<'_> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { validators::serde::Serialize::serialize(self.0, f) } }
            use core::fmt::Write; let mut s = String::new(); let _ = write!(s, "{}", A(v)); s }); }
        show("D", stringify!($t), x, r);
    } };
    (R, $t:ident) => { for x in TEXTS {
        // a Result field must not fail
        let d = validators::serde::de::value::StrDeserializer::<validators::serde::de::value::Error>::new(x);
        let r = <validators::Result<$t, <$t as ValidateString>::Error> as validators::serde::Deserialize>::deserialize(d);
        match r { Ok(r) => show("R", stringify!($t), x, r.into_std_result()), Err(e) => println!("R {} {x:?} failed {e}", stringify!($t)) }
    } };
}
fn main() {
%(calls)s}
'''
OBS = {**{k: v for k, v in KIND.items()}, "q": "q", "a": "a", "e": "e", "m": "m", "u": "U", "j": "J", "c": "k"}


def configs(fam):
    need = NEED.get(fam, []); out = [(attr(fam, need), shape(fam))]
    for p, vs, dv in PARAMS.get(fam, []):
        for k, v in enumerate(vs):
            if v != dv: out.append((attr(fam, need + [spell(p, v, "(="[k % 2])]), shape(fam, {p: v})))
    if fam in ("line", "text"):
        out += [(f"{fam}({h}_length({x}))", "String") for h in ("char", "byte") for x in ("min = 2, trimmed_min = 1, max = 6", "trimmed_min = 3", "max = 4", "min = 3")]
    if fam == "length": out += [("length(min = 2, max = 8)", "Vec<u8>"), ("length(max = 3)", "Vec<u8>"), ("length(min = 3, max = 3)", "Vec<u8>")]
    if fam in ("bit", "byte"): out += [(f"{fam}(range(min = 8, max = 8192))", shape(fam)), (f"{fam}(range(min = 8, max = 8192, inclusive = false))", shape(fam))]
    if fam == "signed_integer": out += [("signed_integer(range(Inside(min = -3, max = 5)))", t) for t in ("i8", "i128", "isize")]
    if fam == "unsigned_integer": out += [("unsigned_integer(range(Outside(min = 3, max = 5)))", t) for t in ("u8", "u128", "usize")]
    if fam == "number": out += [("number(range(Inside(min = -1.5, max = 3)))", "f32")]
    if fam == "phone":
        out += [("phone(countries(TW))", shape(fam)), ("phone(countries(TW, US))", "std::collections::HashMap<validators::phonenumber::country::Id, validators::phonenumber::PhoneNumber>")]
    return out


def program(fam, serde):
    decls, calls = "", ""
    for i, (a, s) in enumerate(configs(fam)):
        decls += f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct V{i}{body(s)}\n"
        for t in TRAITS[fam]:
            o = OBS[t]
            if fam == "length" and t == "c": o = "K"
            calls += f"    obs!({o}, V{i});\n"
        if serde:
            if fam != "length": calls += f"    obs!(D, V{i});\n    obs!(R, V{i});\n"
    return PROG % dict(decls=decls, calls=calls, texts=texts(), ints=ints())


def nostd_lib(fam):
    t = "#![no_std]\n#![allow(warnings)]\nextern crate alloc;\nuse alloc::{string::String, vec::Vec};\nuse validators::prelude::*;\n#[panic_handler]\nfn panic(_: &core::panic::PanicInfo) -> ! { loop {} }\n"
    for i, (a, s) in enumerate(configs(fam)):
        t += f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct V{i}{body(s)}\n"
    return t


def crate(name, feats, lib, bins):
    d = tempfile.mkdtemp(prefix="vmon-C28-")
    os.makedirs(os.path.join(d, "src", "bin"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f: f.write(MANI.format(name=name, features=json.dumps(feats)))
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "lib.rs"), "w") as f: f.write(lib)
    for b, t in bins.items():
        with open(os.path.join(d, "src", "bin", b + ".rs"), "w") as f: f.write(t)
    return d


def build(d, target, jobs):
    env = dict(ENV, CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "build", "--offline", "-j", str(jobs), "--lib", "--bins"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def run(target, b):
    r = subprocess.run([os.path.join(target, "debug", b)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    return r.returncode, r.stdout, r.stderr


def lines(out):
    """one list per kind of observation"""
    d = {}
    for x in out.splitlines(): d.setdefault(x[:1], []).append(x)
    return d


def main():
    t0 = time.time()
    violations, errors = [], []
    ref, stat = {}, dict(builds=0, compared=0, nostd=0, accepted=0, library=0)
    rows = []

    def reference():
        d = crate("refall", ["std", "derive", "full", "all-validators", "serde", "rocket", "axum"], "", {f"r_{f}": program(f, True) for f in FAMS})
        try:
            ok, log = build(d, os.path.join(TARGET, "lane-ref"), 6)
            if not ok: return log
            for f in FAMS:
                rc, out, err = run(os.path.join(TARGET, "lane-ref"), f"r_{f}")
                if rc: errors.append(f"reference {f} ended with {rc}: {err[-500:]}")
                ref[f] = out
        finally:
            shutil.rmtree(d, ignore_errors=True)

    got = []

    def lane(k):
        target = os.path.join(TARGET, f"lane-{k}")
        rng = random.Random(SEED * 100 + k)
        for serde in (False, True):
            for fam in LANES[k]:
                if fam == "json" and not serde: continue  # json brings serde
                for std in ((None,) if fam in STD else (False, True)):
                    feats = ["derive", fam] + (["serde"] if serde and fam != "json" else []) + (["std"] if std else [])
                    lib = nostd_lib(fam) if std is False else ""
                    d = crate(f"alone{k}", feats, lib, {f"a{k}": program(fam, serde)})
                    try:
                        ok, log = build(d, target, 2)
                        res = run(target, f"a{k}") if ok else None
                    except subprocess.TimeoutExpired:
                        res = (-1, "", "no answer within 120 s")
                    finally:
                        shutil.rmtree(d, ignore_errors=True)
                    got.append((fam, feats, std is False, ok, log, res))
        # without the derive macro: traits, errors and models alone
        for fam in LANES[k]:
            for feats in ([fam], [fam, "serde"]):
                std = fam in STD
                lib = "" if std else "#![no_std]\n#[panic_handler]\nfn panic(_: &core::panic::PanicInfo) -> ! { loop {} }\n"
                d = crate(f"alone{k}", feats, lib + f"pub use validators::errors::{ERR[fam]};\n", {})
                try:
                    ok, log = build(d, target, 2)
                finally:
                    shutil.rmtree(d, ignore_errors=True)
                got.append((fam, feats, not std, ok, log, None))
        # together with other features
        more = [[rng.choice(LANES[k]), rng.choice(FAMS)] for _ in range(2 if TIER != "thorough" else 12)]
        more = [m for m in more if m[0] != m[1]]
        if TIER == "thorough": more += [[f, x] for f in LANES[k] for x in ("rocket", "axum", "byte-unit-u128", "full", "all-validators")]
        for m in more:
            fam = m[0]
            if "byte-unit-u128" in m and fam in ("bit", "byte"): continue  # documented to change the range
            d = crate(f"alone{k}", ["derive"] + m, "", {f"a{k}": program(fam, False)})
            try:
                ok, log = build(d, target, 2)
                res = run(target, f"a{k}") if ok else None
            except subprocess.TimeoutExpired:
                res = (-1, "", "no answer within 120 s")
            finally:
                shutil.rmtree(d, ignore_errors=True)
            got.append((fam, ["derive"] + m, False, ok, log, res))

    with ThreadPoolExecutor(9) as ex:
        fr = ex.submit(reference)
        fs = [ex.submit(lane, k) for k in range(len(LANES))]
        for f in fs: f.result()
        bad = fr.result()
    if bad:
        die("error: the build with all features fails\n" + bad[-3000:])
    for fam, feats, nostd, ok, log, res in got:
        stat["builds"] += 1
        what = ",".join(feats)
        if not ok:
            i = log.find("error")
            violations.append(dict(fam="features", target=what, kind="does not build alone", input=dict(features=feats, no_std_library=nostd), what=log[max(0, i):i + 1500]))
            continue
        stat["nostd"] += nostd
        if res is None:
            stat["library"] += 1
            continue
        rc, out, err = res
        if rc:
            violations.append(dict(fam="features", target=what, kind="the program failed", input=dict(features=feats), what=err[-800:])); continue
        a, b = lines(out), lines(ref[fam])
        n = 0
        for k, xs in a.items():
            ys = b.get(k, [])
            n += len(xs)
            for x, y in zip(xs, ys):
                if x != y:
                    violations.append(dict(fam="features", target=what, kind="another verdict than with every feature", input=dict(features=feats, observation=x), what=f"with every feature: {y}"))
                    break
            else:
                if len(xs) != len(ys):
                    violations.append(dict(fam="features", target=what, kind="another number of accepted inputs", input=dict(features=feats, kind=k), what=f"{len(xs)} and {len(ys)} observations"))
        acc = sum(" ok " in x for x in out.splitlines())
        stat["compared"] += n; stat["accepted"] += acc
        rows.append(dict(features=what, observations=n, accepted=acc, no_std_library=nostd))
    cov = dict(evaluations=stat["compared"], distinct_nontrivial=stat["builds"], rule="one feature set each; non-trivial when a program for it was built and run, or its failure to build was observed; evaluations are observations compared with the all-features build",
               samples=rows[:: max(1, len(rows) // 12)], builds=stat["builds"], without_derive=stat["library"], no_std_builds=stat["nostd"], accepted_observations=stat["accepted"], feature_sets=rows)
    finish("C28", cov, violations, errors, t0, ["the Rust compiler and cargo's feature resolution"])
