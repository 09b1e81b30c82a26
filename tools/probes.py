"""C26: the derive macro builds every legal configuration and refuses the others.

Every probe is one real declaration handed to the real macro and the real
compiler. The monitor reads the compiler's diagnostics and attributes each to
the probe whose lines it points at; the built probes are then run and report
which traits they have and how they behave.
"""
import itertools, json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from check import VERIF, TARGET, TIER, SEED, ENV, die, finish

TRI = ["Must", "Allow", "Disallow"]
TWO = ["Allow", "Disallow"]
IPT = {"ip": "std::net::IpAddr", "ipv4": "std::net::Ipv4Addr", "ipv6": "std::net::Ipv6Addr"}
HOST = "validators::models::Host"
URL = "validators::url::Url"
COMMENTS = ["comment_before_local_part", "comment_after_local_part", "comment_before_domain_part", "comment_after_domain_part"]

# ------------------------------------------------------------------ what is documented
ERR = {"base32": "Base32Error", "base32_decoded": "Base32DecodedError", "base64": "Base64Error", "base64_decoded": "Base64DecodedError",
       "base64_url": "Base64UrlError", "base64_url_decoded": "Base64UrlDecodedError", "bit": "BitError", "boolean": "BooleanError", "byte": "ByteError",
       "domain": "DomainError", "email": "EmailError", "host": "HostError", "http_url": "HttpURLError", "http_ftp_url": "HttpFtpURLError", "ip": "IpError",
       "ipv4": "Ipv4Error", "ipv6": "Ipv6Error", "json": "JsonError", "length": "LengthError", "line": "LineError", "mac_address": "MacAddressError",
       "number": "NumberError", "phone": "PhoneError", "regex": "RegexError", "semver": "SemverError", "semver_req": "SemverError",
       "signed_integer": "SignedIntegerError", "text": "TextError", "unsigned_integer": "UnsignedIntegerError", "url": "UrlError", "uuid": "UuidError"}
FAMS = list(ERR)
# S string B bytes C char I signed U unsigned N number O bool J json value L length
# q QualifyDomain a ToUriAuthorityString e ToEmailString m ToMacAddressString u ToUuidString j ToJsonString c CollectionLength
TRAITS = {"base32": "SB", "base32_decoded": "SBc", "base64": "SB", "base64_decoded": "SBc", "base64_url": "SB", "base64_url_decoded": "SBc",
          "bit": "SU", "boolean": "SCIUO", "byte": "SU", "domain": "Sqa", "email": "Se", "host": "Sa", "http_url": "S", "http_ftp_url": "S",
          "ip": "Sa", "ipv4": "Sa", "ipv6": "Sa", "json": "SIUNOJj", "length": "Lc", "line": "S", "mac_address": "Sm", "number": "SN", "phone": "S",
          "regex": "S", "semver": "S", "semver_req": "S", "signed_integer": "SI", "text": "S", "unsigned_integer": "SU", "url": "S", "uuid": "Su"}
PATHS = {"S": "ValidateString", "B": "ValidateBytes", "C": "ValidateChar", "I": "ValidateSignedInteger", "U": "ValidateUnsignedInteger",
         "N": "ValidateNumber", "O": "ValidateBoolean", "J": "ValidateJsonValue", "L": "ValidateLength<Vec<u8>>", "q": "QualifyDomain",
         "a": "ToUriAuthorityString", "e": "ToEmailString", "m": "ToMacAddressString", "u": "ToUuidString", "j": "ToJsonString", "c": "CollectionLength"}
ALLT = "SBCIUNOJLqaemujc"
PARAMS = {  # name, values, documented default
    **{b: [("padding", TRI, "Allow")] for b in FAMS if b.startswith("base")},
    "byte": [("ignore_case", ["true", "false"], "true")],
    "domain": [("ipv4", TRI, "Allow"), ("local", TRI, "Allow"), ("port", TRI, "Allow"), ("at_least_two_labels", TRI, "Allow")],
    "email": [("comment", TWO, "Allow"), ("ip", TRI, "Allow"), ("local", TRI, "Allow"), ("at_least_two_labels", TRI, "Allow"), ("non_ascii", TWO, "Allow")],
    "host": [("local", TRI, "Allow"), ("port", TRI, "Allow"), ("at_least_two_labels", TRI, "Allow")],
    "http_url": [("local", TRI, "Allow")], "http_ftp_url": [("local", TRI, "Allow")],
    **{f: [("local", TRI, "Allow"), ("port", TRI, "Allow")] for f in IPT},
    "mac_address": [("case", ["Any", "Upper", "Lower"], "Any"), ("separator", ["Must(b'-')", "Allow(b':')", "Allow(b'-')", "Disallow"], "Allow(b':')")],
    "uuid": [("case", ["Any", "Upper", "Lower"], "Any"), ("separator", ["Must(b':')", "Allow(b'-')", "Allow(b':')", "Disallow"], "Allow(b'-')")],
    "number": [("nan", TRI, "Allow"), ("range", ["Unlimited", "Inside(min = -2, max = 3.5)", "Outside(min = 0)"], "Unlimited")],
    "signed_integer": [("range", ["Unlimited", "Inside(min = -2, max = 3)", "Outside(min = 0)"], "Unlimited")],
    "unsigned_integer": [("range", ["Unlimited", "Inside(min = 2, max = 30)", "Outside(min = 5)"], "Unlimited")],
}
NEED = {"regex": ['regex("^[a-c]{2,4}$")']}  # a parameter which must be given


def shape(fam, p=None):
    """the documented fields of a configuration: (tuple type) or a list of named fields"""
    g = lambda n: (p or {}).get(n, "Allow")
    if fam in ("base32", "base64", "base64_url", "line", "text", "regex"): return "String"
    if fam.endswith("_decoded"): return "Vec<u8>"
    if fam == "length": return "Vec<u8>"
    if fam == "bit": return "validators::byte_unit::Bit"
    if fam == "byte": return "validators::byte_unit::Byte"
    if fam == "boolean": return "bool"
    if fam == "json": return "validators::serde_json::Value"
    if fam == "mac_address": return "u64"
    if fam == "uuid": return "u128"
    if fam == "number": return "f64"
    if fam == "signed_integer": return "i16"
    if fam == "unsigned_integer": return "u16"
    if fam == "phone": return "validators::phonenumber::PhoneNumber"
    if fam == "semver": return "validators::semver::Version"
    if fam == "semver_req": return "validators::semver::VersionReq"
    if fam == "url": return URL
    if fam == "http_url": return [("url", URL), ("is_https", "bool")]
    if fam == "http_ftp_url": return [("url", URL), ("protocol", "validators::models::Protocol")]
    port = {"Allow": [("port", "Option<u16>")], "Must": [("port", "u16")], "Disallow": []}[g("port")]
    if fam in IPT: return [(fam, IPT[fam])] + port if port else IPT[fam]
    loc = [("is_local", "bool")] if g("local") == "Allow" and g("at_least_two_labels") != "Allow" else []
    if fam == "host": return [("host", HOST)] + port + loc if port or loc else HOST
    if fam == "domain":
        v4 = [("is_ipv4", "bool")] if loc and g("ipv4") == "Allow" else []
        return [("domain", "String")] + port + loc + v4 if port or loc else "String"
    if fam == "email":
        f = [("local_part", "String"), ("need_quoted", "bool"), ("domain_part", {"Allow": HOST, "Must": "std::net::IpAddr", "Disallow": "String"}[g("ip")])]
        if g("comment") != "Disallow": f += [(c, "Option<String>") for c in COMMENTS]
        return f + loc
    raise KeyError(fam)


def body(s, vis="pub "):
    if isinstance(s, str): return f"({vis}{s});"
    return " { " + ", ".join(f"{vis}{n}: {t}" for n, t in s) + " }"


def attr(fam, items):
    return f"{fam}({', '.join(items)})" if items else fam


def spell(n, v, how="("):
    if n == "range": return f"range({v})"
    if how == "=" and "(" not in v and v != "Disallow" or how == "=" and n != "separator" and "(" not in v: return f"{n} = {v}"
    return f"{n}({v})"


class Probe:
    def __init__(self, key, text, name="", **kw):
        self.key, self.text, self.name = key, text, name
        self.__dict__.update(kw)


# ------------------------------------------------------------------ legal probes
class Legal:
    def __init__(self):
        self.probes = []
        self.groups = {}  # group -> [struct names]
        self.n = 0

    def add(self, key, fam, items, s, group=None, ser=True, de=True, ff=True, fp=True, derive="Debug, Validator", pre="", matrix=True, name=None, raw_attr=None, raw_body=None):
        self.n += 1
        name = name or f"P{self.n}"
        a = raw_attr or attr(fam, items)
        text = f"{pre}#[derive({derive})]\n#[validator({a})]\npub struct {name}{raw_body or body(s)}\n"
        p = Probe(f"{fam} {key}", text, name, fam=fam, attr=a, matrix=matrix, group=group,
                  flags=(ser, de, ff if fam != "length" else False, fp if fam != "length" else False))
        self.probes.append(p)
        if group: self.groups.setdefault(group, []).append(p)
        return p


FLAG2 = {None: (True, True), "": (True, True), " = true": (True, True), " = false": (False, False)}
SERDE = [None, "", " = true", " = false", "(Serialize)", "(Deserialize)", "(Serialize, Deserialize)", "(Deserialize, Serialize)"]
ROCKET = [None, "", " = true", " = false", "(FromFormField)", "(FromParam)", "(FromFormField, FromParam)", "(FromParam, FromFormField)"]


def two(o, a, b):
    return FLAG2[o] if o in FLAG2 else (a in o, b in o)


def legal():
    L = Legal()
    # serde and rocket switches
    pairs = [(s, r) for s in SERDE[1:] for r in ROCKET[1:]]
    for i, fam in enumerate(FAMS):
        base = NEED.get(fam, [])
        rk = fam != "length"
        combos = [(s, None) for s in SERDE] + ([(None, r) for r in ROCKET[1:]] if rk else [])
        if rk:
            combos += pairs if TIER == "thorough" else [pairs[(i * 6 + j) % len(pairs)] for j in range(6)]
        for j, (s, r) in enumerate(combos):
            ps = [f"serde{s}"] * (s is not None) + [f"rocket{r}"] * (r is not None)
            if j % 2: ps.reverse()
            if j % 3 == 1: items = ps + base
            else: items = base + ps
            se, de = two(s, "Serialize", "Deserialize")
            ff, fp = two(r, "FromFormField", "FromParam")
            L.add(f"serde{s if s is not None else ' omitted'} rocket{r if r is not None else ' omitted'}", fam, items, shape(fam), None, se, de, ff, fp)
    # all combinations of the enumerated parameters
    for fam, ps in PARAMS.items():
        for k, combo in enumerate(itertools.product(*[v for _, v, _ in ps])):
            d = dict(zip([n for n, _, _ in ps], combo))
            items = [spell(n, d[n], "(=,"[(k + x) % 2]) for x, (n, _, _) in enumerate(ps)]
            con = fam == "domain" and d["ipv4"] == "Must" and d["at_least_two_labels"] == "Disallow" \
                or fam == "email" and d["ip"] == "Must" and d["at_least_two_labels"] == "Disallow" \
                or fam == "number" and d["nan"] == "Must" and d["range"].startswith("Inside")
            if con: items.append("conflict(Allow)" if k % 2 else "conflict = Allow")
            if k % 3 == 2: items.reverse()
            s = shape(fam, d)
            if isinstance(s, list) and k % 4 == 3: s = s[::-1]
            L.add("combination " + ", ".join(f"{n}={v}" for n, v in d.items()), fam, items, s, ("full", fam, tuple(sorted(d.items()))), matrix=k % 5 == 0)
            # every parameter at its default may be left out
            omit = [spell(n, d[n], "=(,"[(k + x) % 2]) for x, (n, _, dv) in enumerate(ps) if d[n] != dv]
            if len(omit) < len(ps) and (len(ps) < 4 or len(omit) <= 2):
                if con: omit.append("conflict(Allow)")
                L.add("defaults left out " + ", ".join(omit), fam, omit, shape(fam, d), ("full", fam, tuple(sorted(d.items()))), matrix=False)
    eq = lambda tag, fam, forms, s=None: [L.add(f"spelling {a}", fam, [], s or shape(fam), ("eq", fam, tag), raw_attr=a, matrix=False) for a in forms]
    for fam in FAMS:
        if fam not in NEED:
            eq("bare", fam, [fam, f"{fam}()"])
        b = ", ".join(NEED.get(fam, []) + ["serde"])
        eq("comma", fam, [f"{fam}({b})", f"{fam}({b},)"])
    for fam, h in (("line", "char"), ("line", "byte"), ("text", "char"), ("text", "byte")):
        for mn, tm, mx in ((3, None, None), (None, None, 5), (3, None, 5), (3, None, 3), (None, 2, None), (None, 2, 4), (4, 2, 8), (2, 2, 2), (0, 0, 0), (None, 0, None), (0, None, 9), (None, 3, 3), (5, 1, 5), (5, 0, None)):
            ps = [(n, v) for n, v in (("min", mn), ("trimmed_min", tm), ("max", mx)) if v is not None]
            eq((h, mn, tm, mx), fam, [f"{fam}({h}_length({', '.join(f'{n} = {v}' for n, v in ps)}))", f"{fam}({h}_length({', '.join(f'{n}({v})' for n, v in reversed(ps))}))",
                                      f"{fam}({h}_length({', '.join(f'{n} = {v:#x}' for n, v in ps)},), rocket)"])
    for mn, mx in ((3, None), (None, 5), (3, 5), (3, 3), (0, 0), (0, None), (None, 0)):
        ps = [(n, v) for n, v in (("min", mn), ("max", mx)) if v is not None]
        eq((mn, mx), "length", [f"length({', '.join(f'{n} = {v}' for n, v in ps)})", f"length({', '.join(f'{n}({v})' for n, v in reversed(ps))})", f"length({', '.join(f'{n} = {v}' for n, v in reversed(ps))}, serde)"])
    for fam, wrap in (("bit", None), ("byte", None), ("unsigned_integer", "Inside"), ("unsigned_integer", "Outside"), ("signed_integer", "Inside"), ("signed_integer", "Outside"), ("number", "Inside"), ("number", "Outside")):
        r = (lambda x: f"{fam}(range({x}))") if wrap is None else (lambda x: f"{fam}(range({wrap}({x})))")
        eq((wrap, "3..=20"), fam, [r("min = 3, max = 20"), r("max(20), min(3)"), r("min = 3, max = 20, inclusive = true"), r("inclusive(true), min = 0x3, max = 2_0"), r("3..=20"), r("3 ..= 20")])
        eq((wrap, "3..20"), fam, [r("min = 3, max = 20, inclusive = false"), r("min = 3, inclusive(false), max = 20"), r("3..20")])
        eq((wrap, "3.."), fam, [r("min = 3"), r("min(3),"), r("3..")])
        eq((wrap, "..=20"), fam, [r("max = 20"), r("max(20)"), r("..=20")])
        eq((wrap, "..20"), fam, [r("max = 20, inclusive = false"), r("..20")])
        eq((wrap, "3..=3"), fam, [r("min = 3, max = 3"), r("3..=3")])
        eq((wrap, "3..4"), fam, [r("min = 3, max = 4, inclusive = false"), r("3..4")])
        if wrap:
            eq((wrap, "nv"), fam, [r("min = 3, max = 20"), f"{fam}(range({wrap} = 3..=20))"])
        else:
            eq((wrap, "nv"), fam, [r("min = 3, max = 20"), f"{fam}(range = 3..=20)"])
        if fam in ("signed_integer", "number"):
            eq((wrap, "neg"), fam, [r("min = -20, max = -3"), r("max(-3), min(-20)")])
    eq("float", "number", ["number(range(Inside(min = 0.5, max = 2.5)))", "number(range(Inside(min(0.5), max(2.5))))", "number(range(Inside(0.5..=2.5)))", "number(range(Inside(min = 5e-1, max = 25e-1)))"])
    for fam in ("mac_address", "uuid"):
        for m in ("Must", "Allow"):
            eq(("sep", m), fam, [f"{fam}(separator({m}(b'.')))", f"{fam}(separator({m} = b'.'))", f"{fam}(separator({m}(b'\\x2e')))"])
    eq("re", "regex", ['regex(regex("^[a-c]{2,4}$"))', 'regex(regex = "^[a-c]{2,4}$")', 'regex(regex(r"^[a-c]{2,4}$"))', 'regex(regex = r#"^[a-c]{2,4}$"#)', 'regex(regex(THE_REGEX))', 'regex(regex = THE_REGEX)'])
    # boundary literals of every width
    for sg, fam in (("i", "signed_integer"), ("u", "unsigned_integer")):
        for w in ("8", "16", "32", "64", "128", "size"):
            bits = 64 if w == "size" else int(w)
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg == "i" else (0, (1 << bits) - 1)
            for k in ("Inside", "Outside"):
                for what, r in (("lowest", f"min = {lo}"), ("highest", f"max = {hi}"), ("whole", f"min = {lo}, max = {hi}"), ("last", f"min = {hi}, max = {hi}"),
                                ("first", f"min = {lo}, max = {lo}"), ("below highest", f"min = {lo}, max = {hi}, inclusive = false")):
                    L.add(f"{sg}{w} {k} {what}", fam, [f"range({k}({r}))"], f"{sg}{w}", ("same", fam, f"{k} {sg}{w}") if what in ("lowest", "highest", "whole") else None, matrix=False)
                if k == "Inside": L.add(f"{sg}{w} unlimited", fam, [], f"{sg}{w}", ("same", fam, f"{k} {sg}{w}"), matrix=False)
    for fam in ("bit", "byte"):
        L.add("whole u64", fam, ["range(min = 0, max = 18446744073709551615)"], shape(fam), matrix=False)
    for ty in ("f32", "f64"):
        L.add(f"{ty}", "number", ["range(Inside(min = -1.5, max = 1e10))"], ty, matrix=False)
    for fam in ("line", "text"):
        for h in ("char", "byte"):
            L.add(f"{h}_length up to the highest", fam, [f"{h}_length(max = 18446744073709551615)"], shape(fam), ("same", fam, "unlimited"), matrix=False)
            L.add(f"{h}_length from the highest", fam, [f"{h}_length(min = 18446744073709551615)"], shape(fam), ("same", fam, f"none {h}"), matrix=False)
            L.add(f"{h}_length trimmed from the highest", fam, [f"{h}_length(trimmed_min = 18446744073709551615)"], shape(fam), ("alone", fam, f"trimmed {h}"), matrix=False)
        L.add("unlimited", fam, [], shape(fam), ("same", fam, "unlimited"), matrix=False)
    L.add("up to the highest", "length", ["max = 18446744073709551615"], shape("length"), ("same", "length", "unlimited"), matrix=False)
    L.add("unlimited", "length", [], shape("length"), ("same", "length", "unlimited"), matrix=False)
    # phones
    PN = "validators::phonenumber::PhoneNumber"
    MAP = f"std::collections::HashMap<validators::phonenumber::country::Id, {PN}>"
    L.add("one country", "phone", ["countries(TW)"], PN)
    L.add("two countries", "phone", ["countries(TW, US)"], MAP, ("same", "phone", "TW US"))
    L.add("two countries reversed", "phone", ["countries(US, TW)"], MAP, ("same", "phone", "TW US"))
    # macro_rules
    L.add("macro literals", "unsigned_integer", [], "u16", ("eq", "unsigned_integer", "mac"), matrix=False, raw_attr="unsigned_integer(range(Inside(min = $lo, max = $hi)))")
    p = L.probes[-1]
    p.text = "macro_rules! mk_%s { ($n:ident, $lo:literal, $hi:literal, $i:literal) => {\n" % p.name + p.text.replace(p.name, "$n").replace("max = $hi", "max = $hi, inclusive = $i") + "} }\nmk_%s!(%s, 7, 19, true);\n" % (p.name, p.name)
    L.add("no macro", "unsigned_integer", ["range(Inside(min = 7, max = 19))"], "u16", ("eq", "unsigned_integer", "mac"), matrix=False)
    # declarations
    for fam in FAMS:
        s = shape(fam); b = NEED.get(fam, []); g = ("decl", fam)
        L.add("plain", fam, b, s, g)
        L.add("private fields", fam, b, s, g, raw_body=body(s, ""), matrix=False)
        L.add("crate fields", fam, b, s, g, raw_body=body(s, "pub(crate) "), matrix=False)
        L.add("documented, other attributes, derive order", fam, b, s, g, derive="Validator, Debug", pre="/// a validator\n#[allow(missing_docs)]\n", matrix=False)
        if isinstance(s, list):
            L.add("fields reversed", fam, b, s[::-1], g, matrix=False)
    return L


# names a struct may have; a local name must not collide with what the macro generates
NAMES = {"url": ["Url"], "http_url": ["Url", "HttpUrl"], "http_ftp_url": ["Protocol"], "host": ["Host"], "domain": ["Domain"], "email": ["Email", "Host"], "ip": ["Ip", "Host"], "ipv4": ["Ipv4"], "ipv6": ["Ipv6"],
         "semver": ["Version"], "semver_req": ["VersionReq"], "phone": ["Phone", "PhoneNumber"], "bit": ["Bit"], "byte": ["Byte"], "json": ["Json", "Value"], "regex": ["Regex"],
         "uuid": ["Uuid"], "mac_address": ["MacAddress"], "line": ["Line"], "text": ["Text"], "length": ["Length"], "number": ["Number"], "boolean": ["Boolean"], "base64": ["Base64"]}
COMMON_NAMES = ["S", "V", "T", "D", "E", "MyVisitor", "Visitor", "Error", "Value", "r#type"]


def named(L):
    for fam in FAMS:
        b = NEED.get(fam, [])
        for n in dict.fromkeys(NAMES.get(fam, []) + COMMON_NAMES):
            L.n += 1
            m = f"n{L.n}"
            p = L.add(f"named {n}", fam, b, shape(fam), ("decl", fam), matrix=False, name=n)
            p.text = f"pub mod {m} {{ use validators::prelude::*;\n{p.text}}}\n"
            p.name = f"{m}::{n}"


# ------------------------------------------------------------------ illegal probes
RANGED = {"bit": "{}", "byte": "{}", "unsigned_integer": "Inside({})", "signed_integer": "Inside({})", "number": "Inside({})"}


def illegal():
    out = []
    n = [0]

    def raw(key, text):
        n[0] += 1
        out.append(Probe(key, text.replace("$N", f"X{n[0]}"), f"X{n[0]}"))

    def decl(key, fam, a, s=None):
        raw(f"{fam} {key}: {a}", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N{body(s if s is not None else shape(fam))}\n")

    for a in ("", '#[validator]\n', '#[validator = "base64"]\n', "#[validator()]\n", "#[validator(no_such_validator)]\n", "#[validator(base64, text)]\n", '#[validator("base64")]\n',
              "#[validator(Base64)]\n", "#[validator(validators::base64)]\n", "#[validators(base64)]\n", "#[validator(base65)]\n", "#[validator(_Nothing)]\n"):
        raw("attribute " + a.strip(), f"#[derive(Debug, Validator)]\n{a}pub struct $N(pub String);\n")
    for i, fam in enumerate(FAMS):
        need = NEED.get(fam, []); a = attr(fam, need); s = shape(fam)
        w = lambda *x: attr(fam, need + list(x))
        # shapes of the item
        raw(f"{fam} enum", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub enum $N {{ A(String) }}\n")
        raw(f"{fam} union", f"#[derive(Validator)]\n#[validator({a})]\npub union $N {{ a: u64 }}\n")
        raw(f"{fam} unit struct", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N;\n")
        raw(f"{fam} empty tuple", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N();\n")
        raw(f"{fam} empty struct", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N {{}}\n")
        raw(f"{fam} on a field", f"pub struct $N {{ #[validator({a})] pub a: String }}\n")
        if isinstance(s, str):
            raw(f"{fam} two elements", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N(pub {s}, pub {s});\n")
            raw(f"{fam} named instead of tuple", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N {{ pub a: {s} }}\n")
            for t in (("()",) if fam != "json" else ()) + ("&'static str", "std::collections::BTreeSet<Odd>", "Odd"):
                raw(f"{fam} wrong type {t}", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N(pub {t});\n")
        else:
            for k, (f, t) in enumerate(s):
                decl(f"without {f}", fam, a, s[:k] + s[k + 1:])
                decl(f"{f} misnamed", fam, a, s[:k] + [(f + "_", t)] + s[k + 1:])
                decl(f"{f} of a wrong type", fam, a, s[:k] + [(f, "Odd")] + s[k + 1:])
            decl("extra field", fam, a, s + [("extra", "bool")])
            decl("extra field with a default", fam, a, s + [("extra", "Option<u16>")])
            decl("tuple instead of named", fam, a, "String")
            raw(f"{fam} tuple of all fields", f"#[derive(Debug, Validator)]\n#[validator({a})]\npub struct $N({', '.join('pub ' + t for _, t in s)});\n")
        # the attribute
        raw(f"{fam} twice", f"#[derive(Debug, Validator)]\n#[validator({a})]\n#[validator({a})]\npub struct $N{body(s)}\n")
        o = FAMS[(i + 1) % len(FAMS)]
        raw(f"{fam} and {o}", f"#[derive(Debug, Validator)]\n#[validator({a})]\n#[validator({attr(o, NEED.get(o, []))})]\npub struct $N{body(s)}\n")
        decl("as name = value", fam, f"{fam} = 1")
        if need: decl("without the parameter", fam, fam)
        if need: decl("without the parameter", fam, f"{fam}(serde)")
        for x in ("no_such_parameter", "no_such_parameter = 1", "no_such_parameter(Allow)", '"text"', "serde, no_such_parameter(1)", "Serde", "padding_(Allow)", "crate::serde"):
            decl("unknown parameter", fam, w(x))
        known = {p for p, _, _ in PARAMS.get(fam, [])} | ({"range"} if fam in RANGED else set())
        for x in ("padding(Allow)", "local(Allow)", "port(Allow)", "ipv4(Allow)", "case(Any)", "nan(Allow)", "range(Unlimited)", "at_least_two_labels(Allow)", "separator(Disallow)", "ignore_case = true", "countries(TW)", "conflict(Allow)", "char_length(min = 1)"):
            p = x.split("(")[0].split(" ")[0]
            if p in known or p == "conflict" and fam in ("domain", "email", "number") or p == "countries" and fam == "phone" or p == "char_length" and fam in ("line", "text"): continue
            decl("parameter of another validator", fam, w(x))
        # switches
        for sw, x1, x2 in (("serde", "Serialize", "Deserialize"),) + ((("rocket", "FromFormField", "FromParam"),) if fam != "length" else ()):
            for v in ("()", "(Other)", f"({x1}, {x1})", f"({x1}, {x2}, {x1})", f"({x2}, Other)", " = 1", ' = "true"', f"({x1.lower()})", "(true)", f"({x1} {x2})", f" = {x1}"):
                decl("bad switch", fam, w(sw + v))
            for v in ("", " = false", f"({x1})"):
                decl("repeated switch", fam, w(sw + v, sw + v))
                decl("repeated switch", fam, w(sw + v, sw + " = true"))
        if fam == "length": decl("rocket", fam, "length(rocket)")
        # enumerated parameters
        for p, vs, dv in PARAMS.get(fam, []):
            if p == "range": continue
            good = [spell(p, v) for v in vs]
            for x in good:
                d = {p: x[len(p) + 1:-1]}
                decl("repeated parameter", fam, w(x, x), shape(fam, d))
                decl("repeated parameter", fam, w(x, "serde", x), shape(fam, d))
                decl("contradictory parameter", fam, w(x, [y for y in good if y != x][0]), shape(fam, d))
                decl("contradictory parameter", fam, w([y for y in good if y != x][0], x), shape(fam, d))
            for x in (p, f"{p} = 1", f'{p} = "Allow"', f"{p}()", f"{p}(Sometimes)", f"{p}(allow)", f"{p}(Allow, Must)", f"{p} = Sometimes", f"{p}(Must Allow)", f"{p}(1)"):
                decl("bad value", fam, w(x))
        for p in {"domain": ["conflict"], "email": ["conflict"], "number": ["conflict"]}.get(fam, []):
            for x in ("conflict", "conflict(Must)", "conflict = true", "conflict(Allow), conflict(Allow)", "conflict(Allow), conflict(Disallow)", "conflict()"):
                decl("bad conflict", fam, w(x))
        if fam in ("domain", "email"):
            q = "ipv4" if fam == "domain" else "ip"
            for x in ([f"{q}(Must)", "at_least_two_labels(Disallow)"], ["at_least_two_labels = Disallow", f"{q} = Must"], [f"{q}(Must)", "at_least_two_labels(Disallow)", "conflict(Disallow)"]):
                for extra in ([], ["local(Must)"], ["local(Disallow)"], ["port(Disallow)"] if fam == "domain" else ["comment(Disallow)"]):
                    d = {y.split("(")[0].split(" ")[0]: y.replace(" = ", "(").rstrip(")").split("(")[1] for y in x + extra}
                    decl("conflicting parameters", fam, w(*x, *extra), shape(fam, d))
        if fam == "email":
            for x in ("comment(Must)", "non_ascii(Must)"): decl("bad value", fam, w(x))
        if fam == "number":
            for r in ("Inside(min = 1, max = 2)", "Inside(min = 1)", "Inside(max = 1)", "Inside(1..2)"):
                decl("conflicting parameters", fam, f"number(nan(Must), range({r}))")
                decl("conflicting parameters", fam, f"number(range({r}), nan = Must, conflict(Disallow))")
        if fam in RANGED:
            R = lambda x: w(f"range({RANGED[fam].format(x)})")
            for x in ("min = 5, max = 3", "max = 3, min = 5", "min = 5, max = 4, inclusive = true", "min = 5, max = 5, inclusive = false", "min = 5, max = 3, inclusive = false", "5..=3", "5..5", "5..3", "inclusive = false, min(5), max(5)"):
                decl("empty range", fam, R(x))
            for x in ("min = 1, min = 1", "max = 9, max = 8", "min = 1, inclusive = true, inclusive = true", "min = 1, inclusive = false, inclusive = true", "minimum = 1", "min", "max", "min = true", 'min = "1"', "min = x", "inclusive = 1", "min()", "min = 1 + 1", "1", "min = 1, trimmed_min = 1", "\"a\"..\"b\"", "min(true)", "a..b"):
                decl("bad range", fam, R(x))
            for x in ("range", "range = 1", "range(Between(min = 1))", "range(inside(min = 1))", "range(Inside(min = 1), Outside(max = 1))", "range(Inside = 1)", "range(Inside)"):
                decl("bad range", fam, w(x))
            decl("repeated range", fam, w(f"range({RANGED[fam].format('min = 1')})", f"range({RANGED[fam].format('min = 1')})"))
            decl("repeated range", fam, w(f"range({RANGED[fam].format('min = 1')})", f"range({RANGED[fam].format('max = 9')})"))
            if RANGED[fam] != "{}":
                for x in ("Outside(min = 5, max = 3)", "Outside(5..=3)", "Outside(5..5)", "Outside(min = 5, max = 5, inclusive = false)", "Outside", "Unlimited = 1", "Unlimited(min = 5, max = 3)"):
                    decl("bad range", fam, w(f"range({x})"))
                decl("repeated range", fam, w("range(Unlimited)", "range(Inside(min = 1))"))
        if fam in ("bit", "byte"):
            for x in ("min = -1", "max = 1.5", "max = 340282366920938463463374607431768211456"): decl("outside the type", fam, w(f"range({x})"))
        if fam == "number":
            for t, x in (("f64", "min = abc"),): decl("outside the type", fam, w(f"range(Inside({x}))"), t)
        if fam in ("signed_integer", "unsigned_integer"):
            sg = fam[0] if fam[0] == "u" else "i"
            for wd in (8, 16, 32, 64, 128):
                lo, hi = (-(1 << wd - 1), (1 << wd - 1) - 1) if sg == "i" else (0, (1 << wd) - 1)
                for k in ("Inside", "Outside"):
                    decl("outside the type", fam, f"{fam}(range({k}(max = {hi + 1})))", f"{sg}{wd}")
                    decl("outside the type", fam, f"{fam}(range({k}(min({hi + 1}))))", f"{sg}{wd}")
                    decl("outside the type", fam, f"{fam}(range({k}(0..={hi + 1})))", f"{sg}{wd}")
                    decl("outside the type", fam, f"{fam}(range({k}(min = {lo - 1})))", f"{sg}{wd}")
            decl("fraction", fam, f"{fam}(range(Inside(min = 1.5)))")
            for t in ("u8", "usize", "u128") if sg == "i" else ("i8", "isize", "i128"): decl(f"wrong type {t}", fam, fam, t)
            for t in ("f64", "bool", "char", "String", "Option<%s16>" % sg): decl(f"wrong type {t}", fam, fam, t)
        if fam == "number":
            for t in ("u8", "i64", "String", "Option<f64>"): decl(f"wrong type {t}", fam, fam, t)
        if fam in ("line", "text"):
            for h in ("char_length", "byte_length"):
                for x in ("min = 5, max = 4", "trimmed_min = 5, min = 4", "min = 4, trimmed_min = 5, max = 9", "trimmed_min = 5, max = 4", "min = 9, trimmed_min = 1, max = 8", "max = 4, trimmed_min(5)"):
                    decl("empty length", fam, f"{fam}({h}({x}))")
                for x in ("min = -1", "min = 1.5", "min = true", 'max = "1"', "min", "minimum = 1", "min = 1, min = 1", "max = 1, max = 1", "trimmed_min = 1, trimmed_min = 1", "max = 18446744073709551616", "trimmed_max = 1", "min = 1, inclusive = true", "1..5"):
                    decl("bad length", fam, f"{fam}({h}({x}))")
                decl("bad length", fam, f"{fam}({h})"); decl("bad length", fam, f"{fam}({h} = 5)")
                decl("repeated length", fam, f"{fam}({h}(min = 1), {h}(min = 1))")
            decl("two units of length", fam, f"{fam}(char_length(min = 1), byte_length(min = 1))")
            decl("two units of length", fam, f"{fam}(byte_length(max = 9), char_length(min = 1))")
        if fam == "length":
            for x in ("min = 5, max = 4", "max(4), min(5)", "min = -1", "min = 1.5", "min", "max = 1, max = 1", "min = 1, min = 2", "trimmed_min = 1", "max = 18446744073709551616", "min = true"):
                decl("bad length", fam, f"length({x})")
        if fam in ("mac_address", "uuid"):
            for x in ("separator(Must)", "separator(Allow)", "separator", "separator(Must('-'))", 'separator(Must("-"))', "separator(Must(45))", "separator(b'-')", "separator = b'-'", "separator(Disallow(b'-'))", "separator(Maybe(b'-'))", "separator(Must(b'-'), Allow(b':'))", "separator = Disallow", "separator(Must(b'-', b':'))"):
                decl("bad separator", fam, f"{fam}({x})")
        if fam == "phone":
            for x in ("countries", "countries()", "countries(ZZ)", "countries(TW, TW)", "countries(TW, US, TW)", "countries(tw)", 'countries("TW")', "countries = TW", "countries(TW), countries(TW)", "countries(TW, XX)"):
                decl("bad countries", fam, f"phone({x})")
            decl("map for one country", fam, "phone(countries(TW))", "std::collections::HashMap<validators::phonenumber::country::Id, validators::phonenumber::PhoneNumber>")
            decl("no map for two countries", fam, "phone(countries(TW, US))")
        if fam == "regex":
            for x in ('regex("(")', 'regex = "["', 'regex("a{2,1}")', "regex", "regex(1)", "regex = 1", 'regex("a"), regex("a")', 'regex("a", "b")', "regex()", 'regex = true', "regex(b\"a\")", "regex('a')", "regex(no_such_item)"):
                decl("bad regex", fam, f"regex({x})")
    # every combination of parameters with the fields of another combination
    for fam in ("domain", "host", "email", "ip", "ipv4", "ipv6"):
        ps = PARAMS[fam]; shapes = {}
        for combo in itertools.product(*[v for _, v, _ in ps]):
            d = dict(zip([x for x, _, _ in ps], combo))
            shapes.setdefault(json.dumps(shape(fam, d)), []).append(d)
        for k, (sh, ds) in enumerate(sorted(shapes.items())):
            for k2, (sh2, _) in enumerate(sorted(shapes.items())):
                if sh == sh2: continue
                d = [x for x in ds if not (x.get("at_least_two_labels") == "Disallow" and "Must" in (x.get("ipv4"), x.get("ip")))]
                d = d[(k + k2 + SEED) % len(d)]
                decl("fields of another combination", fam, attr(fam, [spell(p, v) for p, v in d.items()]), json.loads(sh2, object_hook=None) if sh2[0] == '"' else [tuple(x) for x in json.loads(sh2)])
    return out


def bare_illegal():
    """without the serde and rocket features of the crate"""
    out = []
    for fam in FAMS:
        if fam == "json": continue
        for sw in ("serde", "serde = true", "serde(Serialize)", "serde(Deserialize)", "serde(Serialize, Deserialize)") + (() if fam == "length" else ("rocket", "rocket = true", "rocket(FromParam)", "rocket(FromFormField)")):
            n = f"X{len(out)}"
            out.append(Probe(f"without the feature, {fam} {sw}", f"#[derive(Debug, Validator)]\n#[validator({attr(fam, NEED.get(fam, []) + [sw])})]\npub struct {n}{body(shape(fam))}\n", n))
    return out


def bare_legal():
    L = Legal()
    for fam in FAMS:
        if fam == "json": continue
        for sw in ([], ["serde = false"]) + (() if fam == "length" else (["rocket = false"], ["rocket = false", "serde = false"])):
            L.add(f"without the features, {', '.join(sw)}", fam, NEED.get(fam, []) + sw, shape(fam), matrix=False)
    return L


# ------------------------------------------------------------------ crates
MANI = """[package]
name = "{name}"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
validators = {{ path = "/repo/validators", default-features = false, features = {features} }}
[profile.dev]
debug = 0
incremental = false
debug-assertions = true
[profile.dev.package."*"]
opt-level = 2
debug = "line-tables-only"
"""
PREL = "#![allow(warnings)]\nuse validators::prelude::*;\npub struct Odd;\npub static THE_REGEX: std::sync::LazyLock<validators::regex::Regex> = std::sync::LazyLock::new(|| validators::regex::Regex::new(\"^[a-c]{2,4}$\").unwrap());\n"
KIND = {"S": "s", "B": "b", "C": "c", "I": "i", "U": "u", "N": "n", "O": "o", "J": "j", "L": "l"}


def crate(name, features, bins):
    """bins: {file: text}; libraries of probes, one target each, so that they are compiled side by side"""
    d = tempfile.mkdtemp(prefix=f"vmon-C26-{name}-")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(MANI.format(name=name, features=json.dumps(features)))
    shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    os.makedirs(os.path.join(d, "src", "bin"))
    for b, t in bins.items():
        with open(os.path.join(d, "src", "bin", b + ".rs"), "w") as f:
            f.write(t)
    return d


def cargo(d):
    """builds the crate; (ok, diagnostics with outermost spans, raw text)"""
    r = subprocess.run(["cargo", "build", "--offline", "--keep-going", "--bins", "--message-format=json"], cwd=d, env=dict(ENV, RUSTFLAGS="-Awarnings"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    diags, other = [], []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"].get("level") != "error": continue
        src = os.path.basename(m["target"]["src_path"])
        if not m["target"]["src_path"].startswith(d):
            other.append(m["message"].get("rendered", "")); continue
        ls = []
        for sp in m["message"]["spans"]:
            if not sp["is_primary"]: continue
            while sp.get("expansion"): sp = sp["expansion"]["span"]
            if os.path.basename(sp["file_name"]) == src: ls.append((sp["line_start"], sp["line_end"]))
        diags.append((src[:-3], ls, m["message"]["message"], m["message"].get("rendered") or ""))
    return r.returncode == 0, diags, other, r.stderr


def layout(probes, extra=lambda p: ""):
    """text of one file and the lines of each probe"""
    t, where, n = [PREL], [], PREL.count("\n") + 1
    for p in probes:
        x = p.text + extra(p)
        k = x.count("\n")
        t.append(x); where.append((n, n + k - 1, p)); n += k
    return "".join(t), where


def owner(where, line):
    for a, b, p in where:
        if a <= line <= b: return p
    return None


def refuse(name, features, probes, nbin=6):
    """every probe must be refused with an error on its own lines; returns (observed messages, violations, errors)"""
    left = list(probes); seen = {}; rounds = 0; errors = []; violations = []
    while left:
        rounds += 1
        parts = [left[i::nbin] for i in range(nbin) if left[i::nbin]]
        bins, where = {}, {}
        for i, ps in enumerate(parts):
            t, w = layout(ps)
            bins[f"b{i}"] = t + "fn main() {}\n"; where[f"b{i}"] = w
        d = crate(name, features, bins)
        try:
            ok, diags, other, err = cargo(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if other:
            die("error: the crate itself does not build\n" + "\n".join(other)[:4000])
        hit = {}
        for b, ls, msg, ren in diags:
            for l, _ in ls:
                p = owner(where[b], l)
                if p: hit.setdefault(id(p), []).append((msg, ren))
        for p in left:
            if id(p) in hit: seen[p.key] = hit[id(p)][0][0]
        for p in left:
            for msg, ren in hit.get(id(p), []):
                if "panicked" in msg:
                    violations.append(dict(fam="derive macro", target=p.key, kind="the macro panicked", input=p.text, what=ren[:500]))
        if ok:
            for p in left:
                violations.append(dict(fam="derive macro", target=p.key, kind="accepted", input=p.text, what="this declaration is contradictory or ill-formed, and it compiles"))
            break
        if not hit:
            errors.append(f"{name}: errors outside every probe: " + "; ".join(m for _, _, m, _ in diags[:5]) + err[-1500:])
            break
        left = [p for p in left if id(p) not in hit]
    return seen, rounds, violations, errors


RUN = r'''
struct Ctl;
macro_rules! probe { ($n:ident, $($b:tt)+) => { pub struct $n<T>(core::marker::PhantomData<T>); impl<T: $($b)+> $n<T> { pub const HAS: bool = true; } impl<T> No for $n<T> {} } }
pub trait No { const HAS: bool = false; }
%(probes)s
probe!(HSer, validators::serde::Serialize);
probe!(HDe, validators::serde::de::DeserializeOwned);
probe!(HFf, for<'r> validators::rocket::form::FromFormField<'r>);
probe!(HFp, for<'r> validators::rocket::request::FromParam<'r>);
static TEXTS: &[&str] = &[%(texts)s];
static INTS: &[i128] = &[%(ints)s];
static NUMS: &[f64] = &[%(nums)s];
fn show<T: core::fmt::Debug, E: core::fmt::Debug>(r: Result<T, E>, name: &str, h: &mut Vec<String>) {
    h.push(match r { Ok(v) => { let s = format!("{v:?}"); match s.strip_prefix(name) { Some(x) => format!("ok {}", norm(x)), None => format!("ok {}", norm(&s)) } }, Err(e) => format!("refused {e:?}") });
}
// fields and map entries in a fixed order
fn norm(s: &str) -> String {
    let mut v: Vec<&str> = s.split([',', '{', '}', '(', ')']).map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
    v.sort_unstable();
    v.join("|")
}
macro_rules! obs {
    (s, $t:ty, $m:expr, $h:ident) => { for x in TEXTS { show(<$t>::parse_str(x), $m, &mut $h); } };
    (b, $t:ty, $m:expr, $h:ident) => { for x in TEXTS { show(<$t>::parse_u8_slice(x.as_bytes()), $m, &mut $h); } };
    (c, $t:ty, $m:expr, $h:ident) => { for x in TEXTS { if let Some(c) = x.chars().next() { show(<$t>::parse_char(c), $m, &mut $h); } } };
    (i, $t:ty, $m:expr, $h:ident) => { for x in INTS { show(<$t>::parse_i128(*x), $m, &mut $h); } };
    (u, $t:ty, $m:expr, $h:ident) => { for x in INTS { if *x >= 0 { show(<$t>::parse_u128(*x as u128), $m, &mut $h); } } };
    (n, $t:ty, $m:expr, $h:ident) => { for x in NUMS { show(<$t>::parse_f64(*x), $m, &mut $h); } };
    (o, $t:ty, $m:expr, $h:ident) => { for x in [true, false] { show(<$t>::parse_bool(x), $m, &mut $h); } };
    (j, $t:ty, $m:expr, $h:ident) => { for x in TEXTS { show(<$t>::parse_json_value(validators::serde_json::Value::from(*x)), $m, &mut $h); } };
    (l, $t:ty, $m:expr, $h:ident) => { for x in 0..40usize { show(<$t>::parse_collection(vec![0u8; x]), $m, &mut $h); } };
}
'''
MAIN = "fn main() {\n%s}\n"


def texts():
    t = ["", " ", "a", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefgh", "abcdefghijk", " abc ", "  ab", "a\\n", "a\\u{1}b", "\\u{e9}\\u{e9}", "\\u{4e2d}\\u{6587}", "   a   ",
         "AAAA", "AA==", "AA", "AAA=", "AAA", "MY======", "MY", "MFRGG===", "MFRGG", "_-8=", "_-8", "+/8=", "+/8",
         "true", "False", "1", "0", "yes", "N", "-1", "5", "2", "3", "4", "7", "19", "20", "21", "-2", "-3", "-20", "-21", "30", "31", "100", "127", "128", "255", "256", "-128", "-129", "32767", "32768", "65535", "65536", "1.5", "0.5", "2.5", "3.5", "3.6", "NaN", "inf", "-0", "1e10", "1e11",
         "3 B", "20 B", "21 b", "3 kb", "1 Kib", "2 KIB", "3b", "20b", "4 b", "1 kB",
         "localhost", "example.com", "example", "a.b.example.com.", "127.0.0.1", "8.8.8.8", "127.0.0.1:80", "8.8.8.8:80", "localhost:80", "example.com:80", "example.com:0", "example.com:65536", "[::1]", "::1", "[::1]:80", "[2001:4860:4860::8888]", "[2001:4860:4860::8888]:80", "2001:4860:4860::8888", "test.local", "::", "\\u{4e2d}\\u{6587}.com",
         "a@b", "a@b.c", "a@localhost", "a@[127.0.0.1]", "a@[8.8.8.8]", "a@8.8.8.8", "a@[IPv6:::1]", "(c)a@b.c", "a(c)@(d)b.c(e)", "\\u{e9}@b.c", "\\\"a b\\\"@b.c", "a@\\u{4e2d}.com", "(c)a@[8.8.8.8]",
         "http://example.com/", "https://localhost/", "ftp://example.com", "ftp://127.0.0.1/", "//example.com", "http://127.0.0.1:80/", "https://[::1]/", "mailto:a@b", "http://a",
         "00:11:22:33:44:ff", "00-11-22-33-44-ff", "00:11:22:33:44:FF", "00112233445a", "00112233445A", "00.11.22.33.44.ff",
         "12345678-1234-1234-1234-123456789abc", "12345678-1234-1234-1234-123456789ABC", "12345678123412341234123456789abc", "12345678:1234:1234:1234:123456789abc", "12345678.1234.1234.1234.123456789ABC", "12345678123412341234123456789ABC",
         "+886912345678", "0912345678", "+14155552671", "4155552671", "1.2.3", "^1.2", "1.2.3-a+b", "*", "null", "[1]", "{}", "\\\"x\\\"", "abcc", "bb"]
    return ", ".join(f'"{x}"' for x in t)


def ints():
    s = set(range(-25, 45)) | {1000, 65535, 65536}
    for b in (7, 8, 15, 16, 31, 32, 63, 64, 127):
        for k in (-2, -1, 0, 1):
            s |= {(1 << b) + k, -(1 << b) + k}
    return ", ".join("i128::MIN" if x == -(1 << 127) else str(x) for x in sorted(s) if -(1 << 127) <= x <= (1 << 127) - 1)


def tree_file(ps):
    hs = "".join(f"probe!(H{t}, {PATHS[t]});\n" for t in ALLT)
    def extra(p):
        e = ERR[p.fam]
        t = {"length": "ValidateLength<Vec<u8>>", "": ""}.get(p.fam, "ValidateString")
        return f"const _: fn(<{p.name} as {t}>::Error) -> validators::errors::{e} = |x| x;\n"
    text, where = layout(ps, extra)
    text += RUN % dict(probes=hs, texts=texts(), ints=ints(), nums="-1e300, -20.5, -20.0, -3.0, -2.0, -1.5, -0.0, 0.0, 0.5, 1.5, 2.5, 2.6, 3.0, 3.5, 4.0, 19.5, 20.0, 20.5, 1e10, 1e11, f64::NAN, f64::INFINITY, f64::NEG_INFINITY")
    fs, calls = [], []
    for p in ps:
        x = []
        if p.matrix:
            x.append("    let m = [%s];\n    println!(\"M %s {}\", m.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>());\n" % (", ".join(f"H{t}::<{p.name}>::HAS" for t in list(ALLT) + ["Ser", "De", "Ff", "Fp"]), p.name))
        if p.group:
            x.append("    let mut h: Vec<String> = Vec::new();\n" + "".join(f"    obs!({KIND[t]}, {p.name}, \"{p.name.split('::')[-1].replace('r#', '')}\", h);\n" for t in TRAITS[p.fam] if t in KIND))
            x.append(f"    println!(\"G {p.name} {{}}\", h.join(\"\\u{{1}}\").replace('\\n', \"\\u{{2}}\"));\n")
        if x:
            n = p.name.replace("::", "_").replace("#", "_")
            fs.append(f"fn run_{n}() {{\n    eprintln!(\"AT {p.name}\");\n{''.join(x)}}}\n"); calls.append(f"    run_{n}();\n")
    return text + "".join(fs) + MAIN % "".join(calls), where


FEATS = ["std", "derive", "full", "all-validators", "serde", "rocket"]


def build_legal(name, features, probes, nbin, filer):
    """all must compile; those that do not are reported and left out. Returns (executables' output, violations, errors, rounds)"""
    left = list(probes); violations, errors = [], []
    for rounds in range(1, 12):
        k = max(1, min(nbin, len(left)))
        # a group stays in one file
        gs = {}
        for p in left: gs.setdefault(p.group or id(p), []).append(p)
        parts = [[] for _ in range(k)]
        for g in sorted(gs.values(), key=lambda g: -len(g)):
            min(parts, key=len).extend(g)
        bins, where = {}, {}
        for i, ps in enumerate(parts):
            bins[f"l{i}"], where[f"l{i}"] = filer(ps)
        d = crate(name, features, bins)
        keep = False
        try:
            ok, diags, other, err = cargo(d)
            if other: die("error: the crate itself does not build\n" + "\n".join(other)[:4000])
            if ok:
                out = []
                for b in bins:
                    r = subprocess.run([os.path.join(TARGET, "debug", b)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
                    if r.returncode != 0:
                        at = [x[3:] for x in r.stderr.splitlines() if x.startswith("AT ")]
                        p = next((p for p in left if at and p.name == at[-1]), None)
                        if p: violations.append(dict(fam="derive macro", target=p.key, kind="the built declaration fails at run time", input=p.text, what=r.stderr.split("AT " + p.name)[-1][:900]))
                        else: errors.append(f"{name} {b} ended with {r.returncode}: {r.stderr[-800:]}")
                    out.append(r.stdout)
                return "".join(out), left, violations, errors, rounds
        finally:
            shutil.rmtree(d, ignore_errors=True)
        hit = {}
        for b, ls, msg, ren in diags:
            for l, _ in ls:
                p = owner(where[b], l)
                if p: hit.setdefault(id(p), []).append((msg, ren))
        if not hit:
            errors.append(f"{name}: errors outside every probe: " + "; ".join(m for _, _, m, _ in diags[:8]) + err[-1500:])
            break
        for p in left:
            if id(p) in hit:
                violations.append(dict(fam="derive macro", target=p.key, kind="does not compile", input=p.text, what=hit[id(p)][0][1][:900], id=p.key))
        left = [p for p in left if id(p) not in hit]
    return "", left, violations, errors, rounds


def plain_file(ps):
    t, w = layout(ps)
    return t + "fn main() {}\n", w


def known():
    """{probe key: the listed finding}: a finding names the probe and the validators it concerns"""
    out = {}
    with open(os.path.join(VERIF, "known-findings")) as f:
        for line in f:
            m = re.match(r"open: property=C26 probe=\[(.*?)\] validators=\[(.*?)\] (.*)", line)
            if m:
                for v in m[2].split(","): out[f"{v} {m[1]}"] = (m[1], m[3].strip())
    return out


def main():
    t0 = time.time()
    violations, errors = [], []
    L = legal(); named(L)
    out, built, v, e, rounds = build_legal("legal", FEATS, L.probes, 8, tree_file)
    violations += v; errors += e
    byname = {p.name: p for p in built}
    matrix, seen = {}, {}
    for line in out.splitlines():
        k, n, x = line.split(" ", 2) if line.count(" ") > 1 else (*line.split(" "), "")
        (matrix if k == "M" else seen)[n] = x
    for n, bits in matrix.items():
        p = byname[n]
        want = [t in TRAITS[p.fam] for t in ALLT] + list(p.flags)
        names = [PATHS[t] for t in ALLT] + ["Serialize", "Deserialize", "FromFormField", "FromParam"]
        for b, w, t in zip(bits, want, names):
            if (b == "1") != w:
                violations.append(dict(fam="derive macro", target=p.key, kind="undocumented trait" if b == "1" else "missing trait", input=p.text, what=f"{t} is {'implemented' if b == '1' else 'not implemented'}"))
    behaviours = {}
    groups = {}
    for p in built:
        if p.group and p.name in seen: groups.setdefault(p.group, []).append(p)
    for g, ps in groups.items():
        outs = {p.name: seen[p.name].split("\1") for p in ps}
        first = ps[0]
        behaviours.setdefault(first.fam, set()).add(seen[first.name])
        for p in ps[1:]:
            if outs[p.name] != outs[first.name]:
                i = next((i for i, (a, b) in enumerate(zip(outs[p.name], outs[first.name])) if a != b), -1)
                violations.append(dict(fam="derive macro", target=p.key, kind="two equivalent declarations behave differently", input=p.text + "----\n" + first.text,
                                       what=f"observation {i}: {outs[p.name][i]!r} and {outs[first.name][i]!r}"))
    I = illegal()
    said, r2, v, e = refuse("illegal", FEATS, I)
    violations += v; errors += e
    bf = ["std", "derive", "full"] + [f for f in FAMS if f != "json"]
    _, bl, v, e, _ = build_legal("bare", bf, bare_legal().probes, 2, plain_file)
    violations += v; errors += e
    bi = bare_illegal()
    said3, r3, v, e = refuse("bareillegal", bf, bi, 2)
    violations += v; errors += e
    kn = known(); hit = {}
    rest = []
    for x in violations:
        if x["kind"] == "does not compile" and x["target"] in kn: hit.setdefault(kn[x["target"]], []).append(x["target"])
        else: rest.append(x)
    for (probe, text), xs in hit.items():
        print(f"KNOWN-FINDING: property=C26 {probe}: {text} ({len(xs)} declarations)")
    gone = [k for k in kn if not any(k in xs for xs in hit.values())]
    if gone: print("note: recorded findings not seen this time:", ", ".join(gone))
    perfam = {f: dict(legal=sum(p.fam == f for p in built), refused=sum(k.startswith(f + " ") for k in said), trait_rows=sum(byname[n].fam == f for n in matrix), distinct_behaviours=len(behaviours.get(f, ()))) for f in FAMS}
    comp = sum(len(ps) for ps in groups.values() if len(ps) > 1)
    cov = dict(evaluations=len(L.probes) + len(I) + len(bl) + len(bi), distinct_nontrivial=len(built) + len(said) + len(said3),
               rule="one declaration each; non-trivial when the compiler's answer was attributed to it: it compiled, or an error pointed at its own lines",
               samples=[dict(declaration=p.text, answer=said.get(p.key)) for p in I[::max(1, len(I) // 12)]][:12] + [dict(declaration=p.text, answer="compiled", traits=matrix.get(p.name)) for p in built[::max(1, len(built) // 8)]][:8],
               compiled=len(built), refused=len(said) + len(said3), refusal_rounds=r2, distinct_refusal_messages=len(set(said.values())), trait_rows=len(matrix), trait_bits=len(matrix) * 20,
               behaviour_groups=len(groups), declarations_compared=comp, observations=sum(s.count("\1") + 1 for s in seen.values()), known_findings={k[0]: len(v) for k, v in hit.items()}, per_validator=perfam)
    finish("C26", cov, rest, errors, t0, ["the Rust compiler's diagnostics", "names of the standard prelude are not shadowed where the macro is used"])
