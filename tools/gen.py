#!/usr/bin/env python3
"""Writes harness/src/cfgs/*.rs: one validator type per configuration, with its
adapter and the configuration handed to the independent reference."""
import itertools, os, random
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "cfgs")
TRI = ["Must", "Allow", "Disallow"]
HDR = "// @generated by tools/gen.py\n#![allow(unused_imports, dead_code)]\nuse validators::prelude::*;\nuse crate::core::{Dump, Target, Tri::*};\nuse crate::{subject, target, ws};\nuse crate::fam::%s::*;\n\n"

class F:
    """One family file. With the `lite` feature (cross-cutting checks) only some
    configurations are kept: the first of each shape, and every `stride`-th."""
    def __init__(self, name, stride=7):
        self.name = name; self.items = []; self.shapes = {}; self.stride = stride
    def add(self, ty, attr, fields, dump, facets, fam, label, judge, serde=None, canon="|_| None", derive="Debug, Clone, Validator", pre=""):
        seen = self.shapes.get((fam, fields), 0); self.shapes[(fam, fields)] = seen + 1
        lite = seen == 0 or len(self.items) % self.stride == 3
        c = "" if lite else '#[cfg(not(feature = "lite"))]\n'
        body = f" {{ {fields} }}" if not fields.startswith("(") else f"{fields};"
        t = f'target!({ty}, "{fam}", r#"{label}"#, {judge})'
        t = f"ws!({t}, {ty}, validators::errors::{serde}, {canon})"
        self.items.append((f"{pre}{c}#[derive({derive})]\n#[validator({attr})]\npub struct {ty}{body}\n{c}impl Dump for {ty} {{ fn dump(&self) -> String {{ {dump} }} }}\n{c}subject!({ty}; {facets});\n",
                           f"    {c.strip()}{' ' if c else ''}v.push({t});\n"))
    def write(self, head=""):
        with open(os.path.join(OUT, self.name + ".rs"), "w") as f:
            f.write(HDR % self.name + head)
            f.write("\n".join(t for t, _ in self.items))
            # split in chunks to keep functions small
            n = 0; calls = []
            for i in range(0, len(self.items), 20):
                f.write(f"\nfn part{n}(v: &mut Vec<Target>) {{\n" + "".join(p for _, p in self.items[i:i+20]) + "}\n")
                calls.append(f"    part{n}(&mut v);\n"); n += 1
            f.write("\npub fn targets() -> Vec<Target> {\n    let mut v = Vec::new();\n" + "".join(calls) + "    v\n}\n")

# ------------------------------------------------------------------ domain
d = F("domain"); k = 0
def dom(ipv4, local, port, labels, attr, serde):
    global k
    local_f = local == "Allow" and labels != "Allow"
    v4_f = local_f and ipv4 == "Allow"
    tup = port == "Disallow" and not local_f
    if tup:
        fields = "(pub String)"; dump = "dump_domain(&self.0, None, None, None, self.is_fully_qualified(), self.get_domain_non_fully_qualified())"
    else:
        fl = ["pub domain: String"]
        if port == "Allow": fl.append("pub port: Option<u16>")
        if port == "Must": fl.append("pub port: u16")
        if local_f: fl.append("pub is_local: bool")
        if v4_f: fl.append("pub is_ipv4: bool")
        fields = ", ".join(fl)
        p = {"Allow": "self.port", "Must": "Some(self.port)", "Disallow": "None"}[port]
        dump = f"dump_domain(&self.domain, {p}, {'Some(self.is_local)' if local_f else 'None'}, {'Some(self.is_ipv4)' if v4_f else 'None'}, self.is_fully_qualified(), self.get_domain_non_fully_qualified())"
    judge = f"|t| judge(&Cfg {{ ipv4: {ipv4}, local: {local}, port: {port}, labels: {labels} }}, t)"
    d.add(f"Dom{k}", attr, fields, dump, "text", "domain", attr, judge, "DomainError", "|v| Some(v.to_uri_authority_string().into_owned())")
    k += 1
dom("Allow", "Allow", "Allow", "Allow", "domain", True)
for i, (a, b, c, e) in enumerate(itertools.product(TRI, TRI, TRI, TRI)):
    cf = ", conflict(Allow)" if a == "Must" and e == "Disallow" else ""
    dom(a, b, c, e, f"domain(ipv4({a}), local({b}), port({c}), at_least_two_labels({e}){cf})", True)
# parameters given by name-value and partially
dom("Disallow", "Allow", "Allow", "Allow", "domain(ipv4 = Disallow)", False)
dom("Allow", "Disallow", "Allow", "Allow", "domain(local = Disallow)", False)
dom("Allow", "Allow", "Must", "Allow", "domain(port = Must)", False)
dom("Allow", "Allow", "Allow", "Must", "domain(at_least_two_labels = Must)", False)
d.write()

# ------------------------------------------------------------------ host
d = F("host"); k = 0
def host(local, port, labels, attr):
    global k
    local_f = local == "Allow" and labels != "Allow"
    if port == "Disallow" and not local_f:
        fields = "(pub validators::models::Host)"; dump = "dump_host(&self.0, None, None)"
    else:
        fl = ["pub host: validators::models::Host"]
        if port == "Allow": fl.append("pub port: Option<u16>")
        if port == "Must": fl.append("pub port: u16")
        if local_f: fl.append("pub is_local: bool")
        fields = ", ".join(fl)
        p = {"Allow": "self.port", "Must": "Some(self.port)", "Disallow": "None"}[port]
        dump = f"dump_host(&self.host, {p}, {'Some(self.is_local)' if local_f else 'None'})"
    d.add(f"Hst{k}", attr, fields, dump, "text", "host", attr, f"|t| judge(&Cfg {{ local: {local}, port: {port}, labels: {labels} }}, t)", "HostError", "|v| Some(v.to_uri_authority_string().into_owned())")
    k += 1
host("Allow", "Allow", "Allow", "host")
for b, c, e in itertools.product(TRI, TRI, TRI):
    host(b, c, e, f"host(local({b}), port({c}), at_least_two_labels({e}))")
host("Disallow", "Allow", "Allow", "host(local = Disallow)")
host("Allow", "Disallow", "Allow", "host(port = Disallow)")
host("Allow", "Allow", "Must", "host(at_least_two_labels = Must)")
d.write()

# ------------------------------------------------------------------ ip
d = F("ip"); k = 0
for fam, ty, err in (("ip", "std::net::IpAddr", "IpError"), ("ipv4", "std::net::Ipv4Addr", "Ipv4Error"), ("ipv6", "std::net::Ipv6Addr", "Ipv6Error")):
    for j, (local, port) in enumerate([("Allow", "Allow")] + list(itertools.product(TRI, TRI))):
        attr = fam if j == 0 else f"{fam}(local({local}), port({port}))"
        if port == "Disallow":
            fields = f"(pub {ty})"; dump = "dump_ip(self.0.into(), None)"
        else:
            fields = f"pub {fam}: {ty}, pub port: " + ("Option<u16>" if port == "Allow" else "u16")
            dump = f"dump_ip(self.{fam}.into(), " + ("self.port)" if port == "Allow" else "Some(self.port))")
        d.add(f"Ip{k}", attr, fields, dump, "text", fam, attr, f"|t| judge(&Cfg {{ v4: {str(fam != 'ipv6').lower()}, v6: {str(fam != 'ipv4').lower()}, local: {local}, port: {port} }}, t)", err, "|v| Some(v.to_uri_authority_string().into_owned())")
        k += 1
d.write()

# ------------------------------------------------------------------ email
d = F("email"); k = 0
def email(comment, ip, local, labels, na, attr, serde):
    global k
    local_f = local == "Allow" and labels != "Allow"
    fl = ["pub local_part: String", "pub need_quoted: bool"]
    fl.append("pub domain_part: " + {"Allow": "validators::models::Host", "Must": "std::net::IpAddr", "Disallow": "String"}[ip])
    if comment != "Disallow":
        fl += [f"pub comment_{x}: Option<String>" for x in ("before_local_part", "after_local_part", "before_domain_part", "after_domain_part")]
    if local_f: fl.append("pub is_local: bool")
    h = {"Allow": "host_str(&self.domain_part)", "Must": "ip_str(&self.domain_part)", "Disallow": "dom_str(&self.domain_part)"}[ip]
    c = "Some([&self.comment_before_local_part, &self.comment_after_local_part, &self.comment_before_domain_part, &self.comment_after_domain_part])" if comment != "Disallow" else "None"
    dump = f"dump_email(&self.local_part, self.need_quoted, &{h}, {c}, {'Some(self.is_local)' if local_f else 'None'})"
    d.add(f"Em{k}", attr, ", ".join(fl), dump, "text", "email", attr, f"|t| judge(&Cfg {{ comment: {comment}, ip: {ip}, local: {local}, labels: {labels}, non_ascii: {na} }}, t)", "EmailError", "|v| Some(v.to_email_string())")
    k += 1
email("Allow", "Allow", "Allow", "Allow", "Allow", "email", True)
for i, (c, a, b, e, n) in enumerate(itertools.product(["Allow", "Disallow"], TRI, TRI, TRI, ["Allow", "Disallow"])):
    cf = ", conflict(Allow)" if a == "Must" and e == "Disallow" else ""
    email(c, a, b, e, n, f"email(comment({c}), ip({a}), local({b}), at_least_two_labels({e}), non_ascii({n}){cf})", i % 3 == 1)
email("Disallow", "Allow", "Allow", "Allow", "Allow", "email(comment = Disallow)", False)
email("Allow", "Disallow", "Allow", "Allow", "Allow", "email(ip = Disallow)", False)
email("Allow", "Allow", "Disallow", "Allow", "Allow", "email(local = Disallow)", False)
email("Allow", "Allow", "Allow", "Must", "Allow", "email(at_least_two_labels = Must)", False)
email("Allow", "Allow", "Allow", "Allow", "Disallow", "email(non_ascii = Disallow)", False)
d.write()

# ------------------------------------------------------------------ integers
d = F("int"); k = 0
rr = random.Random(20261); bounds = set()
def more(signed, ty, bits):
    """bounds at the edges of the type, of one value, of none, and at random"""
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    mid = 60 if signed else 200
    for kind in ("Inside", "Outside"):
        for mn, mx, incl in ((lo, lo, None), (hi, hi, None), (lo, hi - 1, None), (lo + 1, hi, None), (lo, hi, False), (hi - 1, hi, False), (lo, lo + 1, False), (lo, mid, None), (mid, hi, None),
                             (hi, None, None), (None, lo, None), (lo, None, None), (None, hi, None), (None, hi, False), (mid, mid + 2, False), (mid, None, False)):
            if rr.random() < 0.5: integer(signed, ty, bits, kind, mn, mx, incl)
        for _ in range(3):
            near = lambda: max(lo, min(hi, rr.choice([rr.randint(lo, hi), rr.randint(-100, 100), (1 << rr.randrange(bits)) - rr.randrange(2)])))
            a, b = sorted((near(), near()))
            if a < b: integer(signed, ty, bits, kind, a, b, rr.choice([None, True, False]))
def rng_attr(kind, mn, mx, incl):
    ps = []
    if mn is not None: ps.append(f"min = {mn}")
    if mx is not None: ps.append(f"max = {mx}")
    if incl is not None: ps.append(f"inclusive = {str(incl).lower()}")
    return f"range({kind}({', '.join(ps)}))"
def opt(x, suf=""): return "None" if x is None else f"Some({x}{suf})"
def integer(signed, ty, bits, kind, mn, mx, incl, attr=None):
    global k
    name = "signed_integer" if signed else "unsigned_integer"
    if attr is None:
        attr = name if kind is None else f"{name}({rng_attr(kind, mn, mx, incl)})"
    w = bits
    bounds.update(x for x in (mn, mx) if x is not None)
    inc = incl is not False
    judge = f"|t| judge(&Cfg {{ signed: {str(signed).lower()}, bits: {w}, kind: Kind::{kind or 'Unlimited'}, min: {opt(mn)}, max: {opt(mx)}, inclusive: {str(inc).lower()} }}, t)"
    if not signed:
        judge = judge.replace("Cfg {", "CfgU {").replace("judge(", "judge_u(")
    d.add(f"Int{k}", attr, f"(pub {ty})", f"dump_{'i' if signed else 'u'}(self.0 as {'i128' if signed else 'u128'})", "text, sint" if signed else "text, uint", name, f"{attr} {ty}", judge, ("Signed" if signed else "Unsigned") + "IntegerError", derive="Debug, Clone, PartialEq, Validator")
    k += 1
for bits, ty in ((8, "i8"), (16, "i16"), (32, "i32"), (64, "i64"), (128, "i128"), (64, "isize")):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    integer(True, ty, bits, None, None, None, None)
    integer(True, ty, bits, "Inside", -3, 100, None)
    integer(True, ty, bits, "Inside", hi - 1, hi, None)
    integer(True, ty, bits, "Inside", 5, None, None)
    integer(True, ty, bits, "Inside", None, -7, None)
    integer(True, ty, bits, "Inside", 42, 42, None)
    integer(True, ty, bits, "Inside", -2, 9, False)
    integer(True, ty, bits, "Inside", 10, 11, False)
    integer(True, ty, bits, "Outside", -3, 100, None)
    integer(True, ty, bits, "Outside", 0, 0, None)
    integer(True, ty, bits, "Outside", 5, None, None)
    integer(True, ty, bits, "Outside", None, -7, None)
    integer(True, ty, bits, "Outside", None, -7, False)
    integer(True, ty, bits, "Outside", -2, 9, False)
    integer(True, ty, bits, "Outside", hi - 1, hi, None)
    integer(True, ty, bits, "Inside", 3, 9, None, "signed_integer(range(Inside(3..=9)))")
    integer(True, ty, bits, "Outside", 3, 9, False, "signed_integer(range(Outside(3..9)))")
    integer(True, ty, bits, "Inside", 3, None, None, "signed_integer(range(Inside(3..)))")
    more(True, ty, bits)
for bits, ty in ((8, "u8"), (16, "u16"), (32, "u32"), (64, "u64"), (128, "u128"), (64, "usize")):
    hi = (1 << bits) - 1
    integer(False, ty, bits, None, None, None, None)
    integer(False, ty, bits, "Inside", 3, 100, None)
    integer(False, ty, bits, "Inside", hi - 1, hi, None)
    integer(False, ty, bits, "Inside", 5, None, None)
    integer(False, ty, bits, "Inside", None, 7, None)
    integer(False, ty, bits, "Inside", 42, 42, None)
    integer(False, ty, bits, "Inside", 2, 9, False)
    integer(False, ty, bits, "Inside", 10, 11, False)
    integer(False, ty, bits, "Outside", 3, 100, None)
    integer(False, ty, bits, "Outside", 0, 0, None)
    integer(False, ty, bits, "Outside", 5, None, None)
    integer(False, ty, bits, "Outside", None, 7, None)
    integer(False, ty, bits, "Outside", None, 7, False)
    integer(False, ty, bits, "Outside", 2, 9, False)
    integer(False, ty, bits, "Outside", hi - 1, hi, None)
    integer(False, ty, bits, "Inside", 3, 9, None, "unsigned_integer(range(Inside(3..=9)))")
    integer(False, ty, bits, "Outside", 3, 9, False, "unsigned_integer(range(Outside(3..9)))")
    integer(False, ty, bits, "Inside", None, 9, None, "unsigned_integer(range(Inside(..=9)))")
    more(False, ty, bits)
# other spellings of the bounds
for ty, bits in (("i8", 8), ("i32", 32), ("i128", 128)):
    integer(True, ty, bits, "Inside", -16, 15, None, "signed_integer(range(Inside(min = -0x10, max = 0b1111)))")
    integer(True, ty, bits, "Outside", -100, 64, None, "signed_integer(range(Outside(max(0o100), min(-1_0_0))))")
    integer(True, ty, bits, "Inside", -7, 100, False, f"signed_integer(range(Inside(inclusive(false), min = -7{ty}, max = 1_00{ty})))")
    integer(True, ty, bits, "Inside", 0, 100, None, "signed_integer(range(Inside(0x0..=0x64)))")
for ty, bits in (("u8", 8), ("u32", 32), ("u128", 128)):
    integer(False, ty, bits, "Inside", 16, 255, None, "unsigned_integer(range(Inside(min = 0x10, max = 0xff)))")
    integer(False, ty, bits, "Outside", 10, 64, None, "unsigned_integer(range(Outside(max(0o100), min(0b1010))))")
    integer(False, ty, bits, "Inside", 7, 100, False, f"unsigned_integer(range(Inside(inclusive = false, min = 7{ty}, max = 1_00{ty})))")
bi = sorted(b for b in bounds if -(1 << 127) <= b < 1 << 127); bu = sorted(b for b in bounds if b >= 0)
d.write(f"pub const BOUNDS_I: &[i128] = &{bi};\npub const BOUNDS_U: &[u128] = &{bu};\n\n")

# ------------------------------------------------------------------ numbers
d = F("number"); k = 0; points = set()
def number(ty, nan, kind, mn, mx, incl, attr=None):
    global k
    if attr is None:
        ps = []
        if nan: ps.append(f"nan({nan})")
        if kind: ps.append(rng_attr(kind, mn, mx, incl))
        if nan == "Must" and kind == "Inside": ps.append("conflict(Allow)")
        attr = f"number({', '.join(ps)})" if ps else "number"
    points.update(float(x) for x in (mn, mx) if x is not None)
    f = lambda x: "None" if x is None else f"Some({float(x)!r})"
    judge = f"|t| judge(&Cfg {{ single: {str(ty == 'f32').lower()}, nan: {nan or 'Allow'}, kind: Kind::{kind or 'Unlimited'}, min: {f(mn)}, max: {f(mx)}, inclusive: {str(incl is not False).lower()} }}, t)"
    d.add(f"Num{k}", attr, f"(pub {ty})", f"dump_{ty}(self.0)", "text, num", "number", f"{attr} {ty}", judge, "NumberError")
    k += 1
for ty in ("f32", "f64"):
    number(ty, None, None, None, None, None)
    for nan in TRI:
        number(ty, nan, None, None, None, None)
        number(ty, nan, "Inside", -1.5, 1000, None)
        number(ty, nan, "Inside", 0, None, None)
        number(ty, nan, "Inside", None, 0.1, None)
        number(ty, nan, "Inside", 0.5, 0.5, None)
        number(ty, nan, "Inside", -0.25, 2.5, False)
        number(ty, nan, "Inside", None, 3, False)
        number(ty, nan, "Outside", -1.5, 1000, None)
        number(ty, nan, "Outside", 0, None, None)
        number(ty, nan, "Outside", None, 0.1, None)
        number(ty, nan, "Outside", 0, 0, None)
        number(ty, nan, "Outside", -0.25, 2.5, False)
        number(ty, nan, "Outside", None, 3, False)
    number(ty, None, "Inside", 0.5, 2.5, None, "number(range(Inside(0.5..=2.5)))")
    number(ty, "Disallow", "Outside", 1, 2.5, False, "number(nan = Disallow, range(Outside(1.0..2.5)))")
    # ranges of width one, of one value, of adjacent floats, at the ends and around zero
    up = 1.0000001192092896 if ty == "f32" else 1.0000000000000002
    top = 3.4028234663852886e38 if ty == "f32" else 1.7976931348623157e308
    tiny = 1.401298464324817e-45 if ty == "f32" else 5e-324
    for kind in ("Inside", "Outside"):
        for i, (mn, mx, incl) in enumerate(((0, 1, False), (-1, 0, False), (2, 3, False), (0.5, 1.5, False), (-0.5, 0.5, False), (1, up, False), (1, up, None), (0, tiny, False), (-tiny, tiny, None), (-tiny, tiny, False),
                             (-top, top, None), (-top, top, False), (top, None, None), (None, -top, None), (None, -top, False), (0.0, -0.0, None), (-0.0, 0.0, None), (-1e10, -1e9, False),
                             (16777216, 16777217, None), (9007199254740992, 9007199254740993, None), (0.1, 0.2, None), (0.30000000000000004, 0.5, None), (-7, -7, None), (1e30, 1e30, None), (-2, None, False))):
            number(ty, (None, "Allow", "Disallow", "Must")[i % 4], kind, mn, mx, incl)
    number(ty, None, "Inside", -10.5, 1e3, None, "number(range(Inside(min = -1_0.5, max = 1E3)))")
    number(ty, None, "Outside", 0.001, 250, None, f"number(range(Outside(min(1e-3), max(2.5e2{ty}))))")
    number(ty, "Disallow", "Inside", -3, 1000, False, "number(range(Inside(inclusive = false, max = 1_000, min = -3)), nan(Disallow))")
    number(ty, None, "Inside", 0.5, 1e2, False, "number(range(Inside(5e-1..1_0e1)))")
fl = sorted(points)
d.write(f"pub const POINTS: &[f64] = &[{', '.join(repr(x) for x in fl)}];\n\n")

# ------------------------------------------------------------------ line / text
d = F("linetext"); k = 0
def lt(fam, unit, mn, tm, mx, attr=None):
    global k
    if attr is not None: pass
    elif unit is None: attr = fam
    else:
        ps = [f"{n} = {x}" for n, x in (("min", mn), ("trimmed_min", tm), ("max", mx)) if x is not None]
        attr = f"{fam}({unit}_length({', '.join(ps)}))"
    judge = f"|t| judge(&Cfg {{ line: {str(fam == 'line').lower()}, bytes: {str(unit == 'byte').lower()}, min: {opt(mn)}, tmin: {opt(tm)}, max: {opt(mx)} }}, t)"
    d.add(f"Lt{k}", attr, "(pub String)", "dump_str(&self.0)", "text", fam, attr, judge, "LineError" if fam == "line" else "TextError")
    k += 1
for fam in ("line", "text"):
    lt(fam, None, None, None, None)
    for unit in ("char", "byte"):
        for mn, tm, mx in ((None, None, None), (2, None, None), (0, None, None), (None, 1, None), (None, 3, None), (None, 0, None), (None, None, 5), (None, None, 0),
                           (2, 1, None), (3, 3, None), (4, 2, None), (2, 0, None), (0, 0, None), (2, None, 6), (4, None, 4), (None, 1, 6), (None, 3, 6), (None, 0, 6), (None, 4, 4),
                           (2, 1, 6), (3, 3, 7), (5, 2, 8), (2, 0, 6), (0, 0, 0), (0, 0, 5), (4, 4, 4), (4, 0, 4), (1, 1, 1),
                           (5, 5, None), (7, 5, None), (None, 7, None), (9, 8, None), (6, 6, 12), (None, 7, 9), (8, 5, 11), (None, None, 9), (9, None, 12), (12, None, None), (16, 9, 40),
                           # where a counter of 8 or 16 bits would turn over
                           (None, None, 256), (255, None, 257), (None, 256, None), (257, 130, 300), (None, 255, 256), (300, 256, None), (1000, None, None), (65536, None, None), (None, 65535, 65537), (2, None, 65536)):
            if mn is None and tm is None and mx is None: continue
            lt(fam, unit, mn, tm, mx)
        lt(fam, unit, 8, 2, 16, f"{fam}({unit}_length(max(0x1_0), trimmed_min = 0b10, min(0o10)))")
        lt(fam, unit, 3, None, 10, f"{fam}({unit}_length(max = 1_0usize, min = 3usize))")
d.write()

# ------------------------------------------------------------------ hex (mac, uuid)
d = F("hex"); k = 0
def hexv(fam, case, sep, ch, attr=None):
    global k
    if attr is None:
        ps = [f"case({case})", f"separator({sep}(b'{ch}'))" if sep != "Disallow" else "separator(Disallow)"]
        attr = f"{fam}({', '.join(ps)})"
    mac = fam == "mac_address"
    c = ch if ch else "x"
    judge = f"|t| judge(&Cfg {{ mac: {str(mac).lower()}, case: Case::{case}, sep: {sep}, ch: b'{c}' }}, t)"
    d.add(f"Hx{k}", attr, f"(pub {'u64' if mac else 'u128'})", "dump_hex(self.0 as u128)", "text", fam, attr, judge, "MacAddressError" if mac else "UuidError", f"|v| Some(v.{'to_mac_address_string' if mac else 'to_uuid_string'}())")
    k += 1
for fam, dc in (("mac_address", ":"), ("uuid", "-")):
    hexv(fam, "Any", "Allow", dc, fam)
    for case in ("Any", "Upper", "Lower"):
        for ch in (":", "-", "."):
            hexv(fam, case, "Must", ch); hexv(fam, case, "Allow", ch)
        hexv(fam, case, "Disallow", None)
    hexv(fam, "Upper", "Allow", dc, f"{fam}(case = Upper)")
    hexv(fam, "Any", "Disallow", None, f"{fam}(separator(Disallow))")
    hexv(fam, "Any", "Must", "_", f"{fam}(separator(Must(b'_')))")
    hexv(fam, "Any", "Must", " ", f"{fam}(separator(Must(b' ')))")
    # next to the hexadecimal digits, and special in the language
    for i, ch in enumerate(["/", "@", "G", "`", "g", "\\'", "\\\\", "\\x00", "\\x7f", "~"]):
        hexv(fam, "Any", "Must" if i % 2 else "Allow", ch)
        hexv(fam, ("Upper", "Lower")[i % 2], "Allow" if i % 2 else "Must", ch)
d.write()

# ------------------------------------------------------------------ base
d = F("base"); k = 0
for enc, en, er in (("base32", "B32", "Base32"), ("base64", "B64", "Base64"), ("base64_url", "B64U", "Base64Url")):
    for dec in (False, True):
        for pad in (None, "Must", "Allow", "Disallow"):
            fam = enc + ("_decoded" if dec else "")
            attr = fam if pad is None else f"{fam}(padding({pad}))"
            d.add(f"Bs{k}", attr, "(pub Vec<u8>)" if dec else "(pub String)", "dump_bytes(&self.0)" if dec else "dump_text(&self.0)", "text, bytes", fam, attr,
                  f"|t| judge(&Cfg {{ enc: Enc::{en}, decoded: {str(dec).lower()}, pad: {pad or 'Allow'} }}, t)", er + ("Decoded" if dec else "") + "Error", derive="Debug, Clone, PartialEq, Validator")
            k += 1
d.write()

# ------------------------------------------------------------------ units
d = F("unit"); k = 0
def unit(fam, ty, mn, mx, incl, ic, attr=None):
    global k
    if attr is None:
        ps = []
        rs = [f"{n} = {x}" for n, x in (("min", mn), ("max", mx)) if x is not None]
        if incl is not None: rs.append(f"inclusive = {str(incl).lower()}")
        if rs: ps.append(f"range({', '.join(rs)})")
        if ic is not None: ps.append(f"ignore_case = {str(ic).lower()}")
        attr = f"{fam}({', '.join(ps)})" if ps else fam
    judge = f"|t| judge(&Cfg {{ bit: {str(fam == 'bit').lower()}, ignore_case: {str(fam == 'byte' and ic is not False).lower()}, min: {opt(mn)}, max: {opt(mx)}, inclusive: {str(incl is not False).lower()} }}, t)"
    d.add(f"Un{k}", attr, f"(pub validators::byte_unit::{ty})", "dump_u(self.0.as_u128())", "text, uint", fam, attr, judge, f"{ty}Error", derive="Debug, Clone, PartialEq, Validator")
    k += 1
for fam, ty in (("bit", "Bit"), ("byte", "Byte")):
    unit(fam, ty, None, None, None, None)
    unit(fam, ty, 1, None, None, None)
    unit(fam, ty, None, 1000, None, None)
    unit(fam, ty, 8, 8192, None, None)
    unit(fam, ty, 1024, 1024, None, None)
    unit(fam, ty, 8, 8192, False, None)
    unit(fam, ty, 8, 9, False, None)
    unit(fam, ty, 1000, 1000000000, None, None)
    unit(fam, ty, 18446744073709551614, 18446744073709551615, None, None)
    for mn, mx, incl in ((0, None, None), (0, 0, None), (None, 0, None), (0, 1, False), (None, 1, False), (None, 1000, False), (7, None, False), (0, 18446744073709551615, False), (18446744073709551615, None, None), (18446744073709551615, 18446744073709551615, None),
                         (999, 1000, False), (1000, 1002, False), (None, 18446744073709551615, False), (1125899906842624, 1152921504606846976, False), (123456789, 987654321, None)):
        unit(fam, ty, mn, mx, incl, None)
    unit(fam, ty, 8, 8192, None, None, f"{fam}(range(8..=8192))")
    unit(fam, ty, 8, 8192, False, None, f"{fam}(range(8..8192))")
    if fam == "byte":
        unit(fam, ty, None, None, None, False)
        unit(fam, ty, None, None, None, True)
        unit(fam, ty, 8, 8192, None, False)
        unit(fam, ty, 1024, 1024, None, False)
d.write()
