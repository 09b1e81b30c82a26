//! Monitors that do not fit the one-target-one-input shape.
use std::{collections::BTreeMap, net::{Ipv4Addr, Ipv6Addr}, sync::Arc, time::Duration};

use serde_json::Value;

use crate::core::{Exp, Family, Out, Rng, Target, Tok};

pub struct Ctx<'a> {
    pub check:      &'a str,
    pub worker:     usize,
    pub workers:    usize,
    pub seed:       u64,
    pub budget:     f64,
    pub dir:        &'a std::path::Path,
    pub fams:       &'a [Family],
    pub evals:      u64,
    pub seen:       BTreeMap<String, u64>,
    pub samples:    Vec<Value>,
    pub violations: Vec<Value>,
}

impl Ctx<'_> {
    pub fn saw(&mut self, what: &str, n: u64) {
        *self.seen.entry(what.to_string()).or_default() += n;
    }

    #[allow(unused)]
    pub fn broken(&mut self, fam: &str, kind: &str, what: String, input: Value) {
        if self.violations.len() < 6 && !self.violations.iter().any(|v| v["fam"] == fam && v["kind"] == kind) {
            self.violations.push(serde_json::json!({"property": self.check, "family": "extras", "fam": fam, "target": "", "kind": kind, "what": what, "input": input}));
        }
    }
}

pub fn families(check: &str) -> Vec<Family> {
    let _ = check;
    let mut v: Vec<Family> = vec![];
    #[cfg(feature = "locality")]
    if check == "C13" {
        v.push(locality::family());
    }
    #[cfg(feature = "model")]
    if check == "C29" {
        v.push(crate::model::family());
    }
    if check == "C30" {
        v.push(crate::defaults::family());
    }
    v.truncate(8);
    v
}

pub fn run(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    match x.check {
        #[cfg(feature = "fam_length")]
        "C10" => crate::collections::run(x, tick),
        #[cfg(feature = "locality")]
        "C13" => locality::sweep(x, tick),
        #[cfg(all(feature = "all", feature = "serde_facets"))]
        "C23" => crate::documents::run(x, tick),
        #[cfg(feature = "web_facets")]
        "C24" => crate::web::app(x, tick),
        #[cfg(feature = "model")]
        "C29" => crate::model::laws(x, tick),
        #[cfg(feature = "meter")]
        "C31" => crate::meter::growth(x, tick),
        #[cfg(feature = "all")]
        "C27" => threads::run(x, tick),
        _ => {
            let _ = tick;
        },
    }
}

/// a plain function, and what it should give
pub fn function(name: &str, parse: fn(&Tok, bool) -> Option<Out>, judge: fn(&Tok) -> Option<String>) -> Target {
    made(name, parse, Arc::new(move |t: &Tok| judge(t).map(Exp::Accept).unwrap_or(Exp::Unspecified)))
}

fn made(name: &str, parse: fn(&Tok, bool) -> Option<Out>, judge: Arc<dyn Fn(&Tok) -> Exp + Send + Sync>) -> Target {
    Target {
        name: name.into(),
        fam: "function",
        parse,
        validate: |_| None,
        wrap: |_, _| None,
        any: None,
        json: None,
        de: None,
        de_json: None,
        der: None,
        der_json: None,
        web: None,
        judge,
    }
}

// ---- the public classification functions ---------------------------------------------

#[cfg(feature = "locality")]
mod locality {
    use validators::functions as vf;

    use super::*;
    use crate::fam::net as refs;

    fn v6_of(t: &Tok) -> Option<Ipv6Addr> {
        if let Tok::U(u, 128) = t { Some(Ipv6Addr::from(*u)) } else { None }
    }
    fn v4_of(t: &Tok) -> Option<Ipv4Addr> {
        if let Tok::U(u, 32) = t { Some(Ipv4Addr::from(*u as u32)) } else { None }
    }
    fn said(b: bool) -> Out {
        Out::Ok(b.to_string())
    }
    fn target(name: &str, parse: fn(&Tok, bool) -> Option<Out>, judge: fn(&Tok) -> Option<bool>) -> Target {
        super::made(name, parse, Arc::new(move |t: &Tok| judge(t).map(|b| Exp::Accept(b.to_string())).unwrap_or(Exp::Unspecified)))
    }

    fn plain_domain(t: &Tok) -> Option<&str> {
        let Tok::Str(s) = t else { return None };
        let body = s.strip_suffix('.').unwrap_or(s);
        (!body.is_empty() && body.split('.').all(|l| !l.is_empty())).then_some(s)
    }

    pub fn family() -> Family {
        let targets = vec![
            target("is_local_ipv4", |t, _| v4_of(t).map(|a| said(vf::is_local_ipv4(a))), |t| v4_of(t).map(refs::local_v4)),
            target("is_local_ipv6", |t, _| v6_of(t).map(|a| said(vf::is_local_ipv6(a))), |t| v6_of(t).map(refs::local_v6)),
            target(
                "is_local_ip",
                |t, _| v4_of(t).map(|a| said(vf::is_local_ip(a.into()))).or_else(|| v6_of(t).map(|a| said(vf::is_local_ip(a.into())))),
                |t| v4_of(t).map(refs::local_v4).or_else(|| v6_of(t).map(refs::local_v6)),
            ),
            target(
                "is_local_domain",
                |t, owned| plain_domain(t).map(|s| said(if owned { vf::is_local_domain(s.to_string()) } else { vf::is_local_domain(s) })),
                |t| plain_domain(t).map(refs::local_name),
            ),
            target(
                "is_at_least_two_labels_domain",
                |t, owned| plain_domain(t).map(|s| said(if owned { vf::is_at_least_two_labels_domain(s.to_string()) } else { vf::is_at_least_two_labels_domain(s) })),
                |t| plain_domain(t).map(refs::two_labels),
            ),
        ];
        Family { name: "locality", targets, gen_tok, corners }
    }

    fn gen_tok(r: &mut Rng) -> Tok {
        match r.below(5) {
            0 => Tok::U(u32::from(refs::gen_v4(r)) as u128, 32),
            1 | 2 => Tok::U(u128::from(refs::gen_v6(r)), 128),
            3 => {
                // near a block boundary
                let mut u = u128::from(refs::gen_v6(r));
                u ^= 1u128 << r.below(128);
                Tok::U(u, 128)
            },
            _ => {
                let s = match r.below(3) {
                    0 => {
                        let s = crate::gens::flip_case(r, "localhost");
                        let d = if r.chance(1, 2) { "." } else { "" };
                        crate::gens::mutate(r, &format!("{s}{d}"), &["localhost", ".", "l", "localdomain", "０"])
                    },
                    1 => crate::gens::flip_case(r, *r.clone().choose(&["localhost", "localhost.", "localhos", "local", "LOCALHOST.localhost", "localhost.localdomain"])),
                    _ => refs::gen_domain(r),
                };
                Tok::Str(s)
            },
        }
    }

    fn corners() -> Vec<Tok> {
        let mut v = vec![];
        // either side of every block's ends
        for (net, bits) in [("10.0.0.0", 8u32), ("172.16.0.0", 12), ("192.168.0.0", 16), ("127.0.0.0", 8), ("169.254.0.0", 16), ("192.0.2.0", 24), ("198.51.100.0", 24), ("203.0.113.0", 24), ("0.0.0.0", 32), ("255.255.255.255", 32), ("100.64.0.0", 10), ("198.18.0.0", 15), ("192.0.0.0", 24), ("192.88.99.0", 24), ("224.0.0.0", 4), ("240.0.0.0", 4), ("0.0.0.0", 8)] {
            let a = u32::from(net.parse::<Ipv4Addr>().unwrap());
            let last = if bits == 32 { a } else { a | (u32::MAX >> bits) };
            for e in [a, last] {
                for d in -3i64..=3 {
                    let u = (e as i64 + d).rem_euclid(1 << 32) as u128;
                    v.push(Tok::U(u, 32));
                    for high in [0u128, 0xffff, 0xffff_0000, 1 << 16, 0xfffe, 0x64_ff9b << 64, 0x2002 << 80] {
                        v.push(Tok::U(high << 32 | u, 128));
                    }
                }
            }
        }
        for (net, bits) in [("::", 128u32), ("::1", 128), ("fe80::", 10), ("fec0::", 10), ("fc00::", 7), ("2001:db8::", 32), ("ff00::", 8), ("2001:db9::", 32), ("2002::", 16), ("64:ff9b::", 96), ("::ffff:0:0", 96), ("100::", 64), ("3fff::", 20)] {
            let a = u128::from(net.parse::<Ipv6Addr>().unwrap());
            let last = if bits == 128 { a } else { a | (u128::MAX >> bits) };
            for e in [a, last] {
                for d in 0..4u128 {
                    v.push(Tok::U(e.wrapping_add(d), 128));
                    v.push(Tok::U(e.wrapping_sub(d), 128));
                }
            }
        }
        // every top half-word, every multicast scope and flag
        for top in 0..=0xffffu128 {
            v.push(Tok::U(top << 112 | 1, 128));
        }
        for d in crate::gens::all_strings(&["a", ".", "localhost"], 5) {
            v.push(Tok::Str(d));
        }
        for m in 0..1u32 << 9 {
            let s: String = "localhost".chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            v.push(Tok::Str(format!("{s}.")));
            v.push(Tok::Str(s));
        }
        v
    }

    /// one address of every /16 .. all 2^32 of them, as time allows, and the
    /// mapped and compatible forms of each
    pub fn sweep(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
        let full = x.budget >= 100.0;
        let mut n = 0u64;
        let mut local = 0u64;
        let mut r = Rng::new(x.seed ^ x.worker as u64);
        for block in (x.worker..0x1_0000).step_by(x.workers) {
            tick();
            let inner: Vec<u32> = if full { (0..0x1_0000).collect() } else { (0..256).map(|i| i << 8 | r.below(256) as u32).chain([0, 0xffff]).collect() };
            for i in inner {
                let a = Ipv4Addr::from((block as u32) << 16 | i);
                let want = refs::local_v4(a);
                let got = vf::is_local_ipv4(a);
                n += 1;
                local += got as u64;
                if got != want {
                    x.broken("is_local_ipv4", "value", format!("is_local_ipv4({a}) is {got}, the reference says {want}"), Value::String(a.to_string()));
                    return;
                }
                if i & 0x3f == 0 {
                    for b in [a.to_ipv6_mapped(), a.to_ipv6_compatible()] {
                        let want = refs::local_v6(b);
                        let got = vf::is_local_ipv6(b);
                        n += 1;
                        if got != want {
                            x.broken("is_local_ipv6", "value", format!("is_local_ipv6({b}) is {got}, the reference says {want}"), Value::String(b.to_string()));
                            return;
                        }
                    }
                }
            }
        }
        x.evals += n;
        x.saw(if full { "sweep [all IPv4 addresses]" } else { "sweep [257 addresses of every IPv4 /16]" }, n);
        x.saw("sweep [local addresses seen]", local);
    }
}

// ---- many threads ---------------------------------------------------------------------

#[cfg(feature = "all")]
pub mod threads {
    use std::sync::{
        Barrier,
        atomic::{AtomicU64, AtomicUsize, Ordering},
    };

    use super::*;

    fn digest(o: &Option<Out>) -> u64 {
        let s = format!("{o:?}");
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        h ^ (h >> 29)
    }

    fn observe(t: &Target, tok: &Tok, way: usize) -> u64 {
        match way {
            0 => digest(&t.do_parse(tok, false)),
            1 => digest(&t.do_parse(tok, true)),
            _ => digest(&t.do_validate(tok)),
        }
    }

    /// the same shared inputs in every process: cold from many threads, then
    /// one by one in an order of this process's own; all answers must agree
    pub fn run(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
        let rounds = if x.budget >= 100.0 { 12 } else { 2 };
        let per = if x.budget >= 100.0 { 160 } else { 50 };
        let mut windows = std::collections::HashSet::new();
        let shared_seed = x.seed;
        let mut shared = vec![];
        for round in 0..rounds {
            // (family, target, input, way)
            let mut jobs: Vec<(usize, usize, Tok, usize)> = vec![];
            for (fi, f) in x.fams.iter().enumerate() {
                let mut r = Rng::new(shared_seed ^ (fi as u64) << 8 ^ round as u64);
                for _ in 0..per {
                    let tok = (f.gen_tok)(&mut r);
                    for _ in 0..3 {
                        jobs.push((fi, r.below(f.targets.len()), tok.clone(), r.below(3)));
                    }
                }
            }
            let n = jobs.len();
            let mut r = Rng::new(x.seed ^ 77 ^ (x.worker as u64) << 20 ^ round as u64);
            let threads = [2, 3, 4, 8, 16][r.below(5)];
            let gate = Barrier::new(threads);
            let clock = AtomicUsize::new(0);
            let trace: Vec<AtomicU64> = (0..n * threads).map(|_| AtomicU64::new(0)).collect();
            let fams = x.fams;
            let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
            let cold = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|id| {
                        let (jobs, gate, clock, trace, seed) = (&jobs, &gate, &clock, &trace, seeds[id]);
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn_scoped(s, move || {
                                let mut r = Rng::new(seed);
                                let mut order: Vec<usize> = (0..jobs.len()).collect();
                                // half of the threads start at the same job
                                if id % 2 == 1 {
                                    for i in (1..order.len()).rev() {
                                        order.swap(i, r.below(i + 1));
                                    }
                                }
                                let mut out = vec![0u64; jobs.len()];
                                gate.wait();
                                for i in order {
                                    let (f, t, tok, way) = &jobs[i];
                                    out[i] = observe(&fams[*f].targets[*t], tok, *way);
                                    let at = clock.fetch_add(1, Ordering::Relaxed);
                                    trace[at].store(id as u64 + 1, Ordering::Relaxed);
                                    if r.chance(1, 64) {
                                        std::thread::sleep(Duration::from_micros(r.below(60) as u64));
                                    }
                                    if at % 64 == 0 {
                                        tick();
                                    }
                                }
                                out
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
            });
            let t: Vec<u8> = trace.iter().map(|a| a.load(Ordering::Relaxed) as u8).collect();
            for w in t.chunks(32) {
                windows.insert(w.to_vec());
            }
            // alone, in an order of its own
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                order.swap(i, r.below(i + 1));
            }
            let mut alone = vec![0u64; n];
            for i in order {
                let (f, t, tok, way) = &jobs[i];
                alone[i] = observe(&x.fams[*f].targets[*t], tok, *way);
                if i % 64 == 0 {
                    tick();
                }
            }
            for (id, out) in cold.iter().enumerate() {
                for i in 0..n {
                    x.evals += 1;
                    if out[i] != alone[i] {
                        let (f, t, tok, way) = &jobs[i];
                        let label = x.fams[*f].targets[*t].label();
                        x.broken(x.fams[*f].targets[*t].fam, "thread", format!("{label}: thread {id} of {threads} got another answer than the same call ({}) alone", ["parse", "parse owned", "validate"][*way]), tok.to_json());
                        break;
                    }
                }
            }
            x.saw(&format!("threads [{threads} at once, calls compared]"), (n * threads) as u64);
            shared.extend(alone);
        }
        x.saw("threads [distinct interleaving windows of 32 calls]", windows.len() as u64);
        storms(x, tick);
        let raw: Vec<u8> = shared.iter().flat_map(|h| h.to_le_bytes()).collect();
        std::fs::write(x.dir.join(format!("shared-{}.bin", x.worker)), raw).unwrap();
    }

    /// one call under fire: a few inputs with different answers, put again and
    /// again to the same validator (or public function) from several threads
    fn storm(x: &mut Ctx, fam: &'static str, label: &str, tok: Vec<Value>, call: &(dyn Fn(usize) -> u64 + Sync), span: Duration, r: &mut Rng) -> bool {
        let want: Vec<u64> = (0..tok.len()).map(call).collect();
        let threads = 2 + r.below(7);
        let gate = Barrier::new(threads);
        let start = std::time::Instant::now();
        let quit = std::sync::atomic::AtomicBool::new(false);
        let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
        let got = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .enumerate()
                .map(|(id, seed)| {
                    let (gate, quit, want) = (&gate, &quit, &want);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut r = Rng::new(*seed);
                            gate.wait();
                            let from = start.elapsed();
                            let until = from + span;
                            let (mut n, mut wrong) = (0u64, None);
                            // most threads keep to one input for a while, some alternate
                            let mut i = id % want.len();
                            while n < 40 || (n % 16 != 0 || start.elapsed() < until) && !quit.load(Ordering::Relaxed) {
                                if id % 3 == 2 || n % 32 == 31 {
                                    i = r.below(want.len());
                                }
                                if call(i) != want[i] {
                                    wrong = Some(i);
                                    quit.store(true, Ordering::Relaxed);
                                    break;
                                }
                                n += 1;
                            }
                            (from, start.elapsed(), n, wrong)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        let calls: u64 = got.iter().map(|g| g.2).sum();
        let last_in = got.iter().map(|g| g.0).max().unwrap();
        let first_out = got.iter().map(|g| g.1).min().unwrap();
        x.evals += calls;
        x.saw("storms [calls compared]", calls);
        x.saw(if last_in < first_out { "storms [all threads at work at once]" } else { "storms [threads partly one after another]" }, 1);
        for g in got {
            if let Some(i) = g.3 {
                x.broken(fam, "thread", format!("{label}: among {threads} threads making such calls at once, one got another answer than the same call gets alone"), tok[i].clone());
                return false;
            }
        }
        // and afterwards
        for (i, w) in want.iter().enumerate() {
            if call(i) != *w {
                x.broken(fam, "thread", format!("{label}: after calls from {threads} threads a call has another answer than before"), tok[i].clone());
                return false;
            }
        }
        true
    }

    fn storms(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
        use validators::functions as vf;
        let mut r = Rng::new(x.seed ^ 0x5709 ^ (x.worker as u64) << 20);
        let end = std::time::Instant::now() + Duration::from_secs_f64(x.budget * 0.3);
        // public functions
        let names = ["localhost", "localhost.", "LOCALHOST", "localhosT.", "localhos", "localhost0", "example.com", "a", "a.b", "a.b.", "a.", ".", "", "xn--a.com", "127.0.0.1", "127.0.0.1."];
        let v4: Vec<Ipv4Addr> = [[127, 0, 0, 1], [8, 8, 8, 8], [10, 0, 0, 1], [11, 0, 0, 1], [192, 168, 1, 1], [192, 169, 1, 1], [169, 254, 0, 1], [0, 0, 0, 0], [255, 255, 255, 255], [198, 51, 100, 1]].iter().map(|a| Ipv4Addr::from(*a)).collect();
        let v6: Vec<Ipv6Addr> = ["::1", "::", "2001:4860::1", "fe80::1", "fd00::1", "2001:db8::1", "::ffff:10.0.0.1", "::ffff:8.8.8.8", "ff02::1", "fec0::1"].iter().map(|a| a.parse().unwrap()).collect();
        let j = |o: bool| o as u64;
        let text: Vec<Value> = names.iter().map(|n| Value::String(n.to_string())).collect();
        let t4: Vec<Value> = v4.iter().map(|n| Value::String(n.to_string())).collect();
        let t6: Vec<Value> = v6.iter().map(|n| Value::String(n.to_string())).collect();
        let span = Duration::from_millis(12);
        for round in 0..1000 {
            // two to four inputs at a time: a slot shared by all is often hit
            let pick = |r: &mut Rng, n: usize| -> Vec<usize> { (0..2 + r.below(3)).map(|_| r.below(n)).collect() };
            let sub = |all: &[Value], k: &[usize]| -> Vec<Value> { k.iter().map(|i| all[*i].clone()).collect() };
            let k = pick(&mut r, names.len());
            storm(x, "function", "is_local_domain", sub(&text, &k), &|i| j(vf::is_local_domain(names[k[i]])), span, &mut r);
            storm(x, "function", "is_at_least_two_labels_domain", sub(&text, &k), &|i| j(vf::is_at_least_two_labels_domain(names[k[i]])), span, &mut r);
            storm(x, "function", "parse_ipv4_allow_an_ended_dot", sub(&text, &k), &|i| vf::parse_ipv4_allow_an_ended_dot(names[k[i]]).map_or(1 << 40, |a| u32::from(a) as u64), span, &mut r);
            let k = pick(&mut r, v4.len());
            storm(x, "function", "is_local_ipv4", sub(&t4, &k), &|i| j(vf::is_local_ipv4(v4[k[i]])), span, &mut r);
            storm(x, "function", "is_local_ip", sub(&t4, &k), &|i| j(vf::is_local_ip(v4[k[i]].into())), span, &mut r);
            let k = pick(&mut r, v6.len());
            storm(x, "function", "is_local_ipv6", sub(&t6, &k), &|i| j(vf::is_local_ipv6(v6[k[i]])), span, &mut r);
            storm(x, "function", "is_local_ip", sub(&t6, &k), &|i| j(vf::is_local_ip(v6[k[i]].into())), span, &mut r);
            tick();
            if round >= 3 && std::time::Instant::now() + Duration::from_secs_f64(x.budget * 0.2) > end {
                break;
            }
        }
        // every validator
        let fams = x.fams;
        let mut all: Vec<(usize, usize)> = fams.iter().enumerate().flat_map(|(f, g)| (0..g.targets.len()).map(move |t| (f, t))).collect();
        for i in (1..all.len()).rev() {
            all.swap(i, r.below(i + 1));
        }
        let total = all.len();
        let mut done = 0;
        for (f, t) in all {
            if std::time::Instant::now() > end {
                break;
            }
            tick();
            let target = &fams[f].targets[t];
            let way = r.below(4).min(2);
            // inputs with as many different answers as a few tries give
            let mut toks: Vec<(Tok, u64)> = vec![];
            for _ in 0..30 {
                let tok = (fams[f].gen_tok)(&mut r);
                let d = observe(target, &tok, way);
                if target.do_validate(&tok).is_some() && !toks.iter().any(|o| o.1 == d) {
                    toks.push((tok, d));
                }
                if toks.len() == 4 {
                    break;
                }
            }
            if toks.len() < 2 {
                continue;
            }
            done += 1;
            let docs = toks.iter().map(|o| o.0.to_json()).collect();
            storm(x, target.fam, &target.label(), docs, &|i| observe(target, &toks[i].0, way), Duration::from_millis(4), &mut r);
        }
        x.saw("storms [validators put under fire]", done);
        x.saw("storms [validators there are]", total as u64);
    }

    /// parent: every process gave the same answers
    pub fn merge(dir: &std::path::Path, workers: usize) -> Result<u64, String> {
        let mut first: Option<Vec<u8>> = None;
        let mut n = 0;
        for w in 0..workers {
            let p = dir.join(format!("shared-{w}.bin"));
            let Ok(raw) = std::fs::read(&p) else { continue };
            let _ = std::fs::remove_file(&p);
            match &first {
                None => first = Some(raw),
                Some(f) => {
                    n += (f.len() / 8) as u64;
                    if let Some(i) = f.chunks(8).zip(raw.chunks(8)).position(|(a, b)| a != b) {
                        return Err(format!("process {w} answers shared call {i} differently from process 0"));
                    }
                },
            }
        }
        Ok(n)
    }
}
