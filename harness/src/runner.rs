//! Workload driver. The parent spawns worker processes; each drives its share
//! of the corner inputs, then random inputs until its time is up, over every
//! target of every family, and hands every observation to the check's oracle.
//! What a worker is doing is kept in a shared mapping, so that a crash, an
//! abort or a hang is attributed to the input that caused it.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    fs,
    io::Write,
    os::{fd::AsRawFd, unix::process::{CommandExt, ExitStatusExt}},
    path::{Path, PathBuf},
    process::{Child, Command},
    sync::atomic::{AtomicU32, AtomicU64, Ordering},
    time::{Duration, Instant},
};

use serde_json::{Value, json};

use crate::{
    core::{Family, Rng, Target, Tok, clip, guard},
    extras, fam, hostile,
    monitors::{self, Seen},
    stretch,
};

const MAP: usize = 96 << 20;
const HANG: Duration = Duration::from_secs(60);

// ---- the shared journal -------------------------------------------------------

struct Journal {
    p: *mut u8,
}

impl Journal {
    fn open(path: &Path) -> Journal {
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(MAP as u64).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), MAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Journal { p: p as *mut u8 }
    }

    fn progress(&self) -> &AtomicU64 {
        unsafe { &*(self.p as *const AtomicU64) }
    }

    fn target(&self) -> &AtomicU32 {
        unsafe { &*(self.p.add(8) as *const AtomicU32) }
    }

    fn len(&self) -> &AtomicU32 {
        unsafe { &*(self.p.add(12) as *const AtomicU32) }
    }

    fn put(&self, s: &str) {
        self.len().store(0, Ordering::Relaxed);
        let n = s.len().min(MAP - 64);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(64), n) };
        self.len().store(n as u32, Ordering::Release);
    }

    fn get(&self) -> Vec<u8> {
        let n = self.len().load(Ordering::Acquire) as usize;
        unsafe { std::slice::from_raw_parts(self.p.add(64), n.min(MAP - 64)) }.to_vec()
    }
}

// ---- options --------------------------------------------------------------------

pub struct Opt {
    pub check:   String,
    pub seed:    u64,
    pub budget:  f64,
    pub workers: usize,
    pub dir:     PathBuf,
    pub tag:     String,
    pub only:    Vec<String>,
}

pub fn families(o: &Opt) -> Vec<Family> {
    let mut v = fam::all();
    v.extend(extras::families(&o.check));
    for f in v.iter_mut() {
        f.targets.retain(|t| monitors::covers(&o.check, t));
    }
    v.retain(|f| !f.targets.is_empty() && (o.only.is_empty() || o.only.iter().any(|x| x == f.name)));
    v
}

// ---- worker -------------------------------------------------------------------------

#[derive(Default)]
struct TargetStat {
    n:    u64,
    tags: BTreeMap<String, u64>,
}

struct Worker<'a> {
    o:          &'a Opt,
    j:          Journal,
    evals:      u64,
    inputs:     u64,
    distinct:   HashSet<u64>,
    stats:      BTreeMap<String, TargetStat>,
    messages:   HashMap<String, HashMap<String, String>>,
    samples:    Vec<Value>,
    violations: Vec<Value>,
    kinds:      BTreeSet<(String, String)>,
    corners:    BTreeMap<String, (u64, u64)>,
    longs:      BTreeMap<String, u64>,
}

fn family_hash(name: &str, t: &Tok) -> u64 {
    let mut h = t.hash();
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 31)
}

impl Worker<'_> {
    fn input(&mut self, f: &Family, tok: &Tok, how: &str) {
        self.j.put(&json!({"family": f.name, "input": tok.to_json()}).to_string());
        self.inputs += 1;
        let mut held = false;
        for (i, t) in f.targets.iter().enumerate() {
            self.j.target().store(i as u32, Ordering::Relaxed);
            self.j.progress().fetch_add(1, Ordering::Relaxed);
            let seen = match guard(|| monitors::eval(&self.o.check, t, tok)) {
                Ok(s) => s,
                Err(m) => Seen::Broken("harness", format!("the monitor itself panicked: {m}")),
            };
            match seen {
                Seen::Skip => {},
                Seen::Held(tag) => {
                    held = true;
                    self.evals += 1;
                    let tag = self.message(t, tok, f, tag);
                    let st = self.stats.entry(t.label()).or_default();
                    st.n += 1;
                    if st.tags.len() < 60 || st.tags.contains_key(&tag) {
                        *st.tags.entry(tag.clone()).or_default() += 1;
                    }
                    if self.samples.len() < 6 && self.inputs % 37 == 1 && (tok.kind() != "str" || self.inputs > 40) {
                        self.samples.push(json!({"target": t.label(), "input": short(tok), "how": how, "observed": tag}));
                    }
                },
                Seen::Broken(kind, what) => {
                    self.evals += 1;
                    self.broken(f, t, tok, kind, what);
                },
            }
        }
        if held && self.distinct.len() < 6_000_000 {
            self.distinct.insert(family_hash(f.name, tok));
        }
    }

    /// two different reasons never share a message
    fn message(&mut self, t: &Target, tok: &Tok, f: &Family, tag: String) -> String {
        let Some((variant, msg)) = tag.split_once('\u{1}') else { return tag };
        let map = self.messages.entry(t.fam.to_string()).or_default();
        if map.len() < 20_000 {
            match map.get(msg) {
                Some(v) if v != variant => {
                    let what = format!("{variant} and {v} carry the same message {:?}", clip(msg));
                    self.broken(f, t, tok, "message shared", what);
                },
                Some(_) => {},
                None => {
                    map.insert(msg.to_string(), variant.to_string());
                },
            }
        }
        variant.to_string()
    }

    fn broken(&mut self, f: &Family, t: &Target, tok: &Tok, kind: &str, what: String) {
        let key = (t.fam.to_string(), kind.to_string());
        if self.kinds.contains(&key) || self.violations.len() >= 6 {
            return;
        }
        self.kinds.insert(key);
        let (tok, what) = shrink(&self.o.check, t, tok, kind, what, &self.j);
        self.violations.push(json!({
            "property": self.o.check, "family": f.name, "target": t.name, "fam": t.fam, "kind": kind,
            "input": tok.to_json(), "what": what, "tag": self.o.tag,
        }));
    }

    fn save(&self, w: usize) {
        let mut raw = Vec::with_capacity(self.distinct.len() * 8);
        for h in &self.distinct {
            raw.extend_from_slice(&h.to_le_bytes());
        }
        fs::write(self.o.dir.join(format!("w{w}.hashes")), raw).unwrap();
        let stats: BTreeMap<_, _> = self.stats.iter().map(|(k, s)| (k.clone(), json!({"n": s.n, "tags": s.tags}))).collect();
        let v = json!({
            "evals": self.evals, "inputs": self.inputs, "stats": stats, "samples": self.samples,
            "violations": self.violations, "corners": self.corners, "longs": self.longs, "messages": self.messages,
        });
        fs::write(self.o.dir.join(format!("w{w}.json")), v.to_string()).unwrap();
    }
}

fn short(t: &Tok) -> Value {
    let v = t.to_json();
    match v["v"].as_str() {
        Some(s) if s.len() > 300 => json!({"k": v["k"], "length": s.len(), "begins": s.chars().take(120).collect::<String>()}),
        _ => v,
    }
}

fn shrink(check: &str, t: &Target, tok: &Tok, kind: &str, what: String, j: &Journal) -> (Tok, String) {
    let end = Instant::now() + Duration::from_secs(4);
    let still = |c: &Tok| -> Option<String> {
        j.progress().fetch_add(1, Ordering::Relaxed);
        match guard(|| monitors::eval(check, t, c)) {
            Ok(Seen::Broken(k, w)) if k == kind => Some(w),
            _ => None,
        }
    };
    let (mut best, mut why) = (tok.clone(), what);
    loop {
        let mut better = false;
        let cands: Vec<Tok> = match &best {
            Tok::Str(s) => cuts(&s.chars().collect::<Vec<_>>()).map(|v| Tok::Str(v.into_iter().collect())).collect(),
            Tok::Json(s) => cuts(&s.chars().collect::<Vec<_>>()).map(|v| Tok::Json(v.into_iter().collect())).collect(),
            Tok::Bytes(b) => cuts(b).map(Tok::Bytes).collect(),
            _ => break,
        };
        for c in cands {
            if Instant::now() > end {
                return (best, why);
            }
            if let Tok::Json(s) = &c {
                if serde_json::from_str::<Value>(s).is_err() {
                    continue;
                }
            }
            if let Some(w) = still(&c) {
                best = c;
                why = w;
                better = true;
                break;
            }
        }
        if !better {
            break;
        }
    }
    (best, why)
}

/// ever smaller pieces taken out
fn cuts<T: Clone>(v: &[T]) -> impl Iterator<Item = Vec<T>> + '_ {
    let n = v.len();
    let mut sizes = vec![];
    let mut k = n / 2;
    while k > 0 {
        sizes.push(k);
        k /= 2;
    }
    let limit = if n > 3000 { 40 } else { usize::MAX };
    sizes.into_iter().flat_map(move |k| (0..=(n - k)).step_by(k.max(1)).take(limit).map(move |i| [&v[..i], &v[i + k..]].concat()))
}

pub fn worker(o: &Opt, w: usize) {
    if std::env::var_os("VMON_NO_LIMIT").is_none() {
        unsafe {
            let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
        }
    }
    let fams = families(o);
    let start = Instant::now();
    let mut me = Worker {
        o,
        j: Journal::open(&o.dir.join(format!("w{w}.journal"))),
        evals: 0,
        inputs: 0,
        distinct: HashSet::new(),
        stats: BTreeMap::new(),
        messages: HashMap::new(),
        samples: vec![],
        violations: vec![],
        kinds: BTreeSet::new(),
        corners: BTreeMap::new(),
        longs: BTreeMap::new(),
    };
    let mut salt = o.seed;
    for b in o.check.bytes().chain(o.tag.bytes()) {
        salt = salt.wrapping_mul(0x100_0000_01b3) ^ b as u64;
    }
    // a big family weighs more
    let weight = |f: &Family| (f.targets.len() as f64).sqrt() + 2.0;
    let total: f64 = fams.iter().map(weight).sum();
    let mut spent = 0.0;
    for f in &fams {
        let share = o.budget * weight(f) / total;
        spent += share;
        let end = start + Duration::from_secs_f64(spent);
        // corners, for at most part of the time, in an order of this seed's own
        let corner_end = end - Duration::from_secs_f64(share * if o.check == "C01" { 0.65 } else { 0.4 });
        let mut toks = (f.corners)();
        let mut r = Rng::new(salt ^ 0xc0);
        for i in (1..toks.len()).rev() {
            toks.swap(i, r.below(i + 1));
        }
        let (mut done, mut mine) = (0, 0);
        for tok in toks.iter().skip(w).step_by(o.workers) {
            mine += 1;
            if Instant::now() < corner_end {
                me.input(f, tok, "corner");
                done += 1;
            }
        }
        me.corners.insert(f.name.into(), (done, mine));
        // relatives of the corners and of random inputs that are far longer
        let long_end = Instant::now() + Duration::from_secs_f64(share * if o.check == "C01" { 0.05 } else { 0.12 });
        let mut q = Rng::new(salt ^ 0x57 ^ ((w as u64 + 1) << 40));
        while !toks.is_empty() && Instant::now() < long_end {
            let t = if q.chance(1, 2) { toks[q.below(toks.len())].clone() } else { (f.gen_tok)(&mut q) };
            if let Some(t) = stretch::stretch(&mut q, f.name, &t) {
                me.input(f, &t, "long");
                *me.longs.entry(f.name.into()).or_default() += 1;
            }
        }
        drop(toks);
        if o.check == "C01" {
            let hostile_end = Instant::now() + Duration::from_secs_f64(share * 0.35);
            let mut v: Vec<Tok> = hostile::inputs(f.name).collect();
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
            for tok in v.iter().skip(w).step_by(o.workers) {
                if Instant::now() < hostile_end {
                    me.input(f, tok, "hostile");
                }
            }
        }
        let mut r = Rng::new(salt ^ ((w as u64 + 1) << 32) ^ f.name.bytes().fold(7u64, |a, b| a.wrapping_mul(131) ^ b as u64));
        while Instant::now() < end {
            for _ in 0..8 {
                let tok = (f.gen_tok)(&mut r);
                me.input(f, &tok, "random");
            }
        }
    }
    if !o.check.is_empty() {
        let mut x = extras::Ctx { check: &o.check, worker: w, workers: o.workers, seed: salt, budget: o.budget, dir: &o.dir, fams: &fams, evals: 0, seen: BTreeMap::new(), samples: vec![], violations: vec![] };
        me.j.put(&json!({"family": "extras", "input": null}).to_string());
        let prog = me.j.progress();
        extras::run(&mut x, &|| {
            prog.fetch_add(1, Ordering::Relaxed);
        });
        me.evals += x.evals;
        // kept apart from the evaluations of single targets: "family [what]" becomes an observation of the family's own monitor
        for (k, n) in x.seen {
            let (fam, what) = k.split_once(" [").map(|(f, w)| (f, w.trim_end_matches(']'))).unwrap_or((&k, "seen"));
            *me.stats.entry(format!("{fam} [monitor of its own]")).or_default().tags.entry(what.to_string()).or_default() += n;
        }
        me.samples.extend(x.samples);
        me.violations.extend(x.violations);
    }
    me.save(w);
}

// ---- parent -------------------------------------------------------------------------------

struct Live {
    w:     usize,
    child: Child,
    j:     Journal,
    last:  u64,
    at:    Instant,
}

fn spawn(o: &Opt, w: usize) -> Child {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("worker").args(["--check", &o.check, "--seed", &o.seed.to_string(), "--budget", &o.budget.to_string(), "--workers", &o.workers.to_string(), "--tag", &o.tag]);
    c.arg("--dir").arg(&o.dir).args(["--index", &w.to_string()]);
    for x in &o.only {
        c.args(["--only", x]);
    }
    if o.check == "C27" {
        // verdicts must not know where they are given
        let keep: Vec<_> = std::env::vars_os().filter(|(k, _)| k.to_string_lossy().starts_with("VMON_")).collect();
        match w % 4 {
            1 => {
                c.env_clear().envs(keep);
            },
            2 => {
                c.envs([("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("HOME", "/nonexistent"), ("TERM", "dumb"), ("USER", "nobody")]);
            },
            3 => {
                c.envs([("LC_ALL", "C"), ("RUST_BACKTRACE", "full"), ("TZ", "UTC"), ("DEBUG", "1"), ("RUST_LOG", "trace"), ("CI", "true")]).env_remove("PATH").env_remove("HOME").current_dir("/");
            },
            _ => {},
        }
    }
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c.spawn().unwrap()
}

/// one case alone in a process with a CPU limit: what happens?
fn alone(o: &Opt, case: &Value, target: Option<usize>) -> Option<String> {
    let p = o.dir.join("alone.json");
    let mut v = case.clone();
    v["property"] = json!(o.check);
    if let Some(t) = target {
        v["index"] = json!(t);
    }
    fs::write(&p, v.to_string()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("replay").arg(&p).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 40, rlim_max: 45 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            Ok(())
        });
    }
    let st = c.status().unwrap();
    st.signal().map(|s| match s {
        libc::SIGXCPU => "hang: no answer within 40 s of CPU time".to_string(),
        libc::SIGSEGV | libc::SIGBUS => format!("memory fault (signal {s}): wild access or stack overflow"),
        libc::SIGABRT => "abort: stack overflow, failed allocation or sanitizer stop".to_string(),
        s => format!("killed by signal {s}"),
    })
}

/// exit code
pub fn parent(o: &Opt, report: &Path) -> i32 {
    fs::create_dir_all(&o.dir).unwrap();
    let mut live: Vec<Live> = (0..o.workers)
        .map(|w| {
            let j = o.dir.join(format!("w{w}.journal"));
            let _ = fs::remove_file(&j);
            let child = spawn(o, w);
            Live { w, child, j: Journal::open(&j), last: 0, at: Instant::now() }
        })
        .collect();
    let mut violations: Vec<Value> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut finished = vec![];
    while !live.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut i = 0;
        while i < live.len() {
            let l = &mut live[i];
            let p = l.j.progress().load(Ordering::Relaxed);
            if p != l.last {
                l.last = p;
                l.at = Instant::now();
            }
            let mut fate = None;
            match l.child.try_wait().unwrap() {
                Some(st) if st.success() => {
                    finished.push(l.w);
                    live.remove(i);
                    continue;
                },
                Some(st) => fate = Some(format!("ended with {st}")),
                None if l.at.elapsed() > HANG => {
                    let _ = l.child.kill();
                    let _ = l.child.wait();
                    fate = Some("made no progress for 60 s".to_string());
                },
                None => {},
            }
            if let Some(fate) = fate {
                let case: Value = serde_json::from_slice(&l.j.get()).unwrap_or(Value::Null);
                let t = l.j.target().load(Ordering::Relaxed) as usize;
                match alone(o, &case, Some(t)) {
                    Some(what) => {
                        let mut v = case.clone();
                        v["property"] = json!(o.check);
                        v["index"] = json!(t);
                        v["kind"] = json!("crash");
                        v["tag"] = json!(o.tag);
                        v["what"] = json!(what);
                        violations.push(v);
                    },
                    None => errors.push(format!("worker {} {fate}, not reproduced alone: {}", l.w, clip(&case.to_string()))),
                }
                live.remove(i);
                continue;
            }
            i += 1;
        }
    }
    // merge
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut inputs) = (0u64, 0u64);
    let mut stats: BTreeMap<String, TargetStat> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut corners: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut longs: BTreeMap<String, u64> = BTreeMap::new();
    for w in finished {
        let raw = fs::read(o.dir.join(format!("w{w}.hashes"))).unwrap();
        for c in raw.chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let v: Value = serde_json::from_slice(&fs::read(o.dir.join(format!("w{w}.json"))).unwrap()).unwrap();
        evals += v["evals"].as_u64().unwrap();
        inputs += v["inputs"].as_u64().unwrap();
        for (k, s) in v["stats"].as_object().unwrap() {
            let st = stats.entry(k.clone()).or_default();
            st.n += s["n"].as_u64().unwrap();
            for (t, n) in s["tags"].as_object().unwrap() {
                *st.tags.entry(t.clone()).or_default() += n.as_u64().unwrap();
            }
        }
        samples.extend(v["samples"].as_array().unwrap().iter().cloned());
        violations.extend(v["violations"].as_array().unwrap().iter().cloned());
        for (k, c) in v["corners"].as_object().unwrap() {
            let e = corners.entry(k.clone()).or_default();
            e.0 += c[0].as_u64().unwrap();
            e.1 += c[1].as_u64().unwrap();
        }
        for (k, n) in v["longs"].as_object().unwrap() {
            *longs.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
    }
    #[cfg(feature = "all")]
    if o.check == "C27" {
        match extras::threads::merge(&o.dir, o.workers) {
            Ok(n) => {
                evals += n;
                stats.entry("processes [answers compared between processes]".into()).or_default().n += n;
            },
            Err(m) => violations.push(json!({"property": "C27", "family": "extras", "fam": "processes", "kind": "process", "what": m, "input": null})),
        }
    }
    let mut seen = BTreeSet::new();
    violations.retain(|v| seen.insert((v["fam"].to_string(), v["kind"].to_string(), v["family"].to_string())));
    let mut r = Rng::new(o.seed);
    while samples.len() > 12 {
        let i = r.below(samples.len());
        samples.swap_remove(i);
    }
    let mut fams: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    for (k, s) in &stats {
        let f = k.split(" [").next().unwrap().to_string();
        let e = fams.entry(f).or_default();
        *e.entry("configurations".into()).or_default() += 1;
        *e.entry("evaluations".into()).or_default() += s.n;
        for (t, n) in &s.tags {
            *e.entry(format!("observed: {t}")).or_default() += n;
        }
    }
    let idle: Vec<String> = families(o).iter().flat_map(|f| f.targets.iter().map(|t| t.label())).filter(|l| !stats.contains_key(l)).collect();
    let out = json!({
        "evaluations": evals, "inputs": inputs, "distinct": hashes.len(), "targets": stats.len(), "idle": idle,
        "per_family": fams, "corners": corners, "longs": longs, "samples": samples, "violations": violations, "errors": errors,
    });
    fs::write(report, out.to_string()).unwrap();
    for w in 0..o.workers {
        for x in ["journal", "json", "hashes"] {
            let _ = fs::remove_file(o.dir.join(format!("w{w}.{x}")));
        }
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() || evals == 0 {
        2
    } else {
        0
    }
}

// ---- replay ----------------------------------------------------------------------------------

pub fn replay(path: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&fs::read(path).unwrap()).unwrap();
    let check = v["property"].as_str().unwrap().to_string();
    let o = Opt { check: check.clone(), seed: 0, budget: 0.0, workers: 1, dir: PathBuf::new(), tag: String::new(), only: vec![] };
    let Some(tok) = Tok::from_json(&v["input"]) else {
        println!("this finding has no single input to replay: {}", v["what"]);
        return 3;
    };
    let mut code = 3;
    for f in families(&o) {
        if Some(f.name) != v["family"].as_str() {
            continue;
        }
        for (i, t) in f.targets.iter().enumerate() {
            let named = v["target"].as_str() == Some(&t.name) && v["fam"].as_str() == Some(t.fam);
            if !named && v["index"].as_u64() != Some(i as u64) {
                continue;
            }
            let exp = guard(|| (t.judge)(&tok));
            println!("target    {}", t.label());
            println!("input     {}", clip(&tok.to_json().to_string()));
            println!("reference {}", clip(&format!("{exp:?}")));
            println!("parse     {:?}", t.do_parse(&tok, false).map(|x| x.brief()));
            println!("validate  {:?}", t.do_validate(&tok).map(|x| x.brief()));
            match monitors::eval(&check, t, &tok) {
                Seen::Broken(k, w) => {
                    println!("BROKEN    {k}: {w}");
                    return 1;
                },
                s => {
                    println!("monitor   {s:?}");
                    code = 0;
                },
            }
        }
    }
    code
}
