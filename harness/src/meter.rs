//! What a call costs: memory left behind, memory at its highest, memory asked for in all,
//! and the time of the thread, counted by the allocator and the thread's own clock.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    time::{Duration, Instant},
};

use serde_json::json;

use crate::{
    core::{Family, Out, Rng, Target, Tok, guard},
    extras::Ctx,
    monitors::{Seen, Seen::*},
};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ASKED: Cell<i64> = const { Cell::new(0) };
}

struct Meter;

#[inline]
fn add(n: i64) {
    let l = LIVE.get() + n;
    LIVE.set(l);
    if l > PEAK.get() {
        PEAK.set(l);
    }
    ASKED.set(ASKED.get() + n);
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.set(LIVE.get() - l.size() as i64);
        unsafe { System.dealloc(p, l) }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the old block goes once the new one is there
        add(n as i64);
        LIVE.set(LIVE.get() - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static METER: Meter = Meter;

#[derive(Clone, Copy)]
struct Use {
    left:  i64,
    peak:  i64,
    asked: i64,
}

fn measure(f: impl FnOnce()) -> Use {
    let (live, asked) = (LIVE.get(), ASKED.get());
    PEAK.set(live);
    f();
    Use { left: LIVE.get() - live, peak: PEAK.get() - live, asked: ASKED.get() - asked }
}

fn thread_time() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

fn size(t: &Tok) -> usize {
    match t {
        Tok::Str(s) | Tok::Json(s) => s.len(),
        Tok::Bytes(b) => b.len(),
        Tok::Len(n) => *n,
        _ => 16,
    }
}

const WAYS: [&str; 6] = ["parsing borrowed data", "parsing owned data", "validating", "writing the value out", "deserializing", "deserializing a document"];

/// one way of using the target, everything it gave dropped again
fn go(t: &Target, tok: &Tok, text: Option<&str>, way: usize) -> bool {
    let mut some = true;
    let _ = guard(|| match way {
        0 => some = (t.parse)(tok, false).is_some(),
        1 => some = (t.parse)(tok, true).is_some(),
        2 => some = (t.validate)(tok).is_some(),
        3 => some = t.any.and_then(|f| f(tok)).map(|v| (v.canon(), v.ser(true), v.ser_json())).is_some(),
        4 => some = t.de.and_then(|f| f(tok, true)).is_some(),
        _ => some = t.de_json.zip(text).map(|(f, s)| f(s)).is_some(),
    });
    some
}

fn document(t: &Target, tok: &Tok) -> Option<String> {
    t.de_json?;
    if let Some(f) = t.json {
        return f(tok);
    }
    match tok {
        Tok::Str(s) => serde_json::to_string(s).ok(),
        Tok::Json(s) => Some(s.clone()),
        _ => None,
    }
}

/// bytes a call may hold beside those for each byte of input, and those; four times as much may be asked for in all
fn limit(fam: &str, n: i64) -> i64 {
    match fam {
        // a pattern may be compiled on the way
        "regex" => (4 << 20) + 400 * n,
        "json" => (64 << 10) + 2000 * n,
        _ => (64 << 10) + 400 * n,
    }
}

pub fn eval(t: &Target, tok: &Tok) -> Seen {
    let n = size(tok) as i64;
    let text = document(t, tok);
    let mut most = 0;
    let mut any = false;
    for way in 0..WAYS.len() {
        if !go(t, tok, text.as_deref(), way) {
            continue;
        }
        any = true;
        // caches may have been filled by the first call
        let u = measure(|| {
            go(t, tok, text.as_deref(), way);
        });
        if u.left > 0 && (0..8).all(|_| measure(|| { go(t, tok, text.as_deref(), way); }).left > 0) {
            return Broken("leak", format!("{} leaves {} bytes behind, every time", WAYS[way], u.left));
        }
        let limit = limit(t.fam, n);
        if u.peak > limit {
            return Broken("memory", format!("{} {n} bytes holds up to {} bytes", WAYS[way], u.peak));
        }
        if u.asked > 4 * limit {
            return Broken("memory in all", format!("{} {n} bytes asks for {} bytes in all", WAYS[way], u.asked));
        }
        if std::env::var_os("VMON_METER").is_some() {
            most = most.max((u.asked - (64 << 10)).max(0) / n.max(1) / 4).max((u.peak - (64 << 10)).max(0) / n.max(1));
        }
    }
    if any { Held(if most > 0 { format!("{most:05} per byte") } else { "measured".into() }) } else { Skip }
}

/// the same text at two sizes, one piece of it repeated
fn scaled(r: &mut Rng, t: &Tok, small: usize, big: usize) -> Option<(Tok, Tok)> {
    let s = match t {
        Tok::Str(s) => s.as_str(),
        Tok::Bytes(b) => std::str::from_utf8(b).ok()?,
        Tok::Json(s) => s.as_str(),
        _ => return None,
    };
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() || c.len() > 400 {
        return None;
    }
    let i = r.below(c.len());
    let k = if r.chance(1, 2) { 1 } else { r.range(1, 4.min(c.len() - i)) };
    let make = |n: usize| -> Tok {
        let mut v: String = c[..i].iter().collect();
        v.extend(c[i..i + k].iter().cycle().take(n));
        v.extend(&c[i..]);
        match t {
            Tok::Bytes(_) => Tok::Bytes(v.into_bytes()),
            Tok::Json(_) => Tok::Json(v),
            _ => Tok::Str(v),
        }
    };
    let (a, b) = (make(small), make(big));
    if let Tok::Json(s) = &a {
        serde_json::from_str::<serde_json::Value>(s).ok()?;
    }
    Some((a, b))
}

fn timed(t: &Target, tok: &Tok, text: Option<&str>, way: usize) -> Duration {
    let a = thread_time();
    go(t, tok, text, way);
    thread_time() - a
}

const TIMES: usize = 8;
const FLOOR: Duration = Duration::from_millis(15);
const LIMIT: f64 = 4.0 * TIMES as f64;

/// eight times the input, at most about eight times the time
pub fn growth(x: &mut Ctx, tick: &(dyn Fn() + Sync)) {
    let mut r = Rng::new(x.seed ^ x.worker as u64 ^ 0x7e);
    let total = Duration::from_secs_f64(x.budget * 0.8);
    let fams: Vec<&Family> = x.fams.iter().filter(|f| !f.targets.is_empty()).collect();
    let start = Instant::now();
    let mut found: Vec<(String, &str, String, serde_json::Value)> = vec![];
    let mut seen: Vec<(String, u64)> = vec![];
    let weight: f64 = fams.iter().map(|f| f.targets.len() as f64).sum();
    let mut gone = 0.0;
    for f in &fams {
        gone += f.targets.len() as f64 / weight;
        let end = start + total.mul_f64(gone);
        let corners = (f.corners)();
        let (mut n, mut long) = (0u64, 0u64);
        'family: while Instant::now() < end {
            let mut pool = vec![];
            for _ in 0..300 {
                let base = if r.chance(1, 2) && !corners.is_empty() { corners[r.below(corners.len())].clone() } else { (f.gen_tok)(&mut r) };
                pool.extend(scaled(&mut r, &base, 4096, 4096 * TIMES));
                if pool.len() == 12 {
                    break;
                }
            }
            if pool.is_empty() {
                break;
            }
            let first = r.below(f.targets.len());
            for t in f.targets.iter().cycle().skip(first).take(f.targets.len()) {
                // one that is accepted, if any is, and one as it comes
                let mine = pool.iter().find(|(a, _)| {
                    tick();
                    t.do_parse(a, false).is_some_and(|o| o.ok())
                });
                for (a, b) in mine.into_iter().chain([r.choose(&pool)]) {
                    if Instant::now() > end {
                        break 'family;
                    }
                    let (da, db) = (document(t, a), document(t, b));
                    for way in 0..WAYS.len() {
                        tick();
                        n += 1;
                        // even its square would be soon over
                        if timed(t, a, da.as_deref(), way) * ((TIMES * TIMES) as u32) < FLOOR {
                            continue;
                        }
                        let mut big = timed(t, b, db.as_deref(), way);
                        if big < FLOOR {
                            continue;
                        }
                        long += 1;
                        let mut ratio = f64::MAX;
                        for k in 0..3 {
                            let small = (0..3).map(|_| timed(t, a, da.as_deref(), way)).max().unwrap();
                            tick();
                            ratio = ratio.min(big.as_secs_f64() / small.as_secs_f64().max(1e-6));
                            if ratio < LIMIT || big > Duration::from_secs(3) || k == 2 {
                                break;
                            }
                            big = timed(t, b, db.as_deref(), way).min(big);
                        }
                        if big > FLOOR && ratio >= LIMIT {
                            found.push((format!("{} [{}]", f.name, t.name), WAYS[way], format!("{} takes {ratio:.0} times as long ({big:?}) for {TIMES} times the input", WAYS[way]), a.to_json()));
                            break 'family;
                        }
                    }
                }
            }
        }
        seen.push((format!("{} [growth measured]", f.name), n));
        seen.push((format!("{} [growth compared with a smaller input]", f.name), long));
    }
    for (k, n) in seen {
        x.evals += n;
        x.saw(&k, n);
    }
    for (fam, _, what, input) in found {
        x.broken(&fam, "time", what, input);
    }
}
