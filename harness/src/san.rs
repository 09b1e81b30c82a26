//! The workload run under a sanitizer or an interpreter: every target, some
//! inputs, from several threads at once. The observer is the instrumentation
//! (address or thread sanitizer, Miri); a panic or a changed answer is reported
//! as well.
use std::sync::{
    Barrier,
    atomic::{AtomicU64, Ordering},
};

use crate::{
    core::{Rng, Tok},
    fam,
    monitors::{self, Seen},
};

pub struct Plan {
    pub seed:    u64,
    /// random inputs of each family
    pub random:  usize,
    /// corner inputs of each family
    pub corners: usize,
    /// targets each input is given to (0: all of its family)
    pub per:     usize,
    pub threads: usize,
    pub skip:    Vec<String>,
}

pub fn run(p: &Plan) -> i32 {
    let fams = fam::all();
    let mut jobs: Vec<(usize, usize, Tok)> = vec![];
    let mut names = vec![];
    for (fi, f) in fams.iter().enumerate() {
        if p.skip.iter().any(|s| s == f.name) {
            continue;
        }
        names.push(f.name);
        let mut r = Rng::new(p.seed ^ f.name.bytes().fold(7u64, |a, b| a.wrapping_mul(131) ^ b as u64));
        let mut toks = vec![];
        if p.corners > 0 {
            let mut all = (f.corners)();
            for _ in 0..p.corners.min(all.len()) {
                let i = r.below(all.len());
                toks.push(all.swap_remove(i));
            }
        }
        for _ in 0..p.random {
            toks.push((f.gen_tok)(&mut r));
        }
        for t in toks {
            if p.per == 0 {
                jobs.extend((0..f.targets.len()).map(|i| (fi, i, t.clone())));
            } else {
                jobs.extend((0..p.per).map(|_| (fi, r.below(f.targets.len()), t.clone())));
            }
        }
    }
    let counts: [AtomicU64; 4] = Default::default();
    let windows = std::sync::Mutex::new(std::collections::HashSet::new());
    let gate = Barrier::new(p.threads);
    let clock = AtomicU64::new(0);
    let one = |id: usize| {
        let mut r = Rng::new(p.seed ^ (id as u64 + 1) << 40);
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        // even threads race for the same first jobs, odd ones wander
        if id % 2 == 1 {
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
        } else if p.per > 0 {
            // likely to be cut short: every family early, the same order on all even threads
            let mut r = Rng::new(p.seed ^ 0x9a27);
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        gate.wait();
        let (mut last, mut gaps) = (0, 0u64);
        for (k, i) in order.into_iter().enumerate() {
            let (fi, ti, tok) = &jobs[i];
            let t = &fams[*fi].targets[*ti];
            match monitors::eval("C01", t, tok) {
                Seen::Broken(kind, what) => {
                    counts[3].fetch_add(1, Ordering::Relaxed);
                    println!("SAN-BROKEN {}", serde_json::json!({"fam": t.fam, "family": fams[*fi].name, "target": t.name, "label": t.label(), "kind": kind, "what": what, "input": tok.to_json()}));
                },
                Seen::Held(tag) => {
                    counts[if tag == "accepted" { 0 } else { 1 }].fetch_add(1, Ordering::Relaxed);
                },
                Seen::Skip => {
                    counts[2].fetch_add(1, Ordering::Relaxed);
                },
            }
            // how many calls of others fell between two of mine
            let now = clock.fetch_add(1, Ordering::Relaxed);
            gaps = gaps.wrapping_mul(31).wrapping_add((now - last).min(30));
            last = now;
            if now % 16 == 15 {
                let c: Vec<u64> = counts.iter().map(|a| a.load(Ordering::Relaxed)).collect();
                println!("SAN-PART {}", serde_json::json!({"accepted": c[0], "rejected": c[1], "windows": windows.lock().unwrap().len(), "threads": p.threads, "families": names}));
            }
            if k % 16 == 15 {
                windows.lock().unwrap().insert(gaps);
                gaps = 0;
            }
        }
    };
    if p.threads <= 1 {
        one(0);
    } else {
        std::thread::scope(|s| {
            for id in 0..p.threads {
                let one = &one;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || one(id)).unwrap();
            }
        });
    }
    let c: Vec<u64> = counts.iter().map(|a| a.load(Ordering::Relaxed)).collect();
    println!(
        "SAN-DONE {}",
        serde_json::json!({"accepted": c[0], "rejected": c[1], "skipped": c[2], "broken": c[3], "jobs": jobs.len(), "threads": p.threads, "families": names, "windows": windows.lock().unwrap().len()})
    );
    (c[3] > 0) as i32
}
