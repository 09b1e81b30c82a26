use std::path::PathBuf;

use vmon::runner::{self, Opt};

fn main() {
    vmon::core::install_panic_hook();
    let mut a = std::env::args().skip(1);
    let cmd = a.next().unwrap_or_default();
    if cmd == "replay" {
        std::process::exit(runner::replay(&PathBuf::from(a.next().unwrap())));
    }
    if cmd == "san" {
        let mut p = vmon::san::Plan { seed: 1, random: 20, corners: 20, per: 0, threads: 1, skip: vec![] };
        while let Some(k) = a.next() {
            let v = a.next().unwrap();
            match k.as_str() {
                "--seed" => p.seed = v.parse().unwrap(),
                "--random" => p.random = v.parse().unwrap(),
                "--corners" => p.corners = v.parse().unwrap(),
                "--per" => p.per = v.parse().unwrap(),
                "--threads" => p.threads = v.parse().unwrap(),
                "--skip" => p.skip.push(v),
                _ => panic!("{k}"),
            }
        }
        std::process::exit(vmon::san::run(&p));
    }
    let mut o = Opt { check: String::new(), seed: 1, budget: 10.0, workers: 8, dir: PathBuf::from("/tmp/vmon"), tag: String::new(), only: vec![] };
    let mut report = PathBuf::from("report.json");
    let mut index = 0;
    while let Some(k) = a.next() {
        let v = a.next().unwrap();
        match k.as_str() {
            "--check" => o.check = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--budget" => o.budget = v.parse().unwrap(),
            "--workers" => o.workers = v.parse().unwrap(),
            "--dir" => o.dir = v.into(),
            "--tag" => o.tag = v,
            "--only" => o.only.push(v),
            "--report" => report = v.into(),
            "--index" => index = v.parse().unwrap(),
            _ => panic!("{k}"),
        }
    }
    match cmd.as_str() {
        "run" => std::process::exit(runner::parent(&o, &report)),
        "worker" => runner::worker(&o, index),
        "list" => {
            for f in runner::families(&o) {
                println!("{} {} targets, {} corners", f.name, f.targets.len(), (f.corners)().len());
            }
        },
        _ => panic!("run | worker | replay | list"),
    }
}
