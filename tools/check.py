#!/usr/bin/env python3
"""check.py ID            decide one property on /repo's working tree
check.py --replay FILE    show one recorded finding again"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from checks import CHECKS

TARGET = os.path.join(VERIF, "target")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)


def die(msg):
    print(msg)
    sys.exit(2)


def build(features):
    """the harness against the current tree; None and the log when it does not build"""
    r = subprocess.run(["cargo", "build", "--offline", "--features", features], cwd=os.path.join(VERIF, "harness"),
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    os.makedirs(os.path.join(TARGET, "bin"), exist_ok=True)
    dst = os.path.join(TARGET, "bin", "vmon-" + features.replace(",", "+"))
    shutil.copy2(os.path.join(TARGET, "debug", "vmon"), dst + ".new")
    os.replace(dst + ".new", dst)
    return dst, r.stdout


def replay_path(pid, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, f"{pid}-{n}.json")):
        n += 1
    p = os.path.join(d, f"{pid}-{n}.json")
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def finish(pid, coverage, violations, errors, t0, assumptions=()):
    """evidence, VIOLATION lines, exit"""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="exploration",
              coverage=coverage, assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(violations))
    p = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(p + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".new", p)
    for v in violations:
        print(f"{pid}: {v.get('fam', '')} {v.get('target', '')} [{v.get('kind', '')}] input {json.dumps(v.get('input'))[:400]}: {str(v.get('what', ''))[:600]}")
        print(f"VIOLATION property={pid} replay={replay_path(pid, v)}")
    for e in errors:
        print("error:", e)
    print(f"{pid}: {coverage.get('evaluations')} evaluations, {coverage.get('distinct_nontrivial')} distinct non-trivial cases, {len(violations)} violations, {ev['wall_s']} s")
    sys.exit(1 if violations else 2 if errors or not coverage.get("evaluations") or not coverage.get("distinct_nontrivial") else 0)


def vmon(pid):
    c = CHECKS[pid]
    t0 = time.time()
    budget = c["quick"] if TIER != "thorough" else 400 / len(c["features"])
    if os.environ.get("VMON_BUDGET"):
        budget = float(os.environ["VMON_BUDGET"])
    builds, total = [], None
    violations, errors = [], []
    for feats in c["features"]:
        exe, log = build(feats)
        if exe is None:
            print(log[-6000:])
            die(f"error: the harness does not build against this tree (features {feats})")
        builds.append((feats, exe))
    for feats, exe in builds:
        d = tempfile.mkdtemp(prefix=f"vmon-{pid}-")
        rep = os.path.join(d, "report.json")
        try:
            r = subprocess.run([exe, "run", "--check", pid, "--seed", str(SEED), "--budget", str(budget), "--workers", "8",
                                "--dir", d, "--report", rep, "--tag", feats], env=ENV)
            if not os.path.exists(rep):
                die(f"error: the monitor ended with {r.returncode} and no report")
            with open(rep) as f:
                out = json.load(f)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for v in out["violations"]:
            v["features"] = feats
        violations += out["violations"]
        errors += out["errors"]
        if total is None:
            total = out
        else:
            for k in ("evaluations", "inputs", "distinct", "targets"):
                total[k] += out[k]
            for k in ("per_family", "corners", "longs"):
                for n, x in out[k].items():
                    total[k][f"{n} ({feats})"] = x
            total["samples"] += out["samples"]
            total["idle"] += out["idle"]
    cov = dict(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"], rule=c["rule"], samples=total["samples"],
               inputs=total["inputs"], targets_observed=total["targets"], targets_without_applicable_input=total["idle"],
               corner_inputs_run_of=total["corners"], long_inputs=total["longs"], observed=total["per_family"], builds=[f for f, _ in builds])
    extra = EXTRA.get(pid)
    if extra:
        v, e, more, n = extra(SEED, TIER == "thorough")
        violations += v
        errors += e
        cov.update(more)
        cov["evaluations"] += n
    finish(pid, cov, violations, errors, t0, ["the reference oracles and the Rust toolchain"])


def _c01(*a):
    import sanitize
    return sanitize.c01(*a)


def _c27(*a):
    import sanitize
    return sanitize.c27(*a)


EXTRA = {"C01": _c01, "C27": _c27}


def replay(path):
    with open(path) as f:
        v = json.load(f)
    if not v.get("input") or v.get("family") == "extras":
        print(json.dumps(v, indent=1))
        return
    exe, log = build(v["features"])
    if exe is None:
        die(log[-3000:])
    sys.exit(subprocess.run([exe, "replay", path], env=ENV).returncode)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    if pid == "C26":
        import probes
        return probes.main()
    if pid == "C28":
        import features
        return features.main()
    vmon(pid)


if __name__ == "__main__":
    main()
