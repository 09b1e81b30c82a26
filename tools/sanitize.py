"""Builds the harness with a sanitizer (or for Miri), runs its `san` workload and
turns what the instrumentation says into violations."""
import json, os, re, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
HARNESS = os.path.join(VERIF, "harness")
HOST = "x86_64-unknown-linux-gnu"
REPORT = re.compile(r"(ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*|error: Undefined Behavior: .*|unsafe precondition\(s\) violated.*)")


def env_for(kind):
    from check import ENV
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(VERIF, "target", kind))
    if kind == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"
    elif kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=77"
    else:
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=full"
    return e


def cmds(kind, features):
    if kind == "miri":
        base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--features", features, "--"]
        return None, base
    b = ["cargo", "+nightly", "build", "--offline", "--features", features, "--target", HOST]
    if kind == "tsan":
        b.append("-Zbuild-std")  # an uninstrumented std would show as false races
    return b, [os.path.join(VERIF, "target", kind, HOST, "debug", "vmon")]


def run(pid, kind, features, args, seeds, timeout=420):
    """-> violations, errors, what was observed"""
    t0 = time.time()
    env = env_for(kind)
    build, exe = cmds(kind, features)
    if build:
        r = subprocess.run(build, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return [], [f"the {kind} build failed: {r.stdout[-1500:]}"], {}
    else:
        # builds, and shows that the interpreter works at all
        r = subprocess.run(exe + ["san", "--random", "0", "--corners", "0"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "SAN-DONE" not in r.stdout:
            return [], [f"the {kind} build failed: {r.stdout[-1500:]}"], {}
    built = time.time() - t0
    ps = [(s, subprocess.Popen(exe + ["san", "--seed", str(s)] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")) for s in seeds]
    violations, errors = [], []
    seen = dict(accepted=0, rejected=0, windows=0, runs=0, unfinished=0)
    known = set()
    for s, p in ps:
        try:
            out, _ = p.communicate(timeout=max(1, timeout - (time.time() - t0 - built)))
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            seen["unfinished"] += 1
            # what it had observed when its time was up
            parts = [l for l in out.splitlines() if l.startswith("SAN-PART ") and l.endswith("}")]
            out = "\n".join(l for l in out.splitlines() if not l.startswith("SAN-PART "))
            out += "\n" + (parts[-1].replace("SAN-PART ", "SAN-DONE ") if parts else "SAN-DONE-NOTHING")
        seen["runs"] += 1
        for l in out.splitlines():
            if l.startswith("SAN-DONE "):
                d = json.loads(l[9:])
                for k in ("accepted", "rejected", "windows"):
                    seen[k] += d[k]
                seen["families"] = d["families"]
                seen["threads"] = d["threads"]
            elif l.startswith("SAN-BROKEN "):
                d = json.loads(l[11:])
                key = (d["family"], d["kind"])
                if key not in known:
                    known.add(key)
                    violations.append(dict(d, property=pid, tag=kind, features=features))
        found = [(m.group(1), m.start()) for m in REPORT.finditer(out)]
        for what, at in found:
            if what not in known:
                known.add(what)
                violations.append(dict(property=pid, fam=kind, target="", kind="sanitizer", family="extras", input=None, what=what + "\n" + out[at:at + 3000],
                                       run=" ".join(exe + ["san", "--seed", str(s)] + args)))
        if "SAN-DONE" not in out and not found:
            if "unsupported operation" in out:
                seen["stopped by an operation the interpreter lacks"] = seen.get("stopped by an operation the interpreter lacks", 0) + 1
            else:
                errors.append(f"{kind}: run with seed {s} ended with {p.returncode} and no report: {out[-600:]}")
    if not seen["accepted"] and not violations:
        errors.append(f"{kind}: nothing was observed")
    seen["build_s"] = round(built, 1)
    seen["wall_s"] = round(time.time() - t0, 1)
    return violations, errors, seen


def all_of(pid, plans):
    """plans: (name, kind, features, args, seeds, timeout)"""
    v, e, more, n = [], [], {}, 0
    for name, kind, features, args, seeds, timeout in plans:
        a, b, seen = run(pid, kind, features, args, seeds, timeout)
        v += a
        e += b
        more[name] = seen
        n += seen.get("accepted", 0) + seen.get("rejected", 0)
    return v, e, {"instrumented": more}, n


def c01(seed, thorough):
    k = 8 if thorough else 1
    plans = [
        ("address sanitizer, all families", "asan", "all,serde_facets", ["--random", str(12 * k), "--corners", str(12 * k), "--threads", "1"], [seed * 100 + i for i in range(8)], 420),
        ("Miri, the validators with unsafe code", "miri", "fam_base", ["--random", str(10 * k), "--corners", "0"], [seed * 100 + i for i in range(8)], 240 * (2 if thorough else 1)),
    ]
    if thorough:
        plans.append(("Miri, all families but phone", "miri", "all,serde_facets", ["--random", "4", "--per", "8", "--corners", "0", "--skip", "phone", "--skip", "delegate"], [seed * 100 + i for i in range(8)], 600))
    return all_of("C01", plans)


def c27(seed, thorough):
    k = 6 if thorough else 1
    plans = [("thread sanitizer with an instrumented std", "tsan", "all,serde_facets", ["--random", str(8 * k), "--corners", str(8 * k), "--threads", "8"], [seed * 100 + i for i in range(3 if thorough else 2)], 420)]
    if thorough:
        plans.append(("Miri's race detector", "miri", "all,serde_facets", ["--random", "2", "--per", "5", "--corners", "0", "--threads", "3", "--skip", "phone", "--skip", "delegate"], [seed * 100 + i for i in range(8)], 600))
    return all_of("C27", plans)
