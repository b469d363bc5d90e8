#!/usr/bin/env python3
"""Runs the check of one property: check.py ID quick|thorough, or check.py --replay FILE.

Builds the explorer for both async runtimes from /repo's working tree, explores, merges the
results, writes evidence/<ID>.json and replays/, and reports.  Exit 0: held on everything explored;
1: violated (VIOLATION line); 2: the check itself failed.
"""
import fcntl, hashlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
RUNTIMES = {"tokio": ["--features", "rt-tokio"], "async-std": ["--no-default-features", "--features", "rt-async-std"]}
FINDINGS = os.path.join(HERE, "known-findings.txt")

MC = "model_checking"
LEVELS = {
    "C01": "exploration", "C02": "fault_enumeration", "C03": MC, "C04": MC, "C05": "exploration", "C06": MC,
    "C07": "fault_enumeration", "C08": "exploration", "C09": MC, "C10": "exploration", "C11": MC, "C12": MC,
    "C13": MC, "C14": MC, "C15": "exploration", "C16": MC, "C17": MC, "C18": MC, "C19": "exploration",
    "C20": MC, "C21": "exploration", "C22": MC, "C23": "exploration", "C24": MC,
    "C25": MC, "C26": "fault_enumeration",
}
ASSUME = [
    "the reference server, grammar and decoders of harness/src (server.rs, refs.rs) describe RFC 5321/2920/3207/4954/3461 correctly",
    "bounds of the tier as given in DESIGN.md; nothing is claimed beyond them",
    "rustc, the standard library, tokio and async-std I/O traits behave as documented",
]


def fail(msg):
    print("check error:", msg, file=sys.stderr)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, ["src", "Cargo.toml", "Cargo.lock", "build.rs"]), (HARNESS, ["src", "Cargo.toml", "Cargo.lock"])]
    for root, names in roots:
        for n in names:
            p = os.path.join(root, n)
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
            for f in files:
                h.update(f.encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def build():
    """Rebuilds whenever the content of /repo or of the harness differs from what was built."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    want = tree_hash()
    stamp = os.path.join(TARGET, ".tree")
    bins = {rt: os.path.join(TARGET, "release", "mc-" + rt) for rt in RUNTIMES}
    try:
        have = open(stamp).read()
    except OSError:
        have = ""
    if have != want or not all(os.path.exists(b) for b in bins.values()):
        if os.path.exists(stamp):
            os.remove(stamp)
        # cargo decides by modification time; content decides here
        fp = os.path.join(TARGET, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("async-smtp-", "smtpmc-")):
                    for f in os.listdir(os.path.join(fp, d)):
                        os.remove(os.path.join(fp, d, f))
                    os.rmdir(os.path.join(fp, d))
        for rt, args in RUNTIMES.items():
            env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR")}
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--target-dir", TARGET] + args,
                               cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                fail("building the %s explorer failed:\n%s" % (rt, r.stdout[-4000:]))
        with open(stamp, "w") as f:
            f.write(want)
    return bins, lock


def explore(binary, ident, tier, out):
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run([binary, "check", ident, tier, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError) as e:
        return {"engine_errors": ["explorer ended with %s: %s %s" % (r.returncode, e, r.stdout[-1500:])], "violations": []}
    finally:
        if os.path.exists(out):
            os.remove(out)
    if not (r.returncode == 0 or r.returncode == 3 and d.get("stuck")):
        d.setdefault("engine_errors", []).append("explorer ended with %s" % r.returncode)
    return d


def compare(bins, tier, results):
    """C17: the observations of every job must be the same on both builds."""
    a, b = [{j[0]: j for j in results[rt].get("job_obs", [])} for rt in RUNTIMES]
    out = []
    for name in a:
        if name not in b or a[name] == b[name]:
            continue
        dumps = []
        for rt in RUNTIMES:
            r = subprocess.run([bins[rt], "dump", "C17", tier, name], stdout=subprocess.PIPE, text=True, timeout=300)
            dumps.append(r.stdout.splitlines())
        k = next((i for i, (x, y) in enumerate(zip(*dumps)) if x != y), min(len(dumps[0]), len(dumps[1])))
        x, y = [d[k] if k < len(d) else "(no such execution)" for d in dumps]
        choices = json.loads(x[: x.index("]") + 1]) if x.startswith("[") else []
        out.append({"runtime": "both", "job": name, "choices": choices, "key": "runtimes-differ",
                    "message": "observations differ between the builds: tokio %s / async-std %s" % (x[:600], y[:600])})
        if len(out) >= 3:
            break
    return out


def findings(ident):
    """`finding: property=ID runtime=R|* job=J key=K :: what fails` lines."""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                if d.get("property") == ident:
                    d["what"] = what.strip()
                    res.append(d)
    return res


def known(v, fs):
    for f in fs:
        if f.get("key") == v["key"] and f.get("job") == v["job"] and f.get("runtime", "*") in ("*", v["runtime"]):
            return f
    return None


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            v = json.load(f)
        bins, _lock = build()
        for rt in (RUNTIMES if v["runtime"] == "both" else [v["runtime"]]):
            r = subprocess.run([bins[rt], "replay", v["property"], v["tier"], v["job"], ",".join(map(str, v["choices"]))])
            print(rt, "exit", r.returncode)
        return r.returncode
    if len(sys.argv) != 3 or sys.argv[1] not in LEVELS or sys.argv[2] not in ("quick", "thorough"):
        fail("usage: check.py ID quick|thorough | check.py --replay FILE")
    ident, tier = sys.argv[1:]
    t0 = time.time()
    bins, _lock = build()
    t_build = time.time() - t0
    results = {rt: explore(bins[rt], ident, tier, os.path.join(TARGET, "out-%s-%s.json" % (ident, rt))) for rt in RUNTIMES}
    viol, errors = [], []
    for rt, d in results.items():
        viol += d.get("violations", [])
        errors += ["%s: %s" % (rt, e) for e in d.get("engine_errors", [])]
    if ident == "C24" and not viol:
        # The environment is deterministic and new for every execution: what makes a repetition
        # differ is state that the library keeps across sessions.
        for rt, d in results.items():
            for e in d.get("engine_errors", []):
                if "not deterministic" in e or "does not replay" in e or "DIVERGENCE" in e or "inside its prefix" in e:
                    viol.append({"runtime": rt, "job": "repetition", "choices": [], "key": "left-over", "message": e[:1500]})
    if ident == "C17" and not any(d.get("stuck") for d in results.values()):
        viol += compare(bins, tier, results)

    fs = findings(ident)
    for f in fs:
        print("KNOWN-FINDING: property=%s %s" % (ident, f["what"]))
    viol = [v for v in viol if known(v, fs) is None]

    tot = lambda k: sum(d.get(k, 0) for d in results.values())
    level = LEVELS[ident]
    inner = tot("inner")
    cov = {"per_runtime": {rt: {k: d.get(k) for k in ("executions", "jobs", "capped", "wall_s", "distinct_observations")} for rt, d in results.items()},
           "samples": [s for d in results.values() for s in d.get("samples", [])][:8] or ["(none recorded)"],
           "rule": next((d["rule"] for d in results.values() if "rule" in d), ""),
           "exhaustive": not any(d.get("capped", True) for d in results.values()) and not errors and not viol}
    if level == MC:
        # every enumerated input of a job's inner loop is one more initial state with one path
        cov["states"] = tot("states") + inner
        cov["transitions"] = tot("transitions") + inner
        cov["traces_validated_against_impl"] = tot("evaluations")
        cov["distinct_nontrivial"] = tot("distinct_nontrivial")
    else:
        cov["evaluations"] = tot("evaluations")
        cov["distinct_nontrivial"] = tot("distinct_nontrivial")
        cov["choice_tree_states"] = tot("states")
    if ident == "C17":
        cov["jobs_compared"] = len(results["tokio"].get("job_obs", []))
    ev = {"property": ident, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 3), "build_s": round(t_build, 3), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ident + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(viol[:10]):
            p = os.path.join(HERE, "replays", "%s-%d.json" % (ident, i))
            with open(p, "w") as f:
                json.dump(dict(v, property=ident, tier=tier, replay_with="python3 check.py --replay " + p), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (ident, p))
            print("  [%s] %s %s: %s" % (v["runtime"], v["job"], v["key"], v["message"][:800]))
        return 1
    if errors:
        fail("\n".join(errors))
    unit = "states %d, transitions %d, executions compared %d" % (cov["states"], cov["transitions"], cov["traces_validated_against_impl"]) if level == MC \
        else "evaluations %d" % cov["evaluations"]
    print("%s %s: held; %s, non-trivial %d; %.1f s" % (ident, tier, unit, cov["distinct_nontrivial"], time.time() - t0)
          + ("" if cov["exhaustive"] else " (time cap reached: not exhaustive)"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
