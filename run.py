#!/usr/bin/env python3
"""Run the check of one property: run.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: an error of the check."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
import props as P

def known_ids():
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(w.split("=", 1) for w in line.split() if "=" in w)
                res[d["id"]] = (d["property"], line.split(" -- ", 1)[1] if " -- " in line else line)
    return res

def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = P.PROPS[pid]
    t0 = time.time()
    # In both tiers the code is judged as the project builds it (32-bit). Thorough adds the 64-bit ABI where the property
    # does not depend on it.
    cfgs = ["m32"]
    if tier == "thorough" and prop.get("m64"):
        cfgs.append("m64")
    har = prop["harness"]
    if "--replay" in args:
        exe = B.build([har], "m32")[har]
        return subprocess.call([exe, "--replay", args[args.index("--replay") + 1]], env=env())
    repdir = os.path.join(VERIF, "build", "replays")
    os.makedirs(repdir, exist_ok=True)
    targets = []
    budget = 420.0 if tier == "quick" else 700.0
    for cfg in cfgs:
        try:
            exe = B.build([har], cfg)[har]
        except RuntimeError as e:
            print("ERROR: %s" % e)
            return 2
        out = os.path.join(B.OUT, "result-%s-%s-%d.json" % (pid, cfg, os.getpid()))
        cmd = [exe, "--prop", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--dir", repdir, "--budget", str(budget)]
        cmd += ["--scale", args[args.index("--scale") + 1] if "--scale" in args else "8"]
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        r = subprocess.run(cmd, env=env())
        if r.returncode not in (0, 1):
            print("ERROR: %s exited %d" % (exe, r.returncode))
            return 2
        d = json.load(open(out))
        os.unlink(out)
        for t in d["targets"]:
            t["config"] = cfg
        targets += d["targets"]
    known = known_ids()
    violations = []
    kf_lines = []
    for t in targets:
        if t["kf"]:
            if t["kf_hit"]:
                if t["kf"] in known and known[t["kf"]][0] == pid:
                    kf_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, t["kf"], known[t["kf"]][1]))
                else:
                    violations.append(t)
        elif t["violated"]:
            violations.append(t)
    for l in sorted(set(kf_lines)):
        print(l)
    ev = sum(t["evaluated"] for t in targets)
    nt = sum(t["nontrivial"] for t in targets)
    samples = []
    for t in targets:
        for s in t["samples"][:2]:
            samples.append({"target": t["name"], "case": s[:1200]})
    if not samples:
        for t in targets[:3]:
            samples.append({"target": t["name"], "case": t["msg"] or "single-shot case"})
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": nt,
        "rule": prop["rule"],
        "samples": samples[:14],
        "targets": [{"name": t["name"], "config": t["config"], "evaluations": t["evaluated"], "discarded": t["discarded"],
                     "distinct_nontrivial": t["nontrivial"], "coverage_points": t["coverage_points"], "corpus": t["corpus"],
                     "wall_s": round(t["wall"], 2), "stopped_by_time_budget": t["timed_out"],
                     "failures_that_did_not_reproduce": t["unreproduced"],
                     "classes": dict(sorted(t["labels"].items(), key=lambda kv: -kv[1])[:40])} for t in targets],
    }
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": prop.get("assumptions", []) + P.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(evd, f, indent=1)
        f.write("\n")
    os.replace(p + ".tmp", p)
    print("%s (%s, seed %d): %d cases, %d distinct non-trivial, %d targets, %.1f s" % (pid, tier, seed, ev, nt, len(targets), time.time() - t0))
    for t in targets:
        if t["timed_out"]:
            print("  note: %s stopped by the time budget after %d cases" % (t["name"], t["evaluated"]))
        if t["unreproduced"]:
            print("  note: %s: %d failures did not reproduce and are not reported" % (t["name"], t["unreproduced"]))
    if violations:
        for t in violations:
            print("  %s/%s [%s]: %s" % (pid, t["name"], t["config"], t["msg"].replace("\n", " ")[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, t["replay"]))
        return 1
    return 0

def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=99:abort_on_error=0:detect_leaks=0:max_allocation_size_mb=256:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=0:malloc_fill_byte=190:max_malloc_fill_size=100000000:quarantine_size_mb=16"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=0"
    return e

if __name__ == "__main__":
    sys.exit(main())
