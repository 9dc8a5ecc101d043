#!/usr/bin/env python3
"""Runs one check: builds it from /repo's working tree, walks its spaces, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

  run.py C01 [--tier quick|thorough] [--only SPACE] [--replay FILE]
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS

FINDINGS = os.path.join(HERE, "known_findings.json")


def load_findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for f in json.load(open(FINDINGS)).get("open", []):
            if f["property"] == prop:
                out.append(f)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    replay = None
    keep_truncated = False
    i = 2
    while i < len(sys.argv):
        if sys.argv[i] == "--tier":
            i += 1
            tier = sys.argv[i]
        elif sys.argv[i] == "--only":
            i += 1
            only = sys.argv[i]
        elif sys.argv[i] == "--replay":
            i += 1
            replay = sys.argv[i]
        i += 1
    spec = CHECKS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    env = dict(os.environ)
    env["VERIF_TIER"] = tier
    env["VERIF_SEED"] = str(seed)
    env["VERIF_CORPUS"] = os.path.join(HERE, "corpus", "corpus.bin")
    env.setdefault("ASAN_OPTIONS",
                   "detect_leaks=0:allocator_may_return_null=1:"
                   "max_allocation_size_mb=6000:handle_abort=0:symbolize=1:"
                   "detect_stack_use_after_return=0")
    env.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1")

    if replay:
        r = json.load(open(replay))
        b = [p for p in spec["parts"] if p["name"] == r["part"]][0]
        binary = b["build"]()
        cmd = [binary, "--tier", r["tier"], "--replay", r["space"], str(r["index"])]
        sys.exit(subprocess.call(cmd, env=env))

    budget = 780.0 if tier == "quick" else spec.get("thorough_budget", 3000.0)
    merged = dict(evaluations=0, distinct_nontrivial=0, rule=[], samples=[],
                  spaces={}, counters={}, notes=[], truncated=[], exhaustive=True)
    assumptions = []
    violations = []
    for part in spec["parts"]:
        if only and part.get("runner", True) and False:
            continue
        try:
            binary = part["build"]()
        except RuntimeError as e:
            sys.stderr.write(str(e) + "\n")
            print("check could not be built for %s" % prop)
            sys.exit(2)
        out = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        try:
            left = budget - (time.time() - t0)
            if left < 5:
                merged["truncated"].append(part["name"])
                merged["exhaustive"] = False
                continue
            cmd = [binary, "--tier", tier, "--out", out, "--deadline",
                   "%.0f" % left] + part.get("args", [])
            if only:
                cmd += ["--only", only]
            penv = dict(env)
            penv.update(part.get("env", {}))
            rc = subprocess.call(cmd, env=penv, cwd=out)
            rj = os.path.join(out, "result.json")
            if rc not in (0, 1) or not os.path.exists(rj):
                print("harness %s ended with %d" % (part["name"], rc))
                sys.exit(2)
            r = json.load(open(rj))
            for k in ("evaluations", "distinct_nontrivial"):
                merged[k] += r.get(k, 0)
            for k in ("states", "transitions", "traces_validated_against_impl"):
                if k in r:
                    merged[k] = merged.get(k, 0) + r[k]
            merged["rule"].append(r.get("rule", ""))
            merged["samples"] += r.get("samples", [])
            for k, v in r.get("spaces", {}).items():
                merged["spaces"][part["name"] + "/" + k] = v
            for k, v in r.get("counters", {}).items():
                merged["counters"][part["name"] + "/" + k] = v
            merged["notes"] += r.get("notes", [])
            merged["truncated"] += r.get("truncated", [])
            merged["exhaustive"] = merged["exhaustive"] and r.get("exhaustive", False)
            for a in r.get("assumptions", []):
                if a not in assumptions:
                    assumptions.append(a)
            for v in r.get("violations", []):
                v["part"] = part["name"]
                if v.get("blob") and os.path.exists(v["blob"]):
                    v["blob_data"] = open(v["blob"], "rb").read()
                violations.append(v)
        finally:
            shutil.rmtree(out, ignore_errors=True)

    known = load_findings(prop)
    new = []
    hit = {}
    for v in violations:
        text = "%s|%s|%s|%s" % (v["part"], v["space"], v["desc"], v["key"])
        m = [k for k in known if re.search(k["match"], text)]
        if m:
            hit.setdefault(m[0]["id"], m[0])
        else:
            new.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*")):
        os.unlink(old)
    for n, v in enumerate(new):
        p = os.path.join(rdir, "%s-%d.json" % (prop, n))
        blob = v.pop("blob_data", None)
        if blob is not None:
            bp = os.path.join(rdir, "%s-%d.bin" % (prop, n))
            open(bp, "wb").write(blob)
            v["blob"] = bp
        v["tier"] = tier
        v["how"] = "python3 run.py %s --replay %s" % (prop, p)
        json.dump(v, open(p, "w"), indent=1)
        print("%s: %s [%s]\n  %s" % (v["space"], v["desc"], v["key"],
                                     v["msg"].strip().replace("\n", "\n  ")[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    cov = dict(evaluations=merged["evaluations"],
               distinct_nontrivial=merged["distinct_nontrivial"],
               rule=" ".join(merged["rule"]),
               samples=merged["samples"][:60],
               exhaustive=merged["exhaustive"],
               spaces=merged["spaces"], counters=merged["counters"])
    for k in ("states", "transitions", "traces_validated_against_impl"):
        if k in merged:
            cov[k] = merged[k]
    if merged["truncated"]:
        cov["truncated"] = merged["truncated"]
    if merged["notes"]:
        cov["notes"] = merged["notes"][:40]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"],
              coverage=cov, assumptions=assumptions + spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s: %d cases, %d non-trivial, %d new violation(s), %.1f s%s" % (
        prop, tier, merged["evaluations"], merged["distinct_nontrivial"], len(new),
        time.time() - t0, "" if merged["exhaustive"] else " (truncated)"))
    sys.exit(1 if new else 0)


main()
