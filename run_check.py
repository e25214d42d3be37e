#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the model-checking drivers of one property from /repo's working tree,
runs them, writes evidence/<property>.json and reports.
exit 0: property held on everything explored; 1: violation; 2: no answer.
"""
import json, os, subprocess, sys, time, shutil, re
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))

def die(msg):
    print("CHECK ERROR:", msg, flush=True)
    sys.exit(2)

def build(variant, targets):
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    log = os.path.join(bd, "build.log")
    env = dict(os.environ, CC="gcc", CXX="g++", ASAN_OPTIONS="detect_leaks=0")
    with open(log, "w") as lf:
        if not os.path.exists(os.path.join(bd, "build.ninja")):
            r = subprocess.run(["cmake", "-G", "Ninja", "-DREPO=" + REPO, "-DVARIANT=" + variant,
                                os.path.join(V, "harness")], cwd=bd, stdout=lf, stderr=lf, env=env)
            if r.returncode:
                die("cmake failed\n" + open(log).read()[-3000:])
        r = subprocess.run(["ninja", "-j", os.environ.get("VERIF_JOBS", "10")] + targets, cwd=bd, stdout=lf, stderr=lf, env=env)
    if r.returncode:
        die("build failed\n" + open(log).read()[-4000:])
    return bd

def known_findings(prop):
    res = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("{"):
                o = json.loads(l)
                if o["property"] == prop:
                    res.append(o)
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]; a = a[2:]
        elif a[0] == "--replay": replay = a[1]; a = a[2:]
        else: die("bad argument " + a[0])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = json.load(open(os.path.join(V, "checks.json"), encoding="utf-8"))[prop]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=86:hard_rss_limit_mb=2800:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=3000:handle_abort=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=86"
    env["VERIF_DIR"] = V
    env["VERIF_REPO"] = REPO
    env["VERIF_PROP"] = prop
    runs = []
    targets = {}
    for d in cfg["drivers"]:
        targets.setdefault(d["variant"], []).append(d["target"])
    bds = {}
    for v, ts in targets.items():
        extra = []
        for d in cfg["drivers"]:
            if d["variant"] == v: extra += d.get("needs", [])
        bds[v] = build(v, sorted(set(ts + extra)))
    tb = time.time() - t0
    if replay:
        head = open(replay, encoding="utf-8").readline()
        for d in cfg["drivers"]:
            if "driver " + d["target"] + "/" + d["variant"] not in open(replay, encoding="utf-8").read(): continue
            env["VERIF_BIN"] = bds[d["variant"]]
            sys.exit(subprocess.run([os.path.join(bds[d["variant"]], d["target"]), "--replay", replay], env=env).returncode and 1)
        die("replay file names no driver of " + prop)
    rd = os.path.join(V, "replays", prop)
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd, exist_ok=True)
    total_deadline = 560 if tier == "quick" else 7200
    for d in cfg["drivers"]:
        bd = bds[d["variant"]]
        out = os.path.join(bd, d["target"] + ".out.json")
        if os.path.exists(out): os.remove(out)
        env["VERIF_BIN"] = bd
        left = total_deadline - (time.time() - t0)
        cmd = [os.path.join(bd, d["target"]), "--tier", tier, "--out", out, "--replay-dir", rd,
               "--deadline", str(max(20, left)), "--hang-cpu", str(d.get("hang_cpu", 20))]
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            die("driver %s ended with %d" % (d["target"], r.returncode))
        o = json.load(open(out, encoding="utf-8"))
        for s in o["scenarios"]: s["driver"] = d["target"] + "/" + d["variant"]
        for f in o["found"]: 
            f["driver"] = d["target"] + "/" + d["variant"]
            with open(f["replay"], "a", encoding="utf-8") as fh:
                fh.write("driver %s\n" % f["driver"])
        runs.append(o)
    scs = [s for o in runs for s in o["scenarios"]]
    found = [f for o in runs for f in o["found"]]
    known = known_findings(prop)
    viol, kf = [], {}
    for f in found:
        m = [k for k in known if k["scenario"] == f["scenario"] and k["key"] == f["key"]]
        if m: kf.setdefault(m[0]["key"], (m[0], f))
        else: viol.append(f)
    samples = []
    for s in scs:
        for x in s["samples"][:3]: samples.append({"scenario": s["name"], "case": x})
    ev = sum(s["evaluations"] for s in scs)
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": sum(s["distinct"] for s in scs),
        "rule": cfg["rule"],
        "samples": samples[:12],
        "exhaustive": all(s["exhaustive"] for s in scs),
        "executions": sum(s["executions"] for s in scs),
        "scenarios": [{k: s[k] for k in ("driver", "name", "what", "evaluations", "executions", "discarded", "distinct", "exhaustive", "wall_s")} for s in scs],
    }
    if cfg["level"] == "model_checking":
        cov["states"] = sum(s["states"] for s in scs)
        cov["transitions"] = sum(s["transitions"] for s in scs)
        cov["traces_validated_against_impl"] = cov["executions"]
    evd = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
           "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
           "violations": len(viol), "known_findings": sorted(kf), "build_s": round(tb, 2)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(evd, fh, ensure_ascii=False, indent=1)
        fh.write("\n")
    for k, (m, f) in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, m["what"]), flush=True)
    if viol:
        for f in viol[:6]:
            print("  [%s/%s] %s\n    case: %s" % (f["scenario"], f["key"], f["text"][:600], f["case"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(viol[0]["replay"], V)), flush=True)
        sys.exit(1)
    print("%s: held on %d evaluations (%d executions, %d distinct behaviours), exhaustive=%s, build %.0fs, total %.0fs" %
          (prop, ev, cov["executions"], cov["distinct_nontrivial"], cov["exhaustive"], tb, time.time() - t0))
    sys.exit(0)

main()
