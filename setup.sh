#!/bin/bash
# Pre-builds the drivers of all checks (every check can also build what it needs itself).
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import json, subprocess, os, sys
C = json.load(open("checks.json", encoding="utf-8"))
t = {}
for c in C.values():
    for d in c["drivers"]:
        t.setdefault(d["variant"], set()).update([d["target"]] + d.get("needs", []))
for v, ts in t.items():
    b = os.path.join("build", v)
    os.makedirs(b, exist_ok=True)
    env = dict(os.environ, CC="gcc", CXX="g++", ASAN_OPTIONS="detect_leaks=0")
    if not os.path.exists(b + "/build.ninja"):
        if subprocess.run(["cmake", "-G", "Ninja", "-DVARIANT=" + v, os.path.abspath("harness")], cwd=b, env=env, stdout=subprocess.DEVNULL).returncode: sys.exit(1)
    if subprocess.run(["ninja", "-j10"] + sorted(ts), cwd=b, env=env, stdout=subprocess.DEVNULL).returncode: sys.exit(1)
P
