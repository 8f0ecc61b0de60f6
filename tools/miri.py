#!/usr/bin/env python3
"""Runs one fcbmon command under the Miri interpreter in eight processes and puts their reports together:  miri.py CMD ... --out FILE"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
out = a[a.index("--out") + 1]
N = 8
procs = []
for i in range(N):
    o = f"{out}.{i}"
    if os.path.exists(o):
        os.unlink(o)
    b = list(a)
    b[b.index("--out") + 1] = o
    env = os.environ | {"FCBMON_SHARD": str(i), "FCBMON_SHARDS": str(N)}
    procs.append((o, subprocess.Popen(["cargo", "miri", "run", "--offline", "--quiet", "--manifest-path", f"{V}/harness/Cargo.toml", "--", *b],
                                      env=env, stdout=subprocess.DEVNULL, stderr=open(o + ".stderr", "wb"))))
rep, rc = {"evaluations": 0, "distinct_nontrivial": 0, "counters": {}, "samples": [], "violations": [], "harness_errors": []}, 0
for o, p in procs:
    if p.wait() or not os.path.exists(o):
        rc = 1
        sys.stderr.write(open(o + ".stderr", errors="replace").read()[-5000:])
        continue
    r = json.load(open(o))
    rep["evaluations"] += r["evaluations"]
    rep["distinct_nontrivial"] += r["distinct_nontrivial"]
    for k, v in r["counters"].items():
        rep["counters"][k] = max(v, rep["counters"].get(k, 0)) if k.startswith("max_") else v + rep["counters"].get(k, 0)
    for k in ("samples", "violations", "harness_errors"):
        rep[k] += r[k]
json.dump(rep, open(out, "w"))
sys.exit(rc)
