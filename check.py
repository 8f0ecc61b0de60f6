#!/usr/bin/env python3
"""Supervisor of one property's monitors:  check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness from /repo's current working tree, runs the monitored workloads, and turns what
the monitors observed into evidence/<ID>.json, replay files and VIOLATION / KNOWN-FINDING lines.
Exit 0: property held on everything observed; 1: violation; 2: the check itself could not decide."""
import json, os, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{V}/tools")
import builder, plan

def known():
    out = {}
    for line in open(f"{V}/known_findings.txt"):
        line = line.strip()
        if line.startswith("finding: "):
            p, s, what = line[len("finding: "):].split(" ", 2)
            out[(p.split("=", 1)[1], s.split("=", 1)[1])] = what
    return out

def run_part(pid, part, seed, tier, replay=None):
    """one monitored process -> (report dict, violations)"""
    exe, env = builder.binary(part["build"])
    out = f"{V}/.build/out/{pid}-{part['name']}.json"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = part.get("wrap", []) + [exe, part["cmd"], "--seed", str(seed), "--tier", tier, "--out", out] + part.get("args", [])
    if replay:
        cmd += ["--stage", replay["stage"], "--case", str(replay["case"])]
    errlog = out[:-5] + ".stderr"
    t0 = time.time()
    with open(errlog, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL,
                             env=env | builder.extra_env() | part.get("env", {}), cwd=f"{V}/.build", start_new_session=True)
        try:
            rc = p.wait(timeout=part.get("timeout", {}).get(tier, 600 if tier == "quick" else 6 * 3600))
            timed_out = False
        except subprocess.TimeoutExpired:
            timed_out = True
        finally:
            # the monitored process and everything it started
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    err = open(errlog, errors="replace").read()[-6000:]
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    viol, broken = [], None
    if timed_out:
        broken = f"{part['name']}: no answer in time"
    elif rep is None or rc != 0:
        why = part.get("sanitizer")
        if why and any(m in err for m in ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior")):
            head = next(l for l in err.splitlines() if any(m in l for m in ("AddressSanitizer", "ThreadSanitizer", "Undefined Behavior")))
            viol.append({"sig": f"{part['name']}:sanitizer", "msg": head + "\n" + err[-3000:], "stage": "*", "case": 0})
        elif rc < 0:
            viol.append({"sig": f"{part['name']}:crash", "msg": f"process died with signal {-rc}: {err[-2000:]}", "stage": "*", "case": 0})
        else:
            broken = f"{part['name']}: exit {rc}: {err[-1500:]}"
    if rep:
        viol += rep["violations"]
        if rep["harness_errors"]:
            broken = f"{part['name']}: {rep['harness_errors'][0]}"
        elif not replay and not rep["evaluations"]:
            broken = f"{part['name']}: nothing was observed"
    for v in viol:
        v["part"] = part["name"]
    return rep, viol, broken, time.time() - t0

def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    pid = a[0]
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    replay = json.load(open(opt("--replay", ""))) if "--replay" in a else None
    spec = plan.PLAN[pid]
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.time()
    kf = known()
    try:
        builder.build(plan.kinds(pid, tier))
    except builder.BuildError as e:
        print(f"build failed: {e}", file=sys.stderr)
        return 2
    build_s = time.time() - t0
    viols, broken, parts = [], [], {}
    ev, dist, samples = 0, 0, []
    for part in spec["parts"]:
        if tier not in part.get("tiers", ("quick", "thorough")):
            continue
        if replay and replay["part"] != part["name"]:
            continue
        r = replay if replay and replay["stage"] != "*" else None
        rep, v, b, wall = run_part(pid, part, seed, tier, r)
        viols += v
        if b:
            broken.append(b)
        if rep:
            ev += rep["evaluations"]
            dist += rep["distinct_nontrivial"]
            samples += rep["samples"][:4]
            parts[part["name"]] = {"observed": rep["counters"], "evaluations": rep["evaluations"],
                                   "distinct_nontrivial": rep["distinct_nontrivial"], "build": part["build"], "wall_s": round(wall, 2)}
    found, seen = {}, {}
    for v in viols:
        k = (pid, v["sig"])
        if k in kf:
            seen[k] = v
        else:
            found.setdefault(v["sig"], v)
    for k, v in seen.items():
        print(f"KNOWN-FINDING: property={pid} {kf[k]}")
    missing = [s for (p, s) in kf if p == pid and (p, s) not in seen]
    lines = []
    for i, (sig, v) in enumerate(sorted(found.items())):
        os.makedirs(f"{V}/replay", exist_ok=True)
        path = f"{V}/replay/{pid}-{seed}-{i}.json"
        json.dump({"property": pid, "seed": seed, "tier": tier, "part": v["part"], "stage": v["stage"], "case": v["case"],
                   "sig": sig, "what": v["msg"], "rerun": f"python3 check.py {pid} --replay {path}"}, open(path, "w"), indent=1)
        if i < 10:
            print(f"  {sig}: {v['msg'][:300]!r}")
            lines.append(f"VIOLATION property={pid} replay={path}")
    if not replay:
        os.makedirs(f"{V}/evidence", exist_ok=True)
        cov = {"evaluations": ev, "distinct_nontrivial": dist, "rule": spec["rule"], "samples": samples[:8] or ["none"],
               "monitors": parts, "build_s": round(build_s, 1),
               "known_findings_observed": [k[1] for k in seen], "known_findings_not_observed": missing}
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
                   "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(found)},
                  open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for l in lines:
        print(l)
    if found:
        return 1
    if broken:
        print("check broken: " + "; ".join(broken), file=sys.stderr)
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} evaluations={ev} distinct_nontrivial={dist} wall={time.time()-t0:.1f}s")
    return 0

sys.exit(main())
