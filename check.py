#!/opt/veriftools/pyvenv/bin/python
"""Decide one property:  check.py <ID> [--tier quick|thorough]

1. The deductive verifier (pyvc) generates the obligations of every function the property is pinned to, and of
   every function whose contract those proofs use, from /repo's current source, and discharges them.
2. At the same time the concrete side runs the real code on generated inputs.  It finds a failing input for a
   failed obligation, and it is the bounded stand-in for the functions outside the verifier's reach.

Exit 0: every obligation was discharged and no input failed.  Exit 1: a VIOLATION line.
"""
import argparse
import fnmatch
import glob
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
ORACLE_PY = "/opt/venv/bin/python"
HARNESS = os.path.join(HERE, "oracles", "harness.py")

from props import ENGINE_TRUST, PROPS  # noqa: E402


def start_oracle(pid, seed, tier, seconds, out):
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.Popen([ORACLE_PY, HARNESS, pid, "--seed", str(seed), "--tier", tier, "--seconds", str(seconds), "--out", out],
                            env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))


def collect(procs, limit):
    """Merge the results of oracle processes: (evaluations, distinct, samples, violations, errors)."""
    ev = di = 0
    samples, viol, errs = [], [], []
    t0 = time.time()
    for p, out in procs:
        try:
            p.wait(max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errs.append("the search did not end in time and was stopped")
            continue
        try:
            r = json.load(open(out))
        except Exception:
            errs.append("the search failed: " + open(out + ".err").read()[-1500:])
            continue
        if r.get("note"):
            errs.append(r["note"])
        ev += r["evaluations"]
        di += r["distinct"]
        samples += r["samples"][:2]
        viol += r["violations"]
    return ev, di, samples[:4], viol, errs


def prove(pid, spec, jobs, only=None):
    """Verify the functions of the property and, transitively, every function whose contract is used."""
    from pyvc.verify import load, verify_keys
    prog, reg = load(REPO, sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))))
    todo = list(only or [])
    for pat in [] if only else spec["keys"]:
        m = [k for k in reg.contracts if fnmatch.fnmatch(k, pat)]
        if not m:
            raise SystemExit(f"check.py: no contract {pat}")
        todo += [k for k in m if k not in todo]
    done, results, trusted = set(), [], {}
    while todo:
        now = [k for k in todo if k not in done]
        done.update(now)
        rs = verify_keys(prog, reg, now, jobs=jobs)
        results += rs
        if only is not None:
            break
        todo = sorted({u for r in rs for u in r.used if u in reg.contracts} - done)
    for k in sorted(done):
        c = reg.contracts[k]
        if c.trusted:
            trusted[k] = c.trusted
    return results, trusted, reg


def outside_reach(r):
    return r.error is not None and (r.error.startswith("unsupported") or r.error.startswith("internal"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    pid, spec = a.pid, PROPS[a.pid]
    t0 = time.time()
    jobs = os.cpu_count() or 4
    work = os.path.join(HERE, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replays = os.path.join(HERE, "replay")
    os.makedirs(replays, exist_ok=True)
    lines, violations = [], 0

    def report(name, payload, suffix=""):
        nonlocal violations
        path = os.path.join(replays, f"{pid}-{name}.json")
        with open(path, "w") as f:
            json.dump(payload, f, indent=1, default=str)
        print(f"VIOLATION property={pid} replay={path}{suffix}", flush=True)
        violations += 1

    for f in glob.glob(os.path.join(replays, f"{pid}-*.json")):
        os.remove(f)

    # ---- concrete side, in the background
    seconds = spec.get("seconds", 20) if a.tier == "quick" else spec.get("thorough_seconds", 150)
    n = 2 if a.tier == "quick" else max(2, jobs - 2)
    procs = []
    for i in range(n):
        out = os.path.join(work, f"o{i}.json")
        procs.append((start_oracle(pid, a.seed * 1000 + i, a.tier, seconds, out), out))

    # ---- verifier
    results, trusted, perr = [], {}, None
    if spec["keys"]:
        try:
            sys.setrecursionlimit(20000)
            results, trusted, _ = prove(pid, spec, jobs)
        except Exception:
            perr = traceback.format_exc(limit=6)
    ev, di, samples, viol, errs = collect(procs, seconds + 60)

    failed = [(r, o) for r in results if not outside_reach(r) for o in r.obls if o[2] != "proved"]
    vacuous = [r for r in results if r.error and r.error.startswith("vacuous")]
    outside = [r for r in results if outside_reach(r)]
    total = sum(len(r.obls) for r in results)
    good = sum(r.discharged for r in results)
    for r in results:
        st = "outside reach, bounded only" if outside_reach(r) else "discharged" if r.ok else "NOT discharged"
        print(f"  {r.unit}: {r.discharged}/{len(r.obls)} obligations {st} ({r.wall:.1f} s)" + (f" [{r.error.splitlines()[0]}]" if r.error else ""))
    print(f"  obligations: {good}/{total} discharged; concrete runs: {ev} ({di} distinct)", flush=True)

    # ---- a solver may have been short of time: a few obligations get a second attempt
    slow = sorted({r.key for r, o in failed if o[2] == "unknown"})
    if failed and not viol and len(slow) <= 3 and all(o[2] in ("unknown", "skipped") for _, o in failed):
        os.environ["PYVC_SCALE"] = "2.5"
        again = {r.unit: r for r in prove(pid, spec, jobs, only=slow)[0]}
        results = [again.get(r.unit, r) for r in results]
        failed = [(r, o) for r in results if not outside_reach(r) for o in r.obls if o[2] != "proved"]
        total, good = sum(len(r.obls) for r in results), sum(r.discharged for r in results)
        print(f"  second attempt at {', '.join(slow)}: {good}/{total} obligations discharged", flush=True)

    # ---- look harder for an input when an obligation failed
    broken = bool(failed or vacuous)
    if broken and not viol:
        procs = []
        for i in range(max(2, jobs - 1)):
            out = os.path.join(work, f"x{i}.json")
            procs.append((start_oracle(pid, a.seed * 1000 + 500 + i, "thorough", 60, out), out))
        e2, d2, s2, viol, er2 = collect(procs, 120)
        ev, di, errs = ev + e2, di + d2, errs + er2

    known = []
    for k in json.load(open(os.path.join(HERE, "known_findings.json"))):
        if k["property"] == pid and k["kind"] == "known":
            p = os.path.join(work, "known.json")
            json.dump({"case": k["case"]}, open(p, "w"))
            r = subprocess.run([ORACLE_PY, HARNESS, pid, "--replay-known", p], cwd=HERE, env=dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=120)
            if r.returncode == 1:
                known.append(k["what"])
                print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
            else:
                print(f"  listed finding no longer fails: {k['what']}", flush=True)

    obl_info = [{"function": r.unit, "source": r.source, "obligation": o[0], "line": o[1], "status": o[2], "backend": o[3], "verifier_output": o[5]} for r, o in failed]
    if viol:
        for i, v in enumerate(viol[:3]):
            print(f"  failing input: {v['message'][:600]}")
            report(f"input{i}", {"property": pid, "case": v["case"], "message": v["message"], "failed_obligations": obl_info[:10],
                                 "replay_with": f"{ORACLE_PY} {HARNESS} {pid} --replay <this file>"})
    elif broken:
        for r, o in failed[:12]:
            print(f"  obligation not discharged: {r.unit} line {o[1]}: {o[0]} ({o[2]})")
        for r in vacuous:
            print(f"  {r.unit}: {r.error}")
        smt = {r.unit: r.failed_smt[:1] for r in results if r.failed_smt}
        report("obligations", {"property": pid, "failed_obligations": obl_info, "vacuous": [[r.unit, r.error] for r in vacuous], "smt2": smt,
                               "note": "the concrete search found no failing input"}, " no-failing-input-found")
    elif perr and not ev or errs and not ev:
        report("tool", {"property": pid, "error": perr, "search": errs}, " no-failing-input-found")
    elif spec["keys"] and not perr and total == 0 and not outside:
        report("tool", {"property": pid, "error": "no obligation was generated"}, " no-failing-input-found")
    if perr:
        print("  verifier not usable on this tree, bounded search only:\n" + perr)
    for e in errs:
        print("  search: " + e)

    backends = {}
    for r in results:
        for o in r.obls:
            if o[2] == "proved":
                backends[o[3]] = backends.get(o[3], 0) + 1
    assumptions = list(spec.get("assumptions", []))
    assumptions += [f"contract assumed, body not verified: {k}: {v}" for k, v in trusted.items()]
    ext = sorted({x for r in results for x in r.externs})
    assumptions += [f"assumed contract of a dependency: {x}" for x in ext]
    cov = {
        "obligations": total, "discharged": good,
        "checker_cmd": f"python3-vt {HERE}/check.py {pid} --tier {a.tier}",
        "trusted_base": ENGINE_TRUST + spec.get("trusted", []),
        "functions_under_contract": [{"function": r.unit, "source": r.source, "obligations": len(r.obls), "discharged": r.discharged, "paths": r.paths,
                                      "seconds": round(r.wall, 2), "inlined": r.inlined, **({"error": r.error.splitlines()[0]} if r.error else {})} for r in results],
        "backends": backends,
        "solver_seconds": round(sum(o[4] for r in results for o in r.obls) + sum(r.feas for r in results), 1),
        "outside_reach_on_this_tree": [r.unit for r in outside],
        "bounded_part": spec.get("bounded", ""),
        "evaluations": ev, "distinct_nontrivial": di, "rule": spec.get("rule", "seeded generator of the property's inputs; distinct by the JSON text of the case"),
        "samples": samples, "known_findings": known,
    }
    json.dump({"property": pid, "tier": a.tier, "seed": a.seed, "level": spec["level"], "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": violations}, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    shutil.rmtree(work, ignore_errors=True)
    print(f"{pid}: {'VIOLATED' if violations else 'held'} ({time.time() - t0:.1f} s)")
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
