"""Concrete side of the checks: bounded, seeded search for an input on which the real code breaks a property.

It never decides that a property holds (the verifier does that); it finds a failing input for a failed
obligation, and it is the stated, bounded stand-in for functions outside the verifier's reach.

A property module defines
    PROP   = {"C04": (cases, judge), ...}
    cases(rng, tier) -> iterator of JSON-able cases (curated ones first, then random ones, without end)
    judge(case) -> None, or a text saying what is wrong
"""
import importlib
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True


class Hang(Exception):
    pass


def _alarm(*a):
    raise Hang()


MODULES = {}


def load(prop):
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if not f.startswith("o_") or not f.endswith(".py"):
            continue
        src = open(os.path.join(here, f)).read()
        if f'"{prop}"' not in src:
            continue
        m = importlib.import_module(f[:-3])
        if prop in m.PROP:
            return m.PROP[prop]
    return None


def safe_judge(judge, case, limit=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return judge(case)
    except Hang:
        return f"no answer within {limit} s (endless loop)"
    except RecursionError:
        return "RecursionError (endless recursion)"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def shrink(judge, case, seconds=8):
    """Greedy shrinking of texts and lists inside a case, keeping it failing."""
    t0 = time.time()

    def smaller(x):
        if isinstance(x, str):
            if "\n" in x:
                ls = x.split("\n")
                for i in range(len(ls)):
                    yield "\n".join(ls[:i] + ls[i + 1:])
            n = len(x)
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    yield x[:i] + x[i + k:]
                k //= 2
        elif isinstance(x, list):
            for i in range(len(x)):
                yield x[:i] + x[i + 1:]
            for i in range(len(x)):
                for y in smaller(x[i]):
                    yield x[:i] + [y] + x[i + 1:]
        elif isinstance(x, dict):
            for k in list(x):
                if isinstance(x[k], (str, list, dict)):
                    for y in smaller(x[k]):
                        d = dict(x)
                        d[k] = y
                        yield d

    kind = lambda m: m.split(":")[0][:40]
    msg = safe_judge(judge, case, 5)
    if not msg:
        return case, None
    progress = True
    while progress and time.time() - t0 < seconds:
        progress = False
        for c in smaller(case):
            if time.time() - t0 > seconds:
                break
            try:
                m = safe_judge(judge, c, 3)
            except Exception:
                continue
            if m and kind(m) == kind(msg):
                case, msg, progress = c, m, True
                break
    return case, msg


def search(prop, seed, tier, seconds, limit=None):
    p = load(prop)
    out = {"prop": prop, "evaluations": 0, "distinct": 0, "samples": [], "violations": [], "note": ""}
    if p is None:
        out["note"] = "no oracle"
        return out
    cases, judge = p[0], p[1]
    rng = random.Random(seed)
    t0 = time.time()
    seen = set()
    for case in cases(rng, tier):
        if time.time() - t0 > seconds or (limit and out["evaluations"] >= limit):
            break
        key = json.dumps(case, sort_keys=True, default=str)
        out["evaluations"] += 1
        if key not in seen:
            seen.add(key)
            out["distinct"] += 1
            if len(out["samples"]) < 3 and out["distinct"] % 40 == 7:
                out["samples"].append(case)
        try:
            msg = safe_judge(judge, case)
        except Exception as e:
            msg = f"unexpected {type(e).__name__}: {e} | " + " / ".join(
                x.strip().replace("\n", " ") for x in traceback.format_exc(limit=-4).splitlines()[-9:])
        if msg:
            try:
                small, m2 = shrink(judge, case)
                if m2:
                    case, msg = small, m2
            except Exception:
                pass
            out["violations"].append({"case": case, "message": msg})
            if len(out["violations"]) >= 3 or tier == "quick":
                break
    if not out["samples"] and seen:
        out["samples"] = [json.loads(next(iter(seen)))]
    out["wall"] = time.time() - t0
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float, default=15)
    ap.add_argument("--out")
    ap.add_argument("--replay", help="replay file: judge that case only")
    ap.add_argument("--replay-known", help="known finding: exit 1 if it still fails")
    a = ap.parse_args()
    if a.replay_known:
        # a finding is outside the searched domain, its own judge is used when there is one
        mod = load(a.prop)
        judge = mod[2] if len(mod) > 2 else mod[1]
        try:
            msg = safe_judge(judge, json.load(open(a.replay_known))["case"])
        except Exception as e:
            msg = f"{type(e).__name__}: {e}"
        print(msg or "holds")
        sys.exit(1 if msg else 0)
    if a.replay:
        case = json.load(open(a.replay))["case"]
        try:
            msg = safe_judge(load(a.prop)[1], case)
        except Exception as e:
            msg = f"unexpected {type(e).__name__}: {e}"
        print(msg or "holds")
        sys.exit(1 if msg else 0)
    r = search(a.prop, a.seed, a.tier, a.seconds)
    if a.out:
        json.dump(r, open(a.out, "w"), default=str)
    else:
        print(json.dumps(r, indent=1, default=str))


if __name__ == "__main__":
    main()
