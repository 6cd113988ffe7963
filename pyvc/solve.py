"""Discharging obligations: z3 by E-matching, z3 with model-based instantiation, then cvc5."""
from __future__ import annotations

import os
import subprocess
import tempfile
import time

import z3

CVC5 = "/usr/local/bin/cvc5"
for _p in ("/usr/local/bin/cvc5", "/usr/bin/cvc5", "/opt/veriftools/bin/cvc5"):
    if os.path.exists(_p):
        CVC5 = _p
        break


class Result:
    __slots__ = ("name", "line", "status", "backend", "time", "model", "smt")

    def __init__(self, name, line, status, backend, t, model=None):
        self.name = name
        self.line = line
        self.status = status      # proved | refuted | unknown
        self.backend = backend
        self.time = t
        self.model = model
        self.smt = None


def _solver(kind, timeout_ms):
    # the incremental solver: its preprocessing keeps the terms that the patterns of the quantifiers look for
    s = z3.Solver() if kind == "default" else z3.SimpleSolver()
    s.set("timeout", timeout_ms)
    if kind == "ematch":
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
    elif kind == "nostr":
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        s.set("smt.string_solver", "none")
    elif kind == "ematch2":
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        s.set("smt.random_seed", 7)
        s.set("smt.case_split", 3)
    return s


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out.extend(conjuncts(c))
        return out
    return [g]


VARIANTS = [("smt.relevancy", 0), ("smt.case_split", 3), ("smt.random_seed", 7), ("smt.arith.solver", 2), ("smt.random_seed", 11)]


def variants(pc, goal, ms):
    """Short restarts of the solver without string theory: the instances it happens to try first decide."""
    for k, v in VARIANTS:
        s = _solver("nostr", ms)
        s.set(k, v)
        s.add(pc)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return True
    return False


def prove(pc, goal, t1=3000, t2=6000, t3=15, want_model=True, plain=False, safe=False):
    """Returns (status, backend, seconds, model)."""
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "simplify", time.time() - t0, None
    if z3.is_false(g):
        goal = g
    # safe: the string solver of this z3 crashed on a formula like this one; it then runs in processes of its own only
    if not safe:
        s = _solver("ematch", min(t1, 600))
        s.add(pc)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3-ematch", time.time() - t0, None
    s = _solver("nostr", min(t1, 600))
    if safe:
        s.set("smt.relevancy", 0)
    s.add(pc)
    s.add(z3.Not(goal))
    if s.check() == z3.unsat:
        return "proved", "z3-nostr", time.time() - t0, None
    if plain and not safe and (variants(pc, goal, 1200) or variants(pc, goal, 3000)):
        return "proved", "z3-nostr", time.time() - t0, None
    if t2:
        try:
            r = race(smt2(pc, goal), 2)
            if r is not None:
                return "proved", r, time.time() - t0, None
        except z3.Z3Exception:
            pass
    # split conjunctions
    parts = conjuncts(goal)
    if len(parts) > 1 and len(parts) <= 24:
        for c in parts:
            st, b, _, m = prove(pc, c, t1, t2, t3, want_model, plain, safe)
            if st != "proved":
                return st, b, time.time() - t0, m
        return "proved", "z3-split", time.time() - t0, None
    model = None
    if t2:
        try:
            txt = smt2(pc, goal)
        except z3.Z3Exception:
            txt = None
        if txt is not None:
            r = race(txt, max(8, t1 / 400))
            if r is not None:
                return "proved", r, time.time() - t0, None
        if not plain and not safe and variants(pc, goal, 1200):
            return "proved", "z3-nostr", time.time() - t0, None
        if safe:
            for opts in ([], ["smt.mbqi=true", "auto_config=true"]):
                r = z3cli(txt, opts, t2) if txt is not None else "unknown"
                if r == "unsat":
                    return "proved", "z3-cli", time.time() - t0, None
            t2 = 0
    if t2:
        s = _solver("ematch2", t2)
        s.add(pc)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3-ematch", time.time() - t0, None
        s = _solver("default", t2)
        s.add(pc)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3-mbqi", time.time() - t0, None
        if r == z3.sat:
            model = s.model()
            return "refuted", "z3-mbqi", time.time() - t0, model
    if t3:
        r = cvc5(pc, goal, t3)
        if r == "unsat":
            return "proved", "cvc5", time.time() - t0, None
        if r == "sat":
            return "refuted", "cvc5", time.time() - t0, None
    return "unknown", "-", time.time() - t0, None


def smt2(pc, goal):
    s = z3.Solver()
    s.add(pc)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    # z3 prints multi-patterns in a form no solver reads back
    mark = ":pattern ( (pattern "
    i = txt.find(mark)
    while i >= 0:
        j = i + len(":pattern ( ")
        d = 0
        k = j
        while True:
            if txt[k] == "(":
                d += 1
            elif txt[k] == ")":
                d -= 1
                if d == 0:
                    break
            k += 1
        txt = txt[:j] + txt[j + len("(pattern "):k] + txt[k + 1:]
        i = txt.find(mark, i + 1)
    return txt


Z3 = "z3-new"


def z3cli(txt, opts, ms):
    """A separate z3 process: a crash of the solver is an `unknown`, never a lost check."""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        r = subprocess.run([Z3, f"-T:{max(1, ms // 1000)}", "smt.mbqi=false", "auto_config=false", *opts, name],
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = r.stdout.strip().splitlines()
        return out[0].strip() if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(name)


def race(txt, seconds):
    """z3 with and without its string solver and cvc5 side by side; the name of the first that answers unsat."""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        n1 = f.name
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        n2 = f.name
    ps = {}
    try:
        ps["z3-nostr"] = subprocess.Popen([Z3, f"-T:{max(1, int(seconds))}", "smt.mbqi=false", "auto_config=false", "smt.string_solver=none", n1],
                                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ps["z3"] = subprocess.Popen(["z3", f"-T:{max(1, int(seconds))}", n1], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ps["cvc5"] = subprocess.Popen([CVC5, "--lang=smt2", "--strings-exp", f"--tlimit={int(seconds * 1000)}", n2],
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        end = time.time() + seconds + 3
        while ps and time.time() < end:
            for k, p in list(ps.items()):
                if p.poll() is not None:
                    out = p.stdout.read().strip().splitlines()
                    p.stdout.close()
                    del ps[k]
                    if out and out[0].strip() == "unsat":
                        return k
            time.sleep(0.01)
        return None
    except OSError:
        return None
    finally:
        for p in ps.values():
            p.kill()
            p.wait()
        os.unlink(n1)
        os.unlink(n2)


def cvc5(pc, goal, timeout_s):
    try:
        txt = "(set-logic ALL)\n" + smt2(pc, goal)
    except z3.Z3Exception:
        return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        r = subprocess.run([CVC5, "--lang=smt2", "--strings-exp", f"--tlimit={int(timeout_s * 1000)}", name],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        out = r.stdout.strip().splitlines()
        return out[0].strip() if out else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(name)
