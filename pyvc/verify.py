"""Verification driver: one function (or one override of it) at a time."""
from __future__ import annotations

import ast
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

import z3

from .contracts import Contract, Registry
from .engine import FreeHeap, Frame, Obligation, PathEnd, PyRaise, Restart, Shared, _Return
from .execmixin import Exec
from .front import Program, Unsupported
from .pure import Pure, parse_expr, zand, zor
from .solve import prove, smt2
from .values import *  # noqa: F401,F403
from .values import renumber

MAX_RESTARTS = 60
MAX_BAD = 3


class Unit:
    """A contract, the implementation that must satisfy it, and the receiver class."""

    def __init__(self, contract, fi, ci):
        self.c = contract
        self.fi = fi
        self.ci = ci

    @property
    def name(self):
        if self.ci is not None:
            return f"{self.ci.name}.{self.fi.name}"
        return self.c.key


class FnResult:
    def __init__(self, unit, key):
        self.unit = unit
        self.key = key
        self.obls = []            # (name, line, status, backend, seconds, model text)
        self.error = None
        self.paths = 0
        self.normal = 0
        self.raising = 0
        self.used = []
        self.inlined = []
        self.externs = []
        self.wall = 0.0
        self.feas = 0.0
        self.source = ""
        self.failed_smt = []

    @property
    def ok(self):
        return self.error is None and all(o[2] == "proved" for o in self.obls)

    @property
    def discharged(self):
        return sum(1 for o in self.obls if o[2] == "proved")


def units(prog, reg, key):
    c = reg.contracts[key]
    if c.lemma:
        return [Unit(c, None, None)]
    if "." in key and prog.has_cls(key.split(".")[0]):
        cn, m = key.split(".", 1)
        ci = prog.cls(cn)
        fi = ci.find(m)
        if fi is None and m in ci.setters:
            fi = ci.setters[m]
        if not c.virtual:
            if fi is None:
                raise Unsupported(f"{key}: no such method")
            return [Unit(c, fi, ci)]
        out = []
        seen = set()
        for d in ci.all_subs():
            f = d.find(m)
            if f is None or f in seen:
                continue
            seen.add(f)
            out.append(Unit(c, f, f.cls if f.cls.is_sub(ci) else ci))
        return out
    fi = prog.func(key)
    if fi is None:
        raise Unsupported(f"{key}: no such function")
    return [Unit(c, fi, None)]


def bind_params(it, u):
    c, fi = u.c, u.fi
    a = fi.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    env = {}
    alias = {}
    real2spec = {}
    if c.params:
        for sp, rl in zip(c.params, names):
            real2spec[rl] = sp
            alias[sp] = rl
    anns = {p.arg: p.annotation for p in a.posonlyargs + a.args + a.kwonlyargs}
    for i, n in enumerate(names + [p.arg for p in a.kwonlyargs]):
        sp = real2spec.get(n, n)
        if i == 0 and fi.cls is not None and fi.kind not in ("classmethod", "staticmethod"):
            t = it.fresh(sp, I)
            ty = ("cls", u.ci, c.exact or not u.ci.subclasses)
            it.assume(z3.And(t > 0, t < it.alloc))
            it.aged(t)
            it.assume(z3.simplify(it.pure().tag(Val.r(t), ty)))
            it.note_cls(t, u.ci)
            if c.own and not ty[2]:
                ids = ids_intervals([d.id for d in u.ci.all_subs() if d.find(fi.name) is fi])
                it.assume(zor([z3.And(clsof(t) >= lo, clsof(t) <= hi) for lo, hi in ids]))
            env[n] = VRef(t, u.ci, ty[2])
            continue
        if i == 0 and fi.cls is not None and fi.kind == "classmethod":
            env[n] = VClass(u.ci)
            continue
        if sp in c.types:
            ty = it.parse_type(c.types[sp], fi.module)
        elif n in c.types:
            ty = it.parse_type(c.types[n], fi.module)
        elif anns.get(n) is not None:
            ty = it.parse_type(anns[n], fi.module)
        else:
            ty = T_ANY
        env[n] = it.fresh_of_type(ty, sp)
    if a.vararg is not None:
        raise Unsupported("*args parameter")
    if a.kwarg is not None:
        sp = a.kwarg.arg
        ty = it.parse_type(c.types[sp], fi.module) if sp in c.types else ("dict", T_STR, T_ANY)
        env[sp] = it.fresh_of_type(ty, sp)
    return env, alias


def run_path(it, u):
    c, fi = u.c, u.fi
    key = u.name
    if c.lemma:
        vs, it.heap, env = it.lemma_env(c)
        heap2 = FreeHeap("arr2", c.share) if c.heaps == 2 else None
        p = Pure(it, it.heap, env, (heap2, env, None) if heap2 is not None else None)
        for name in c.lemmas:
            it.use_lemma(name)
        for e in c.requires:
            it.assume(p.boolean(e))
        if c.induct:
            # the statement for a smaller case: the measure is smaller and not negative
            var, smaller, measure = c.induct
            env2 = dict(env)
            env2[var] = p.ev(parse_expr(smaller))
            q = Pure(it, it.heap, env2, (heap2, env2, None) if heap2 is not None else None)
            m1, m2 = p.as_int(p.ev(parse_expr(measure))), q.as_int(q.ev(parse_expr(measure)))
            hyp = z3.Implies(zand([q.boolean(e) for e in c.requires]), zand([q.boolean(e) for _, e in Contract.labelled(c.ensures, "post")]))
            it.assume(z3.Implies(z3.And(m2 < m1, m2 >= 0), hyp))
        it.sh.normal_paths += 1
        for lab, e in Contract.labelled(c.ensures, "post"):
            it.check(p.boolean(e), f"{key}:{lab}")
        return
    for name in c.lemmas:
        it.use_lemma(name)
    env, alias = bind_params(it, u)
    it.param_alias = alias
    spec_env = dict(env)
    for sp, rl in alias.items():
        spec_env.setdefault(sp, env[rl])
    for v in env.values():
        if it.is_dict(v):
            it.dict_wf(v)
    p = Pure(it, it.heap, spec_env, None, fi.module, False)
    for lab, e in Contract.labelled(c.requires, "pre"):
        it.assume(p.boolean(e))
    for lab, e in Contract.labelled(c.assume, "assume"):
        it.assume(p.boolean(e))
    entry_heap = it.heap
    it.heap = dict(entry_heap)
    # arrays first touched later have the same initial constant in both heaps
    it.fn_old = (entry_heap, spec_env, it.alloc)
    it.entry_alloc = it.alloc
    it.entry_seq = it.seq
    it.seq += 1          # what is met from now on may be younger than the entry
    pred = it.mod_predicate(c.modifies, None, (entry_heap, spec_env, it.alloc), env=spec_env)
    it.modcheck = {"pred": pred, "name": key, "seq": it.seq}
    fr = Frame(fi, dict(env), fi.module, None, u.ci)
    fr.old_params = spec_env
    it.top_frame = fr
    if c.decreases:
        it.dec_entry = it.measure(p, c.decreases)
    it.callstack.append(fi)
    q_old = Pure(it, entry_heap, spec_env, it.fn_old, fi.module, False)
    try:
        result = VNone
        try:
            it.block(fi.node.body, fr)
        except _Return as r:
            result = r.v
    except PyRaise as e:
        it.sh.raise_paths += 1
        line = e.line or it.line
        for name in list(c.raises) + list(c.raises_iff):
            ci = it.prog.cls(name)
            if e.ci.is_sub(ci):
                cond = c.raises.get(name, c.raises_iff.get(name))
                if name in c.modifies_raise:
                    may = it.mod_predicate(c.modifies_raise[name], None, it.fn_old, env=spec_env)
                    it.check(unchanged(it, entry_heap, may), f"{key}:{name}:modifies", line)
                it.check(q_old.boolean(cond), f"{key}:raises {name} only when specified", line)
                if name in c.ensures_raise:
                    env2 = dict(spec_env)
                    if e.val is not None:
                        env2["exc"] = e.val
                    q = Pure(it, it.heap, env2, it.fn_old, fi.module, False)
                    for lab, ex in Contract.labelled(c.ensures_raise[name], "xpost"):
                        it.check(q.boolean(ex), f"{key}:{name}:{lab}", line)
                return
        it.check(z3.BoolVal(False), f"{key}:no {e.ci.name} escapes", line)
        return
    it.sh.normal_paths += 1
    for name, cond in c.raises_iff.items():
        it.check(z3.Not(q_old.boolean(cond)), f"{key}:raises {name} when required")
    env2 = dict(spec_env)
    rt = None
    if c.returns is not None:
        rt = it.parse_type(c.returns, fi.module)
        it.check(it.pure().tag(it.enc_any(result), rt), f"{key}:result type", None)
        if isinstance(result, VAny):
            result = it.decode(result.t, rt)
    env2["result"] = result
    if isinstance(result, VRef) and rt is not None and result.elem is None:
        it.note_elem_type(result, rt)
    q = Pure(it, it.heap, env2, it.fn_old, fi.module, False)
    if c.pure is not None:
        qp = Pure(it, entry_heap, spec_env, it.fn_old, fi.module, False)
        want = qp.ev(parse_expr(c.pure))
        if isinstance(want, VBool):
            it.check(it.truth(result) == want.t, f"{key}:result", it.line)
        else:
            it.check(enc(result) == enc(want), f"{key}:result", it.line)
        return
    for lab, e in Contract.labelled(c.defines, "def"):
        it.assume(q.boolean(e))
    for lab, e in Contract.labelled(c.ensures, "post"):
        it.check(q.boolean(e), f"{key}:{lab}", it.line)
    if c.none_pure:
        none = it.enc_any(result) == NONE
        if not z3.is_false(z3.simplify(none)):
            it.check(z3.Implies(none, unchanged(it, entry_heap)), f"{key}:nothing modified when the result is None", it.line)


def unchanged(it, entry_heap, pred=None):
    """Every object of the entry state is as it was (except where pred allows)."""
    r = it.bound("r", I)
    same = []
    for a in sorted(it.heap):
        was = it.heap_get(entry_heap, a)
        if not it.heap[a].eq(was):
            ok = z3.Or(r >= it.entry_alloc, z3.Select(it.heap[a], r) == z3.Select(was, r))
            same.append(z3.ForAll([r], ok if pred is None else z3.Or(ok, pred(a, r))))
    return zand(same)


def explore(prog, reg, u):
    shared = Shared()
    restarts = 0
    while True:
        shared.obligations = []
        shared.normal_paths = shared.raise_paths = shared.paths = 0
        work = [[]]
        try:
            while work:
                prefix = work.pop()
                it = Exec(prog, reg, shared, prefix, target=u.c)
                shared.paths += 1
                if shared.paths > u.c.max_paths:
                    raise Unsupported(f"more than {u.c.max_paths} paths")
                try:
                    run_path(it, u)
                except PathEnd:
                    pass
                for i in range(len(prefix), len(it.trace)):
                    d, alts = it.trace[i]
                    for a in alts:
                        work.append(it.trace[:i] + [(a, [])])
            return shared
        except Restart:
            restarts += 1
            if restarts > MAX_RESTARTS:
                raise Unsupported("loop frames do not stabilise")


def model_text(model, pc):
    out = []
    try:
        for d in model.decls():
            n = d.name()
            if d.arity() == 0 and not n.startswith("?") and "@" not in n:
                v = model[d]
                t = str(v)
                if len(t) < 400:
                    out.append(f"{n} = {t}")
    except z3.Z3Exception:
        pass
    return "; ".join(sorted(out))[:3000]


# no query takes as long as this; a process of ours that gives no answer for so long hangs, and is ended and redone
OBLIGATION_LIMIT = 150
EXPLORE_LIMIT = 200
UNIT_LIMIT = 330


def watchdog(seconds):
    """End this process by SIGALRM, whatever it is doing, unless the watchdog is set again in time (0: no limit)."""
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def _discharge(obls, c, progress=None, safe=False, emit=None):
    out = []
    t1 = int((c.timeout or 4) * 1000 * float(os.environ.get("PYVC_SCALE", "1")))
    bad = 0
    for i, o in enumerate(obls):
        if bad >= MAX_BAD:
            r = (o.name, o.line, "skipped", "-", 0.0, "")
        else:
            watchdog(OBLIGATION_LIMIT)
            st, b, t, m = prove(o.pc, o.goal, t1=t1, t2=int(t1 * 1.5), t3=max(10, t1 // 500), plain=bool(c.opaque), safe=safe)
            r = (o.name, o.line, st, b, t, model_text(m, o.pc) if m is not None else "")
        out.append(r)
        if r[2] not in ("proved", "skipped"):
            bad += 1
        if emit:
            emit(r)
        if progress:
            progress(r)
    return out


def _worker(obls, c, safe):
    """Discharge in a forked process; (pid, file of results).  A crash of the solver loses one result, not the run."""
    fd, path = tempfile.mkstemp(prefix="pyvc")
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        code = 0
        watchdog(OBLIGATION_LIMIT)
        os.closerange(3, 256)      # the pipe to the caller ends with the process that owns it
        try:
            with open(path, "wb") as f:
                def emit(r):
                    pickle.dump(r, f)
                    f.flush()
                _discharge(obls, c, None, safe, emit)
        except BaseException:
            code = 1
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
        os._exit(code)
    return pid, path


def _results(path):
    out = []
    with open(path, "rb") as f:
        while True:
            try:
                out.append(pickle.load(f))
            except (EOFError, pickle.UnpicklingError):
                break
    os.unlink(path)
    return out


def discharge(obls, c, jobs=1, progress=None):
    jobs = min(max(jobs, 1), max(1, len(obls) // 4))
    shares = [list(range(j, len(obls), jobs)) for j in range(jobs)]
    out = [None] * len(obls)
    live = {}
    died = 0
    for sh in shares:
        if sh:
            pid, path = _worker([obls[k] for k in sh], c, False)
            live[pid] = (path, sh, 0)
    while live:
        for pid in list(live):
            got, st = os.waitpid(pid, os.WNOHANG)
            if got == 0:
                continue
            path, sh, safe = live.pop(pid)
            done = _results(path)
            for k, x in zip(sh, done):
                out[k] = x
            rest = sh[len(done):]
            if rest and (os.WIFEXITED(st) or safe > 1):      # not a crash or a hang of the string solver
                k = rest.pop(0)
                out[k] = (obls[k].name, obls[k].line, "unknown", f"worker died ({st})", 0.0, "")
                died += 1
                if died >= MAX_BAD:
                    for k in rest:
                        out[k] = (obls[k].name, obls[k].line, "skipped", "-", 0.0, "")
                    rest = []
            if rest:
                # once more as before when it had done nothing yet, then without the string solver in the process
                again = 1 if not safe and not done and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else 2
                pid, path = _worker([obls[k] for k in rest], c, again > 1)
                live[pid] = (path, rest, again)
        time.sleep(0.005)
    if progress:
        for x in out:
            progress(x)
    return out


def _dead(pc, ms):
    """Is the path condition unsatisfiable?  In a process of its own: the string solver may not keep to its limit."""
    pid = os.fork()
    if pid == 0:
        watchdog(10 + ms / 1000)
        code = 0
        try:
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(pc)
            code = 1 if s.check() == z3.unsat else 0
        except BaseException:
            code = 0
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 1


def intern_enums(prog):
    for c in prog.classes.values():
        if c.is_enum:
            for m in c.attrs:
                CONSTS.id(VEnum(c, m))


def verify_unit(prog, reg, u, jobs=1, progress=None):
    res = FnResult(u.name, u.c.key)
    t0 = time.time()
    try:
        res.source = f"{u.fi.module.name}:{u.fi.node.lineno}" if u.fi is not None else "lemma"
        sh = explore(prog, reg, u)
        watchdog(0)
        res.paths, res.normal, res.raising = sh.paths, sh.normal_paths, sh.raise_paths
        res.used = sorted(sh.used_contracts)
        res.inlined = sorted(x for x in sh.inlined if u.fi is None or x != u.fi.qualname)
        res.externs = sorted(sh.externs)
        res.feas = sh.feas_time
        obls = sh.obligations
        if sh.normal_paths + sh.raise_paths == 0:
            res.error = "vacuous: no path of the function is feasible under its precondition"
        res.obls = discharge(obls, u.c, jobs, progress)
        for o, r in zip(obls, res.obls):
            if r[2] != "proved" and len(res.failed_smt) < 2:
                try:
                    res.failed_smt.append((r[0], smt2(o.pc, o.goal)))
                except z3.Z3Exception:
                    pass
        # a second vacuity guard: the end of some normal path must not be provably unreachable
        if res.error is None and sh.normal_paths and u.c.ensures:
            ends = [o for o in obls if o.name.startswith(u.name + ":")]
            if ends:
                if all(_dead(o.pc, 1500) for o in ends[-3:]) and all(_dead(o.pc, 1000) for o in ends):
                    res.error = "vacuous: every path condition is unsatisfiable"
    except Unsupported as e:
        res.error = f"unsupported: {e}"
    except RecursionError:
        res.error = "unsupported: recursion limit"
    except Exception as e:      # a bug of the verifier is never a pass
        res.error = f"internal: {type(e).__name__}: {e}\n" + traceback.format_exc(limit=8)
    res.wall = time.time() - t0
    return res


def load(root, contract_files):
    prog = Program(root)
    renumber(prog)
    intern_enums(prog)
    reg = Registry()
    for f in contract_files:
        ns = {"reg": reg, "contract": reg.contract, "macro": reg.macro, "rec": reg.rec, "pred": reg.pred, "field": reg.field, "lemma": reg.lemma, "split_field": reg.split_field,
              "uninterpreted": reg.uninterpreted, "loopspec": reg.loopspec, "extern": reg.extern,
              "invariant": reg.invariant, "consts": reg.consts, "prog": prog, "__file__": f}
        with open(f) as fh:
            exec(compile(fh.read(), f, "exec"), ns)
    from .pure import Pure
    for name in list(reg.macros) + list(reg.recs):
        if hasattr(Pure, "c_" + name):
            raise ValueError(f"{name} is a word of the specification language")
    for name, fam in reg.splits.items():
        cs = [prog.by_name[c] for c in fam if c in prog.by_name]
        if any(not prog.unrelated(a, b) for i, x in enumerate(cs) for y in cs[i + 1:] for a in x for b in y):
            raise ValueError(f"split_field {name}: {fam} share objects")
    return prog, reg


def verify_keys(prog, reg, keys, jobs=8, verbose=False):
    """Verify every unit of the given contracts, one process per unit."""
    todo = []
    results = []
    for k in keys:
        try:
            us = units(prog, reg, k)
        except Unsupported as e:
            r = FnResult(k, k)
            r.error = f"unsupported: {e}"
            results.append(r)
            continue
        if reg.contracts[k].trusted:
            continue
        todo.extend(us)
    running = {}
    # the longest first (an order only)
    heavy = ["PreprocessVariablesParser.parse", "ArgumentsParser._isolate_tags_and_subtype", "Template.match", "DocumentLexer._process_include", "DocumentLexer._process", "DocumentLexer._process_variable", "DocumentLexer._process_block", "BlockGroupManager.process"]
    queue = [(u, 0) for u in sorted(todo, key=lambda u: heavy.index(u.c.key) if u.c.key in heavy else len(heavy))]
    inner = max(1, jobs // max(1, len(queue))) if queue else 1
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    while queue or running:
        while queue and len(running) < jobs:
            u, tries = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    watchdog(EXPLORE_LIMIT)
                    os.close(r)
                    sys.setrecursionlimit(20000)
                    if tries:
                        z3.set_param("smt.random_seed", tries)
                        z3.set_param("sat.random_seed", tries)
                    res = verify_unit(prog, reg, u, max(inner, 3 if len(todo) < 2 * jobs else 1))
                    data = pickle.dumps(res)
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            os.set_blocking(r, False)
            sel.register(r, selectors.EVENT_READ)
            running[r] = (pid, u, tries, time.time() + UNIT_LIMIT)
            bufs[r] = b""
        for pid, u, tries, end in running.values():
            if time.time() > end and tries < 2:
                os.kill(pid, signal.SIGKILL)
        for k, _ in sel.select(timeout=1):
            fd = k.fd
            d = os.read(fd, 1 << 20)
            if d:
                bufs[fd] += d
                continue
            sel.unregister(fd)
            os.close(fd)
            pid, u, tries, _ = running.pop(fd)
            st = os.waitpid(pid, 0)[1]
            data = bufs.pop(fd)
            if data:
                res = pickle.loads(data)
            elif tries < 2 and os.WIFSIGNALED(st):       # the solver crashed: again, with another seed
                queue.insert(0, (u, tries + 1))
                continue
            else:
                res = FnResult(u.name, u.c.key)
                res.error = f"internal: verifier process died ({st})"
            results.append(res)
            if verbose:
                show(res)
    return results


def show(r, full=False):
    bad = [o for o in r.obls if o[2] != "proved"]
    st = "OK " if r.ok else "BAD"
    print(f"{st} {r.unit:45s} paths={r.paths} obls={r.discharged}/{len(r.obls)} {r.wall:.1f}s (feas {r.feas:.1f}s)" + (f" ERROR {r.error}" if r.error else ""), flush=True)
    if os.environ.get("PYVC_SLOW"):
        for o in sorted(r.obls, key=lambda o: -o[4])[:8]:
            if o[4] > 0.5:
                print(f"     slow {o[3]:9s} {o[4]:5.1f}s line {o[1]}  {o[0]}", flush=True)
    for o in bad[:40]:
        print(f"     {o[2]:8s} {o[3]:9s} {o[4]:5.1f}s line {o[1]}  {o[0]}  {o[5][:600]}", flush=True)


if __name__ == "__main__":
    import glob
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("keys", nargs="*")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--smt", action="store_true")
    ap.add_argument("--one", action="store_true", help="in-process, no fork")
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    prog, reg = load(a.repo, sorted(glob.glob(os.path.join(here, "contracts", "*.py"))))
    keys = []
    import fnmatch
    for k in a.keys or ["*"]:
        keys.extend(x for x in reg.contracts if fnmatch.fnmatch(x, k))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    if a.one:
        rs = []
        for k in keys:
            for u in units(prog, reg, k):
                r = verify_unit(prog, reg, u)
                show(r)
                rs.append(r)
    else:
        rs = verify_keys(prog, reg, keys, verbose=True)
    if a.smt:
        for r in rs:
            for i, (n, t) in enumerate(r.failed_smt):
                open(f"/tmp/fail-{r.unit}-{i}.smt2", "w").write(t)
    print(f"{sum(r.ok for r in rs)}/{len(rs)} units, {sum(r.discharged for r in rs)}/{sum(len(r.obls) for r in rs)} obligations, {time.time() - t0:.1f}s")
