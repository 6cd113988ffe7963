"""Statements, loops, expressions and calls."""
from __future__ import annotations

import ast

import z3

from .engine import (Frame, Interp, LoopInfo, PathEnd, PyRaise, Restart, _Break, _Continue, _Return)
from .front import ClassInfo, FuncInfo, Unsupported, walk_own
from .pure import Pure, bind_target, const_value, int_to_str, parse_expr, strip_opt, substr, type_of, zand, zor
from .values import *  # noqa: F401,F403
from .values import Val, I, B, S, NONE, clsof

MAXINLINE = 14
UNROLL = 40


class Exec(Interp):
    # --------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        self.line = s.lineno
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals |= set(s.names)

    def s_Import(self, s, fr):
        for a in s.names:
            fr.env[(a.asname or a.name).split(".")[0]] = VMod(a.name)

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            r = None
            if s.module in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[s.module], a.name)
            if r is None:
                fr.env[a.asname or a.name] = VExt(f"{s.module}.{a.name}")
            elif r[0] == "class":
                fr.env[a.asname or a.name] = VClass(r[1])
            elif r[0] == "func":
                fr.env[a.asname or a.name] = VFunc(r[1])
            else:
                fr.env[a.asname or a.name] = VExt(f"{s.module}.{a.name}")

    def s_FunctionDef(self, s, fr):
        fi = FuncInfo(s.name, s, fr.module)
        fr.env[s.name] = VFunc(fi, closure=fr)

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else VNone)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is None:
            return
        v = self.ev(s.value, fr)
        ty = self.parse_type(s.annotation, fr.module)
        self.note_elem_type(v, ty)
        self.assign(s.target, v, fr)

    def note_elem_type(self, v, ty):
        if isinstance(v, VRef) and v.cls is not None and v.cls.external and v.elem is None:
            ty = strip_opt(ty)
            if ty[0] == "list" and v.cls.name == "list":
                v.elem = ty[1]
            elif ty[0] == "dict" and v.cls.name in ("dict", "defaultdict"):
                v.elem = (ty[1], ty[2])

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            v = self.binop(s.op, cur, self.ev(s.value, fr), inplace=True)
            self.assign(s.target, v, fr)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value, fr)
            cur = self.getattr(base, s.target.attr, s)
            v = self.binop(s.op, cur, self.ev(s.value, fr), inplace=True)
            self.setattr(base, s.target.attr, v, s)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, fr)
            idx = self.ev(s.target.slice, fr)
            cur = self.getitem(base, idx, s)
            v = self.binop(s.op, cur, self.ev(s.value, fr), inplace=True)
            self.setitem(base, idx, v, s)
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr
            if t.id in fr.nonlocals:
                f = fr.closure
                while f is not None and t.id not in f.env:
                    f = f.closure
                if f is None:
                    raise Unsupported("nonlocal")
            if isinstance(v, VStr) and z3.is_app_of(v.t, z3.Z3_OP_ITE) and not self.has_bound(v.t):
                # one name for a text chosen between several
                x = self.fresh(t.id, S)
                self.assume(x == v.t)
                v = VStr(x)
            f.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, t, v, fr):
        v = self.force(v)
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if isinstance(v, VTup):
            items = v.items
            if stars:
                k = stars[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_py("ValueError", t.lineno)
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.new_list(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                self.raise_py("ValueError", t.lineno)
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
            return
        if isinstance(v, VRef) and v.cls is not None and v.cls.name == "list" and v.cls.external and not stars:
            n = self.sel(self.H("#len"), v.t)
            if not self.branch(n == len(t.elts)):
                self.raise_py("ValueError", t.lineno)
            for i, e in enumerate(t.elts):
                self.assign(e, self.decode(z3.simplify(z3.Select(self.sel(self.H("#elt"), v.t), i)), v.elem or T_ANY), fr)
            return
        if isinstance(v, VMatch):
            raise Unsupported("unpack match")
        raise Unsupported(f"unpack {v}")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.force(self.ev(t.value, fr))
                idx = self.ev(t.slice, fr)
                if isinstance(base, VRef) and base.cls is not None and base.cls.external and base.cls.name in ("dict", "defaultdict"):
                    self.dict_del(base, idx, s.lineno)
                    continue
            elif isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
                continue
            raise Unsupported("del")

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.ev(s.exc, fr)
        if isinstance(v, VClass):
            val = None
            if not v.ci.external:
                val = self.instantiate(v.ci, [], {}, s)
            raise PyRaise(v.ci, val, s.lineno)
        v = self.force(v)
        if isinstance(v, VRef) and v.cls is not None and v.cls.is_sub(self.prog.builtin["BaseException"]):
            raise PyRaise(v.cls, v, s.lineno)
        raise Unsupported("raise of an unknown value")

    def s_Assert(self, s, fr):
        if not self.branch(self.cond(s.test, fr)):
            self.raise_py("AssertionError", s.lineno)

    def s_If(self, s, fr):
        if self.branch(self.cond(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                if not self.handle(e, s.handlers, fr):
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathEnd, Restart, Unsupported):
            raise
        except (PyRaise, _Return, _Break, _Continue):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def handle(self, e, handlers, fr):
        for h in handlers:
            if h.type is None:
                match = True
            else:
                tv = self.ev(h.type, fr)
                cs = tv.items if isinstance(tv, VTup) else [tv]
                match = False
                for c in cs:
                    if isinstance(c, VClass):
                        if e.ci.is_sub(c.ci):
                            match = True
                    elif isinstance(c, VExt):
                        if e.ci.name == c.name.rsplit(".", 1)[-1]:
                            match = True
                    else:
                        raise Unsupported("except clause")
            if match:
                if h.name:
                    fr.env[h.name] = self.exc_value(e)
                saved = getattr(fr, "cur_exc", None)
                fr.cur_exc = e
                try:
                    self.block(h.body, fr)
                finally:
                    fr.cur_exc = saved
                return True
        return False

    def exc_value(self, e):
        if e.val is None:
            e.val = VRef(self.new_ref(e.ci, "exc"), e.ci, True)
        return e.val

    def s_With(self, s, fr):
        self.with_items(s, s.items, fr)

    def with_items(self, s, items, fr):
        if not items:
            self.block(s.body, fr)
            return
        it = items[0]
        mgr = self.force(self.ev(it.context_expr, fr))
        if isinstance(mgr, VExt) and mgr.name.startswith("file:"):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mgr, fr)
            self.with_items(s, items[1:], fr)
            return
        v = self.call_method(mgr, "__enter__", [], {}, s)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(s, items[1:], fr)
        except PyRaise as e:
            r = self.call_method(mgr, "__exit__", [VClass(e.ci), self.exc_value(e), VNone], {}, s)
            if self.branch(self.truth(r)):
                return
            raise
        except (_Return, _Break, _Continue):
            self.call_method(mgr, "__exit__", [VNone, VNone, VNone], {}, s)
            raise
        self.call_method(mgr, "__exit__", [VNone, VNone, VNone], {}, s)

    def s_Match(self, s, fr):
        subj = self.ev(s.subject, fr)
        for c in s.cases:
            ok, binds = self.pattern(c.pattern, subj, fr)
            if not self.branch(ok):
                continue
            for k, v in binds.items():
                fr.env[k] = v
            if c.guard is not None and not self.branch(self.cond(c.guard, fr)):
                continue
            self.block(c.body, fr)
            return

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.equal(v, self.ev(p.value, fr)), {}
        if isinstance(p, ast.MatchSingleton):
            return enc(v) == enc(const_value(p.value)), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return z3.BoolVal(True), ({p.name: v} if p.name else {})
            ok, b = self.pattern(p.pattern, v, fr)
            if p.name:
                b[p.name] = v
            return ok, b
        if isinstance(p, ast.MatchOr):
            return zor([self.pattern(x, v, fr)[0] for x in p.patterns]), {}
        raise Unsupported("match pattern")

    # --------------------------------------------------------------------- loops
    def s_While(self, s, fr):
        self.loop(s, fr, None)

    def s_For(self, s, fr):
        it = self.force(self.ev(s.iter, fr))
        seq = self.concrete_seq(it)
        if seq is not None and len(seq) <= UNROLL:
            for x in seq:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except _Break:
                    return
                except _Continue:
                    continue
            self.block(s.orelse, fr)
            return
        it = self.iterator(it)
        self.loop(s, fr, it)

    def concrete_seq(self, v):
        """Python list of values when the iterable has a statically known length."""
        if isinstance(v, VTup):
            return v.items
        if isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name == "list":
            n = z3.simplify(self.sel(self.H("#len"), v.t))
            if z3.is_int_value(n):
                arr = self.sel(self.H("#elt"), v.t)
                return [self.decode(z3.simplify(z3.Select(arr, i)), v.elem or T_ANY) for i in range(n.as_long())]
            return None
        if isinstance(v, VIter):
            n = z3.simplify(v.length())
            if z3.is_int_value(n) and n.as_long() <= UNROLL:
                if v.on_start:
                    v.on_start()
                return [v.get(z3.IntVal(i)) for i in range(n.as_long())]
            return None
        if isinstance(v, VRef) and v.t.get_id() in self.lits and v.cls.name == "dict":
            return [const_value(k) for k in self.lits[v.t.get_id()]]
        if isinstance(v, VClass) and v.ci.is_enum:
            return [VEnum(v.ci, m) for m in v.ci.attrs]
        return None

    def iterator(self, v):
        if isinstance(v, VIter):
            return v
        if isinstance(v, VTup):
            items = v.items
            return VIter(lambda: z3.IntVal(len(items)), lambda k: items[z3.simplify(k).as_long()], src=v)
        if isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name == "list":
            return VIter(lambda: self.sel(self.H("#len"), v.t),
                         lambda k: self.decode(z3.Select(self.sel(self.H("#elt"), v.t), k), v.elem or T_ANY), src=v, kind="list")
        if isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name in ("dict", "defaultdict"):
            return self.dict_iter(v, "keys")
        if isinstance(v, VGen):
            return self.iterator(self.comp_list(v.node, v.frame))
        if isinstance(v, VStr):
            return VIter(lambda: z3.Length(v.t), lambda k: VStr(z3.SubString(v.t, k, 1)), src=v, kind="str")
        if v is VNone:
            self.raise_py("TypeError")
        raise Unsupported(f"iteration over {v}")

    def loop_ordinal(self, s, fr):
        n = 0
        if fr.fi is None:
            return None
        body = fr.fi.node.body
        order = []

        def walk(stmts):
            for x in stmts:
                if isinstance(x, (ast.For, ast.While)):
                    order.append(x)
                for f in ("body", "orelse", "finalbody"):
                    if hasattr(x, f) and isinstance(getattr(x, f), list) and not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        walk(getattr(x, f))
                for h in getattr(x, "handlers", []):
                    walk(h.body)
                for c in getattr(x, "cases", []):
                    walk(c.body)

        walk(body)
        for i, x in enumerate(order):
            if x is s:
                return i
        return None

    def loop_spec(self, s, fr, ordinal):
        """Pick the loop contract: the verified function's own, an inlined helper's, or the best fit."""
        c = self.target
        if fr.fi is not None and c is not None and fr is self.top_frame and ordinal is not None:
            own = [sp for sp in c.loops if not (sp and "comp" in sp)]
            if ordinal < len(own) and own[ordinal] is not None:
                return own[ordinal]
        if fr.fi is not None:
            for k in (fr.fi.short, fr.fi.name):
                sp = self.reg.loopspecs.get(k)
                if sp is not None and ordinal is not None and ordinal < len(sp):
                    return sp[ordinal]
            cc = self.find_contract(fr.fi, fr.fi.cls)
            own = [sp for sp in cc.loops if not (sp and "comp" in sp)] if cc is not None else []
            if ordinal is not None and ordinal < len(own):
                return own[ordinal]
        return None

    def loop(self, s, fr, it, comp=None):
        ordinal = self.loop_ordinal(s, fr) if comp is None else None
        spec = (self.loop_spec(s, fr, ordinal) if comp is None else (self.comp_spec(s, fr) or getattr(fr, "auto_spec", None))) or {}
        key = id(s)
        info = self.sh.loops.setdefault(key, LoopInfo())
        name = f"{fr.fi.short if fr.fi else '?'}:loop{ordinal if ordinal is not None else 'c'}"
        idx_name = f"_i{ordinal if ordinal is not None else ''}"
        assigned = self.assigned_names(s)
        if it is not None:
            if it.on_start:
                it.on_start()
            fr.env[idx_name] = fr.env["_i"] = VInt(z3.IntVal(0))
            if it.src is not None:
                fr.env["_it"] = it.src
            assigned |= {idx_name, "_i"}
        entry_env = dict(fr.env)
        entry_heap = dict(self.heap)
        entry_alloc = self.alloc
        invs = list(spec.get("inv", []))
        self.spec_aliases(fr, spec)

        def inv_terms():
            p = self.spec_pure(fr, entry=(entry_heap, entry_env, entry_alloc))
            out = []
            for j, e in enumerate(invs):
                lab, ex = e if isinstance(e, tuple) else (f"inv{j}", e)
                out.append((lab, p.boolean(ex)))
            return out

        for lab, t in inv_terms():
            self.check(t, f"{name}:{lab}:init", s.lineno)
        if it is not None:
            self.assume(it.length() >= 0)
        # --- havoc
        L = {
            "info": info, "seq": self.seq, "alloc": None, "symbols": set(), "ctr": dict(self.ctr), "name": name,
        }
        for n in sorted(assigned):
            if n not in fr.env:
                continue
            cur = fr.env[n]
            if cur is None:
                continue
            ty = info.ltypes.get(n)
            t0 = self.local_type(cur)
            if ty is None:
                info.ltypes[n] = ty = t0
            else:
                j = self.join_type(ty, t0)
                if j != ty:
                    info.ltypes[n] = ty = j
            fr.env[n] = None if ty is None else ("pending", ty)
        self.cuts += 1
        new_alloc = self.fresh("alloc", I)
        self.assume(new_alloc >= self.alloc)
        alloc0 = self.alloc
        L["alloc"] = alloc0
        self.alloc = new_alloc
        modpred = self.mod_predicate(spec.get("modifies"), fr, (entry_heap, entry_env, entry_alloc)) if spec.get("modifies") else None
        L["modpred"] = modpred
        for aname, targets in list(info.arrays.items()):
            old = self.heap_get(self.heap, aname)
            if targets is not None and modpred is None:
                # only these cells (and cells of objects created inside the loop, which nothing constrains yet)
                for t in targets.values():
                    cell = self.fresh(f"c.{aname}", arr_sort(aname).range())
                    old = z3.Store(old, t, cell)
                    if aname == "#len":
                        self.assume(cell >= 0)
                self.heap[aname] = old
                continue
            new = self.fresh(f"H.{aname}", arr_sort(aname))
            self.heap[aname] = new
            if targets is not None:
                r = self.bound("r", I)
                excl = [r != t for t in targets.values()]
                if modpred is not None:
                    excl.append(z3.Not(modpred(aname, r)))
                self.assume(z3.ForAll([r], z3.Implies(zand([r < alloc0] + excl), z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)]))
                # ground instances for the references in scope
        for n in sorted(assigned):
            v = fr.env.get(n)
            if isinstance(v, tuple):
                fr.env[n] = self.fresh_of_type(v[1], n)
        self.lits.clear()
        if it is not None:
            i = fr.env[idx_name]
            fr.env["_i"] = i
            self.assume(i.t >= 0)
            if not spec.get("live"):
                # sound because every iteration is obliged to keep the length
                self.assume(z3.Or(i.t <= it.length(), z3.BoolVal(False)))
        for lab, t in inv_terms():
            self.assume(t)
        dec0 = None
        if spec.get("decreases"):
            dec0 = self.measure(self.spec_pure(fr, entry=(entry_heap, entry_env, entry_alloc)), spec["decreases"])
        head_len = it.length() if it is not None else None
        self.loopstack.append(L)
        outcome = None
        try:
            if it is not None:
                go = self.branch(fr.env[idx_name].t < it.length())
                if go:
                    x = it.get(fr.env[idx_name].t)
                    if comp is None:
                        self.assign(s.target, x, fr)
                    try:
                        if comp is not None:
                            comp(x)
                        else:
                            self.block(s.body, fr)
                    except _Continue:
                        pass
                    nxt = VInt(z3.simplify(fr.env[idx_name].t + 1)) if fr.env.get(idx_name) is not None else None
                    fr.env[idx_name] = nxt
                    fr.env["_i"] = nxt
                    if not spec.get("live") and not it.length().eq(head_len):
                        self.check(it.length() == head_len, f"{name}:iterable-not-resized", s.lineno)
            else:
                go = self.branch(self.cond(s.test, fr))
                if go:
                    try:
                        self.block(s.body, fr)
                    except _Continue:
                        pass
        except _Break:
            outcome = "break"
        finally:
            self.loopstack.pop()
        if outcome == "break":
            return
        if go:
            # end of an iteration: types and invariants
            for n in sorted(assigned):
                cur = fr.env.get(n)
                if cur is None:
                    continue
                if n in info.ltypes:
                    j = self.join_type(info.ltypes[n], self.local_type(cur))
                    if j != info.ltypes[n]:
                        info.ltypes[n] = j
                        raise Restart()
            for lab, t in inv_terms():
                self.check(t, f"{name}:{lab}:preserved", s.lineno)
            if dec0 is not None:
                d1 = self.measure(self.spec_pure(fr, entry=(entry_heap, entry_env, entry_alloc)), spec["decreases"])
                self.check(lex_less(d1, dec0), f"{name}:decreases", s.lineno)
            raise PathEnd()
        if comp is None:
            self.block(s.orelse, fr)

    def spec_aliases(self, fr, spec):
        pass

    def spec_pure(self, fr, entry=None):
        env = {}
        f = fr
        chain = []
        while f is not None:
            chain.append(f)
            f = f.closure
        for f in reversed(chain):
            for k, v in f.env.items():
                if v is not None and not isinstance(v, tuple):
                    env[k] = v
        old = self.fn_old
        top = self.top_frame
        if fr is not top and top is not None:
            for k, v in top.env.items():
                if k not in env and v is not None and not isinstance(v, tuple):
                    env[k] = v
        for a, b in self.param_alias.items():
            if a not in env and b in env:
                env[a] = env[b]
        if top is not None and top.old_params:
            for k, v in top.old_params.items():
                env.setdefault(k, v)
        p = Pure(self, self.heap, env, old, fr.module, False)
        p.loop_entry = entry
        return p

    def local_type(self, v):
        if isinstance(v, (VInt, VBool, VStr, VNoneT, VAny, VRef)):
            return type_of(v)
        if isinstance(v, VEnum):
            return ("enum", v.ci)
        if isinstance(v, VTup):
            ts = [self.local_type(x) for x in v.items]
            if any(t is None for t in ts):
                return None
            return ("tuple", ts)
        return None

    def join_type(self, a, b):
        if a == b:
            return a
        if a is None or b is None:
            return None
        if a[0] == "cls" and b[0] == "cls":
            if a[1] is b[1]:
                return ("cls", a[1], False) if a[2] != b[2] else a
            for c in a[1].mro:
                if b[1].is_sub(c) and c.name != "object":
                    return ("cls", c, False)
            return T_ANY
        if a[0] == "list" and b[0] == "list":
            if a[1] == T_ANY or b[1] == T_ANY:
                return a if b[1] == T_ANY else b
            return ("list", t_union([a[1], b[1]]))
        if a[0] == "dict" and b[0] == "dict":
            return a if b[1] == T_ANY else b
        if a[0] == "tuple" or b[0] == "tuple":
            if a[0] == b[0] and len(a[1]) == len(b[1]):
                ts = [self.join_type(x, y) for x, y in zip(a[1], b[1])]
                return None if any(t is None for t in ts) else ("tuple", ts)
            return None
        alts = list(a[1]) if a[0] == "union" else [a]
        for t in (b[1] if b[0] == "union" else [b]):
            for i, x in enumerate(alts):
                if x[0] == t[0] and x[0] in ("cls", "list", "dict"):
                    alts[i] = self.join_type(x, t)
                    break
            else:
                if t not in alts:
                    alts.append(t)
        return t_union(alts)

    def assigned_names(self, s):
        out = set()
        if isinstance(s, (ast.For, ast.While)):
            nodes = list(s.body)
            if isinstance(s, ast.For):
                nodes.append(s.target)
            if isinstance(s, ast.While):
                nodes.append(s.test)
        else:
            return set()
        todo = list(nodes)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, ast.MatchAs) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                todo.extend(x.iter for x in n.generators)
                continue
            todo.extend(ast.iter_child_nodes(n))
        return out

    # --------------------------------------------------------------- frames
    def mod_predicate(self, clauses, fr, entry, env=None):
        """Parse modifies clauses into pred(array, ref) -> Bool, evaluated in the entry state."""
        heap, eenv, ealloc = entry
        if env is None:
            p0 = self.spec_pure(fr) if fr is not None else None
            e = dict(p0.env) if p0 is not None else {}
            e.update({k: v for k, v in eenv.items() if v is not None and not isinstance(v, tuple)})
        else:
            e = env
        fixed = []     # (arrays, kind, data)
        for c in clauses:
            fixed.extend(self.parse_mod(c, heap, e, ealloc))

        def pred(array, ref):
            alts = []
            for arrays, f in fixed:
                if arrays is None or array in arrays:
                    alts.append(f(ref))
            return zor(alts)

        pred.locations = fixed
        return pred

    def parse_mod(self, c, heap, env, ealloc):
        if c == "anything":
            return [(None, lambda r: z3.BoolVal(True))]
        if c.startswith("any."):
            return [((c[4:],), lambda r: z3.BoolVal(True))]
        if c == "any list":
            return [(LIST_ARRS, lambda r: z3.BoolVal(True))]
        if c == "any dict":
            return [(DICT_ARRS, lambda r: z3.BoolVal(True))]
        n = parse_expr(c)
        old = (heap, env, ealloc)
        if isinstance(n, ast.GeneratorExp):
            g = n.generators[0]
            p = Pure(self, heap, env, old)
            arrays, tgt = self.mod_target(n.elt)
            self.hname(None, arrays[0])

            def f(r, n=n, tgt=tgt, p=p):
                its = p.iter_of(n.generators[0].iter)
                if isinstance(its, list):
                    return zor([self._mt(p.sub(bind_target(g.target, x)), tgt, r) for x in its])
                vs, guard, val, pat = its
                q = p.sub(bind_target(g.target, val))
                cond = zand([guard] + [q.boolean(i) for i in g.ifs])
                return z3.Exists(vs, z3.And(cond, self._mt(q, tgt, r)))

            return [(arrays, f)]
        cond = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "when":      # a location only if something holds
            cond, n = n.args
        arrays, tgt = self.mod_target(n)
        p = Pure(self, heap, env, old)
        v = p.narrow(p.ev(tgt))
        if arrays[0] in self.reg.splits:
            arrays = (self.hname(v.cls, arrays[0]),)
        t = p.as_ref(v)
        if cond is not None:
            t = z3.If(p.boolean(cond), t, z3.IntVal(-1))

        def g2(r, t=t):
            return r == t

        g2.exact = t
        return [(arrays, g2)]

    def _mt(self, p, tgt, r):
        return p.as_ref(p.narrow(p.ev(tgt))) == r

    def mod_target(self, n):
        if isinstance(n, ast.Attribute):
            return (n.attr,), n.value
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "list":
            return LIST_ARRS, n.args[0]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict":
            return DICT_ARRS, n.args[0]
        raise Unsupported(f"modifies clause {ast.unparse(n)}")

    def havoc_modifies(self, clauses, env, pre_heap, pre_alloc):
        pred = self.mod_predicate(clauses, None, (pre_heap, env, pre_alloc), env=env)
        arrays = {}
        for arrs, f in pred.locations:
            if arrs is None:
                raise Unsupported("call of a function that may modify anything")
            for a in arrs:
                arrays.setdefault(a, []).append(f)
        for a, fs in arrays.items():
            old = self.heap_get(self.heap, a)
            if all(hasattr(f, "exact") for f in fs):
                cur = old
                for f in fs:
                    cell = self.fresh(f"H.{a}", arr_sort(a).range())
                    self.note_store(a, f.exact, getattr(self, "line", None))
                    cur = z3.Store(cur, f.exact, cell)
                    if a == "#len":
                        self.assume(cell >= 0)
                self.heap[a] = cur
            else:
                new = self.fresh(f"H.{a}", arr_sort(a))
                r = self.bound("r", I)
                self.assume(z3.ForAll([r], z3.Implies(z3.And(r < pre_alloc, z3.Not(zor([f(r) for f in fs]))), z3.Select(new, r) == z3.Select(old, r)), patterns=[z3.Select(new, r)]))
                # framing of the enclosing function / loops
                q = self.fresh("mod", I)
                self.note_pred_store(a, fs, q, pre_alloc)
                self.heap[a] = new
        self.lits.clear()

    def note_pred_store(self, a, fs, q, pre_alloc):
        inside = z3.And(q < pre_alloc, zor([f(q) for f in fs]))
        for L in self.loopstack:
            t = L["info"].arrays.get(a, "absent")
            if t is None:
                continue
            pred = L.get("modpred")
            alts = [q >= L["alloc"]]
            if pred is not None:
                alts.append(pred(a, q))
            if t != "absent":
                alts += [q == x for x in t.values()]
            goal = z3.Implies(inside, z3.Or(alts))
            if self.entails(goal):
                continue
            if t == "absent":
                L["info"].arrays[a] = {} if pred is not None else None
                raise Restart()
            if pred is None:
                L["info"].arrays[a] = None
                raise Restart()
            self.check(goal, f"{L['name']}:loop-frame:{a}")
        if self.modcheck is not None:
            goal = z3.Implies(inside, z3.Or(q >= self.entry_alloc, self.modcheck["pred"](a, q)))
            self.check(goal, f"{self.modcheck['name']}:frame:{a}", getattr(self, "line", None))

    # --------------------------------------------------------------- expressions
    def cond(self, n, fr):
        return self.truth_node(n, fr)

    def truth_node(self, n, fr):
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                t = self.truth_node(v, fr)
                if i == len(n.values) - 1:
                    return t
                if isinstance(n.op, ast.And):
                    if not self.branch(t):
                        return z3.BoolVal(False)
                else:
                    if self.branch(t):
                        return z3.BoolVal(True)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return z3.Not(self.truth_node(n.operand, fr))
        return self.truth(self.ev(n, fr))

    def ev(self, n, fr):
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at line {n.lineno}")
        return m(n, fr)

    def x_Constant(self, n, fr):
        return const_value(n.value)

    def x_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def x_Tuple(self, n, fr):
        return VTup(self.elements(n.elts, fr))

    def x_List(self, n, fr):
        return self.new_list(self.elements(n.elts, fr))

    def x_Set(self, n, fr):
        return self.set_of(self.elements(n.elts, fr))

    def elements(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.force(self.ev(e.value, fr))
                seq = self.concrete_seq(v)
                if seq is None:
                    raise Unsupported("star of a symbolic sequence")
                out.extend(seq)
            else:
                out.append(self.ev(e, fr))
        return out

    def x_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.force(self.ev(v, fr))
                lit = self.lits.get(d.t.get_id()) if isinstance(d, VRef) else None
                if lit is None:
                    return self.dict_display_merge(n, fr)
                items.extend((const_value(x), y) for x, y in lit.items())
                continue
            items.append((self.ev(k, fr), self.ev(v, fr)))
        kt = t_union([type_of(k) for k, _ in items]) if items else None
        vt = t_union([type_of(v) for _, v in items]) if items else None
        d = self.new_dict(items, (kt, vt) if items else None)
        self.remember_lit(d, items)
        return d

    def dict_display_merge(self, n, fr):
        d = self.new_dict([], None)
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.force(self.ev(v, fr))
                self.dict_update(d, o)
                if d.elem is None:
                    d.elem = o.elem
            else:
                self.dict_set(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def remember_lit(self, d, items):
        lit = {}
        for k, v in items:
            if isinstance(k, VStr):
                ks = z3.simplify(k.t)
                if z3.is_string_value(ks):
                    lit[pystr(ks)] = v
                    continue
            return
        self.lits[d.t.get_id()] = lit
        self._keep = getattr(self, "_keep", [])
        self._keep.append(d.t)

    def x_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(z3.StringVal(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.conversion == -1 and not v.format_spec:
                    parts.append(self.to_str(x).t)
                else:
                    parts.append(self.unint("str.fmt", [Val], S)(self.enc_any(x)))
        if not parts:
            return VStr("")
        return VStr(parts[0] if len(parts) == 1 else z3.Concat(parts))

    def enc_any(self, x):
        try:
            return enc(x)
        except Unsupported:
            return self.fresh("opaque", Val)

    def to_str(self, x):
        if isinstance(x, VAny):
            x = self.force(x) if x.ty != T_ANY else x
        if isinstance(x, VStr):
            return x
        if isinstance(x, VInt):
            return VStr(int_to_str(x.t))
        if isinstance(x, VNoneT):
            return VStr("None")
        if isinstance(x, VAny) and x.ty == T_ANY:
            return VStr(z3.If(Val.is_s(x.t), Val.sv(x.t), self.unint("str.of", [Val], S)(x.t)))
        return VStr(self.unint("str.of", [Val], S)(self.enc_any(x)))

    def x_BoolOp(self, n, fr):
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isinstance(n.op, ast.And) and not t:
                return self.refine_false(v)
            if isinstance(n.op, ast.Or) and t:
                return self.refine_true(v)
        return v

    def refine_false(self, v):
        return v

    def refine_true(self, v):
        """A truthy optional is not None."""
        if isinstance(v, VAny) and v.ty[0] == "union":
            t = strip_opt(v.ty)
            if t[0] not in ("union", "any", "func", "enum"):
                return self.decode(v.t, t)
            if t[0] == "union":
                return VAny(v.t, t_union([x for x in v.ty[1] if x != T_NONE]))
        return v

    def x_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            return VBool(z3.Not(self.truth(self.ev(n.operand, fr))))
        v = self.force(self.ev(n.operand, fr))
        if isinstance(n.op, ast.USub):
            return VInt(z3.simplify(-self.int_of(v)))
        raise Unsupported("unary operator")

    def int_of(self, v):
        v = self.force(v)
        if isinstance(v, VInt):
            return v.t
        if isinstance(v, VBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v is VNone or isinstance(v, (VStr, VRef)):
            self.raise_py("TypeError")
        raise Unsupported(f"integer expected, got {v}")

    def x_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b, inplace=False):
        a, b = self.force(a), self.force(b)
        if isinstance(op, ast.Add):
            if isinstance(a, VStr) and isinstance(b, VStr):
                return VStr(z3.simplify(z3.Concat(a.t, b.t)))
            if self.is_list(a) and self.is_list(b):
                if inplace:
                    self.list_extend(a, b)
                    return a
                r = self.list_copy(a)
                self.list_extend(r, b)
                return r
            if isinstance(a, VTup) and isinstance(b, VTup):
                return VTup(a.items + b.items)
            if isinstance(a, (VStr, VRef, VNoneT)) or isinstance(b, (VStr, VRef, VNoneT)):
                self.raise_py("TypeError")
            return VInt(z3.simplify(self.int_of(a) + self.int_of(b)))
        if self.is_set(a) and self.is_set(b) and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            return self.set_op("-" if isinstance(op, ast.Sub) else "|" if isinstance(op, ast.BitOr) else "&", a, b)
        if isinstance(op, ast.Sub):
            return VInt(z3.simplify(self.int_of(a) - self.int_of(b)))
        if isinstance(op, ast.Mult):
            if isinstance(a, VStr) or isinstance(b, VStr):
                raise Unsupported("string repetition")
            return VInt(self.int_of(a) * self.int_of(b))
        if isinstance(op, ast.BitOr) and self.is_dict(a) and self.is_dict(b):
            r = self.dict_copy(a)
            self.dict_update(r, b)
            return r
        raise Unsupported(f"operator {type(op).__name__}")

    def is_list(self, v):
        return isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name == "list"

    def is_dict(self, v):
        return isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name in ("dict", "defaultdict")

    def x_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(rn, fr)
            t = self.compare(op, left, right)
            res = t if res is None else z3.And(res, t)
            if i < len(n.ops) - 1:
                if not self.branch(res):
                    return VBool(False)
            left = right
        return VBool(z3.simplify(res))

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.equal(a, b))
        if isinstance(op, ast.Is):
            return enc(a) == enc(b)
        if isinstance(op, ast.IsNot):
            return enc(a) != enc(b)
        if isinstance(op, (ast.In, ast.NotIn)):
            t = self.contains(a, b)
            return z3.Not(t) if isinstance(op, ast.NotIn) else t
        a, b = self.force(a), self.force(b)
        if isinstance(a, VStr) and isinstance(b, VStr):
            x, y = a.t, b.t
        elif isinstance(a, VTup) and isinstance(b, VTup):
            return self.tuple_less(op, a, b)
        else:
            x, y = self.int_of(a), self.int_of(b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def tuple_less(self, op, a, b):
        def lt(xs, ys, strict):
            if not xs or not ys:
                if strict:
                    return z3.BoolVal(len(xs) < len(ys))
                return z3.BoolVal(len(xs) <= len(ys))
            x, y = self.force(xs[0]), self.force(ys[0])
            x, y = (x.t, y.t) if isinstance(x, VStr) else (self.int_of(x), self.int_of(y))
            return z3.Or(x < y, z3.And(x == y, lt(xs[1:], ys[1:], strict)))

        if isinstance(op, ast.Lt):
            return lt(a.items, b.items, True)
        if isinstance(op, ast.LtE):
            return lt(a.items, b.items, False)
        if isinstance(op, ast.Gt):
            return lt(b.items, a.items, True)
        return lt(b.items, a.items, False)

    def equal(self, a, b):
        prim = (VInt, VBool, VStr, VNoneT, VEnum, VClass)
        if isinstance(a, VTup) and isinstance(b, VTup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return zand([self.equal(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VTup) or isinstance(b, VTup):
            o = b if isinstance(a, VTup) else a
            if isinstance(o, (VRef,) + prim):
                return z3.BoolVal(False)
            return enc(a) == enc(b)
        for k in (VInt, VBool, VStr):
            if isinstance(a, k) and isinstance(b, k):
                return a.t == b.t
        if isinstance(a, prim) and isinstance(b, prim):
            return enc(a) == enc(b)
        if isinstance(a, VAny) and isinstance(b, prim):
            if not self.may_be_object(a):
                return enc(a) == enc(b)
            a = self.force(a)
            if isinstance(a, VAny):
                return enc(a) == enc(b)
            return self.equal(a, b)
        if isinstance(b, VAny) and isinstance(a, prim):
            return self.equal(b, a)
        if isinstance(a, VAny) and isinstance(b, VAny) and not self.may_be_object(a):
            return enc(a) == enc(b)
        a, b = self.force(a), self.force(b)
        if isinstance(a, VAny) or isinstance(b, VAny):
            return enc(a) == enc(b)
        if isinstance(a, VRef):
            if a.cls is None:
                return enc(a) == enc(b)
            if a.cls.external:
                if isinstance(b, prim):
                    return z3.BoolVal(False)
                return self.container_eq(a, b)
            f = a.cls.find("__eq__")
            if f is not None:
                return self.truth(self.call_method(a, "__eq__", [b], {}, None))
            if a.cls.is_dataclass and a.cls.dataclass_eq:
                if isinstance(b, prim):
                    return z3.BoolVal(False)
                return self.truth(self.dataclass_eq(self.pure(), a, b))
            return enc(a) == enc(b)
        if isinstance(b, VRef):
            if b.cls is not None and not b.cls.external and b.cls.find("__eq__"):
                return self.truth(self.call_method(b, "__eq__", [a], {}, None))
            return z3.BoolVal(False)
        return enc(a) == enc(b)

    def may_be_object(self, v):
        ty = v.ty
        alts = ty[1] if ty[0] == "union" else [ty]
        for t in alts:
            if t[0] == "cls" and (t[1].find("__eq__") or t[1].is_dataclass):
                return True
            if t[0] in ("list", "dict"):
                return True
        return False

    def container_eq(self, a, b):
        if self.is_list(a) and self.is_list(b):
            sa, sb = self.concrete_seq(a), self.concrete_seq(b)
            la, lb = self.sel(self.H("#len"), a.t), self.sel(self.H("#len"), b.t)
            if sa is not None and sb is not None:
                if len(sa) != len(sb):
                    return z3.BoolVal(False)
                return zand([self.equal(x, y) for x, y in zip(sa, sb)])
            if sa is not None or sb is not None:
                n = len(sa if sa is not None else sb)
                if n == 0:
                    return la == lb
            k = self.bound("k", I)
            ea, eb = z3.Select(self.sel(self.H("#elt"), a.t), k), z3.Select(self.sel(self.H("#elt"), b.t), k)
            et = a.elem or T_ANY
            if et in (T_INT, T_STR, T_BOOL):
                return z3.And(la == lb, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < la), ea == eb)))
        if self.is_dict(a) and self.is_dict(b):
            et = a.elem or (T_ANY, T_ANY)
            if et[1] in (T_INT, T_STR, T_BOOL):
                v = self.bound("v", Val)
                ha, hb = self.sel(self.H("#has"), a.t), self.sel(self.H("#has"), b.t)
                ma, mb = self.sel(self.H("#map"), a.t), self.sel(self.H("#map"), b.t)
                return z3.ForAll([v], z3.And(z3.Select(ha, v) == z3.Select(hb, v), z3.Implies(z3.Select(ha, v), z3.Select(ma, v) == z3.Select(mb, v))))
        if isinstance(b, VRef) and a.cls is not None and b.cls is not None and a.cls is not b.cls:
            return z3.BoolVal(False)
        raise Unsupported("comparison of containers")

    def contains(self, a, b):
        b = self.force(b)
        if isinstance(b, VTup):
            return zor([self.equal(a, x) for x in b.items])
        if isinstance(b, VStr):
            a = self.force(a)
            if not isinstance(a, VStr):
                self.raise_py("TypeError")
            return z3.Contains(b.t, a.t)
        if isinstance(b, VIter) and b.kind == "keys":
            b = b.src
        if self.is_dict(b) or self.is_set(b):
            return z3.Select(self.sel(self.H("#has"), b.t), enc(a))
        if self.is_list(b):
            seq = self.concrete_seq(b)
            if seq is not None:
                return zor([self.equal(a, x) for x in seq])
            k = self.bound("k", I)
            arr = self.sel(self.H("#elt"), b.t)
            p = self.pure(code=True)
            body = p.eq(a, p.dec(z3.Select(arr, k), b.elem or T_ANY))
            return z3.Exists([k], z3.And(0 <= k, k < self.sel(self.H("#len"), b.t), body))
        if isinstance(b, VRef) and b.cls is not None and b.cls.find("__contains__"):
            return self.truth(self.call_method(b, "__contains__", [a], {}, None))
        if isinstance(b, (VIter, VGen)):
            return self.contains(a, self.to_list(b))
        if b is VNone:
            self.raise_py("TypeError")
        raise Unsupported(f"in {b}")

    def x_IfExp(self, n, fr):
        if self.branch(self.cond(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def x_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def x_Lambda(self, n, fr):
        fn = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.Return(value=n.body, lineno=n.lineno, col_offset=0)],
                             decorator_list=[], returns=None, lineno=n.lineno, col_offset=0)
        return VFunc(FuncInfo("<lambda>", fn, fr.module), closure=fr)

    def x_Slice(self, n, fr):
        if n.step is not None:
            st = z3.simplify(self.int_of(self.ev(n.step, fr)))
            if not (z3.is_int_value(st) and st.as_long() == 1):
                if n.lower is None and n.upper is None and z3.is_int_value(st) and st.as_long() == -1:
                    return VSlice("rev", None)
                raise Unsupported("slice step")
        return VSlice(self.ev(n.lower, fr) if n.lower else None, self.ev(n.upper, fr) if n.upper else None)

    def x_Subscript(self, n, fr):
        base = self.ev(n.value, fr)
        idx = self.ev(n.slice, fr)
        return self.getitem(base, idx, n)

    def x_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr, n)

    def x_Starred(self, n, fr):
        raise Unsupported("starred")

    def x_GeneratorExp(self, n, fr):
        return VGen(n, fr)

    def x_ListComp(self, n, fr):
        return self.comp_list(n, fr)

    def x_SetComp(self, n, fr):
        raise Unsupported("set comprehension")

    # ------------------------------------------------------------- attributes
    def object_with_method(self, b, name):
        """The class of an object of unknown class, where it is known to be one of those that define method `name`."""
        roots = [c for c in self.prog.classes.values() if not c.external and name in c.methods and not any(name in x.methods for x in c.mro[1:])]
        for c in roots:
            if self.branch(isa(self.prog, b.t, c)):
                return VRef(b.t, c, False)
        return b

    def getattr(self, base, name, node=None):
        line = getattr(node, "lineno", None)
        if isinstance(base, VDynClass):
            if name in ("__new__",):
                return VBound(base, name)
            raise Unsupported(f"{name} of a class known only at run time")
        if isinstance(base, VAny):
            if base.ty[0] == "enum":
                return self.pure().attr(base, name)
            if base.ty == T_ANY and name not in ("__class__",):
                # an untyped value: only objects of the verified program have attributes of their own
                b = self.force_object(base)
                base = b
                if isinstance(b, VRef) and b.cls is None:
                    base = self.object_with_method(b, name)
            else:
                base = self.force(base)
        if base is VNone:
            self.raise_py("AttributeError", line)
        if isinstance(base, VEnum):
            if name == "value":
                return const_value(ast.literal_eval(base.ci.attrs[base.member]))
            if name == "name":
                return VStr(base.member)
        if isinstance(base, VClass):
            return self.class_attr(base.ci, name)
        if isinstance(base, VMod):
            full = f"{base.name}.{name}"
            if base.name in self.prog.modules:
                v = self.global_name(name, self.prog.modules[base.name])
                if v is not None:
                    return v
            return VExt(full)
        if isinstance(base, VExt):
            return VExt(f"{base.name}.{name}")
        if isinstance(base, VSuper):
            return self.super_attr(base, name)
        if isinstance(base, VRef):
            cls = base.cls
            if cls is not None and cls.external:
                if cls.is_sub(self.prog.builtin["BaseException"]):
                    return self.decode(self.sel(self.H(name), base.t), T_ANY)
                return VBound(base, name)
            if name == "__class__":
                if base.exact:
                    return VClass(cls)
                return VDynClass(Val.t2(Val.c(z3.IntVal(-1)), Val.i(clsof(base.t))), base.t, cls)
            if name == "__dict__":
                raise Unsupported("__dict__")
            if cls is not None:
                groups = self.impl_groups(cls, name, base.exact)
                groups = [(f, cs) for f, cs in groups]
                if any(f is not None for f, _ in groups):
                    if all(f is None or f.kind == "property" for f, _ in groups):
                        return self.call_method(base, name, [], {}, node, prop=True)
                    return VBound(base, name)
                if name not in self.inst_attrs(cls):
                    r = cls.find_attr(name)
                    if r is not None or (not base.exact and any(c.find_attr(name) for c in cls.all_subs())):
                        return self.class_attr_of_ref(base, name)
                    if base.exact and name not in self.all_inst_attrs():
                        self.raise_py("AttributeError", line)
            born = self.news.get(base.t.get_id())
            if born is not None and born[2] == self.cuts and (self.hname(cls, name), base.t.get_id()) not in self.inited and not self.copied(base):
                self.raise_py("AttributeError", line)
            term = self.sel(self.H(self.hname(cls, name)), base.t)
            return self.decode(z3.simplify(term), self.field_type(cls, name))
        if isinstance(base, VPartial):
            raise Unsupported("attribute of partial")
        if isinstance(base, VMatch):
            return VBound(base, name)
        if isinstance(base, (VStr, VInt, VIter, VTup)):
            return VBound(base, name)
        if isinstance(base, VFunc) and name == "__name__":
            return VStr(base.fi.name)
        raise Unsupported(f"attribute {name} of {base}")

    def copied(self, base):
        return base.t.decl().name().startswith("copy!")

    def force_object(self, v):
        c = self.concrete_or(v.t, v.ty)
        if not isinstance(c, VAny):
            return c
        if self.branch(Val.is_r(v.t)):
            t = z3.simplify(Val.rv(v.t))
            self.assume(z3.And(t > 0, t < self.alloc))
            for ci in self.isa_facts.get(v.t.get_id(), ()):
                if self.entails(isa(self.prog, t, ci)):
                    return VRef(t, ci, False)
            return VRef(t, None, False)
        return self.force(v)

    def all_inst_attrs(self):
        r = getattr(self.prog, "_allattrs", None)
        if r is None:
            r = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        r.add(n.attr)
            for c in self.prog.classes.values():
                if c.is_dataclass:
                    r |= set(c.ann)
            for f in self.reg.fields.values():
                r |= set(f)
            self.prog._allattrs = r
        return r

    def super_attr(self, s, name):
        mro = s.cls.mro
        i = mro.index(s.after)
        for c in mro[i + 1:]:
            if name in c.methods:
                for d in c.mro:
                    k = self.reg.contracts.get(f"{d.name}.{name}")
                    if k is not None and k.own:
                        raise Unsupported(f"super().{name} of a contract for own receivers")
                return VBound(s.recv, name, c.methods[name])
        if name in ("__init__",):
            return VExt("object.__init__")
        if name == "__new__":
            return VExt("object.__new__")
        raise Unsupported(f"super().{name}")

    def setattr(self, base, name, v, node=None):
        line = getattr(node, "lineno", None)
        base = self.force(base) if not (isinstance(base, VAny) and base.ty == T_ANY) else self.force_object(base)
        if base is VNone:
            self.raise_py("AttributeError", line)
        if not isinstance(base, VRef):
            raise Unsupported(f"attribute store on {base}")
        if base.cls is not None:
            for c in base.cls.mro:
                if name in c.setters:
                    self.call_func(VFunc(c.setters[name]), [base, v], {}, node)
                    return
            ft = self.field_type(base.cls, name)
            self.note_elem_type(v, ft)
            if ft != T_ANY:
                # the heap typing that reads assume is checked at every store
                ty = type_of(v)
                if ty != ft and not (ft[0] == "union" and ty in ft[1]) and not (ty[0] == ft[0] and ty[0] in ("list", "dict", "set")):
                    self.check(self.pure().tag(enc(v), ft), f"{self.tname()}:{base.cls.name}.{name} keeps its declared type", line)
        self.set_at(self.hname(base.cls, name), base.t, enc(v), line)

    # ---------------------------------------------------------------- subscripts
    def getitem(self, base, idx, node=None):
        line = getattr(node, "lineno", None)
        base = self.force(base)
        if base is VNone:
            self.raise_py("TypeError", line)
        if isinstance(base, VExt) or isinstance(base, VClass):
            return base     # typing subscripts
        if isinstance(idx, VSlice):
            return self.slice(base, idx)
        if isinstance(base, VTup):
            k = z3.simplify(self.int_of(idx))
            if z3.is_int_value(k):
                k = k.as_long()
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
                self.raise_py("IndexError", line)
            raise Unsupported("symbolic tuple index")
        if isinstance(base, VStr):
            i = self.int_of(idx)
            ln = z3.Length(base.t)
            i2 = z3.simplify(z3.If(i < 0, i + ln, i))
            if not self.branch(z3.And(i2 >= 0, i2 < ln)):
                self.raise_py("IndexError", line)
            return VStr(z3.SubString(base.t, i2, 1))
        if self.is_list(base):
            i = self.int_of(idx)
            ln = self.sel(self.H("#len"), base.t)
            self.assume(ln >= 0)
            si = z3.simplify(i)
            if z3.is_int_value(si):
                i2 = ln + si if si.as_long() < 0 else si
            elif self.entails(i >= 0):
                i2 = i
            else:
                i2 = z3.If(i < 0, i + ln, i)
            i2 = z3.simplify(i2)
            if not self.branch(z3.And(i2 >= 0, i2 < ln)):
                self.raise_py("IndexError", line)
            return self.decode(z3.simplify(z3.Select(self.sel(self.H("#elt"), base.t), i2)), base.elem or T_ANY)
        if self.is_dict(base):
            lit = self.lits.get(base.t.get_id())
            k = enc(idx)
            if lit is not None and isinstance(idx, VStr):
                ks = z3.simplify(idx.t)
                if z3.is_string_value(ks) and pystr(ks) in lit:
                    return lit[pystr(ks)]
            has = z3.Select(self.sel(self.H("#has"), base.t), k)
            et = base.elem or (T_ANY, T_ANY)
            if not self.branch(has):
                if base.cls.name == "defaultdict" or self.maybe_defaultdict(base):
                    v = self.default_value(et[1])
                    self.dict_set(base, idx, v, line)
                    return v
                self.raise_py("KeyError", line)
            return self.decode(z3.simplify(z3.Select(self.sel(self.H("#map"), base.t), k)), et[1])
        if isinstance(base, VMatch):
            return self.match_group(base, [idx], node)
        if isinstance(base, VRef) and base.cls is not None and not base.cls.external:
            return self.call_method(base, "__getitem__", [idx], {}, node)
        raise Unsupported(f"subscript of {base}")

    def maybe_defaultdict(self, base):
        return not base.exact and self.entails(clsof(base.t) == self.prog.builtin["defaultdict"].id)

    def default_value(self, ty):
        if ty[0] == "dict":
            return self.new_dict([], (ty[1], ty[2]))
        if ty[0] == "list":
            return self.new_list([], ty[1])
        raise Unsupported("defaultdict factory")

    def setitem(self, base, idx, v, node=None):
        line = getattr(node, "lineno", None)
        base = self.force(base)
        if self.is_list(base):
            i = self.int_of(idx)
            ln = self.sel(self.H("#len"), base.t)
            i2 = z3.simplify(z3.If(i < 0, i + ln, i))
            if not self.branch(z3.And(i2 >= 0, i2 < ln)):
                self.raise_py("IndexError", line)
            self.set_at("#elt", base.t, z3.Store(self.sel(self.H("#elt"), base.t), i2, enc(v)), line)
            return
        if self.is_dict(base):
            lit = self.lits.get(base.t.get_id())
            self.dict_set(base, idx, v, line)
            if base.elem is None:
                base.elem = (type_of(idx), type_of(v))
            if lit is not None and isinstance(idx, VStr) and z3.is_string_value(z3.simplify(idx.t)):
                lit[pystr(z3.simplify(idx.t))] = v
                self.lits[base.t.get_id()] = lit
            return
        if isinstance(base, VRef) and base.cls is not None and not base.cls.external:
            self.call_method(base, "__setitem__", [idx, v], {}, node)
            return
        if base is VNone:
            self.raise_py("TypeError", line)
        raise Unsupported(f"item store on {base}")

    def slice(self, base, sl):
        if isinstance(base, VTup):
            lo = self.pyint(sl.lo, 0)
            hi = self.pyint(sl.hi, len(base.items))
            if sl.lo == "rev":
                return VTup(base.items[::-1])
            return VTup(base.items[lo:hi])
        if isinstance(base, VStr):
            if sl.lo == "rev":
                raise Unsupported("string reverse")
            lo = self.int_of(sl.lo) if sl.lo is not None and sl.lo is not VNone else z3.IntVal(0)
            hi = self.int_of(sl.hi) if sl.hi is not None and sl.hi is not VNone else z3.Length(base.t)
            r = z3.simplify(substr(base.t, lo, hi))
            if not self.has_bound(r):
                def length_of(x):
                    return x.arg(0) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_LENGTH else None

                # s[:-len(d)] of a text that ends with d, s[len(d):] of one that begins with it: the rest of it
                d, fact = length_of(z3.simplify(-hi)), None
                if d is not None and z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
                    x = self.fresh("rest", S)
                    fact = z3.Implies(z3.And(z3.SuffixOf(d, base.t), z3.Length(d) > 0), z3.And(base.t == z3.Concat(x, d), x == z3.SubString(base.t, 0, z3.Length(base.t) - z3.Length(d))))
                elif length_of(lo) is not None and (sl.hi is None or sl.hi is VNone):
                    d, x = length_of(lo), self.fresh("rest", S)
                    fact = z3.Implies(z3.PrefixOf(d, base.t), z3.And(base.t == z3.Concat(d, x), x == z3.SubString(base.t, z3.Length(d), z3.Length(base.t) - z3.Length(d))))
                if fact is not None:
                    self.assume(x == r)
                    self.assume(fact)
                    r = x
            return VStr(r)
        if self.is_list(base):
            if sl.lo == "rev":
                return self.list_reversed(base)
            return self.list_slice(base, sl)
        raise Unsupported("slice")

    def pyint(self, v, dflt):
        if v is None or v is VNone or v == "rev":
            return dflt
        k = z3.simplify(self.int_of(v))
        if not z3.is_int_value(k):
            raise Unsupported("symbolic slice of a tuple")
        return k.as_long()

    # ------------------------------------------------------------------- calls
    def x_Call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            me = fr.fi.params[0]
            g = fr
            while g.cls is None and g.closure is not None:
                g = g.closure
            recv = g.env[me]
            cls = recv.cls if isinstance(recv, VRef) else recv.ci
            return VSuper(recv, fr.fi.cls, cls)
        if isinstance(f, ast.Name) and f.id == "cast" and len(n.args) == 2:
            return self.ev(n.args[1], fr)
        fv = self.ev(f, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.force(self.ev(a.value, fr))
                seq = self.concrete_seq(v)
                if seq is None:
                    raise Unsupported("star-args of unknown length")
                args.extend(seq)
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.ev(k.value, fr))
                if isinstance(d, VKw):
                    kwargs.update(d.items)
                    continue
                lit = self.lits.get(d.t.get_id()) if isinstance(d, VRef) else None
                if lit is None:
                    if isinstance(d, VRef) and z3.is_int_value(z3.simplify(self.sel(self.H("#dn"), d.t))) and z3.simplify(self.sel(self.H("#dn"), d.t)).as_long() == 0:
                        continue
                    kwargs["**"] = d
                    continue
                kwargs.update(lit)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(fv, args, kwargs, n, fr)

    def call(self, fv, args, kwargs, node=None, fr=None):
        if isinstance(fv, VAny):
            c = self.concrete_or(fv.t, fv.ty)
            if isinstance(c, VAny):
                return self.call_unknown(c, args, kwargs, node)
            fv = c
        if isinstance(fv, VFunc):
            return self.call_func(fv, args, kwargs, node)
        if isinstance(fv, VBound):
            if fv.fi is not None:
                if isinstance(fv.recv, VClass):
                    return self.call_func(VFunc(fv.fi), [fv.recv] + args, kwargs, node, cls=fv.recv.ci)
                return self.call_func(VFunc(fv.fi), [fv.recv] + args, kwargs, node, cls=fv.fi.cls)
            return self.call_method(fv.recv, fv.name, args, kwargs, node, fr=fr)
        if isinstance(fv, VClass):
            return self.construct(fv.ci, args, kwargs, node, fr)
        if isinstance(fv, VPartial):
            return self.call(fv.func, fv.args + args, {**fv.kwargs, **kwargs}, node, fr)
        if isinstance(fv, VExt):
            return self.call_extern(fv.name, args, kwargs, node, fr)
        if fv is VNone:
            self.raise_py("TypeError", getattr(node, "lineno", None))
        if isinstance(fv, VRef) and fv.cls is not None and fv.cls.find("__call__"):
            return self.call_method(fv, "__call__", args, kwargs, node)
        raise Unsupported(f"call of {fv}")

    def call_unknown(self, v, args, kwargs, node):
        """A call through an unknown function value: result is a function of the (encoded) arguments."""
        k = self.reg.externs.get("<callback>")
        self.sh.externs.add("callback value")
        a = self.fresh("cb", Val)
        p = self.unint(f"callback{len(args)}", [Val] * (len(args) + 1), Val)
        t = p(v.t, *[enc(x) for x in args])
        return VAny(t, T_ANY)

    def call_method(self, recv, name, args, kwargs, node=None, prop=False, fr=None):
        if isinstance(recv, VDynClass):
            # cls.__new__(cls): an object of the same class whose attributes are not set
            if name != "__new__" or not args or not isinstance(args[0], VDynClass) or not args[0].ref.eq(recv.ref):
                raise Unsupported(f"{name} of a class known only at run time")
            r = self.new_ref(None, "new")
            self.assume(clsof(r) == clsof(recv.ref))
            return VRef(r, recv.cls, False)
        recv = self.force(recv) if isinstance(recv, VAny) else recv
        line = getattr(node, "lineno", None)
        if recv is VNone:
            self.raise_py("AttributeError", line)
        if isinstance(recv, VClass):
            f = recv.ci.find(name)
            if f is None:
                raise Unsupported(f"{recv.ci.name}.{name}")
            if f.kind == "classmethod":
                return self.call_func(VFunc(f), [recv] + args, kwargs, node, cls=recv.ci)
            return self.call_func(VFunc(f), args, kwargs, node, cls=recv.ci)
        if isinstance(recv, VExt):
            return self.call_extern(f"{recv.name}.{name}", args, kwargs, node, fr)
        if isinstance(recv, VRef) and recv.cls is not None and not recv.cls.external:
            groups = self.impl_groups(recv.cls, name, recv.exact)
            # a contract every override satisfies
            for c in recv.cls.mro:
                k = self.reg.contracts.get(f"{c.name}.{name}")
                if k is not None and not k.virtual and not recv.cls.subclasses:
                    break
                if k is not None and k.virtual and not recv.exact:
                    return self.apply_contract(k, recv.cls.find(name) or groups[0][0], [recv] + args, kwargs, node)
            groups = [(f, cs) for f, cs in groups if f is not None]
            if not groups:
                # maybe an instance attribute holding a callable
                v = self.decode(z3.simplify(self.sel(self.H(self.hname(recv.cls, name)), recv.t)), self.field_type(recv.cls, name))
                return self.call(v, args, kwargs, node)
            for gi, (f, cs) in enumerate(groups):
                if gi < len(groups) - 1:
                    ids = ids_intervals([c.id for c in cs])
                    k = clsof(recv.t)
                    cond = zor([z3.And(k >= lo, k <= hi) if lo != hi else k == lo for lo, hi in ids])
                    if not self.branch(cond):
                        continue
                r2 = recv
                if not recv.exact and len(groups) > 1:
                    r2 = VRef(recv.t, self.common_class(cs), len(cs) == 1, recv.elem)
                if f.kind == "staticmethod":
                    return self.call_func(VFunc(f), args, kwargs, node, cls=r2.cls)
                return self.call_func(VFunc(f), [r2] + args, kwargs, node, cls=r2.cls)
        return self.builtin_method(recv, name, args, kwargs, node, fr)

    def common_class(self, cs):
        for c in cs[0].mro:
            if all(x.is_sub(c) for x in cs):
                return c
        return cs[0]

    def bind_args(self, fi, args, kwargs, fr, closure):
        a = fi.node.args
        env = {}
        ps = a.posonlyargs + a.args
        pos = list(args)
        kwargs = dict(kwargs)
        unknown_kw = kwargs.pop("**", None)
        for i, p in enumerate(ps):
            if pos:
                env[p.arg] = pos.pop(0)
            elif p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
        if pos:
            if a.vararg is None:
                self.raise_py("TypeError")
        if a.vararg is not None:
            env[a.vararg.arg] = VTup(pos)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
        dfr = Frame(fi, {}, fi.module, closure)
        off = len(ps) - len(a.defaults)
        for i, p in enumerate(ps):
            if p.arg not in env:
                if i >= off:
                    env[p.arg] = self.ev(a.defaults[i - off], dfr)
                elif unknown_kw is not None:
                    raise Unsupported("unknown keyword arguments")
                else:
                    self.raise_py("TypeError")
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if d is None:
                    self.raise_py("TypeError")
                env[p.arg] = self.ev(d, dfr)
        if a.kwarg is not None:
            if unknown_kw is not None and not kwargs:
                env[a.kwarg.arg] = unknown_kw
            else:
                items = [(VStr(k), v) for k, v in kwargs.items()]
                d = self.new_dict(items, (T_STR, T_ANY))
                self.remember_lit(d, items)
                env[a.kwarg.arg] = d
        elif kwargs:
            self.raise_py("TypeError")
        return env

    def call_func(self, fv, args, kwargs, node=None, cls=None):
        fi = fv.fi
        if fi.is_generator:
            raise Unsupported(f"generator function {fi.qualname}")
        c = None
        if fv.closure is None:
            recv_cls = None
            if fi.cls is not None and args:
                if isinstance(args[0], VRef):
                    recv_cls = args[0].cls
                elif isinstance(args[0], VClass):
                    recv_cls = args[0].ci
            c = self.find_contract(fi, recv_cls if (recv_cls is not None and recv_cls.is_sub(fi.cls)) else None) if fi.cls is not None else self.find_contract(fi, None)
            if c is not None and self.target is not None and c.key in self.target.unwrap:
                c = None
            if c is not None and c.inline_only:
                c = None
        if c is not None:
            return self.apply_contract(c, fi, args, kwargs, node)
        return self.inline(fv, args, kwargs, node, cls)

    def inline(self, fv, args, kwargs, node=None, cls=None):
        fi = fv.fi
        if self.depth > MAXINLINE or self.callstack.count(fi) > 1:
            raise Unsupported(f"recursion through {fi.qualname} needs a contract")
        env = self.bind_args(fi, args, kwargs, None, fv.closure)
        if fv.closure is None:
            self.sh.inlined.add(fi.qualname)
        a = fi.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None:
                self.note_elem_type(env.get(p.arg), self.parse_type(p.annotation, fi.module))
        fr = Frame(fi, env, fi.module, fv.closure, cls)
        self.depth += 1
        self.callstack.append(fi)
        line = getattr(self, "line", None)
        try:
            self.block(fi.node.body, fr)
            return VNone
        except _Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.line = line

    def construct(self, ci, args, kwargs, node, fr=None):
        if ci.external:
            if ci.is_sub(self.prog.builtin["BaseException"]):
                return VRef(self.new_ref(ci, "exc"), ci, True)
            return self.call_extern("builtins." + ci.name, args, kwargs, node, fr)
        if ci.is_enum:
            v = args[0]
            for m, e in ci.attrs.items():
                if self.branch(self.equal(v, const_value(ast.literal_eval(e)))):
                    return VEnum(ci, m)
            self.raise_py("ValueError", getattr(node, "lineno", None))
        c = self.reg.contracts.get(f"{ci.name}.__new__")
        return self.instantiate(ci, args, kwargs, node)

    def instantiate(self, ci, args, kwargs, node):
        r = self.new_ref(ci, ci.name)
        self.note_cls(r, ci)
        obj = VRef(r, ci, True)
        init = ci.find("__init__")
        if init is not None:
            self.call_func(VFunc(init), [obj] + args, kwargs, node, cls=ci)
        elif ci.is_dataclass:
            self.dataclass_init(obj, ci, args, kwargs)
        elif ci.is_sub(self.prog.builtin["BaseException"]):
            pass
        elif args or kwargs:
            self.raise_py("TypeError")
        return obj

    def dataclass_init(self, obj, ci, args, kwargs):
        fields = []
        for c in reversed(ci.mro):
            if c.is_dataclass:
                for k in c.ann:
                    if "ClassVar" in ast.unparse(c.ann[k]):
                        continue
                    if k in [f[0] for f in fields]:
                        fields = [(n, cc) if n != k else (k, c) for n, cc in fields]
                    else:
                        fields.append((k, c))
        pos = list(args)
        kwargs = dict(kwargs)
        for k, c in fields:
            fr = Frame(None, {}, c.module)
            if pos:
                v = pos.pop(0)
            elif k in kwargs:
                v = kwargs.pop(k)
            elif k in c.attrs:
                d = c.attrs[k]
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                    v = None
                    for kw in d.keywords:
                        if kw.arg == "default_factory":
                            v = self.call(self.ev(kw.value, fr), [], {})
                        elif kw.arg == "default":
                            v = self.ev(kw.value, fr)
                    if v is None:
                        self.raise_py("TypeError")
                else:
                    v = self.ev(d, fr)
            else:
                self.raise_py("TypeError")
            ft = self.field_type(ci, k)
            self.note_elem_type(v, ft)
            self.set_at(self.hname(ci, k), obj.t, enc(v))
        if pos or kwargs:
            self.raise_py("TypeError")
        pi = ci.find("__post_init__")
        if pi is not None:
            self.call_func(VFunc(pi), [obj], {}, None, cls=ci)

    # ------------------------------------------------------------ contracts at calls
    def apply_contract(self, c, fi, args, kwargs, node=None):
        line = getattr(node, "lineno", getattr(self, "line", None))
        self.sh.used_contracts.add(c.key)
        env = self.bind_args(fi, args, kwargs, None, None)
        names = fi.params
        if c.params:
            for a, b in zip(c.params, names):
                if a != b:
                    env[a] = env[b]
        env = {k: self.narrow_param(v, c, k, fi) for k, v in env.items()}
        self.line = line
        if c.pure is not None:
            p = Pure(self, self.heap, env, None, fi.module, False)
            p.fr_alloc = self.alloc
            for lab, e in c.labelled(c.requires, "pre"):
                self.check(p.boolean(e), f"{self.tname()}:call {c.key}:{lab}", line)
            exc = self.contract_raises(c, env)
            v = p.ev(parse_expr(c.pure))
            return self.settle(v, c)
        pre_heap, pre_alloc = dict(self.heap), self.alloc
        p = Pure(self, self.heap, env, None, fi.module, False)
        for lab, e in c.labelled(c.requires, "pre"):
            self.check(p.boolean(e), f"{self.tname()}:call {c.key}:{lab}", line)
        if self.target is not None and c.key == self.target.key and c.decreases and self.dec_entry is not None:
            self.check(lex_less(self.measure(p, c.decreases), self.dec_entry), f"{self.tname()}:call {c.key}:decreases", line)
        rty = self.parse_type(c.returns, fi.module) if c.returns is not None else (
            self.parse_type(fi.node.returns, fi.module) if fi.node.returns is not None else T_ANY)
        if c.none_pure:
            if self.choose(2) == 0:
                q = Pure(self, self.heap, {**env, "result": VNone}, (pre_heap, env, pre_alloc), fi.module, False)
                for lab, e in c.labelled(c.ensures + c.defines, "post"):
                    self.assume(q.boolean(e))
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                return VNone
            rty = strip_opt(rty)
        outs = [None] + list(c.raises) + list(c.raises_iff)
        k = self.choose(len(outs)) if len(outs) > 1 else 0
        mods = c.modifies_raise.get(outs[k], c.modifies)
        if mods:
            self.havoc_modifies(mods, env, pre_heap, pre_alloc)
        if c.allocates:
            na = self.fresh("alloc", I)
            self.assume(na >= self.alloc)
            self.alloc = na
        old = (pre_heap, env, pre_alloc)
        q = Pure(self, self.heap, dict(env), old, fi.module, False)
        qold = Pure(self, pre_heap, dict(env), old, fi.module, False)
        if outs[k] is not None:
            exc = outs[k]
            cond = c.raises.get(exc, c.raises_iff.get(exc))
            self.assume(qold.boolean(cond))
            for lab, e in c.labelled(c.ensures_raise.get(exc, []), "xpost"):
                self.assume(q.boolean(e))
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            raise PyRaise(self.prog.cls(exc), None, line)
        for exc, cond in c.raises_iff.items():
            self.assume(z3.Not(qold.boolean(cond)))
        self.seq += 1
        born = self.seq
        self.seq += 1
        res = self.fresh_of_type(rty, "res")
        q.env["result"] = res
        if isinstance(res, VRef) and c.allocates and any(fresh_result(parse_expr(e)) for _, e in c.labelled(c.ensures, "post")):
            self.fresh_at[res.t.get_id()] = (res.t, born)
        for lab, e in c.labelled(c.ensures + c.defines, "post"):
            self.assume(q.boolean(e))
        if (len(outs) > 1 or c.none_pure) and not self.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return res

    def contract_raises(self, c, env):
        outs = list(c.raises) + list(c.raises_iff)
        if not outs:
            return
        p = Pure(self, self.heap, dict(env), (self.heap, env, self.alloc))
        for exc in outs:
            cond = p.boolean(c.raises.get(exc, c.raises_iff.get(exc)))
            if exc in c.raises_iff:
                if self.branch(cond):
                    raise PyRaise(self.prog.cls(exc), None, getattr(self, "line", None))
            else:
                if self.choose(2) == 1:
                    self.assume(cond)
                    raise PyRaise(self.prog.cls(exc), None, getattr(self, "line", None))

    def settle(self, v, c):
        """Turn a pure result into an executable value (assume its static type)."""
        if isinstance(v, VAny):
            return self.concrete_or(v.t, v.ty)
        if isinstance(v, VRef):
            self.assume(z3.And(v.t > 0, v.t < self.alloc))
            self.on_ref(v)
        if isinstance(v, (VInt, VStr, VBool)) and v.raw is not None:
            self.assume(self.pure().tag(v.raw, type_of(v)))
        return v

    def narrow_param(self, v, c, k, fi):
        """Use the declared parameter type of the contract when the actual value is untyped."""
        t = c.types.get(k)
        if t is not None and isinstance(v, VRef) and v.elem is None:
            self.note_elem_type(v, self.parse_type(t, fi.module))
        if t is not None and isinstance(v, VAny):
            ty = self.parse_type(t, fi.module)
            if ty[0] in ("list", "dict"):
                # the container that the contract asks for (what it holds is typed like all of the heap)
                self.check(self.pure().tag(v.t, ty), f"{self.tname()}:call {c.key}:{k} is a {ty[0]}", getattr(self, "line", None))
                return self.decode(v.t, ty)
        return v

    def measure(self, p, e):
        v = p.ev(parse_expr(e))
        return [p.as_int(x) for x in (v.items if isinstance(v, VTup) else [v])]

    def tname(self):
        return self.target.key if self.target is not None else "?"


def fresh_result(n):
    """The clause says at its top level that the result is a new object (or None)."""
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
        return any(fresh_result(v) for v in n.values)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
        if n.func.id == "fresh":
            return isinstance(n.args[0], ast.Name) and n.args[0].id == "result"
        if n.func.id == "implies" and ast.unparse(n.args[0]) == "result is not None":
            return fresh_result(n.args[1])
    return False


def lex_less(new, old):
    """new is lexicographically below old, and the deciding component of old is not negative."""
    return z3.Or(*[z3.And(*[new[j] == old[j] for j in range(i)], new[i] < old[i], old[i] >= 0) for i in range(len(old))])


def pystr(t):
    """Python string of a z3 string literal."""
    s = t.as_string()
    import re as _re

    def rep(m):
        return chr(int(m.group(1), 16))

    return _re.sub(r"\\u\{([0-9a-fA-F]+)\}", rep, s)
