"""Models of Python builtins (trusted base: the language semantics)."""
from __future__ import annotations

import ast

import z3

from .contracts import Contract
from .front import Unsupported
from .pure import Pure, bind_target, const_value, int_to_str, parse_expr, strip_opt, substr, type_of, zand, zor
from .values import *  # noqa: F401,F403
from .values import Val, I, B, S, NONE, clsof


class BuiltinsMixin:
    BUILTIN_FUNCS = {
        "len", "isinstance", "enumerate", "zip", "range", "reversed", "min", "max", "any", "all", "getattr",
        "hasattr", "sorted", "repr", "map", "filter", "print", "sum", "abs", "callable", "iter", "next", "id",
        "setattr", "type", "super", "open", "hash", "issubclass", "NotImplemented",
    }

    # ------------------------------------------------------------------ lists
    def list_len(self, v):
        return self.sel(self.H("#len"), v.t)

    def list_arr(self, v):
        return self.sel(self.H("#elt"), v.t)

    def list_append(self, v, x, line=None):
        n = self.list_len(v)
        arr = self.list_arr(v)
        self.set_at("#len", v.t, z3.simplify(n + 1), line)
        self.set_at("#elt", v.t, z3.Store(arr, n, enc(x)), line)
        if v.elem is None:
            pass

    def list_extend(self, v, o, line=None):
        seq = self.concrete_seq(o)
        if seq is not None:
            for x in seq:
                self.list_append(v, x, line)
            return
        if not self.is_list(o):
            o = self.to_list(o)
        n, m = self.list_len(v), self.list_len(o)
        a, b = self.list_arr(v), self.list_arr(o)
        e = self.fresh("elts", z3.ArraySort(I, Val))
        k = self.bound("k", I)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(e, k) == z3.Select(a, k)), patterns=[z3.Select(e, k)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(n <= k, k < n + m), z3.Select(e, k) == z3.Select(b, k - n)), patterns=[z3.Select(e, k)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.Select(e, n + k) == z3.Select(b, k)), patterns=[z3.Select(b, k)]))
        self.set_at("#len", v.t, n + m, line)
        self.set_at("#elt", v.t, e, line)

    def list_copy(self, v):
        seq = self.concrete_seq(v)
        if seq is not None:
            return self.new_list(seq, v.elem)
        return self.list_from_array(self.list_arr(v), self.list_len(v), v.elem)

    def list_slice(self, v, sl):
        seq = self.concrete_seq(v)
        lo_n = sl.lo is None or sl.lo is VNone
        hi_n = sl.hi is None or sl.hi is VNone
        n = self.list_len(v)
        self.assume(n >= 0)

        def clamp(x):
            xs = z3.simplify(x)
            if z3.is_int_value(xs) and xs.as_long() >= 0:
                return z3.If(n < xs, n, xs)
            if z3.is_int_value(xs):
                return z3.If(n + xs < 0, z3.IntVal(0), n + xs)
            y = x if self.entails(x >= 0) else z3.If(x < 0, x + n, x)
            y = z3.If(y < 0, z3.IntVal(0), y) if not self.entails(y >= 0) else y
            return z3.If(y > n, n, y)

        lo = z3.IntVal(0) if lo_n else clamp(self.int_of(sl.lo))
        hi = n if hi_n else clamp(self.int_of(sl.hi))
        if seq is not None:
            a, b = z3.simplify(lo), z3.simplify(hi)
            if z3.is_int_value(a) and z3.is_int_value(b):
                return self.new_list(seq[a.as_long():b.as_long()], v.elem)
        ln = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0:
            return self.list_from_array(self.list_arr(v), ln, v.elem)
        e = self.fresh("elts", z3.ArraySort(I, Val))
        a = self.list_arr(v)
        k = self.bound("k", I)
        lo_c = self.fresh("lo", I)
        self.assume(lo_c == lo)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), z3.Select(e, k) == z3.Select(a, k + lo_c)), patterns=[z3.Select(e, k)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(lo_c <= k, k < lo_c + ln), z3.Select(e, k - lo_c) == z3.Select(a, k)), patterns=[z3.Select(a, k)]))
        return self.list_from_array(e, ln, v.elem)

    def list_reversed(self, v):
        seq = self.concrete_seq(v)
        if seq is not None:
            return self.new_list(seq[::-1], v.elem)
        n = self.list_len(v)
        a = self.list_arr(v)
        e = self.fresh("elts", z3.ArraySort(I, Val))
        k = self.bound("k", I)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(e, k) == z3.Select(a, n - 1 - k)), patterns=[z3.Select(e, k)]))
        return self.list_from_array(e, n, v.elem)

    def to_list(self, v):
        v = self.force(v)
        if isinstance(v, VGen):
            return self.comp_list(v.node, v.frame)
        if self.is_list(v):
            return self.list_copy(v)
        seq = self.concrete_seq(v)
        if seq is not None:
            return self.new_list(seq)
        if self.is_dict(v):
            v = self.dict_iter(v, "keys")
        if isinstance(v, VIter):
            if v.on_start:
                v.on_start()
            n = v.length()
            if v.kind in ("keys", "values"):
                d = v.src
                dk = self.sel(self.H("#dk"), d.t)
                et = d.elem or (T_ANY, T_ANY)
                if v.kind == "keys":
                    return self.list_from_array(dk, n, et[0])
                mp = self.sel(self.H("#map"), d.t)
                e = self.fresh("elts", z3.ArraySort(I, Val))
                k = self.bound("k", I)
                self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(e, k) == z3.Select(mp, z3.Select(dk, k))), patterns=[z3.Select(e, k)]))
                return self.list_from_array(e, n, et[1])
            e = self.fresh("elts", z3.ArraySort(I, Val))
            k = self.bound("k", I)
            val = v.get(k)
            t = enc(val)
            self.assume(n >= 0)
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(e, k) == t), patterns=[z3.Select(e, k)]))
            return self.list_from_array(e, n, type_of(val))
        raise Unsupported(f"list({v})")

    # ---------------------------------------------------------- comprehensions
    def comp_list(self, n, fr):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return self.comp_nested(n, fr)
        from .engine import Frame
        g = n.generators[0]
        it = self.force(self.ev(g.iter, fr))
        sub = Frame(fr.fi, {}, fr.module, closure=fr, cls=fr.cls)
        seq = self.concrete_seq(it)
        if seq is not None:
            out = []
            for x in seq:
                self.assign(g.target, x, sub)
                if all(self.branch(self.cond(c, sub)) for c in g.ifs):
                    out.append(self.ev(n.elt, sub))
            return self.new_list(out)
        it = self.iterator(it)
        if it.on_start:
            it.on_start()
        if self.comp_spec(n, fr) is None:
            r = self.comp_pure(n, g, it, fr)
            if r is not None:
                return r
        return self.comp_loop(n, g, it, fr)

    def comp_nested(self, n, fr):
        from .engine import Frame
        out = self.new_list([])
        sub = Frame(fr.fi, {}, fr.module, closure=fr, cls=fr.cls)

        def go(i):
            if i == len(n.generators):
                self.list_append(out, self.ev(n.elt, sub))
                return
            g = n.generators[i]
            it = self.force(self.ev(g.iter, sub))
            seq = self.concrete_seq(it)
            if seq is None:
                raise Unsupported("nested comprehension over symbolic sequences")
            for x in seq:
                self.assign(g.target, x, sub)
                if all(self.branch(self.cond(c, sub)) for c in g.ifs):
                    go(i + 1)

        go(0)
        return out

    def pure_env(self, fr):
        env = {}
        chain = []
        f = fr
        while f is not None:
            chain.append(f)
            f = f.closure
        for f in reversed(chain):
            for k, v in f.env.items():
                if v is not None and not isinstance(v, tuple):
                    env[k] = v
        return env

    def iter_bound(self, it, k):
        """Element k of an iterator as a pure (assumption free) value."""
        p = self.pure()
        if it.kind == "list":
            return p.dec(z3.Select(self.list_arr(it.src), k), it.src.elem or T_ANY)
        if it.kind in ("keys", "values", "items"):
            d = it.src
            et = d.elem or (T_ANY, T_ANY)
            kt = z3.Select(self.sel(self.H("#dk"), d.t), k)
            key = p.dec(kt, et[0])
            if it.kind == "keys":
                return key
            val = p.dec(z3.Select(self.sel(self.H("#map"), d.t), kt), et[1])
            return val if it.kind == "values" else VTup([key, val])
        if it.kind == "range":
            return it.get(k)
        if it.kind == "enumerate":
            sub = self.iter_bound(it.parts[0], k)
            return None if sub is None else VTup([VInt(k + it.parts[1]), sub])
        if it.kind == "zip":
            subs = [self.iter_bound(x, k) for x in it.parts]
            return None if any(s is None for s in subs) else VTup(subs)
        return None

    def comp_pure(self, n, g, it, fr):
        """A side-effect free comprehension becomes a quantified definition."""
        k = self.bound("k", I)
        x = self.iter_bound(it, k)
        if x is None:
            return None
        env = self.pure_env(fr)
        try:
            env.update(bind_target(g.target, x))
            p = Pure(self, self.heap, env, None, fr.module, True, fr)
            conds = [p.boolean(c) for c in g.ifs]
            q = p.sub({})
            val = self.pure_expr(q, n.elt)
            t = enc(val)
        except Unsupported:
            return None
        m = it.length()
        guard = zand([0 <= k, k < m])
        dfs = list(p.defs) + [z3.Implies(zand(conds), d) for d in q.defs]
        for d in dfs:
            goal = z3.ForAll([k], z3.Implies(guard, d))
            if not self.entails(goal):
                # the element expression may raise: treat as an exceptional outcome only when it can be shown
                self.check(goal, f"{self.tname()}:comprehension-defined", n.lineno)
        e = self.fresh("elts", z3.ArraySort(I, Val))
        if not conds:
            ek = z3.Select(e, k)
            pats = [ek]
            self.assume(z3.ForAll([k], z3.Implies(guard, ek == t), patterns=pats))
            if it.kind == "list":
                src = z3.Select(self.list_arr(it.src), k)
                self.assume(z3.ForAll([k], z3.Implies(guard, ek == t), patterns=[src]))
            return self.list_from_array(e, m, type_of(val))
        # filter: strictly increasing index functions src -> out and back
        bwd = self.count_fn(zand(conds), k)                  # source index -> output index
        cnt = bwd(m)
        fwd = z3.Function(self.fresh_name("sel"), I, I)      # output index -> source index
        j = self.bound("j", I)
        cond = zand(conds)

        def at(idx, term):
            return z3.substitute(term, (k, idx))

        self.assume(z3.And(cnt >= 0, cnt <= m))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), zand([0 <= fwd(j), fwd(j) < m, at(fwd(j), cond), z3.Select(e, j) == at(fwd(j), t), bwd(fwd(j)) == j])), patterns=[fwd(j)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cnt), zand([0 <= fwd(j), fwd(j) < m, at(fwd(j), cond), z3.Select(e, j) == at(fwd(j), t), bwd(fwd(j)) == j])), patterns=[z3.Select(e, j)]))
        pat = bwd(k)
        pats = [pat]
        body = z3.Implies(z3.And(guard, cond), z3.And(0 <= bwd(k), bwd(k) < cnt, fwd(bwd(k)) == k))
        self.assume(z3.ForAll([k], body, patterns=pats))
        if it.kind == "list":
            self.assume(z3.ForAll([k], body, patterns=[z3.Select(self.list_arr(it.src), k)]))
        elif it.kind in ("keys", "values", "items"):
            self.assume(z3.ForAll([k], body, patterns=[z3.Select(self.sel(self.H("#dk"), it.src.t), k)]))
        j2 = self.bound("j", I)
        self.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < cnt), fwd(j) < fwd(j2)), patterns=[z3.MultiPattern(fwd(j), fwd(j2))]))
        return self.list_from_array(e, cnt, type_of(val))

    def count_fn(self, cond, k):
        """How many indices below a given one satisfy the condition: one function per condition."""
        canon = z3.simplify(z3.substitute(cond, (k, z3.Int("?canon"))))
        tab = self.__dict__.setdefault("_counts", {})
        hit = tab.get(canon.get_id())
        if hit is not None:
            return hit[0]
        C = z3.Function(self.fresh_name("count"), I, I)
        tab[canon.get_id()] = (C, canon)
        j, q = self.bound("j", I), self.bound("k", I)

        def at(x):
            return z3.substitute(canon, (z3.Int("?canon"), x))
        self.assume(C(z3.IntVal(0)) == 0)
        self.assume(z3.ForAll([j], z3.Implies(j >= 0, z3.And(C(j) >= 0, C(j) <= j)), patterns=[C(j)]))
        self.assume(z3.ForAll([j, q], z3.Implies(z3.And(0 <= j, j <= q), z3.And(C(j) <= C(q), z3.Implies(z3.And(j < q, at(j)), C(j) < C(q)),
                                                                            z3.Implies(q == j + 1, C(q) == C(j) + z3.If(at(j), 1, 0)))), patterns=[z3.MultiPattern(C(j), C(q))]))
        return C

    def comp_spec(self, n, fr):
        c = self.target
        if c is None:
            return None
        for sp in c.loops:
            if sp and "comp" in sp and sp["comp"] in ast.unparse(n):
                return sp
        # written differently: the comprehension that stands in the same place
        if self.top_frame is not None and self.top_frame.fi is not None:
            here = [x for x in ast.walk(self.top_frame.fi.node) if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))]
            here.sort(key=lambda x: (x.lineno, x.col_offset))
            for sp in c.loops:
                if sp and "comp" in sp and "nth" in sp and sp["nth"] < len(here) and here[sp["nth"]] is n and not any(sp["comp"] in ast.unparse(x) for x in here):
                    return sp
        return None

    def comp_loop(self, n, g, it, fr):
        """Desugar [E for x in xs if C] into a loop appending to a hidden list."""
        from .engine import Frame
        out = self.new_list([])
        sub = Frame(fr.fi, {"_comp": out}, fr.module, closure=fr, cls=fr.cls)

        def body(x):
            self.assign(g.target, x, sub)
            if all(self.branch(self.cond(c, sub)) for c in g.ifs):
                v = self.ev(n.elt, sub)
                self.list_append(out, v)
                if out.elem is None:
                    out.elem = type_of(v)

        spec = self.comp_spec(n, fr)
        if spec and spec.get("elem"):
            out.elem = self.parse_type(spec["elem"])
        if spec is None:
            sub.auto_spec = self.auto_comp_spec(n.elt, None, g, it, out)
        self.loop(n, sub, it, comp=body)
        return out

    def auto_comp_spec(self, elt, key, g, it, out):
        """Invariants of a comprehension whose element is a call to a function under contract that modifies
        nothing: every element made so far satisfies the contract's postconditions."""
        if g.ifs or it.kind not in ("list", "items", "values", "keys"):
            return None
        if key is None:
            invs = ["len(_comp) == _i"]
            res = "_comp[_j]"
        else:
            if it.kind != "items" or not isinstance(g.target, ast.Tuple) or not isinstance(key, ast.Name) or not isinstance(g.target.elts[0], ast.Name) or g.target.elts[0].id != key.id:
                return None
            invs = ["len(_comp) == _i", "all(key_at(_comp, _j) == key_at(_it, _j) for _j in range(0, _i))",
                    "forall('val', lambda s: iff(s in _comp, s in _it and pos_of(_it, s) < _i))"]
            res = "_comp[key_at(_it, _j)]"
        subst = {"result": ast.parse(res, mode="eval").body}
        srcs = {"list": "_it[_j]", "keys": "key_at(_it, _j)", "values": "_it[key_at(_it, _j)]"}
        tgt = None
        if it.kind == "items":
            if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(isinstance(x, ast.Name) for x in g.target.elts):
                subst[g.target.elts[0].id] = ast.parse("key_at(_it, _j)", mode="eval").body
                tgt = g.target.elts[1].id
                subst[tgt] = ast.parse("_it[key_at(_it, _j)]", mode="eval").body
        elif isinstance(g.target, ast.Name):
            tgt = g.target.id
            subst[tgt] = ast.parse(srcs[it.kind], mode="eval").body
        et = it.src.elem
        if it.kind in ("items", "values") and et is not None:
            et = et[1]
        if tgt is None or et is None or et[0] != "cls" or not isinstance(elt, ast.Call) or not isinstance(elt.func, ast.Attribute) \
                or not isinstance(elt.func.value, ast.Name) or elt.func.value.id != tgt:
            return {"inv": invs}
        fi = et[1].find(elt.func.attr)
        if fi is None:
            return {"inv": invs}
        c = self.find_contract(fi, et[1])
        for k in et[1].mro:         # the simpler contract that every override satisfies is enough for the elements
            v = self.reg.contracts.get(f"{k.name}.{fi.name}")
            if v is not None and v.virtual and c is not None and c.params == v.params and c.returns is not None:
                v2 = Contract(v.key + "#elem", params=v.params, types=v.types, returns=c.returns, ensures=v.ensures, defines=v.defines)
                c = v2
                break
        if c is None or c.modifies or c.raises or c.raises_iff or c.pure is not None:
            return {"inv": invs}
        out.elem = (self.parse_type("str"), self.parse_type(c.returns)) if key is not None else self.parse_type(c.returns)
        if key is not None and it.src.elem is not None:
            out.elem = (it.src.elem[0], out.elem[1])
        real = [a.arg for a in fi.node.args.args]
        names = list(c.params or real)
        bind = {names[0]: subst[tgt]}
        for nm, a in zip(names[1:], elt.args):
            bind[nm] = a
        r2s = dict(zip(real, names))
        for kw in elt.keywords:
            if kw.arg is None:
                return {"inv": invs}
            bind[r2s.get(kw.arg, kw.arg)] = kw.value
        dflt = fi.node.args.defaults
        for nm, dv in zip(names[len(names) - len(dflt):], dflt):
            bind.setdefault(nm, dv)

        class Inner(ast.NodeTransformer):
            def __init__(self, m):
                self.m = m

            def visit_Name(self, x):
                return self.m.get(x.id, x)
        bind = {k: Inner(subst).visit(ast.parse(ast.unparse(v), mode="eval").body) if k != names[0] else v for k, v in bind.items()}
        bind["result"] = subst["result"]
        fresh = False
        for lab, e in c.labelled(c.ensures + c.defines, "post"):
            tree = ast.parse(e.strip(), mode="eval").body
            used = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name)}
            if "old" in used or any(nm in used and nm not in bind for nm in names):
                continue
            if e.strip() == "fresh(result)":
                fresh = True
            invs.append("all(" + ast.unparse(Inner(bind).visit(tree)) + " for _j in range(0, _i))")
        if fresh:
            r1 = ast.unparse(subst["result"])
            r2 = r1.replace("_j", "_k")
            invs.append(f"all(implies(_j != _k, {r1} is not {r2}) for _j in range(0, _i) for _k in range(0, _i))")
        return {"inv": invs}

    def x_DictComp(self, n, fr):
        from .engine import Frame
        g = n.generators[0]
        it = self.force(self.ev(g.iter, fr))
        sub = Frame(fr.fi, {}, fr.module, closure=fr, cls=fr.cls)
        seq = self.concrete_seq(it)
        if seq is not None:
            d = self.new_dict([])
            for x in seq:
                self.assign(g.target, x, sub)
                if all(self.branch(self.cond(c, sub)) for c in g.ifs):
                    kv, vv = self.ev(n.key, sub), self.ev(n.value, sub)
                    self.dict_set(d, kv, vv)
                    if d.elem is None:
                        d.elem = (type_of(kv), type_of(vv))
            return d
        it = self.iterator(it)
        if it.on_start:
            it.on_start()
        if self.comp_spec(n, fr) is None:
            r = self.dictcomp_pure(n, g, it, fr)
            if r is not None:
                return r
        d = self.new_dict([])
        sub.env["_comp"] = d

        def body(x):
            self.assign(g.target, x, sub)
            if all(self.branch(self.cond(c, sub)) for c in g.ifs):
                kv, vv = self.ev(n.key, sub), self.ev(n.value, sub)
                self.dict_set(d, kv, vv)
                if d.elem is None:
                    d.elem = (type_of(kv), type_of(vv))

        spec = self.comp_spec(n, fr)
        if spec and spec.get("elem"):
            ty = self.parse_type(spec["elem"])
            d.elem = (ty[1], ty[2])
        if spec is None:
            sub.auto_spec = self.auto_comp_spec(n.value, n.key, g, it, d)
        self.loop(n, sub, it, comp=body)
        return d

    def dictcomp_pure(self, n, g, it, fr):
        """{k: f(k, v) for k, v in d.items() [if c]} — same keys, mapped values."""
        if it.kind not in ("items", "keys"):
            return None
        d = it.src
        et = d.elem or (T_ANY, T_ANY)
        kk = self.bound("key", Val)
        p0 = self.pure()
        key = p0.dec(kk, et[0])
        has = self.sel(self.H("#has"), d.t)
        mp = self.sel(self.H("#map"), d.t)
        x = VTup([key, p0.dec(z3.Select(mp, kk), et[1])]) if it.kind == "items" else key
        env = self.pure_env(fr)
        try:
            env.update(bind_target(g.target, x))
            p = Pure(self, self.heap, env, None, fr.module, True, fr)
            if p.defs:
                return None
            kv = p.ev(n.key)
            if not enc(kv).eq(kk):
                return None
            conds = [p.boolean(c) for c in g.ifs]
            val = self.pure_expr(p, n.value)
            t = enc(val)
            if p.defs:
                return None
        except Unsupported:
            return None
        from .values import ARR
        r = self.new_dict([], (et[0], type_of(val)))
        h2 = self.fresh("has", z3.ArraySort(Val, B))
        m2 = self.fresh("map", z3.ArraySort(Val, Val))
        cond = zand(conds)
        self.assume(z3.ForAll([kk], z3.Select(h2, kk) == z3.And(z3.Select(has, kk), cond), patterns=[z3.Select(h2, kk)]))
        self.assume(z3.ForAll([kk], z3.Implies(z3.And(z3.Select(has, kk), cond), z3.And(z3.Select(h2, kk), z3.Select(m2, kk) == t)), patterns=[z3.Select(has, kk)]))
        self.assume(z3.ForAll([kk], z3.Implies(z3.Select(h2, kk), z3.Select(m2, kk) == t), patterns=[z3.Select(m2, kk)]))
        self.heap["#has"] = z3.Store(self.H("#has"), r.t, h2)
        self.heap["#map"] = z3.Store(self.H("#map"), r.t, m2)
        if not conds:
            for a in ("#dn", "#dk", "#di"):
                self.heap[a] = z3.Store(self.H(a), r.t, self.sel(self.H(a), d.t))
        else:
            n2 = self.fresh("dn", I)
            k2 = self.fresh("dk", z3.ArraySort(I, Val))
            i2 = self.fresh("di", z3.ArraySort(Val, I))
            di = self.sel(self.H("#di"), d.t)
            self.assume(n2 >= 0)
            a, b = self.bound("a", Val), self.bound("b", Val)
            self.assume(z3.ForAll([a, b], z3.Implies(z3.And(z3.Select(h2, a), z3.Select(h2, b)), (z3.Select(i2, a) < z3.Select(i2, b)) == (z3.Select(di, a) < z3.Select(di, b))), patterns=[z3.MultiPattern(z3.Select(i2, a), z3.Select(i2, b))]))
            self.heap["#dn"] = z3.Store(self.H("#dn"), r.t, n2)
            self.heap["#dk"] = z3.Store(self.H("#dk"), r.t, k2)
            self.heap["#di"] = z3.Store(self.H("#di"), r.t, i2)
        return r

    # ------------------------------------------------------------------ dicts
    def dict_copy(self, d):
        r = self.new_dict([], d.elem, "defaultdict" if d.cls.name == "defaultdict" else "dict")
        for a in ("#has", "#map", "#dn", "#dk", "#di"):
            self.heap[a] = z3.Store(self.H(a), r.t, self.sel(self.H(a), d.t))
        lit = self.lits.get(d.t.get_id())
        if lit is not None:
            self.lits[r.t.get_id()] = dict(lit)
        return r

    def dict_update(self, d, o, line=None):
        if isinstance(o, (VGen, VIter)) or self.is_list(o):
            seq = self.concrete_seq(o) if not isinstance(o, VGen) else None
            if seq is not None:
                for x in seq:
                    self.dict_set(d, x.items[0], x.items[1], line)
                return
            raise Unsupported("dict.update of an iterable")
        if not self.is_dict(o):
            raise Unsupported("dict.update")
        lit = self.lits.get(o.t.get_id())
        if lit is not None:
            for k, v in lit.items():
                self.dict_set(d, VStr(k), v, line)
            return
        self.dict_wf(d)
        self.dict_wf(o)
        r = d.t
        h1, m1 = self.sel(self.H("#has"), r), self.sel(self.H("#map"), r)
        h2, m2 = self.sel(self.H("#has"), o.t), self.sel(self.H("#map"), o.t)
        n1, k1, i1 = self.sel(self.H("#dn"), r), self.sel(self.H("#dk"), r), self.sel(self.H("#di"), r)
        n2, k2, i2 = self.sel(self.H("#dn"), o.t), self.sel(self.H("#dk"), o.t), self.sel(self.H("#di"), o.t)
        h, m = self.fresh("has", h1.sort()), self.fresh("map", m1.sort())
        n, dk, di = self.fresh("dn", I), self.fresh("dk", k1.sort()), self.fresh("di", i1.sort())
        v = self.bound("v", Val)
        w = self.bound("w", Val)
        k = self.bound("k", I)
        hv = z3.Select(h, v)
        both = z3.And(hv == z3.Or(z3.Select(h1, v), z3.Select(h2, v)),
                      z3.Select(m, v) == z3.If(z3.Select(h2, v), z3.Select(m2, v), z3.Select(m1, v)),
                      z3.Implies(z3.Select(h1, v), z3.Select(di, v) == z3.Select(i1, v)),
                      z3.Implies(z3.And(z3.Select(h2, v), z3.Not(z3.Select(h1, v))), z3.Select(di, v) >= n1))
        for pt in (hv, z3.Select(m, v), z3.Select(di, v), z3.Select(h2, v), z3.Select(h1, v)):
            self.assume(z3.ForAll([v], both, patterns=[pt]))
        self.assume(z3.And(n >= n1, n <= n1 + n2, n >= n2))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n1), z3.Select(dk, k) == z3.Select(k1, k)), patterns=[z3.Select(dk, k)]))
        self.assume(z3.ForAll([v, w], z3.Implies(zand([z3.Select(h2, v), z3.Select(h2, w), z3.Not(z3.Select(h1, v)), z3.Not(z3.Select(h1, w))]),
                                                 (z3.Select(di, v) < z3.Select(di, w)) == (z3.Select(i2, v) < z3.Select(i2, w))),
                              patterns=[z3.MultiPattern(z3.Select(di, v), z3.Select(di, w))]))
        self.assume(z3.Implies(n1 == 0, n == n2))
        self.drop_lits(r)
        for a, t in (("#has", h), ("#map", m), ("#dn", n), ("#dk", dk), ("#di", di)):
            self.set_at(a, r, t, line)
        self.dict_wf(d)

    def dict_del(self, d, key, line=None, maybe=False):
        k = enc(key)
        r = d.t
        has = self.sel(self.H("#has"), r)
        there = z3.Select(has, k)
        if not maybe:
            if not self.branch(there):
                self.raise_py("KeyError", line)
            there = z3.BoolVal(True)
        self.dict_wf(d)
        n = self.sel(self.H("#dn"), r)
        di0 = self.sel(self.H("#di"), r)
        dk, di = self.fresh("dk", z3.ArraySort(I, Val)), self.fresh("di", z3.ArraySort(Val, I))
        self.drop_lits(r)
        v = self.bound("v", Val)
        self.assume(z3.ForAll([v], z3.Implies(z3.And(z3.Select(has, v), v != k), z3.Select(di, v) == z3.If(z3.And(there, z3.Select(di0, v) > z3.Select(di0, k)), z3.Select(di0, v) - 1, z3.Select(di0, v))), patterns=[z3.Select(di, v)]))
        self.set_at("#has", r, z3.Store(has, k, z3.BoolVal(False)), line)
        self.set_at("#dn", r, z3.simplify(n - z3.If(there, 1, 0)), line)
        self.set_at("#dk", r, dk, line)
        self.set_at("#di", r, di, line)
        self.dict_wf(d)

    # ---------------------------------------------------------- builtin methods
    def builtin_method(self, recv, name, args, kwargs, node=None, fr=None):
        line = getattr(node, "lineno", None)
        if isinstance(recv, VStr):
            return self.str_method(recv, name, args, kwargs, node)
        if self.is_list(recv):
            return self.list_method(recv, name, args, kwargs, node)
        if self.is_dict(recv):
            return self.dict_method(recv, name, args, kwargs, node)
        if self.is_set(recv):
            return self.set_method(recv, name, args, kwargs, node)
        if isinstance(recv, VMatch):
            return self.match_method(recv, name, args, node)
        if isinstance(recv, VIter) and recv.kind in ("keys", "values", "items"):
            raise Unsupported(f"dict view method {name}")
        if recv is VNone:
            self.raise_py("AttributeError", line)
        if isinstance(recv, VTup):
            if name == "index":
                for i, x in enumerate(recv.items):
                    if self.branch(self.equal(x, args[0])):
                        return VInt(i)
                self.raise_py("ValueError", line)
        raise Unsupported(f"method {name} of {recv}")

    def set_method(self, v, name, args, kwargs, node):
        line = getattr(node, "lineno", None)
        if name == "add":
            if not self.hashed_by_value(type_of(args[0])):
                raise Unsupported("set of values compared with ==")
            self.set_at("#has", v.t, z3.Store(self.set_has(v), enc(args[0]), z3.BoolVal(True)), line)
            return VNone
        if name == "copy":
            return self.new_set(self.set_has(v), v.elem)
        o = self.force(args[0]) if args else None
        if o is not None and not self.is_set(o):
            o = self.b_set([o], {}, node, None)
        if o is not None and name in ("issubset", "issuperset"):
            a, b = (v, o) if name == "issubset" else (o, v)
            x = self.bound("x", Val)
            ha, hb = self.set_has(a), self.set_has(b)
            la, lb = (self.set_src.get(z3.simplify(h).get_id()) for h in (ha, hb))
            if la is not None and lb is not None:      # two lists: every element of one is in the other
                i, j = self.bound("k", I), self.bound("k", I)
                p = self.pure(code=True)
                (aa, na), (ab, nb) = ((self.sel(self.H("#elt"), s.t), self.sel(self.H("#len"), s.t)) for _, s in (la, lb))
                same = p.eq(p.dec(z3.Select(aa, i), la[1].elem or T_ANY), p.dec(z3.Select(ab, j), lb[1].elem or T_ANY))
                return VBool(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < na), z3.Exists([j], z3.And(0 <= j, j < nb, same)))))
            return VBool(z3.ForAll([x], z3.Implies(z3.Select(ha, x), z3.Select(hb, x)), patterns=[z3.Select(ha, x)]))
        if o is not None and name in ("union", "intersection", "difference"):
            return self.set_op({"union": "|", "intersection": "&", "difference": "-"}[name], v, o)
        raise Unsupported(f"set.{name}")

    def list_method(self, v, name, args, kwargs, node):
        line = getattr(node, "lineno", None)
        if name == "append":
            self.note_list_elem(v, args[0])
            self.list_append(v, args[0], line)
            return VNone
        if name == "extend":
            o = self.force(args[0])
            if isinstance(o, VGen):
                o = self.comp_list(o.node, o.frame)
            if not self.is_list(o) and self.concrete_seq(o) is None:
                o = self.to_list(o)
            self.list_extend(v, o, line)
            return VNone
        if name == "pop":
            n = self.list_len(v)
            if not self.branch(n > 0):
                self.raise_py("IndexError", line)
            if not args or (isinstance(args[0], VInt) and z3.is_int_value(z3.simplify(args[0].t)) and z3.simplify(args[0].t).as_long() == -1):
                x = self.decode(z3.simplify(z3.Select(self.list_arr(v), n - 1)), v.elem or T_ANY)
                self.set_at("#len", v.t, z3.simplify(n - 1), line)
                return x
            if z3.is_int_value(z3.simplify(self.int_of(args[0]))) and z3.simplify(self.int_of(args[0])).as_long() == 0:
                a = self.list_arr(v)
                x = self.decode(z3.simplify(z3.Select(a, 0)), v.elem or T_ANY)
                e = self.fresh("elts", z3.ArraySort(I, Val))
                k = self.bound("k", I)
                self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n - 1), z3.Select(e, k) == z3.Select(a, k + 1)), patterns=[z3.Select(e, k)]))
                self.set_at("#len", v.t, n - 1, line)
                self.set_at("#elt", v.t, e, line)
                return x
        if name == "copy":
            return self.list_copy(v)
        if name == "clear":
            self.set_at("#len", v.t, z3.IntVal(0), line)
            return VNone
        if name == "insert":
            i = z3.simplify(self.int_of(args[0]))
            if z3.is_int_value(i) and i.as_long() == 0:
                n, a = self.list_len(v), self.list_arr(v)
                e = self.fresh("elts", z3.ArraySort(I, Val))
                k = self.bound("k", I)
                self.assume(z3.Select(e, 0) == enc(args[1]))
                self.assume(z3.ForAll([k], z3.Implies(z3.And(1 <= k, k <= n), z3.Select(e, k) == z3.Select(a, k - 1)), patterns=[z3.Select(e, k)]))
                self.set_at("#len", v.t, n + 1, line)
                self.set_at("#elt", v.t, e, line)
                return VNone
        if name == "index":
            seq = self.concrete_seq(v)
            if seq is not None:
                for i, x in enumerate(seq):
                    if self.branch(self.equal(x, args[0])):
                        return VInt(i)
                self.raise_py("ValueError", line)
        if name == "remove":
            # first equal element
            c = self.contains(args[0], v)
            if not self.branch(c):
                self.raise_py("ValueError", line)
            n, a = self.list_len(v), self.list_arr(v)
            j = self.fresh("idx", I)
            p = self.pure(code=True)
            k = self.bound("k", I)
            self.assume(z3.And(0 <= j, j < n, p.eq(args[0], p.dec(z3.Select(a, j), v.elem or T_ANY))))
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.Not(p.eq(args[0], p.dec(z3.Select(a, k), v.elem or T_ANY))))))
            e = self.fresh("elts", z3.ArraySort(I, Val))
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.Select(e, k) == z3.Select(a, k)), patterns=[z3.Select(e, k)]))
            self.assume(z3.ForAll([k], z3.Implies(z3.And(j <= k, k < n - 1), z3.Select(e, k) == z3.Select(a, k + 1)), patterns=[z3.Select(e, k)]))
            self.set_at("#len", v.t, n - 1, line)
            self.set_at("#elt", v.t, e, line)
            return VNone
        if name == "reverse":
            r = self.list_reversed(v)
            self.set_at("#elt", v.t, self.list_arr(r), line)
            return VNone
        raise Unsupported(f"list.{name}")

    def note_list_elem(self, v, x):
        if v.elem is None:
            v.elem = type_of(x)

    def dict_method(self, d, name, args, kwargs, node):
        line = getattr(node, "lineno", None)
        et = d.elem or (T_ANY, T_ANY)
        if name in ("get", "pop", "setdefault"):
            k = enc(args[0])
            lit = self.lits.get(d.t.get_id())
            if name == "get" and lit is not None and isinstance(args[0], VStr) and z3.is_string_value(z3.simplify(args[0].t)):
                from .execmixin import pystr
                s = pystr(z3.simplify(args[0].t))
                if s in lit:
                    return lit[s]
                return args[1] if len(args) > 1 else kwargs.get("default", VNone)
            has = z3.Select(self.sel(self.H("#has"), d.t), k)
            dflt = args[1] if len(args) > 1 else kwargs.get("default", VNone if name == "get" else None)
            if name != "setdefault" and et[1] == T_STR and (dflt is VNone or isinstance(dflt, VStr)) and not self.maybe_defaultdict(d):
                # one value for both cases, without a branch
                x = z3.simplify(z3.Select(self.sel(self.H("#map"), d.t), k))
                self.assume(z3.Implies(has, Val.is_s(x)))
                if name == "pop":
                    self.dict_del(d, args[0], line, maybe=True)
                if dflt is VNone:
                    return VAny(z3.If(has, x, NONE), ("union", (T_STR, T_NONE)))
                return VStr(z3.simplify(z3.If(has, Val.sv(x), dflt.t)))
            if self.branch(has):
                v = self.decode(z3.simplify(z3.Select(self.sel(self.H("#map"), d.t), k)), et[1])
                if name == "pop":
                    self.dict_del(d, args[0], line)
                return v
            if name == "setdefault":
                v = args[1] if len(args) > 1 else VNone
                self.dict_set(d, args[0], v, line)
                return v
            if len(args) > 1:
                return args[1]
            if name == "pop":
                self.raise_py("KeyError", line)
            return VNone
        if name in ("keys", "values", "items"):
            lit = self.lits.get(d.t.get_id())
            if lit is not None:
                its = {"keys": [VStr(k) for k in lit], "values": list(lit.values()), "items": [VTup([VStr(k), v]) for k, v in lit.items()]}[name]
                return VTup(its)
            return self.dict_iter(d, name)
        if name == "update":
            if args:
                o = self.force(args[0])
                self.dict_update(d, o, line)
            for k, v in kwargs.items():
                self.dict_set(d, VStr(k), v, line)
            return VNone
        if name == "copy":
            return self.dict_copy(d)
        if name == "clear":
            r = d.t
            self.drop_lits(r)
            self.set_at("#has", r, z3.K(Val, z3.BoolVal(False)), line)
            self.set_at("#dn", r, z3.IntVal(0), line)
            return VNone
        raise Unsupported(f"dict.{name}")

    # ------------------------------------------------------------------ strings
    def str_arg(self, v):
        v = self.force(v)
        if isinstance(v, VStr):
            return v.t
        if isinstance(v, VAny):
            self.assume(Val.is_s(v.t))
            return Val.sv(v.t)
        self.raise_py("TypeError")

    def str_method(self, s, name, args, kwargs, node):
        line = getattr(node, "lineno", None)
        if name == "join":
            return self.str_join(s, args[0])
        if name == "startswith":
            a = self.force(args[0])
            if isinstance(a, VTup):
                return VBool(zor([z3.PrefixOf(self.str_arg(x), s.t) for x in a.items]))
            return VBool(z3.PrefixOf(self.str_arg(a), s.t))
        if name == "endswith":
            a = self.force(args[0])
            if isinstance(a, VTup):
                return VBool(zor([z3.SuffixOf(self.str_arg(x), s.t) for x in a.items]))
            return VBool(z3.SuffixOf(self.str_arg(a), s.t))
        if name == "split":
            return self.str_split(s, args, kwargs, line)
        if name == "splitlines":
            n = self.unint("str.splitlines.n", [S], I)(s.t)
            e = self.unint("str.splitlines.e", [S], z3.ArraySort(I, Val))(s.t)
            k = self.bound("k", I)
            self.assume(n >= 0)
            self.assume(z3.ForAll([k], Val.is_s(z3.Select(e, k)), patterns=[z3.Select(e, k)]))
            return self.list_from_array(e, n, T_STR)
        if name == "replace":
            return VStr(self.unint("str.replace", [S, S, S], S)(s.t, self.str_arg(args[0]), self.str_arg(args[1])))
        if name in ("lower", "upper", "strip", "rstrip", "lstrip", "title", "capitalize", "casefold"):
            if args:
                return VStr(self.unint("str." + name + "1", [S, S], S)(s.t, self.str_arg(args[0])))
            r = self.unint("str." + name, [S], S)(s.t)
            return VStr(r)
        if name == "removeprefix":
            a = self.str_arg(args[0])
            return VStr(z3.If(z3.PrefixOf(a, s.t), z3.SubString(s.t, z3.Length(a), z3.Length(s.t) - z3.Length(a)), s.t))
        if name == "removesuffix":
            a = self.str_arg(args[0])
            return VStr(z3.If(z3.SuffixOf(a, s.t), z3.SubString(s.t, 0, z3.Length(s.t) - z3.Length(a)), s.t))
        if name == "find":
            return VInt(z3.IndexOf(s.t, self.str_arg(args[0]), 0))
        if name == "encode":
            return VStr(s.t)
        if name in ("isdigit", "isnumeric", "isspace", "isalpha", "isalnum", "isidentifier"):
            return VBool(self.unint("str." + name, [S], B)(s.t))
        if name == "partition":
            a = self.str_arg(args[0])
            i = z3.IndexOf(s.t, a, 0)
            if self.branch(z3.Contains(s.t, a)):
                return VTup([VStr(z3.SubString(s.t, 0, i)), VStr(a), VStr(z3.SubString(s.t, i + z3.Length(a), z3.Length(s.t)))])
            return VTup([s, VStr(""), VStr("")])
        if name == "count":
            r = self.unint("str.count", [S, S], I)(s.t, self.str_arg(args[0]))
            self.assume(r >= 0)
            return VInt(r)
        if name == "format":
            return VStr(self.fresh("fmt", S))
        raise Unsupported(f"str.{name}")

    def str_split(self, s, args, kwargs, line):
        if s.t.num_args() > 0 and not self.has_bound(s.t):
            # (a name for the text: its terms may not be fit for a pattern)
            t = self.fresh("text", S)
            self.assume(t == s.t)
            s = VStr(t)
        if not args:
            nm = "str.split0"
            n = self.unint(nm + ".n", [S], I)(s.t)
            e = self.unint(nm + ".e", [S], z3.ArraySort(I, Val))(s.t)
            lo = 0
        else:
            sep = self.str_arg(args[0])
            if self.branch(sep == z3.StringVal("")):
                self.raise_py("ValueError", line)
            if sep.num_args() > 0 and not self.has_bound(sep):
                t = self.fresh("sep", S)
                self.assume(t == sep)
                sep = t
            mx = args[1] if len(args) > 1 else kwargs.get("maxsplit")
            if mx is not None:
                m = self.int_of(mx)
                ms = z3.simplify(m)
                if z3.is_int_value(ms) and ms.as_long() == 1:
                    if self.branch(z3.Contains(s.t, sep)):
                        i = z3.IndexOf(s.t, sep, 0)
                        return self.new_list([VStr(z3.SubString(s.t, 0, i)), VStr(z3.SubString(s.t, i + z3.Length(sep), z3.Length(s.t)))], T_STR)
                    return self.new_list([s], T_STR)
                raise Unsupported("split with maxsplit")
            n = self.unint("str.split.n", [S, S], I)(s.t, sep)
            e = self.unint("str.split.e", [S, S], z3.ArraySort(I, Val))(s.t, sep)
            lo = 1
            k = self.bound("k", I)
            ek = z3.Select(e, k)
            self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Not(z3.Contains(Val.sv(ek), sep))), patterns=[ek]))
            self.assume(z3.Implies(z3.Not(z3.Contains(s.t, sep)), z3.And(n == 1, z3.Select(e, 0) == Val.s(s.t))))
            self.assume(z3.Implies(z3.Contains(s.t, sep), n >= 2))
            self.assume(self.join_term(sep, e, n) == s.t)
            self.assume(z3.Implies(n == 2, s.t == z3.Concat(Val.sv(z3.Select(e, 0)), sep, Val.sv(z3.Select(e, 1)))))
        k = self.bound("k", I)
        self.assume(n >= lo)
        self.assume(z3.ForAll([k], Val.is_s(z3.Select(e, k)), patterns=[z3.Select(e, k)]))
        return self.list_from_array(e, n, T_STR)

    def str_join(self, sep, it):
        it = self.force(it)
        if isinstance(it, VGen):
            it = self.comp_list(it.node, it.frame)
        seq = self.concrete_seq(it)
        if seq is not None:
            parts = []
            for i, x in enumerate(seq):
                if i:
                    parts.append(sep.t)
                parts.append(self.str_arg(x))
            if not parts:
                return VStr("")
            return VStr(parts[0] if len(parts) == 1 else z3.simplify(z3.Concat(parts)))
        if not self.is_list(it):
            it = self.to_list(it)
        return VStr(self.join_term(sep.t, self.list_arr(it), self.list_len(it)))

    def dropped(self, arr, lo):
        """The array arr shifted left by lo."""
        A = z3.ArraySort(I, Val)
        D = self.unint("arr.drop", [A, I], A)
        if ("drop",) not in self.axioms_done:
            self.axioms_done.add(("drop",))
            a = z3.Const("?drop.a", A)
            n, k = z3.Ints("?drop.n ?drop.k")
            self.assume(z3.ForAll([a, n, k], z3.Select(D(a, n), k) == z3.Select(a, n + k), patterns=[z3.Select(D(a, n), k)]))
        return D(arr, lo)

    def join_term(self, sep, arr, n):
        """sep.join(list): a spec function of the element sequence; unfolded at its last element."""
        F = self.unint("str.join", [S, z3.ArraySort(I, Val), I], S)
        key = ("join",)
        if key not in self.axioms_done:
            self.axioms_done.add(key)
            s = z3.Const("?join.s", S)
            a = z3.Const("?join.a", z3.ArraySort(I, Val))
            b = z3.Const("?join.b", z3.ArraySort(I, Val))
            m = z3.Const("?join.n", I)
            k = z3.Const("?join.k", I)
            self.assume(z3.ForAll([s, a, m], z3.And(
                z3.Implies(m <= 0, F(s, a, m) == z3.StringVal("")),
                z3.Implies(m == 1, F(s, a, m) == Val.sv(z3.Select(a, 0)))), patterns=[F(s, a, m)]))
            # extensionality in the first n elements
            m2 = z3.Const("?join.m", I)
            self.assume(z3.ForAll([s, a, b, m, m2], z3.Implies(z3.And(m == m2,
                z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), Val.sv(z3.Select(a, k)) == Val.sv(z3.Select(b, k))))),
                F(s, a, m) == F(s, b, m2)), patterns=[z3.MultiPattern(F(s, a, m), F(s, b, m2))]))
        t = F(sep, arr, n)
        joins = self.__dict__.setdefault("_joins", {})
        if t.get_id() not in joins and not self.has_bound(t):
            # unfold this term
            joins[t.get_id()] = t
            # (twice)
            self.assume(z3.Implies(n >= 2, t == z3.Concat(F(sep, arr, n - 1), sep, Val.sv(z3.Select(arr, n - 1)))))
            self.assume(z3.Implies(n >= 3, F(sep, arr, n - 1) == z3.Concat(F(sep, arr, n - 2), sep, Val.sv(z3.Select(arr, n - 2)))))
        return t

    # ------------------------------------------------------------------ externals
    def call_extern(self, name, args, kwargs, node=None, fr=None):
        line = getattr(node, "lineno", None)
        short = name[len("builtins."):] if name.startswith("builtins.") else None
        if short is not None:
            m = getattr(self, "b_" + short, None)
            if m is not None:
                return m(args, kwargs, node, fr)
        if name in ("functools.partial",):
            return VPartial(args[0], list(args[1:]), dict(kwargs))
        if name in ("copy.copy",):
            return self.copy_obj(args[0])
        if name.startswith("logger") or name.startswith("logging."):
            return VNone
        if name in ("object.__init__",):
            return VNone
        if name == "object.__new__":
            c = args[0]
            if isinstance(c, VClass):
                return VRef(self.new_ref(c.ci, c.ci.name), c.ci, True)
            if isinstance(c, VAny) and is_app_of(c.t, "t2"):
                # self.__class__ of a non-exact receiver
                cid = Val.iv(c.t.arg(1))
                r = self.new_ref(self.prog.builtin["object"], "new")
                self.pc.pop()
                self.assume(clsof(r) == z3.simplify(cid))
                return VRef(r, getattr(fr, "cls", None) or (fr.fi.cls if fr and fr.fi else None), False)
            raise Unsupported("__new__")
        if name == "builtins.print" or name.startswith("rich."):
            return VNone
        if name in ("re.match", "re.compile", "re.fullmatch", "re.search", "re.sub", "re.findall", "re.split"):
            return self.re_call(name[3:], args, kwargs, node)
        if name == "typing.cast":
            return args[1]
        if name in ("dataclasses.asdict",):
            return self.dataclass_asdict(args[0])
        c = self.reg.externs.get(name)
        if c is not None:
            return self.apply_extern(name, c, args, kwargs, node)
        raise Unsupported(f"external function {name}")

    def apply_extern(self, name, c, args, kwargs, node):
        self.sh.externs.add(f"{name}: {c.trusted}")
        env = dict(zip(c.params or [], args))
        env.update(kwargs)
        pre_heap, pre_alloc = dict(self.heap), self.alloc
        outs = [None] + list(c.raises)
        k = self.choose(len(outs))
        if outs[k] is not None:
            from .engine import PyRaise, PathEnd
            self.assume(Pure(self, pre_heap, env).boolean(c.raises[outs[k]]))
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
            raise PyRaise(self.prog.cls(outs[k]), None, getattr(node, "lineno", None))
        if c.pure is not None:
            return Pure(self, self.heap, env).ev(parse_expr(c.pure))
        if c.allocates:
            na = self.fresh("alloc", I)
            self.assume(na >= self.alloc)
            self.alloc = na
        if c.returns is not None and c.returns.startswith("extern:"):
            return VExt(c.returns[7:])
        res = self.fresh_of_type(self.parse_type(c.returns), "ext") if c.returns else VAny(self.fresh("ext", Val))
        q = Pure(self, self.heap, {**env, "result": res}, (pre_heap, env, pre_alloc))
        for lab, e in c.labelled(c.ensures + c.defines, "post"):
            self.assume(q.boolean(e))
        return res

    def copy_obj(self, v):
        v = self.force(v)
        if self.is_list(v):
            return self.list_copy(v)
        if self.is_dict(v):
            return self.dict_copy(v)
        if isinstance(v, VRef) and v.cls is not None and not v.cls.external:
            r = self.new_ref(self.prog.builtin["object"], "copy")
            self.pc.pop()
            self.assume(clsof(r) == clsof(v.t))
            if v.exact:
                self.assume(clsof(r) == v.cls.id)
            attrs = set()
            for c in v.cls.all_subs() if not v.exact else [v.cls]:
                attrs |= self.inst_attrs(c)
            for a in sorted(self.hname(v.cls, x) for x in attrs):
                self.heap[a] = z3.Store(self.H(a), r, self.sel(self.H(a), v.t))
            return VRef(r, v.cls, v.exact, v.elem)
        if isinstance(v, (VInt, VStr, VBool, VNoneT, VTup, VEnum)):
            return v
        raise Unsupported("copy")

    def dataclass_asdict(self, v):
        """The fields of a dataclass, lists and dictionaries copied: only to be passed on as keyword arguments."""
        v = self.force(v)
        if not isinstance(v, VRef) or v.cls is None or not v.cls.is_dataclass:
            raise Unsupported("dataclasses.asdict")
        plain = (T_STR, T_INT, T_BOOL, T_NONE)
        out = {}
        for c in reversed(v.cls.mro):
            for k in c.ann if c.is_dataclass else ():
                ty = self.field_type(v.cls, k)
                x = self.decode(z3.simplify(self.sel(self.H(self.hname(v.cls, k)), v.t)), ty)
                if ty[0] == "list" and ty[1] in plain:
                    x = self.list_copy(x)
                elif ty[0] == "dict" and ty[1] in plain and ty[2] in plain:
                    x = self.dict_copy(x)
                elif not (ty in plain or (ty[0] == "union" and all(a in plain for a in ty[1]))):
                    raise Unsupported(f"dataclasses.asdict of a field of type {ty}")
                out[k] = x
        return VKw(out)

    # builtins ----------------------------------------------------------------
    def b_len(self, args, kwargs, node, fr):
        v = self.force(args[0])
        if isinstance(v, VStr):
            return VInt(z3.simplify(z3.Length(v.t)))
        if isinstance(v, VTup):
            return VInt(len(v.items))
        if self.is_list(v):
            n = self.list_len(v)
            self.assume(n >= 0)
            return VInt(z3.simplify(n))
        if self.is_dict(v):
            n = self.sel(self.H("#dn"), v.t)
            self.assume(n >= 0)
            return VInt(z3.simplify(n))
        if isinstance(v, VIter):
            return VInt(v.length())
        if v is VNone or isinstance(v, (VInt, VBool)):
            self.raise_py("TypeError")
        if isinstance(v, VRef) and v.cls is not None and v.cls.find("__len__"):
            return self.call_method(v, "__len__", [], {}, node)
        raise Unsupported("len")

    def b_isinstance(self, args, kwargs, node, fr):
        if isinstance(args[0], VAny) and isinstance(args[1], VClass) and not args[1].ci.external:
            self.isa_facts.setdefault(args[0].t.get_id(), []).append(args[1].ci)
            self._keep = getattr(self, "_keep", [])
            self._keep.append(args[0].t)
        c = args[1]
        return VBool(self.isinstance_term(args[0], c.items if isinstance(c, VTup) else [c]))

    def b_str(self, args, kwargs, node, fr):
        if not args:
            return VStr("")
        return self.to_str(args[0])

    def b_repr(self, args, kwargs, node, fr):
        return VStr(self.unint("str.repr", [Val], S)(self.enc_any(args[0])))

    def b_int(self, args, kwargs, node, fr):
        if not args:
            return VInt(0)
        v = self.force(args[0])
        if isinstance(v, (VInt, VBool)):
            return VInt(self.int_of(v))
        if isinstance(v, VStr):
            ok = self.unint("int.ok", [S], B)(v.t)
            digits = z3.InRe(v.t, z3.Plus(z3.Range("0", "9")))
            self.assume(z3.Implies(digits, ok))
            self.assume(z3.Implies(v.t == z3.StringVal(""), z3.Not(ok)))
            if not self.branch(ok):
                self.raise_py("ValueError", getattr(node, "lineno", None))
            r = self.unint("int.of", [S], I)(v.t)
            self.assume(z3.Implies(digits, r == z3.StrToInt(v.t)))
            return VInt(r)
        if v is VNone:
            self.raise_py("TypeError")
        if isinstance(v, VAny):
            raise Unsupported("int of an unknown value")
        self.raise_py("TypeError")

    def b_bool(self, args, kwargs, node, fr):
        return VBool(self.truth(args[0])) if args else VBool(False)

    def b_list(self, args, kwargs, node, fr):
        if not args:
            return self.new_list([])
        return self.to_list(args[0])

    def b_tuple(self, args, kwargs, node, fr):
        if not args:
            return VTup([])
        v = self.force(args[0])
        if isinstance(v, VGen):
            v = self.comp_list(v.node, v.frame)
        seq = self.concrete_seq(v)
        if seq is not None:
            return VTup(seq)
        return self.to_list(v)

    def b_dict(self, args, kwargs, node, fr):
        if not args:
            d = self.new_dict([(VStr(k), v) for k, v in kwargs.items()])
            return d
        v = self.force(args[0])
        if self.is_dict(v):
            d = self.dict_copy(v)
            d = VRef(d.t, self.prog.builtin["dict"], False, d.elem)
            for k, x in kwargs.items():
                self.dict_set(d, VStr(k), x)
            return d
        if isinstance(v, VGen):
            v = self.comp_list(v.node, v.frame)
        seq = self.concrete_seq(v)
        if seq is not None:
            d = self.new_dict([])
            for x in seq:
                x = self.force(x)
                if not (isinstance(x, VTup) and len(x.items) == 2):
                    raise Unsupported("dict of pairs")
                self.dict_set(d, x.items[0], x.items[1])
                d.elem = (type_of(x.items[0]), type_of(x.items[1]))
            return d
        if isinstance(v, VIter):
            return self.dict_from_iter(v)
        raise Unsupported("dict()")

    def dict_from_iter(self, it):
        """dict(pairs): the last pair with a given key wins."""
        if it.on_start:
            it.on_start()
        k = self.bound("k", I)
        x = self.iter_bound(it, k)
        if x is None or not isinstance(x, VTup):
            raise Unsupported("dict of an iterator")
        kt, vt = enc(x.items[0]), enc(x.items[1])
        n = it.length()
        self.assume(n >= 0)
        d = self.new_dict([], (type_of(x.items[0]), type_of(x.items[1])))
        has = self.fresh("has", z3.ArraySort(Val, B))
        mp = self.fresh("map", z3.ArraySort(Val, Val))
        dn = self.fresh("dn", I)
        dk, di = self.fresh("dk", z3.ArraySort(I, Val)), self.fresh("di", z3.ArraySort(Val, I))
        last = z3.Function(self.fresh_name("last"), Val, I)
        v = self.bound("v", Val)

        def at(t, idx):
            return z3.substitute(t, (k, idx))

        pats = [kt] if kt.num_args() and not kt.eq(k) else None
        kw = {"patterns": [kt]} if has_var(kt, k) and z3.is_app(kt) and kt.decl().kind() in (z3.Z3_OP_SELECT,) else {}
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(has, kt), last(kt) >= k)), **kw))
        self.assume(z3.ForAll([v], z3.Implies(z3.Select(has, v), z3.And(0 <= last(v), last(v) < n, at(kt, last(v)) == v, z3.Select(mp, v) == at(vt, last(v)))), patterns=[z3.Select(has, v)]))
        self.assume(z3.ForAll([v], z3.Implies(z3.Select(has, v), z3.And(0 <= last(v), last(v) < n, at(kt, last(v)) == v, z3.Select(mp, v) == at(vt, last(v)))), patterns=[z3.Select(mp, v)]))
        self.assume(z3.And(dn >= 0, dn <= n))
        for a, t in (("#has", has), ("#map", mp), ("#dn", dn), ("#dk", dk), ("#di", di)):
            self.heap[a] = z3.Store(self.H(a), d.t, t)
        return d

    def b_enumerate(self, args, kwargs, node, fr):
        st = args[1] if len(args) > 1 else kwargs.get("start", VInt(0))
        v = self.force(args[0])
        seq = self.concrete_seq(v)
        s = self.int_of(st)
        if seq is not None:
            return VTup([VTup([VInt(z3.simplify(s + i)), x]) for i, x in enumerate(seq)])
        it = self.iterator(v)
        return VIter(it.length, lambda k: VTup([VInt(z3.simplify(k + s)), it.get(k)]), src=it.src, kind="enumerate" if it.kind != "iter" else "iter", on_start=it.on_start, parts=[it, s])

    def b_zip(self, args, kwargs, node, fr):
        vs = [self.force(a) for a in args]
        seqs = [self.concrete_seq(v) for v in vs]
        if all(s is not None for s in seqs):
            return VTup([VTup(list(x)) for x in zip(*seqs)])
        its = [self.iterator(v) for v in vs]

        def length():
            n = its[0].length()
            for i in its[1:]:
                m = i.length()
                n = z3.If(m < n, m, n)
            return n

        def start():
            for i in its:
                if i.on_start:
                    i.on_start()

        return VIter(length, lambda k: VTup([i.get(k) for i in its]), kind="zip", on_start=start, parts=its)

    def b_range(self, args, kwargs, node, fr):
        a = [self.int_of(x) for x in args]
        if len(a) == 3:
            raise Unsupported("range step")
        lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
        return VIter(lambda: z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda k: VInt(z3.simplify(lo + k)), kind="range")

    def b_reversed(self, args, kwargs, node, fr):
        v = self.force(args[0])
        seq = self.concrete_seq(v)
        if seq is not None:
            return VTup(seq[::-1])
        return self.list_reversed(v if self.is_list(v) else self.to_list(v))

    def b_sorted(self, args, kwargs, node, fr):
        return self.model_sorted(args[0], kwargs, node, fr)

    def model_sorted(self, v, kwargs, node, fr):
        """sorted(): a permutation in key order; key evaluated as a pure function."""
        lst = self.to_list(v)
        n, a = self.list_len(lst), self.list_arr(lst)
        self.assume(n >= 0)
        e = self.fresh("sorted", z3.ArraySort(I, Val))
        fw = z3.Function(self.fresh_name("perm"), I, I)
        bw = z3.Function(self.fresh_name("perminv"), I, I)
        k = self.bound("k", I)
        j = self.bound("j", I)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), zand([0 <= fw(k), fw(k) < n, bw(fw(k)) == k, z3.Select(e, k) == z3.Select(a, fw(k))])), patterns=[z3.Select(e, k)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), zand([0 <= bw(k), bw(k) < n, fw(bw(k)) == k, z3.Select(e, bw(k)) == z3.Select(a, k)])), patterns=[z3.Select(a, k)]))
        rev = kwargs.get("reverse")
        isrev = rev is not None and z3.is_true(z3.simplify(self.truth(rev)))
        key = kwargs.get("key")

        def kt(idx):
            x = self.pure().dec(z3.Select(e, idx), lst.elem or T_ANY)
            if key is None:
                return x
            if isinstance(key, VFunc) and len(key.fi.node.body) == 1 and isinstance(key.fi.node.body[0], ast.Return):
                env = self.pure_env(key.closure) if key.closure is not None else {}
                env[key.fi.params[0]] = x
                p = Pure(self, self.heap, env, None, key.fi.module, True, key.closure)
                return p.narrow(self.pure_expr(p, key.fi.node.body[0].value))
            if isinstance(key, VFunc):
                r = self.pure_function(self.pure(code=True), key.fi, [x])
                if r is not None:
                    return r
            raise Unsupported("sort key")

        def le(x, y):
            if isinstance(x, VTup):
                if not x.items:
                    return z3.BoolVal(True)
                p = self.pure()
                hx, hy = p.narrow(x.items[0]), p.narrow(y.items[0])
                r = le(VTup(x.items[1:]), VTup(y.items[1:])) if len(x.items) > 1 else z3.BoolVal(True)
                return z3.Or(lt(hx, hy), z3.And(hx.t == hy.t, r))
            return x.t <= y.t if not isrev else x.t >= y.t

        def lt(x, y):
            return x.t < y.t if not isrev else x.t > y.t

        x, y = kt(j), kt(k)
        self.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), le(x, y)), patterns=[z3.MultiPattern(z3.Select(e, j), z3.Select(e, k))]))
        return self.list_from_array(e, n, lst.elem)

    def minmax(self, args, kwargs, less):
        if len(args) == 1:
            v = self.force(args[0])
            if isinstance(v, VGen):
                v = self.comp_list(v.node, v.frame)
            seq = self.concrete_seq(v)
            if seq is None:
                raise Unsupported("min/max of a symbolic sequence")
            args = seq
        out = args[0]
        p = self.pure()
        for x in args[1:]:
            a, b = self.int_of(out), self.int_of(x)
            out = VInt(z3.simplify(z3.If(less(b, a), b, a)))
        return out

    def b_min(self, args, kwargs, node, fr):
        return self.minmax(args, kwargs, lambda a, b: a < b)

    def b_max(self, args, kwargs, node, fr):
        return self.minmax(args, kwargs, lambda a, b: a > b)

    def b_any(self, args, kwargs, node, fr):
        return self.anyall(args[0], fr, True)

    def b_all(self, args, kwargs, node, fr):
        return self.anyall(args[0], fr, False)

    def anyall(self, v, fr, is_any):
        v = self.force(v)
        if isinstance(v, VGen):
            g = v.node.generators[0]
            it = self.force(self.ev(g.iter, v.frame))
            seq = self.concrete_seq(it) if len(v.node.generators) == 1 else None
            if seq is None and len(v.node.generators) == 1:
                p = Pure(self, self.heap, self.pure_env(v.frame), None, v.frame.module, True, v.frame)
                t = p._gq(v.node.generators, v.node.elt, not is_any)
                for d in p.defs:
                    self.check(d, f"{self.tname()}:quantifier-defined", v.node.lineno)
                return VBool(t)
            v = self.comp_list(v.node, v.frame)
        seq = self.concrete_seq(v)
        if seq is None:
            p = self.pure()
            it = p.iter_value(v)
            vs, guard, val, pat = it
            t = p.truth(val)
            return VBool(z3.Exists(vs, z3.And(guard, t)) if is_any else z3.ForAll(vs, z3.Implies(guard, t)))
        ts = [self.truth(x) for x in seq]
        return VBool(zor(ts) if is_any else zand(ts))

    def b_getattr(self, args, kwargs, node, fr):
        from .engine import PyRaise
        nm = z3.simplify(self.str_arg(args[1]))
        if not z3.is_string_value(nm):
            raise Unsupported("getattr with a symbolic name")
        from .execmixin import pystr
        name = pystr(nm)
        o = self.force(args[0])
        if isinstance(o, VRef) and o.cls is not None and not o.cls.external and not o.cls.find(name) and name not in self.inst_attrs(o.cls) and not o.cls.find_attr(name):
            if o.exact or not any(c.find(name) or c.find_attr(name) for c in o.cls.all_subs()):
                if len(args) > 2:
                    return args[2]
                self.raise_py("AttributeError", getattr(node, "lineno", None))
        return self.getattr(o, name, node)

    def b_hasattr(self, args, kwargs, node, fr):
        raise Unsupported("hasattr")

    def b_sum(self, args, kwargs, node, fr):
        v = self.force(args[0])
        if isinstance(v, VGen):
            v = self.comp_list(v.node, v.frame)
        seq = self.concrete_seq(v)
        if seq is None:
            return VInt(self.fresh("sum", I))
        t = z3.IntVal(0)
        for x in seq:
            t = t + self.int_of(x)
        return VInt(z3.simplify(t))

    def b_abs(self, args, kwargs, node, fr):
        t = self.int_of(args[0])
        return VInt(z3.If(t < 0, -t, t))

    def b_callable(self, args, kwargs, node, fr):
        return VBool(self.unint("callable", [Val], B)(enc(args[0])))

    def b_type(self, args, kwargs, node, fr):
        v = self.force(args[0])
        if isinstance(v, VRef) and v.exact:
            return VClass(v.cls)
        raise Unsupported("type()")

    def b_print(self, args, kwargs, node, fr):
        return VNone

    def b_set(self, args, kwargs, node, fr):
        if not args:
            return self.set_of([])
        v = self.force(args[0])
        if self.is_set(v):
            return self.new_set(self.set_has(v), v.elem)
        if isinstance(v, VIter) and v.kind == "keys" or self.is_dict(v):
            d = v if self.is_dict(v) else v.src
            return self.new_set(self.sel(self.H("#has"), d.t), (d.elem or (T_ANY,))[0])
        if isinstance(v, VGen):
            v = self.comp_list(v.node, v.frame)
        seq = self.concrete_seq(v)
        if seq is not None:
            return self.set_of(seq)
        return self.set_from_list(v if self.is_list(v) else self.to_list(v))

    def b_hash(self, args, kwargs, node, fr):
        return VInt(self.fresh("hash", I))

    def b_id(self, args, kwargs, node, fr):
        return VInt(self.fresh("id", I))

    def b_map(self, args, kwargs, node, fr):
        v = self.force(args[1])
        seq = self.concrete_seq(v)
        if seq is None:
            raise Unsupported("map over a symbolic sequence")
        return VTup([self.call(args[0], [x], {}, node, fr) for x in seq])

    def b_filter(self, args, kwargs, node, fr):
        v = self.force(args[1])
        seq = self.concrete_seq(v)
        if seq is None:
            raise Unsupported("filter over a symbolic sequence")
        out = []
        for x in seq:
            r = x if args[0] is VNone else self.call(args[0], [x], {}, node, fr)
            if self.branch(self.truth(r)):
                out.append(x)
        return VTup(out)

    def b_iter(self, args, kwargs, node, fr):
        return args[0]

    def b_next(self, args, kwargs, node, fr):
        """next(iter(x)[, default]): the first element.  The iterator must have been made in the call itself."""
        a = node.args[0] if isinstance(node, ast.Call) and node.args else None
        made = isinstance(a, ast.GeneratorExp) or (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "iter")
        if not made:
            raise Unsupported("next of an iterator that was made elsewhere")
        v = self.force(args[0])
        seq = self.concrete_seq(v)
        if seq is not None:
            if seq:
                return seq[0]
            if len(args) > 1:
                return args[1]
            self.raise_py("StopIteration")
        it = self.iterator(v)
        if it.on_start:
            it.on_start()
        if self.branch(it.length() > 0):
            return it.get(z3.IntVal(0))
        if len(args) > 1:
            return args[1]
        self.raise_py("StopIteration")


def has_var(t, v):
    todo = [t]
    while todo:
        x = todo.pop()
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False
