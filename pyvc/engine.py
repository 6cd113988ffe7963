"""Path-based symbolic executor / verification-condition generator.

One `Interp` executes one path of one function; `explore` re-executes until every
decision has been tried.  Loops are cut at invariants, calls at contracts.
"""
from __future__ import annotations

import ast
import time

import z3

from .front import ClassInfo, FuncInfo, Unsupported, walk_own
from .pure import Pure, bind_target, const_value, int_to_str, parse_expr, strip_opt, substr, type_of, zand, zor
from .values import *  # noqa: F401,F403
from .values import Val, I, B, S, NONE, clsof


_F = z3.Datatype("Fuel")
_F.declare("Z")
_F.declare("LS", ("pred", _F))
Fuel = _F.create()


class StrictHeap(dict):
    """Heap of a recursive spec function: only the declared arrays may be read."""


def leaves(t):
    return [t] if t.num_args() == 0 else [x for c in t.children() for x in leaves(c)]


class FreeHeap(dict):
    """An arbitrary heap, for the statement of a lemma."""

    def __init__(self, label="arr", share=()):
        super().__init__()
        self.share = share
        self.label = label
        self.fuel = None

    def get(self, name, default=None):
        if name not in self:
            self[name] = z3.Const(f"?{'arr' if name in self.share else self.label}.{name}", arr_sort(name))
        return self[name]


class PathEnd(Exception):
    """The path is finished (infeasible, or cut at a loop head)."""


class Restart(Exception):
    """Loop information grew: explore the function again."""


class PyRaise(Exception):
    def __init__(self, ci, val=None, line=None):
        self.ci = ci
        self.val = val
        self.line = line


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Frame:
    def __init__(self, fi, env, module, closure=None, cls=None):
        self.fi = fi
        self.env = env
        self.module = module
        self.closure = closure
        self.cls = cls
        self.old = None
        self.old_params = None
        self.nonlocals = set()


class Obligation:
    def __init__(self, name, pc, goal, line=None, trace=()):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.line = line
        self.trace = trace


class Shared:
    """Information kept between the paths of one function."""

    def __init__(self):
        self.loops = {}
        self.obligations = []
        self.normal_paths = 0
        self.raise_paths = 0
        self.reached = set()
        self.notes = []
        self.used_contracts = set()
        self.inlined = set()
        self.externs = set()
        self.feas_time = 0.0
        self.paths = 0
        self.feas_unknown = 0


class LoopInfo:
    def __init__(self):
        self.arrays = {}      # array name -> dict(key -> target term) or None (no frame)
        self.ltypes = {}


from .builtins_model import BuiltinsMixin  # noqa: E402
from .regexmodel import RegexMixin  # noqa: E402


class Interp(BuiltinsMixin, RegexMixin):
    FEAS_TIMEOUT = 250

    def __init__(self, prog, reg, shared, prefix, target=None):
        self.prog = prog
        self.reg = reg
        self.sh = shared
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.pending = 0
        self.solver = None
        self.heap = {}
        self.ctr = {}
        self.alloc = z3.Int("alloc@0")
        self.pc.append(self.alloc > 1000)
        self.news = {}           # term id -> (term, sequence number) for refs allocated on this path
        self.seq = 0
        self.lits = {}
        self.depth = 0
        self.target = target     # Contract being verified
        self.loopstack = []
        self.modcheck = None     # predicate for the frame of the verified function
        self.entry_alloc = None
        self.entry_seq = 0
        self.ufs = {}
        self.globals_cache = {}
        self.callstack = []
        self.recfuel = {}
        self.axioms_done = set()
        self.top_frame = None
        self.fn_old = None
        self.param_alias = {}
        self.dec_entry = None
        self.line = None
        self.isa_facts = {}
        self.inited = set()
        self.age = {}
        self.fresh_at = {}       # results of calls that are new objects: term id -> (term, sequence number)
        self.neq = {}
        self.tcls = {}           # the classes a reference term is used at: term id -> [term, classes]
        self.known = {}          # assumed literals by id: decided without the solver
        self.cuts = 0
        self.set_src = {}        # membership arrays of sets made from a list
        self.ground = set()      # class attributes whose facts are in the path condition
        self.assert_axioms()

    # ------------------------------------------------------------------ basics
    def assert_axioms(self):
        pass

    def fresh_name(self, hint):
        k = self.ctr.get(hint, 0)
        self.ctr[hint] = k + 1
        return f"{hint}!{k}"

    def fresh(self, hint, sort):
        return z3.Const(self.fresh_name(hint), sort)

    def bound(self, hint, sort):
        return z3.Const(self.fresh_name("?" + hint), sort)

    def unint(self, name, dom, rng):
        return z3.Function(name, *dom, rng)

    def str_of(self, v):
        return self.unint("str.of", [Val], S)(enc(v))

    def assume(self, t):
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.note_neq(t)
        self.known[t.get_id()] = t

    def note_neq(self, t):
        """Remember disequalities of references: they resolve reads over writes without the solver."""
        if z3.is_and(t):
            for c in t.children():
                self.note_neq(c)
            return
        if z3.is_not(t) and z3.is_eq(t.arg(0)):
            a, b = t.arg(0).children()
        elif z3.is_distinct(t) and t.num_args() == 2:
            a, b = t.children()
        else:
            return
        if a.sort() == Val:
            a, b = [x.arg(0) if z3.is_app(x) and x.decl().name() == "r" else z3.simplify(Val.rv(x)) for x in (a, b)]
        if a.sort() != I:
            return
        self.neq[frozenset((a.get_id(), b.get_id()))] = (a, b)

    def _mk_solver(self):
        s = z3.Solver()
        s.set("timeout", self.FEAS_TIMEOUT)
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
        return s

    def feasible(self, c):
        if self.solver is None:
            self.solver = self._mk_solver()
        while self.pending < len(self.pc):
            self.solver.add(self.pc[self.pending])
            self.pending += 1
        t0 = time.time()
        r = self.solver.check(c)
        self.sh.feas_time += time.time() - t0
        if r == z3.unknown:
            self.sh.feas_unknown += 1
        return r != z3.unsat

    def entails(self, c):
        """Quick check that the path condition implies c (False when unknown)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z3.Not(c))

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.assume(c if d[0] else z3.Not(c))
            return d[0]
        if c.get_id() in self.known:
            t, f = True, False
        elif z3.Not(c).get_id() in self.known or (z3.is_not(c) and c.arg(0).get_id() in self.known):
            t, f = False, True
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
        if not t and not f:
            self.trace.append((True, []))
            raise PathEnd()
        if t and f:
            self.trace.append((True, [False]))
            self.assume(c)
            return True
        self.trace.append((t, []))
        self.assume(c if t else z3.Not(c))
        return t

    def choose(self, n):
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d[0]
        self.trace.append((0, list(range(1, n))))
        return 0

    def check(self, goal, name, line=None):
        """Emit a proof obligation, then assume it."""
        g = z3.simplify(goal)
        if len(self.trace) >= len(self.prefix):
            self.sh.obligations.append(Obligation(name, list(self.pc), g, line, tuple(d[0] for d in self.trace)))
        if not z3.is_true(g):
            self.assume(goal)

    def raise_py(self, name, line=None):
        raise PyRaise(self.prog.builtin[name], None, line)

    # -------------------------------------------------------------------- heap
    def heap_get(self, heap, name):
        a = heap.get(name)
        if a is None:
            if isinstance(heap, StrictHeap):
                raise Unsupported(f"spec function reads {name} without declaring it")
            a = z3.Const(name + "@0", arr_sort(name))
            heap[name] = a
        return a

    def H(self, name):
        return self.heap_get(self.heap, name)

    def aged(self, t, when=None):
        """The reference t is known to be allocated now: it differs from every object created later."""
        k = t.get_id()
        if k not in self.age:
            self.age[k] = (t, self.seq if when is None else when)

    def note_cls(self, t, ci):
        k = self.tcls.setdefault(t.get_id(), [t, []])[1]
        if ci not in k:
            k.append(ci)

    def unrelated(self, a, b):
        """No object is an instance of both: the two terms are used at classes without a common subclass."""
        ca, cb = self.tcls.get(a.get_id()), self.tcls.get(b.get_id())
        return ca is not None and cb is not None and all(self.prog.unrelated(x, y) for x in ca[1] for y in cb[1])

    def distinct(self, a, b):
        if self.unrelated(a, b):
            return True
        na, nb = self.news.get(a.get_id()), self.news.get(b.get_id())
        if na is not None and nb is not None:
            return na[0].get_id() != nb[0].get_id()
        if na is None and nb is None:
            fa, fb = self.fresh_at.get(a.get_id()), self.fresh_at.get(b.get_id())
            if fa is not None and fb is not None and fa[1] != fb[1]:
                return True
            for f, o in ((fa, b), (fb, a)):
                if f is not None:
                    g = self.age.get(o.get_id())
                    if g is not None and g[1] < f[1]:
                        return True
            return frozenset((a.get_id(), b.get_id())) in self.neq
        n, o = (na, b) if na is not None else (nb, a)
        f = self.fresh_at.get(o.get_id())
        if f is not None and f[1] > n[1]:
            return True
        g = self.age.get(o.get_id())
        return g is not None and g[1] <= n[1]

    def sel(self, arr, ref):
        """Select with store-chain resolution by allocation age."""
        while z3.is_store(arr):
            i = arr.arg(1)
            if i.eq(ref):
                return arr.arg(2)
            if not self.distinct(i, ref):
                break
            arr = arr.arg(0)
        return z3.Select(arr, ref)

    def set_at(self, name, ref, val, line=None):
        """Store into heap array `name` at `ref`, with frame bookkeeping."""
        rid = ref.get_id()
        born = self.news.get(rid)
        if born is not None and name[0] != "#" and (name, rid) not in self.inited \
                and (not self.loopstack or born[1] >= self.loopstack[-1]["seq"]):
            # the first store into a field of a new object: nothing constrains that cell before it, so the
            # initialisation is an assumption about the (not yet constrained) heap rather than a new heap
            self.inited.add((name, rid))
            self.assume(self.sel(self.H(name), ref) == val)
            return
        self.inited.add((name, rid))
        self.note_store(name, ref, line)
        self.heap[name] = z3.Store(self.H(name), ref, val)

    def note_store(self, name, ref, line=None):
        ref_id = ref.get_id()
        born = self.news.get(ref_id)
        for L in self.loopstack:
            if born is not None and born[1] >= L["seq"]:
                continue
            self.loop_target(L, name, ref, line)
        if self.modcheck is not None and (born is None or born[1] < self.modcheck["seq"]):
            ok = self.modcheck["pred"](name, ref)
            c = z3.Or(ref >= self.entry_alloc, ok)
            cs = z3.simplify(c)
            if not z3.is_true(cs):
                self.check(c, f"{self.modcheck['name']}:frame:{name}", line)

    def loop_target(self, L, name, ref, line):
        info = L["info"]
        t = info.arrays.get(name, "absent")
        if t is None:
            return          # whole array havocked
        inv = self.loop_invariant_term(L, ref)
        if inv:
            key = ref.sexpr()
            if t == "absent":
                info.arrays[name] = {key: ref}
                raise Restart()
            if key not in t:
                t[key] = ref
                raise Restart()
            return
        # not syntactically invariant: fresh in this loop?
        if self.entails(ref >= L["alloc"]):
            return
        pred = L.get("modpred")
        if pred is not None:
            p = pred(name, ref)
            if not z3.is_false(z3.simplify(p)):
                if t == "absent":
                    info.arrays[name] = {}
                    raise Restart()
                alts = [ref >= L["alloc"], p] + [ref == x for x in t.values()]
                self.check(z3.Or(alts), f"{L['name']}:loop-frame:{name}", line)
                return
        if t != "absent" and t and self.entails(z3.Or([ref == x for x in t.values()])):
            return
        info.arrays[name] = None
        raise Restart()

    def loop_invariant_term(self, L, term):
        """The term only uses symbols that existed before the loop head was havocked."""
        names = L["symbols"]
        seen = set()
        todo = [term]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if "@0" in n and n not in names:
                    continue
                if n not in names and not self.symbol_before(n, L):
                    return False
            todo.extend(x.children())
        return True

    def symbol_before(self, n, L):
        if "!" not in n:
            return True
        base, k = n.rsplit("!", 1)
        if not k.isdigit():
            return True
        return int(k) < L["ctr"].get(base, 0)

    def new_ref(self, ci, hint="new"):
        r = self.fresh(hint, I)
        self.assume(r == self.alloc)
        self.alloc = r + 1
        if ci is not None:
            self.assume(clsof(r) == ci.id)
        self.news[r.get_id()] = (r, self.seq, self.cuts)
        self.seq += 1
        return r

    def new_list(self, items=(), elem=None):
        r = self.new_ref(self.prog.builtin["list"], "list")
        arr = self.fresh("elts", z3.ArraySort(I, Val))
        ts = []
        for i, x in enumerate(items):
            arr = z3.Store(arr, i, enc(x))
            ts.append(type_of(x))
        self.heap["#len"] = z3.Store(self.H("#len"), r, z3.IntVal(len(items)))
        self.heap["#elt"] = z3.Store(self.H("#elt"), r, arr)
        if elem is None and ts:
            elem = t_union(ts)
        return VRef(r, self.prog.builtin["list"], True, elem)

    def list_from_array(self, arr, n, elem):
        r = self.new_ref(self.prog.builtin["list"], "list")
        self.heap["#len"] = z3.Store(self.H("#len"), r, n)
        self.heap["#elt"] = z3.Store(self.H("#elt"), r, arr)
        return VRef(r, self.prog.builtin["list"], True, elem)

    def new_dict(self, items=(), ty=None, cls="dict"):
        r = self.new_ref(self.prog.builtin[cls], "dict")
        h = self.heap
        h["#has"] = z3.Store(self.H("#has"), r, z3.K(Val, z3.BoolVal(False)))
        h["#map"] = z3.Store(self.H("#map"), r, self.fresh("dmap", z3.ArraySort(Val, Val)))
        h["#dn"] = z3.Store(self.H("#dn"), r, z3.IntVal(0))
        h["#dk"] = z3.Store(self.H("#dk"), r, self.fresh("dkeys", z3.ArraySort(I, Val)))
        h["#di"] = z3.Store(self.H("#di"), r, self.fresh("didx", z3.ArraySort(Val, I)))
        d = VRef(r, self.prog.builtin[cls], True, ty)
        for k, v in items:
            self.dict_set(d, k, v)
        return d

    # -- sets: the membership array only
    def new_set(self, has, elem=None):
        r = self.new_ref(self.prog.builtin["set"], "set")
        self.heap["#has"] = z3.Store(self.H("#has"), r, has)
        return VRef(r, self.prog.builtin["set"], True, elem)

    def set_has(self, v):
        return self.sel(self.H("#has"), v.t)

    def is_set(self, v):
        return isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name == "set"

    @staticmethod
    def hashed_by_value(ty):
        """Elements of this type are equal exactly when their encodings are."""
        if ty[0] == "union":
            return all(t in (T_INT, T_STR, T_NONE) or t[0] == "enum" for t in ty[1])
        if ty[0] == "tuple":
            return all(t in (T_INT, T_STR, T_NONE) or t[0] == "enum" for t in ty[1])
        return ty in (T_INT, T_STR) or ty[0] == "enum"

    def set_of(self, items):
        """A set with these elements."""
        has = z3.K(Val, z3.BoolVal(False))
        tys = []
        for x in items:
            ty = type_of(x)
            if not self.hashed_by_value(ty):
                raise Unsupported("set of values compared with ==")
            tys.append(ty)
            has = z3.Store(has, enc(x), z3.BoolVal(True))
        return self.new_set(has, t_union(tys) if tys else T_ANY)

    def set_from_list(self, v):
        et = v.elem or T_ANY
        if not self.hashed_by_value(et):
            raise Unsupported("set of values compared with ==")
        arr, n = self.sel(self.H("#elt"), v.t), self.sel(self.H("#len"), v.t)
        has = self.fresh("shas", z3.ArraySort(Val, B))
        at = z3.Function(self.fresh_name("sat"), Val, I)
        k, x = self.bound("k", I), self.bound("x", Val)
        there = z3.Select(arr, at(x))
        shape = there == Val.s(Val.sv(there)) if et == T_STR else z3.BoolVal(True)      # the term the specifications speak about
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(has, z3.Select(arr, k))), patterns=[z3.Select(arr, k)]))
        self.assume(z3.ForAll([x], z3.Implies(z3.Select(has, x), z3.And(0 <= at(x), at(x) < n, there == x, shape)), patterns=[z3.Select(has, x)]))
        self.set_src[has.get_id()] = (has, v)
        return self.new_set(has, et)

    def set_op(self, op, a, b):
        has = self.fresh("shas", z3.ArraySort(Val, B))
        ha, hb = self.set_has(a), self.set_has(b)
        x = self.bound("x", Val)
        pa, pb = z3.Select(ha, x), z3.Select(hb, x)
        body = {"|": z3.Or(pa, pb), "&": z3.And(pa, pb), "-": z3.And(pa, z3.Not(pb))}[op]
        self.assume(z3.ForAll([x], z3.Select(has, x) == body, patterns=[z3.Select(has, x), pa, pb]))
        return self.new_set(has, a.elem)

    def dict_set(self, d, k, v, line=None):
        kt = enc(k)
        r = d.t
        has = self.sel(self.H("#has"), r)
        mp = self.sel(self.H("#map"), r)
        n = self.sel(self.H("#dn"), r)
        dk = self.sel(self.H("#dk"), r)
        di = self.sel(self.H("#di"), r)
        self.drop_lits(r)
        present = z3.Select(has, kt)
        self.set_at("#has", r, z3.Store(has, kt, z3.BoolVal(True)), line)
        self.set_at("#map", r, z3.Store(mp, kt, enc(v)), line)
        self.set_at("#dn", r, z3.simplify(z3.If(present, n, n + 1)), line)
        self.set_at("#dk", r, z3.If(present, dk, z3.Store(dk, n, kt)), line)
        self.set_at("#di", r, z3.If(present, di, z3.Store(di, kt, n)), line)

    def drop_lits(self, r):
        rid = r.get_id()
        if rid in self.lits:
            del self.lits[rid]
        elif rid not in self.news:
            self.lits.clear()

    def dict_wf(self, d):
        """Ordering facts that hold of every Python dict."""
        r = d.t
        has = self.sel(self.H("#has"), r)
        n = self.sel(self.H("#dn"), r)
        dk = self.sel(self.H("#dk"), r)
        di = self.sel(self.H("#di"), r)
        key = ("wf", has.get_id(), n.get_id(), dk.get_id(), di.get_id())
        if key in self.axioms_done:
            return
        self.axioms_done.add(key)
        self._keep = getattr(self, "_keep", [])
        self._keep.append((has, n, dk, di))
        k = self.bound("k", I)
        v = self.bound("v", Val)
        self.assume(n >= 0)
        self.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(has, z3.Select(dk, k)), z3.Select(di, z3.Select(dk, k)) == k)), patterns=[z3.Select(dk, k)]))
        self.assume(z3.ForAll([v], z3.Implies(z3.Select(has, v), z3.And(0 <= z3.Select(di, v), z3.Select(di, v) < n, z3.Select(dk, z3.Select(di, v)) == v)), patterns=[z3.Select(has, v)]))

    def list_wf(self, r):
        self.assume(self.sel(self.H("#len"), r) >= 0)

    # -------------------------------------------------------------------- types
    def parse_type(self, t, module=None):
        if isinstance(t, tuple):
            return t
        if isinstance(t, str):
            t = parse_expr(t)
        return self._ptype(t, module)

    def _ptype(self, n, module):
        if isinstance(n, ast.Constant):
            if n.value is None:
                return T_NONE
            if isinstance(n.value, str):
                return self._ptype(parse_expr(n.value), module)
            return T_ANY
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return t_union([self._ptype(n.left, module), self._ptype(n.right, module)])
        if isinstance(n, (ast.Name, ast.Attribute)):
            name = n.id if isinstance(n, ast.Name) else n.attr
            simple = {"int": T_INT, "str": T_STR, "bool": T_BOOL, "None": T_NONE, "Any": T_ANY, "object": T_ANY,
                      "Callable": T_FUNC, "func": T_FUNC, "any": T_ANY}
            if name in simple:
                return simple[name]
            if name in ("list", "Sequence", "Iterable", "List"):
                return ("list", T_ANY)
            if name in ("dict", "Mapping", "MutableMapping", "Dict"):
                return ("dict", T_ANY, T_ANY)
            if name in ("set", "Set"):
                return ("set", T_ANY)
            if name in ("tuple", "type", "float", "bytes"):
                return T_ANY
            if module is not None:
                r = self.prog.resolve(module, name)
                if r is not None and r[0] == "class":
                    return self.cls_type(r[1])
                if r is not None and r[0] == "expr":
                    return self._ptype(r[1], r[2])
            if self.prog.has_cls(name):
                return self.cls_type(self.prog.cls(name))
            return T_ANY
        if isinstance(n, ast.Subscript):
            h = n.value.id if isinstance(n.value, ast.Name) else getattr(n.value, "attr", "")
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if h in ("list", "Sequence", "Iterable", "List"):
                return ("list", self._ptype(args[0], module))
            if h in ("dict", "Mapping", "MutableMapping", "Dict", "defaultdict"):
                return ("dict", self._ptype(args[0], module), self._ptype(args[1], module))
            if h in ("set", "Set"):
                return ("set", self._ptype(args[0], module))
            if h == "tuple":
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return T_ANY
                return ("tuple", [self._ptype(a, module) for a in args])
            if h == "Exact":
                return ("cls", self._ptype(args[0], module)[1], True)
            if h == "Optional":
                return t_union([self._ptype(args[0], module), T_NONE])
            if h == "Union":
                return t_union([self._ptype(a, module) for a in args])
            if h == "Callable":
                return T_FUNC
            return T_ANY
        if isinstance(n, ast.List):
            return T_ANY
        return T_ANY

    def cls_type(self, ci):
        if ci.is_enum and not ci.external:
            return ("enum", ci)
        if ci.external and ci.name == "object":
            return T_ANY
        if ci.external and ci.name == "list":
            return ("list", T_ANY)
        if ci.external and ci.name in ("dict", "defaultdict"):
            return ("dict", T_ANY, T_ANY)
        if ci.external and ci.name == "set":
            return ("set", T_ANY)
        return ("cls", ci, False)

    def ref_of_type(self, t, ty, raw=None):
        if ty[0] == "cls":
            self.note_cls(t, ty[1])
            return VRef(t, ty[1], ty[2], None, raw)
        if ty[0] == "list":
            return VRef(t, self.prog.builtin["list"], True, ty[1], raw)
        if ty[0] == "dict":
            return VRef(t, self.prog.builtin["dict"], False, (ty[1], ty[2]), raw)
        if ty[0] == "set":
            return VRef(t, self.prog.builtin["set"], True, ty[1], raw)
        raise Unsupported(f"type {ty}")

    def field_type(self, cls, name):
        if cls is not None:
            for c in cls.mro:
                f = self.reg.fields.get(c.name)
                if f and name in f:
                    return self.parse_type(f[name])
                if name in c.field_ann:
                    return self.parse_type(c.field_ann[name], c.module)
        f = self.reg.fields.get("*")
        if f and name in f:
            return self.parse_type(f[name])
        return T_ANY

    def hname(self, cls, name):
        """The heap array of the field `name` of an object used at class `cls`."""
        fam = self.reg.splits.get(name)
        if fam is None:
            return name
        for f in fam:
            if cls is not None and any(c.name == f for c in cls.mro):
                return f"{name}/{f}"
        raise Unsupported(f"field {name} of an object of {'unknown class' if cls is None else cls.name}")

    def inst_attrs(self, cls):
        r = getattr(cls, "_inst", None)
        if r is not None:
            return r
        r = set()
        for c in cls.mro:
            if c.is_dataclass:
                r |= set(c.ann)
            for f in list(c.methods.values()) + list(c.setters.values()):
                ps = f.params
                if not ps:
                    continue
                me = ps[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                            and n.value.id in (me, "new_node", "result", "node"):
                        r.add(n.attr)
            r |= set(self.reg.fields.get(c.name, {}))
        # attributes that are only class attributes stay class attributes
        cls._inst = r
        return r

    def decode(self, term, ty, hint=""):
        """Decode a heap cell of static type `ty`, assuming the declared type."""
        p = self.pure()
        lim = self.entry_alloc if self.of_entry(term) else self.alloc
        if ty == T_ANY:
            self.assume(z3.Implies(Val.is_r(term), z3.And(Val.rv(term) > 0, Val.rv(term) < lim)))
            return self.concrete_or(term, ty)
        if ty[0] == "union" or ty == T_FUNC or ty[0] == "enum":
            self.assume(p.tag(term, ty))
            if ty[0] == "union":
                self.assume(z3.Implies(Val.is_r(term), z3.And(Val.rv(term) > 0, Val.rv(term) < lim)))
            return self.concrete_or(term, ty)
        self.assume(p.tag(term, ty))
        if ty[0] in ("cls", "list", "dict", "set"):
            t = z3.simplify(Val.rv(term))
            if t.get_id() not in self.age and t.get_id() not in self.news:
                if self.of_entry(term):
                    self.assume(z3.And(t > 0, t < self.entry_alloc))
                    self.aged(t, 0)
                else:
                    self.assume(z3.And(t > 0, t < self.alloc))
            self.aged(t)
            v = self.ref_of_type(t, ty, raw=None)
            self.on_ref(v)
            return v
        if ty[0] == "tuple":
            n = len(ty[1])
            acc = {2: (Val.t2a, Val.t2b), 3: (Val.t3a, Val.t3b, Val.t3c)}[n]
            return VTup([self.decode(z3.simplify(a(term)), u) for a, u in zip(acc, ty[1])])
        v = p.dec(term, ty)
        if isinstance(v, (VInt, VStr, VBool)):
            v.t = z3.simplify(v.t)
        return v

    def of_entry(self, term):
        """A cell of an object that existed on entry, read from a field nothing has stored to: its value existed on entry."""
        if self.entry_alloc is None or not z3.is_select(term):
            return False
        arr, ref = term.arg(0), term.arg(1)
        if z3.is_select(arr):      # an element of a container that existed on entry
            arr, ref = arr.arg(0), arr.arg(1)
        if not (z3.is_const(arr) and arr.decl().name().endswith("@0")):
            return False
        g = self.age.get(ref.get_id())
        return g is not None and g[1] <= self.entry_seq

    def typing_instance(self, ref, cls, term, ty, lim):
        """The declared type of a field, for an allocated object of the class (heap typing)."""
        key = ("ty", term.get_id(), cls)
        if key in self.axioms_done:
            return
        if self.has_bound(term):
            if term.decl().kind() == z3.Z3_OP_SELECT and not self.has_bound(term.arg(0)):
                self.field_typing(term.arg(0), cls, ty, lim)
            return
        if ref.get_id() in self.age and ty[0] in ("cls", "list", "dict", "set"):
            self.aged(z3.simplify(Val.rv(term)), 0 if lim.eq(self.fn_old[2] if self.fn_old else self.alloc) else None)
        self.axioms_done.add(key)
        self._keep = getattr(self, "_keep", [])
        self._keep.append((term, lim))
        fact = self.pure().tag(term, ty)
        alts = ty[1] if ty[0] == "union" else [ty]
        if any(a[0] in ("cls", "list", "dict", "set") for a in alts):
            fact = z3.And(fact, z3.Implies(Val.is_r(term), z3.And(Val.rv(term) > 0, Val.rv(term) < lim)))
        if any(a[0] == "list" for a in alts):
            pass
        self.assume(z3.Implies(z3.And(ref > 0, ref < lim, isa(self.prog, ref, cls)), fact))

    def field_typing(self, arr, cls, ty, lim):
        """The declared type of a field, for every allocated object of the class."""
        key = ("fty", arr.get_id(), cls, lim.get_id())
        if key in self.axioms_done:
            return
        self.axioms_done.add(key)
        self._keep = getattr(self, "_keep", [])
        self._keep.append((arr, lim))
        base = z3.simplify(arr)
        while z3.is_store(base):
            base = base.arg(0)
        k = self.bound("r", I)
        x = z3.Select(arr, k)
        fact = self.pure().tag(x, ty)
        alts = ty[1] if ty[0] == "union" else [ty]
        if any(a[0] in ("cls", "list", "dict", "set") for a in alts):
            fact = z3.And(fact, z3.Implies(Val.is_r(x), z3.And(Val.rv(x) > 0, Val.rv(x) < lim)))
        pat = z3.Select(base, k) if z3.is_app(base) and base.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) else x
        self.assume(z3.ForAll([k], z3.Implies(z3.And(k > 0, k < lim, isa(self.prog, k, cls)), fact), patterns=[pat]))

    def elem_typing(self, ref, arr, ln, ty, lim):
        """The declared element type of a list of the heap."""
        key = ("ety", arr.get_id(), ln.get_id(), str(ty))
        if key in self.axioms_done or self.has_bound(arr) or self.has_bound(ln):
            return
        self.axioms_done.add(key)
        self._keep = getattr(self, "_keep", [])
        self._keep.append((arr, ln, lim))
        base = z3.simplify(arr)
        while z3.is_store(base):
            base = base.arg(0)
        k = self.bound("k", I)
        x = z3.Select(arr, k)
        fact = self.pure().tag(x, ty)
        alts = ty[1] if ty[0] == "union" else [ty]
        if any(a[0] in ("cls", "list", "dict", "set") for a in alts):
            fact = z3.And(fact, z3.Implies(Val.is_r(x), z3.And(Val.rv(x) > 0, Val.rv(x) < lim)))
        if z3.is_app(base) and base.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
            pat = z3.Select(base, k)
        else:
            pat = x
        self.assume(z3.Implies(z3.And(ref > 0, ref < lim), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), fact), patterns=[pat])))

    def value_typing(self, ref, has, mp, ty, lim):
        """The declared value type of a dictionary of the heap."""
        key = ("vty", has.get_id(), mp.get_id(), str(ty))
        if key in self.axioms_done or self.has_bound(has) or self.has_bound(mp):
            return
        self.axioms_done.add(key)
        self._keep = getattr(self, "_keep", [])
        self._keep.append((has, mp, lim))
        base = z3.simplify(mp)
        while z3.is_store(base):
            base = base.arg(0)
        k = self.bound("k", Val)
        x = z3.Select(mp, k)
        fact = self.pure().tag(x, ty)
        alts = ty[1] if ty[0] == "union" else [ty]
        if any(a[0] in ("cls", "list", "dict", "set") for a in alts):
            fact = z3.And(fact, z3.Implies(Val.is_r(x), z3.And(Val.rv(x) > 0, Val.rv(x) < lim)))
        pat = z3.Select(base, k) if z3.is_app(base) and base.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) else x
        self.assume(z3.Implies(z3.And(ref > 0, ref < lim), z3.ForAll([k], z3.Implies(z3.Select(has, k), fact), patterns=[pat])))

    def has_bound(self, term):
        memo = self.__dict__.setdefault("_hb", {})
        r = memo.get(term.get_id())
        if r is not None:
            return r[0]
        todo, seen, res = [term], set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x) or (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("?")):
                res = True
                break
            todo.extend(x.children())
        memo[term.get_id()] = (res, term)
        return res

    def on_ref(self, v):
        if v.cls is not None and v.cls.external and v.cls.name == "list":
            self.list_wf(v.t)

    def concrete_or(self, term, ty):
        t = z3.simplify(term)
        if z3.is_app(t):
            n = t.decl().name()
            if n == "none":
                return VNone
            if n == "c" and t.num_args() == 1 and z3.is_int_value(t.arg(0)):
                o = CONSTS.objs.get(t.arg(0).as_long())
                if o is not None:
                    return o
            if t.decl().eq(Val.s):
                return VStr(t.arg(0))
            if t.decl().eq(Val.i):
                return VInt(t.arg(0))
            if t.decl().eq(Val.b):
                return VBool(t.arg(0))
            if t.decl().eq(Val.r):
                alts = ty[1] if ty[0] == "union" else [ty]
                alts = [a for a in alts if a[0] in ("cls", "list", "dict", "set")]
                if len(alts) == 1:
                    v = self.ref_of_type(t.arg(0), alts[0])
                    self.on_ref(v)
                    return v
                if ty == T_ANY:
                    b = self.news.get(t.arg(0).get_id())
                    if b is not None:
                        ci = self.class_known(t.arg(0))
                        if ci is not None:
                            return VRef(t.arg(0), ci, True)
            if t.decl().eq(Val.t2) and ty == T_ANY:
                return VTup([self.concrete_or(t.arg(0), T_ANY), self.concrete_or(t.arg(1), T_ANY)])
        return VAny(t, ty)

    def class_known(self, ref):
        for f in self.pc:
            if z3.is_eq(f) and f.arg(0).eq(clsof(ref)) and z3.is_int_value(f.arg(1)):
                k = f.arg(1).as_long()
                for c in list(self.prog.classes.values()) + list(self.prog.builtin.values()):
                    if c.id == k:
                        return c
        return None

    def fresh_of_type(self, ty, hint):
        if ty[0] == "tuple":
            return VTup([self.fresh_of_type(u, f"{hint}.{i}") for i, u in enumerate(ty[1])])
        if ty == T_INT:
            return VInt(self.fresh(hint, I))
        if ty == T_BOOL:
            return VBool(self.fresh(hint, B))
        if ty == T_STR:
            return VStr(self.fresh(hint, S))
        if ty == T_NONE:
            return VNone
        if ty[0] in ("cls", "list", "dict", "set"):
            t = self.fresh(hint, I)
            self.assume(z3.And(t > 0, t < self.alloc))
            self.aged(t)
            self.assume(z3.simplify(self.pure().tag(Val.r(t), ty)))
            v = self.ref_of_type(t, ty)
            self.on_ref(v)
            return v
        t = self.fresh(hint, Val)
        return self.decode(t, ty)

    def pure(self, env=None, fr=None, heap=None, old=None, code=False, module=None):
        return Pure(self, heap if heap is not None else self.heap, env or {}, old, module, code, fr)

    def force(self, v):
        """Turn a lazily typed value into one of definite kind, splitting the path if needed."""
        if not isinstance(v, VAny):
            return v
        c = self.concrete_or(v.t, v.ty)
        if not isinstance(c, VAny):
            return c
        ty = v.ty
        alts = ty[1] if ty[0] == "union" else [ty]
        if ty == T_ANY:
            alts = [T_NONE, T_STR, T_INT, T_BOOL, ("list", T_ANY), ("dict", T_ANY, T_ANY), ("ref",)]
        p = self.pure()
        for i, a in enumerate(alts):
            last = i == len(alts) - 1
            if a == ("ref",):
                if self.branch(Val.is_r(v.t)):
                    t = z3.simplify(Val.rv(v.t))
                    return VRef(t, None, False)
                return v
            if a[0] in ("enum",) or a == T_FUNC:
                if last and len(alts) == 1:
                    return v
                if last or self.branch(p.tag(v.t, a)):
                    return VAny(v.t, a)
                continue
            if last and ty != T_ANY:
                self.assume(p.tag(v.t, a))
                return self.decode(v.t, a)
            if self.branch(p.tag(v.t, a)):
                return self.decode(v.t, a)
        return v

    def truth(self, v):
        if isinstance(v, VRef) and v.cls is not None and not v.cls.external:
            f = v.cls.find("__bool__") or v.cls.find("__len__")
            if f is not None:
                r = self.call_method(v, f.name, [], {}, None)
                return self.truth(r)
            return z3.BoolVal(True)
        if isinstance(v, VAny) and v.ty == T_ANY:
            return self.pure().truth(v)
        if isinstance(v, VAny) and v.ty[0] == "union":
            for a in v.ty[1]:
                if a[0] == "cls" and (a[1].find("__bool__") or a[1].find("__len__")):
                    return self.truth(self.force(v))
        if isinstance(v, VIter):
            return v.length() > 0 if v.kind in ("keys", "values", "items") else z3.BoolVal(True)
        return self.pure().truth(v)

    # ---------------------------------------------------------------- obligations of functions
    def isinstance_term(self, v, classes):
        parts = []
        for c in classes:
            if isinstance(c, VTup):
                parts.append(self.isinstance_term(v, c.items))
                continue
            if not isinstance(c, VClass):
                if isinstance(c, VExt) and c.name in ("collections.abc.MutableMapping", "collections.abc.Mapping"):
                    c = VClass(self.prog.builtin["dict"])      # the only mappings there are
                else:
                    raise Unsupported(f"isinstance against {c}")
            ci = c.ci
            if ci.external and ci.name in ("str", "int", "bool"):
                kinds = {"str": VStr, "int": VInt, "bool": VBool}
                if isinstance(v, VAny):
                    tg = {"str": Val.is_s, "int": Val.is_i, "bool": Val.is_b}[ci.name](v.t)
                    parts.append(tg)
                else:
                    parts.append(z3.BoolVal(isinstance(v, kinds[ci.name])))
            elif isinstance(v, VRef):
                if v.exact and v.cls is not None:
                    parts.append(z3.BoolVal(v.cls.is_sub(ci)))
                elif v.cls is not None and v.cls.is_sub(ci):
                    parts.append(z3.BoolVal(True))
                else:
                    parts.append(isa(self.prog, v.t, ci))
            elif isinstance(v, VAny):
                parts.append(z3.And(Val.is_r(v.t), isa(self.prog, Val.rv(v.t), ci)))
            elif isinstance(v, VTup):
                parts.append(z3.BoolVal(ci.name == "tuple"))
            elif isinstance(v, VEnum):
                parts.append(z3.BoolVal(v.ci.is_sub(ci)))
            else:
                parts.append(z3.BoolVal(False))
        return zor(parts)

    # ------------------------------------------------------------------ names
    def lookup(self, name, fr, default=Unsupported):
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if v is None:
                    raise Unsupported(f"variable {name} may be unbound")
                return v
            f = f.closure
        v = self.global_name(name, fr.module)
        if v is not None:
            return v
        if default is Unsupported:
            raise Unsupported(f"unknown name {name}")
        return default

    def global_name(self, name, module):
        r = self.prog.resolve(module, name) if module is not None else None
        if r is None:
            if name in self.BUILTIN_FUNCS:
                return VExt("builtins." + name)
            return None
        if r[0] == "class":
            if r[1].external and r[1].name in ("list", "dict", "str", "int", "bool", "tuple", "set", "type", "float"):
                return VClass(r[1])
            return VClass(r[1])
        if r[0] == "func":
            return VFunc(r[1])
        if r[0] == "module":
            return VMod(r[1])
        if r[0] == "extern":
            return VExt(r[1])
        if r[0] == "expr":
            key = (r[2].name, name)
            if key not in self.globals_cache:
                fr = Frame(None, {}, r[2])
                try:
                    self.globals_cache[key] = self.global_value(r[1], fr, name)
                except Unsupported:
                    return VExt(f"{r[2].name}.{name}")
            return self.globals_cache[key]
        return None

    def global_value(self, expr, fr, name):
        if isinstance(expr, ast.Call) and ast.unparse(expr).startswith("logging."):
            return VExt("logger")
        if isinstance(expr, (ast.List, ast.Tuple)):
            return VTup([self.global_value(x, fr, name) for x in expr.elts])
        if isinstance(expr, ast.Call):
            # a module-level object: evaluate its constructor; it exists before the call
            return self.ev(expr, fr)
        return self.pure(fr=fr, module=fr.module).ev(expr)

    def class_attr(self, ci, name):
        if ci.is_enum and name in ci.attrs:
            return VEnum(ci, name)
        r = ci.find_attr(name)
        if r is not None:
            c, e = r
            fr = Frame(None, {}, c.module)
            return self.class_attr_value(e, fr)
        f = ci.find(name)
        if f is not None:
            if f.kind == "classmethod":
                return VBound(VClass(ci), name, f)
            return VFunc(f, owner=ci)
        if name == "__name__":
            return VStr(ci.name)
        if name == "__new__":
            return VExt("object.__new__")
        raise Unsupported(f"class attribute {ci.name}.{name}")

    def class_attr_value(self, e, fr):
        if isinstance(e, (ast.List, ast.Tuple)):
            return VTup([self.class_attr_value(x, fr) for x in e.elts])
        if isinstance(e, ast.Dict):
            raise Unsupported("dict class attribute")
        return self.pure(fr=fr, module=fr.module).ev(e)

    def class_attr_of_ref(self, base, name, pure=None):
        """Value of a class attribute looked up through an instance."""
        ci = base.cls
        if base.exact:
            return self.class_attr(ci, name)
        groups = {}
        for c in ci.all_subs():
            r = c.find_attr(name)
            if r is None:
                continue
            groups.setdefault(id(r[1]), (r, []))[1].append(c)
        vals = [(self.class_attr_value(r[1], Frame(None, {}, r[0].module)), cs) for r, cs in groups.values()]
        if len(vals) == 1:
            return vals[0][0]
        p = pure or self.pure()
        if len(vals) > 6 and all(isinstance(v, VStr) for v, _ in vals):
            # many classes: one function of the class, given by a ground fact for every class
            f = z3.Function(f"cattr.{name}", I, Val)
            for v, cs in vals:
                for c in cs:
                    key = ("cattr", name, c.id)
                    if key not in self.ground:
                        self.ground.add(key)
                        self.assume(f(z3.IntVal(c.id)) == Val.s(v.t))
            return VStr(Val.sv(f(clsof(base.t))))
        out = vals[-1][0]
        for v, cs in vals[:-1]:
            ids = ids_intervals([c.id for c in cs])
            k = clsof(base.t)
            cond = zor([z3.And(k >= lo, k <= hi) if lo != hi else k == lo for lo, hi in ids])
            out = p.merge(cond, v, out)
        return out

    # ------------------------------------------------------------- pure calls
    def impl_groups(self, ci, name, exact):
        if exact or ci is None:
            f = ci.find(name) if ci is not None else None
            return [(f, [ci])]
        groups = {}
        for c in ci.all_subs():
            f = c.find(name)
            groups.setdefault(f, []).append(c)
        return list(groups.items())

    def find_contract(self, fi, ci):
        """The contract that applies to method implementation fi on receiver class ci."""
        if ci is not None:
            for c in ci.mro:
                k = f"{c.name}.{fi.name}"
                if k in self.reg.contracts:
                    return self.reg.contracts[k]
                if fi.cls is not None and c is fi.cls:
                    break
            return None
        if fi.cls is not None:
            return self.reg.contracts.get(f"{fi.cls.name}.{fi.name}")
        for k in (f"{fi.module.name.rsplit('.', 1)[-1]}.{fi.name}", fi.name, f"{fi.module.name}.{fi.name}"):
            if k in self.reg.contracts:
                return self.reg.contracts[k]
        return None

    def pure_method(self, p, recv, name, args):
        if not isinstance(recv, VRef) or recv.cls is None:
            return None
        groups = self.impl_groups(recv.cls, name, recv.exact)
        # a virtual pure contract
        for c in recv.cls.mro:
            k = self.reg.contracts.get(f"{c.name}.{name}")
            if k is not None and k.virtual and k.pure is not None:
                return self.eval_pure_contract(p, k, None, [recv] + args)
        groups = [(f, cs) for f, cs in groups if f is not None] if len(groups) > 1 else groups
        out = None
        for f, cs in reversed(groups):
            if f is None:
                if name == "__eq__" and recv.cls.is_dataclass:
                    v = self.dataclass_eq(p, recv, args[0])
                else:
                    return None
            else:
                v = self.pure_impl(p, f, recv, cs[0] if len(cs) == 1 or recv.exact else recv.cls, args)
            if v is None:
                return None
            if out is None:
                out = v
            else:
                k = clsof(recv.t)
                ids = ids_intervals([c.id for c in cs])
                out = p.merge(zor([z3.And(k >= lo, k <= hi) for lo, hi in ids]), v, out)
        return out

    def pure_impl(self, p, f, recv, ci, args):
        c = self.find_contract(f, ci)
        if c is not None and c.pure is not None:
            return self.eval_pure_contract(p, c, f, [recv] + args)
        return self.pure_body(p, f, [recv] + args)

    def pure_function(self, p, f, args):
        c = self.find_contract(f, None)
        if c is not None and c.pure is not None:
            return self.eval_pure_contract(p, c, f, args)
        return self.pure_body(p, f, args)

    def eval_pure_contract(self, p, c, f, args):
        names = c.params or (f.params if f is not None else None)
        q = Pure(self, p.heap, dict(zip(names, args)), p.old, f.module if f else None, False)
        q.depth = p.depth + 1
        if q.depth > 40:
            raise Unsupported("pure recursion")
        self.sh.used_contracts.add(c.key)
        return q.ev(parse_expr(c.pure))

    def pure_body(self, p, f, args):
        if p.depth > 25:
            raise Unsupported("pure recursion")
        a = f.node.args
        if a.vararg or a.kwarg:
            return None
        env = dict(zip(f.params, args))
        defaults = a.defaults
        ps = a.posonlyargs + a.args
        for prm, d in zip(ps[len(ps) - len(defaults):], defaults):
            if prm.arg not in env:
                env[prm.arg] = const_value(ast.literal_eval(d)) if isinstance(d, ast.Constant) else None
        fr = Frame(f, {}, f.module)
        q = Pure(self, p.heap, env, None, f.module, True, fr)
        q.depth = p.depth + 1
        try:
            v = self.pure_stmts(q, f.node.body)
        except Unsupported:
            return None
        if v is None:
            return None
        p.defs.extend(q.defs)
        self.sh.inlined.add(f.qualname)
        return v

    def pure_stmts(self, q, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Return):
                if s.value is None:
                    return VNone
                return self.pure_expr(q, s.value)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                q.env[s.targets[0].id] = self.pure_expr(q, s.value)
                continue
            if isinstance(s, ast.If):
                c = q.boolean(s.test)
                saved = q.defs
                q1 = q.sub({})
                a = self.pure_stmts(q1, s.body + stmts[i + 1:])
                q2 = q.sub({})
                b = self.pure_stmts(q2, s.orelse + stmts[i + 1:])
                if a is None or b is None:
                    return None
                q.defs = saved + [z3.Implies(c, d) for d in q1.defs] + [z3.Implies(z3.Not(c), d) for d in q2.defs]
                return q.merge(c, a, b)
            if isinstance(s, ast.Try) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and not s.finalbody:
                q1 = q.sub({})
                v = self.pure_expr(q1, s.body[0].value)
                ok = zand(q1.defs)
                q2 = q.sub({})
                h = self.pure_stmts(q2, s.handlers[0].body)
                if h is None:
                    return None
                names = ast.unparse(s.handlers[0].type) if s.handlers[0].type else "Exception"
                if names not in ("IndexError", "KeyError", "AttributeError", "Exception", "LookupError"):
                    return None
                q.defs.extend(z3.Implies(z3.Not(ok), d) for d in q2.defs)
                return q.merge(ok, v, h)
            return None
        return VNone

    def pure_expr(self, q, e):
        if isinstance(e, ast.BoolOp) and not all(q.boolish(v) for v in e.values):
            vals = [q.ev(v) for v in e.values]
            out = vals[-1]
            for v in reversed(vals[:-1]):
                t = q.truth(v)
                out = q.merge(t, v, out) if isinstance(e.op, ast.Or) else q.merge(t, out, v)
            return out
        return q.ev(e)

    def dataclass_eq(self, p, a, b):
        if isinstance(b, VAny):
            same = p.truth(VBool(z3.And(Val.is_r(b.t), clsof(Val.rv(b.t)) == clsof(a.t))))
            b = VRef(Val.rv(b.t), a.cls, a.exact)
        elif isinstance(b, VRef):
            same = clsof(a.t) == clsof(b.t)
        else:
            return VBool(False)
        fs = []
        for c in reversed(a.cls.mro):
            if c.is_dataclass:
                for k in c.ann:
                    if k not in fs:
                        fs.append(k)
        out = [same]
        for k in fs:
            k = self.hname(a.cls, k)
            out.append(self.sel(p.H(k), a.t) == self.sel(p.H(k), b.t))
        return VBool(zand(out))

    def opaque_call(self, name, params, body, args):
        """A macro over plain values whose definition the proof at hand does not use: an arbitrary relation."""
        args = [self.force(a) for a in args]
        if not all(isinstance(a, (VInt, VStr, VBool)) for a in args):
            raise Unsupported(f"opaque macro {name} over something other than int, str and bool: {args}")
        if ("opaque", name) not in self.axioms_done:
            self.axioms_done.add(("opaque", name))
            Pure(self, StrictHeap({}), {x: type(a)(a.t) for x, a in zip(params, args)}).boolean(parse_expr(body))   # it reads no object
        return VBool(z3.Function(f"opaque.{name}", *[a.t.sort() for a in args], B)(*[a.t for a in args]))

    # recursive spec functions -------------------------------------------------
    def rec_call(self, p, name, args):
        """Recursive spec function as an uninterpreted symbol over its arguments and the heap arrays it
        reads, with its defining equation available through a fuelled axiom."""
        ps, ret, body, kw = self.reg.recs[name]
        reads = kw.get("reads", [])
        key = ("rec", name)
        plain = kw.get("plain", False)
        hidden = plain and self.target is not None and name in self.target.opaque
        if plain and not hidden:
            if p.depth > 40:
                raise Unsupported("predicate recursion")
            q = Pure(self, p.heap, {pn: self.rec_wrap(self.rec_unwrap(p, a, t), t) if not t.strip().startswith("seq[") else p.as_seq(a)
                                    for a, (pn, t) in zip(args, ps)}, p.old, p.module, False)
            q.depth = p.depth + 1
            if p.old is not None:
                q.old = (p.old[0], {}, p.old[2])
            return q.ev(parse_expr(body))
        sorts = []
        seqs = [t.strip().startswith("seq[") for _, t in ps]
        for (_, t), sq in zip(ps, seqs):
            if sq:
                sorts.extend([z3.ArraySort(I, Val), I])
            else:
                sorts.append(self.rec_sort(t))
        rs = self.rec_sort(ret)
        arrs = [p.H(a) for a in reads]
        F = z3.Function(f"rec.{name}", Fuel, *[a.sort() for a in arrs], *sorts, rs)
        if key not in self.axioms_done:
            self.axioms_done.add(key)
            fuel0 = z3.Const(f"?fuel.{name}", Fuel)
            bargs = []
            env = {}
            vs = [fuel0]
            barr = {}
            for a in reads:
                v = z3.Const(f"?arr.{name}.{a}", arr_sort(a))
                barr[a] = v
                vs.append(v)
            for (pn, t), sq in zip(ps, seqs):
                if sq:
                    va = z3.Const(f"?{name}.{pn}.a", z3.ArraySort(I, Val))
                    vn = z3.Const(f"?{name}.{pn}.n", I)
                    vs += [va, vn]
                    bargs += [va, vn]
                    env[pn] = VSeq(va, vn, self.parse_type(t.strip()[4:-1]))
                    continue
                v = z3.Const(f"?{name}.{pn}", self.rec_sort(t))
                vs.append(v)
                bargs.append(v)
                env[pn] = self.rec_wrap(v, t)
            lhs = F(Fuel.LS(fuel0), *[barr[a] for a in reads], *bargs)
            q = Pure(self, StrictHeap(barr), env)
            self._recfuel = fuel0
            try:
                bv = q.ev(parse_expr(body))
            finally:
                self._recfuel = None
            if not plain:      # a hidden predicate is only evaluated, to see that it reads nothing else
                rhs = self.rec_unwrap(q, bv, ret)
                self.assume(z3.ForAll(vs, lhs == rhs, patterns=[lhs]))
                lhs1 = F(fuel0, *[barr[a] for a in reads], *bargs)
                self.assume(z3.ForAll(vs, lhs == lhs1, patterns=[lhs]))
        fuel = getattr(self, "_recfuel", None)
        if hidden:
            fuel = Fuel.Z
        if fuel is None:
            fuel = getattr(p.heap, "fuel", None)
        if fuel is None:
            fuel = Fuel.LS(Fuel.LS(Fuel.Z))
        ts = []
        for a, (_, t), sq in zip(args, ps, seqs):
            if sq:
                q = p.as_seq(a)
                ts += [q.arr, q.n]
            else:
                ts.append(self.rec_unwrap(p, a, t))
        return self.rec_wrap(F(fuel, *arrs, *ts), ret)

    def lemma_env(self, c):
        """Arbitrary values and an arbitrary heap for the statement of a lemma."""
        vs, env = [], {}
        for pn, t in c.lemma:
            if t.startswith("seq["):
                va, vn = z3.Const(f"?{pn}.a", z3.ArraySort(I, Val)), z3.Const(f"?{pn}.n", I)
                vs += [va, vn]
                env[pn] = VSeq(va, vn, self.parse_type(t[4:-1]))
            else:
                v = z3.Const(f"?{pn}", self.rec_sort(t))
                vs.append(v)
                env[pn] = self.rec_wrap(v, t)
        return vs, FreeHeap(), env

    def use_lemma(self, name):
        c = self.reg.contracts[f"lemma.{name}"]
        self.sh.used_contracts.add(c.key)
        vs, heap, env = self.lemma_env(c)
        if c.trigger:
            # for any fuel: a recursive function has one value
            heap.fuel = z3.Const("?fuel.1", Fuel)
            vs = vs + [heap.fuel]
            heap2 = None
            if c.heaps == 2:
                heap2 = FreeHeap("arr2", c.share)
                heap2.fuel = z3.Const("?fuel.2", Fuel)
                vs = vs + [heap2.fuel]
            p = Pure(self, heap, env, (heap2, env, None) if heap2 is not None else None)
            pats = [self.rec_term(p.ev(parse_expr(e))) for e in c.trigger]
            pre = [p.boolean(e) for e in c.requires]
            goal = zand([p.boolean(e) for _, e in type(c).labelled(c.ensures, "post")])
            arrs = list({a.get_id(): a for a in list(heap.values()) + (list(heap2.values()) if heap2 is not None else [])}.values())
            seen = {v.get_id() for t in pats for v in leaves(t)}       # a plain definition has no fuel
            vs = [v for v in vs if v.sort() != Fuel or v.get_id() in seen]
            self.assume(z3.ForAll(vs + arrs, z3.Implies(zand(pre), goal), patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]))
            return
        p = Pure(self, heap, env)
        pats, pre = [], []
        for e in c.requires:
            n = parse_expr(e)
            t = p.boolean(e)
            pre.append(t)
            if isinstance(n, ast.Call) and getattr(n.func, "id", None) in self.reg.recs:
                if n.func.id not in self.target.opaque:
                    raise Unsupported(f"{n.func.id} must be opaque to use lemma {name}")
                pats.append(t)
        goal = zand([p.boolean(e) for _, e in type(c).labelled(c.ensures, "post")])
        self.assume(z3.ForAll(vs + list(heap.values()), z3.Implies(zand(pre), goal), patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]))

    def rec_term(self, v):
        """The application of a recursive function inside its decoded value."""
        t = v.t
        while not t.decl().name().startswith("rec."):
            t = t.arg(0)
        return t

    def rec_sort(self, t):
        ty = self.parse_type(t)
        if ty == T_INT:
            return I
        if ty == T_STR:
            return S
        if ty == T_BOOL:
            return B
        if ty[0] in ("cls", "list", "dict"):
            return I
        return Val

    def rec_wrap(self, v, t):
        ty = self.parse_type(t)
        if ty == T_INT:
            return VInt(v)
        if ty == T_STR:
            return VStr(v)
        if ty == T_BOOL:
            return VBool(v)
        if ty[0] in ("cls", "list", "dict"):
            return self.ref_of_type(v, ty)
        return VAny(v, ty)

    def rec_unwrap(self, p, v, t):
        ty = self.parse_type(t)
        if ty == T_INT:
            return p.as_int(v)
        if ty == T_STR:
            return p.as_str(v)
        if ty == T_BOOL:
            return p.truth(v)
        if ty[0] in ("cls", "list", "dict"):
            return p.as_ref(p.narrow(v))
        return enc(v)

    def unint_call(self, name, ptys, rty, args, p):
        sorts = [self.rec_sort(t) for t in ptys]
        F = z3.Function(f"uf.{name}", *sorts, self.rec_sort(rty))
        return self.rec_wrap(F(*[self.rec_unwrap(p, a, t) for a, t in zip(args, ptys)]), rty)

    def dict_iter(self, d, kind):
        it = self
        r = d.t
        et = d.elem or (T_ANY, T_ANY)

        def length():
            return it.sel(it.H("#dn"), r)

        def get(k):
            key = it.decode(z3.Select(it.sel(it.H("#dk"), r), k), et[0])
            if kind == "keys":
                return key
            val = it.decode(z3.Select(it.sel(it.H("#map"), r), enc(key)), et[1])
            return val if kind == "values" else VTup([key, val])

        return VIter(length, get, src=d, kind=kind, on_start=lambda: it.dict_wf(d))
