"""Side-effect free evaluation of expressions to SMT terms.

Used for contract clauses (requires / ensures / invariants / frames) and, in
`code` mode, for comprehension bodies of the code under verification.
"""
from __future__ import annotations

import ast

import z3

from .front import Unsupported
from .values import *  # noqa: F401,F403
from .values import Val, I, S, B, NONE


def zand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(xs)


def zor(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(xs)


_parse_cache = {}


def parse_expr(s):
    if s not in _parse_cache:
        _parse_cache[s] = ast.parse(s.strip(), mode="eval").body
    return _parse_cache[s]


def strip_opt(ty):
    if ty[0] == "union":
        r = [t for t in ty[1] if t != T_NONE]
        if len(r) == 1:
            return r[0]
    return ty


def type_of(v):
    if isinstance(v, VInt):
        return T_INT
    if isinstance(v, VBool):
        return T_BOOL
    if isinstance(v, VStr):
        return T_STR
    if isinstance(v, VNoneT):
        return T_NONE
    if isinstance(v, VAny):
        return v.ty
    if isinstance(v, VRef):
        if v.cls is None:
            return T_ANY
        if v.cls.name == "list" and v.cls.external:
            return ("list", v.elem or T_ANY)
        if v.cls.name in ("dict", "defaultdict") and v.cls.external:
            k = v.elem or (T_ANY, T_ANY)
            return ("dict", k[0], k[1])
        return ("cls", v.cls, v.exact)
    if isinstance(v, VEnum):
        return ("enum", v.ci)
    if isinstance(v, VTup):
        return ("tuple", [type_of(x) for x in v.items])
    return T_ANY


class Pure:
    def __init__(self, it, heap, env, old=None, module=None, code=False, fr=None):
        self.it = it
        self.prog = it.prog
        self.heap = heap
        self.env = env
        self.old = old          # (heap, env, alloc)
        self.module = module
        self.code = code
        self.fr = fr
        self.defs = []          # definedness conditions (code mode)
        self.depth = 0

    # -- heap ------------------------------------------------------------------
    def H(self, name):
        return self.it.heap_get(self.heap, name)

    def length(self, ref):
        return self.not_negative(self.it.sel(self.H("#len"), ref))

    def not_negative(self, n):
        key = ("len", n.get_id())
        if key not in self.it.axioms_done and not self.it.has_bound(n):
            self.it.axioms_done.add(key)
            self.it._keep = getattr(self.it, "_keep", [])
            self.it._keep.append(n)
            self.it.assume(n >= 0)
        return n

    def elts(self, ref):
        return self.it.sel(self.H("#elt"), ref)

    # -- helpers -----------------------------------------------------------------
    def dec(self, term, ty):
        """Decode without assumptions; may stay lazy."""
        ty0 = strip_opt(ty) if ty[0] == "union" else ty
        if ty[0] == "union":
            return VAny(term, ty)
        if ty == T_INT:
            return VInt(Val.iv(term), raw=term)
        if ty == T_STR:
            return VStr(Val.sv(term), raw=term)
        if ty == T_BOOL:
            return VBool(Val.bv(term), raw=term)
        if ty == T_NONE:
            return VNone
        if ty[0] in ("cls", "list", "dict", "set"):
            return self.it.ref_of_type(z3.simplify(Val.rv(term)), ty0, raw=term)
        if ty[0] == "tuple":
            n = len(ty[1])
            if n == 2:
                return VTup([self.dec(Val.t2a(term), ty[1][0]), self.dec(Val.t2b(term), ty[1][1])])
            if n == 3:
                return VTup([self.dec(Val.t3a(term), ty[1][0]), self.dec(Val.t3b(term), ty[1][1]), self.dec(Val.t3c(term), ty[1][2])])
        return VAny(term, ty)

    def as_int(self, v):
        if isinstance(v, VInt):
            return v.t
        if isinstance(v, VBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, VAny):
            return Val.iv(v.t)
        raise Unsupported(f"int expected, got {type(v).__name__}")

    def as_str(self, v):
        if isinstance(v, VStr):
            return v.t
        if isinstance(v, VAny):
            return Val.sv(v.t)
        raise Unsupported(f"str expected, got {type(v).__name__}")

    def as_ref(self, v):
        if isinstance(v, VRef):
            return v.t
        if isinstance(v, VAny):
            return Val.rv(v.t)
        raise Unsupported(f"object expected, got {type(v).__name__}")

    def as_seq(self, v):
        v = self.narrow(v)
        if isinstance(v, VSeq):
            return v
        if isinstance(v, VRef):
            return VSeq(self.elts(v.t), self.length(v.t), v.elem or T_ANY)
        raise Unsupported("sequence expected")

    def narrow(self, v):
        """Give a definite kind to a lazily typed value when the type is known up to None."""
        if isinstance(v, VAny):
            t = strip_opt(v.ty)
            if t[0] not in ("union", "any", "func", "enum"):
                if self.code and v.ty[0] == "union":
                    self.defs.append(v.t != NONE)
                return self.dec(v.t, t)
        return v

    def truth(self, v):
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VNoneT):
            return z3.BoolVal(False)
        if isinstance(v, VInt):
            return v.t != 0
        if isinstance(v, VStr):
            return z3.Length(v.t) != 0
        if isinstance(v, VTup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (VClass, VEnum, VFunc, VBound, VMatch, VExt, VPartial, VMod)):
            return z3.BoolVal(True)
        if isinstance(v, VRef):
            if v.cls is not None and v.cls.external and v.cls.name == "list":
                return self.length(v.t) > 0
            if v.cls is not None and v.cls.external and v.cls.name in ("dict", "defaultdict"):
                return self.it.sel(self.H("#dn"), v.t) > 0
            if v.cls is not None and v.cls.external and v.cls.name == "set":
                return self.it.sel(self.H("#has"), v.t) != z3.K(Val, z3.BoolVal(False))
            if v.cls is not None and (v.cls.find("__len__") or v.cls.find("__bool__")):
                raise Unsupported(f"truth of {v.cls.name}")
            return z3.BoolVal(True)
        if isinstance(v, VAny):
            ty = v.ty
            alts = ty[1] if ty[0] == "union" else [ty]
            cs = []
            for a in alts:
                cs.append((self.tag(v.t, a), a))
            r = z3.BoolVal(False)
            if ty == T_ANY:
                return z3.And(
                    v.t != NONE,
                    z3.Implies(Val.is_b(v.t), Val.bv(v.t)),
                    z3.Implies(Val.is_i(v.t), Val.iv(v.t) != 0),
                    z3.Implies(Val.is_s(v.t), Val.sv(v.t) != z3.StringVal("")),
                    z3.Implies(z3.And(Val.is_r(v.t), clsof(Val.rv(v.t)) == self.prog.builtin["list"].id), self.length(Val.rv(v.t)) > 0),
                    z3.Implies(z3.And(Val.is_r(v.t), z3.Or(clsof(Val.rv(v.t)) == self.prog.builtin["dict"].id, clsof(Val.rv(v.t)) == self.prog.builtin["defaultdict"].id)), self.it.sel(self.H("#dn"), Val.rv(v.t)) > 0),
                )
            for c, a in cs:
                if a == T_NONE:
                    t = z3.BoolVal(False)
                elif a == T_FUNC or a[0] == "enum":
                    t = z3.BoolVal(True)
                else:
                    t = self.truth(self.dec(v.t, a))
                r = z3.If(c, t, r) if not z3.is_false(t) else z3.And(z3.Not(c), r)
            return z3.simplify(r)
        raise Unsupported(f"truth of {type(v).__name__}")

    def tag(self, term, ty):
        """Condition that `term` has static type `ty`."""
        if ty == T_ANY:
            return z3.BoolVal(True)
        if ty == T_INT:
            return Val.is_i(term)
        if ty == T_BOOL:
            return Val.is_b(term)
        if ty == T_STR:
            return Val.is_s(term)
        if ty == T_NONE:
            return term == NONE
        if ty == T_FUNC:
            return Val.is_c(term)
        if ty[0] == "enum":
            ids = [CONSTS.id(VEnum(ty[1], m)) for m in ty[1].attrs]
            return z3.And(Val.is_c(term), zor([z3.And(Val.cv(term) >= a, Val.cv(term) <= b) for a, b in ids_intervals(ids)]))
        if ty[0] == "cls":
            c = ty[1]
            if ty[2]:
                return z3.And(Val.is_r(term), clsof(Val.rv(term)) == c.id)
            return z3.And(Val.is_r(term), isa(self.prog, Val.rv(term), c))
        if ty[0] == "list":
            return z3.And(Val.is_r(term), clsof(Val.rv(term)) == self.prog.builtin["list"].id)
        if ty[0] == "dict":
            return z3.And(Val.is_r(term), isa(self.prog, Val.rv(term), self.prog.builtin["dict"]))
        if ty[0] == "set":
            return z3.And(Val.is_r(term), clsof(Val.rv(term)) == self.prog.builtin["set"].id)
        if ty[0] == "tuple":
            n = len(ty[1])
            if n == 2:
                return z3.And(Val.is_t2(term), self.tag(Val.t2a(term), ty[1][0]), self.tag(Val.t2b(term), ty[1][1]))
            if n == 3:
                return z3.And(Val.is_t3(term), self.tag(Val.t3a(term), ty[1][0]), self.tag(Val.t3b(term), ty[1][1]), self.tag(Val.t3c(term), ty[1][2]))
        if ty[0] == "union":
            return zor([self.tag(term, t) for t in ty[1]])
        raise Unsupported(f"tag {ty}")

    def merge(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        for k in (VInt, VBool, VStr):
            if isinstance(a, k) and isinstance(b, k):
                return k(z3.If(c, a.t, b.t))
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.cls is b.cls:
                return VRef(z3.If(c, a.t, b.t), a.cls, a.exact and b.exact, a.elem if a.elem == b.elem else (a.elem or b.elem))
        if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
            return VTup([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        return VAny(z3.If(c, enc(a), enc(b)), t_union([type_of(a), type_of(b)]))

    def eq(self, a, b):
        if isinstance(a, VTup) and isinstance(b, VTup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return zand([self.eq(x, y) for x, y in zip(a.items, b.items)])
        for k in (VInt, VBool, VStr):
            if isinstance(a, k) and isinstance(b, k):
                return a.t == b.t
        if self.code and isinstance(a, VRef) and isinstance(b, VRef):
            if a.cls is not None and not a.cls.external:
                f = a.cls.find("__eq__")
                if f is not None or a.cls.is_dataclass:
                    return self.truth(self.call_pure_method(a, "__eq__", [b]))
            else:
                raise Unsupported("== on containers")
        return enc(a) == enc(b)

    # -- evaluation ----------------------------------------------------------------
    def boolean(self, node):
        if isinstance(node, str):
            node = parse_expr(node)
        return self.truth(self.ev(node))

    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"pure expression {type(n).__name__}")
        return m(n)

    def e_Constant(self, n):
        return const_value(n.value)

    def e_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id in ("True", "False"):
            return VBool(n.id == "True")
        if self.fr is not None:
            v = self.it.lookup(n.id, self.fr, default=None)
            if v is not None:
                return v
        if n.id in self.it.reg.consts:
            return self.ev(parse_expr(self.it.reg.consts[n.id]))
        if self.prog.has_cls(n.id):
            return VClass(self.prog.cls(n.id))
        f = self.prog.func(n.id)
        if f is not None:
            return VFunc(f)
        raise Unsupported(f"unknown name {n.id} in a pure expression")

    def e_Tuple(self, n):
        return VTup([self.ev(x) for x in n.elts])

    def e_List(self, n):
        # list displays only appear on the right of `in` or as literal tuples
        return VTup([self.ev(x) for x in n.elts])

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(z3.StringVal(v.value))
            else:
                x = self.narrow(self.ev(v.value))
                if isinstance(x, VStr):
                    parts.append(x.t)
                elif isinstance(x, VInt):
                    parts.append(int_to_str(x.t))
                else:
                    parts.append(self.it.str_of(x))
        if not parts:
            return VStr("")
        return VStr(parts[0] if len(parts) == 1 else z3.Concat(parts))

    def e_BoolOp(self, n):
        if all(self.boolish(v) for v in n.values) or not self.code:
            vals = []
            saved = self.defs
            for v in n.values:
                self.defs = []
                t = self.boolean(v)
                if not self.code and z3.is_false(z3.simplify(t)) and isinstance(n.op, ast.And):
                    self.defs = saved
                    return VBool(z3.BoolVal(False))
                if not self.code and z3.is_true(z3.simplify(t)) and isinstance(n.op, ast.Or):
                    self.defs = saved
                    return VBool(z3.BoolVal(True))
                g = zand(vals) if isinstance(n.op, ast.And) else z3.Not(zor(vals))
                for d in self.defs:
                    saved.append(z3.Implies(g, d))
                vals.append(t)
            self.defs = saved
            return VBool(zand(vals) if isinstance(n.op, ast.And) else zor(vals))
        raise Unsupported("value-producing and/or")

    def boolish(self, n):
        return isinstance(n, (ast.Compare, ast.BoolOp)) or (isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not)) or (
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "all", "any", "implies"))

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return VBool(z3.Not(self.boolean(n.operand)))
        if isinstance(n.op, ast.USub):
            return VInt(-self.as_int(self.ev(n.operand)))
        raise Unsupported("unary op")

    def e_IfExp(self, n):
        c = self.boolean(n.test)
        return self.merge(c, self.ev(n.body), self.ev(n.orelse))

    def e_BinOp(self, n):
        a = self.narrow(self.ev(n.left))
        b = self.narrow(self.ev(n.right))
        if isinstance(n.op, ast.Add) and (isinstance(a, VStr) or isinstance(b, VStr)):
            return VStr(z3.Concat(self.as_str(a), self.as_str(b)))
        x, y = self.as_int(a), self.as_int(b)
        if isinstance(n.op, ast.Add):
            return VInt(x + y)
        if isinstance(n.op, ast.Sub):
            return VInt(x - y)
        if isinstance(n.op, ast.Mult):
            return VInt(x * y)
        raise Unsupported("binary op")

    def e_Compare(self, n):
        out = []
        left = self.ev(n.left)
        for op, rn in zip(n.ops, n.comparators):
            if isinstance(op, (ast.In, ast.NotIn)):
                c, right = self.contains_node(left, rn)
                out.append(z3.Not(c) if isinstance(op, ast.NotIn) else c)
            else:
                right = self.ev(rn)
                out.append(self.cmp(op, left, right))
            left = right
        return VBool(zand(out))

    def cmp(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return enc(a) == enc(b)
        if isinstance(op, ast.IsNot):
            return enc(a) != enc(b)
        if isinstance(self.narrow(a), VStr) or isinstance(self.narrow(b), VStr):
            x, y = self.as_str(a), self.as_str(b)
        else:
            x, y = self.as_int(a), self.as_int(b)
        if isinstance(op, ast.Lt):
            return x < y
        if isinstance(op, ast.LtE):
            return x <= y
        if isinstance(op, ast.Gt):
            return x > y
        if isinstance(op, ast.GtE):
            return x >= y
        raise Unsupported("comparison")

    def contains_node(self, left, rn):
        if isinstance(rn, (ast.Tuple, ast.List, ast.Set)):
            items = [self.ev(x) for x in rn.elts]
            return zor([self.eq(left, x) for x in items]), VTup(items)
        right = self.narrow(self.ev(rn))
        return self.contains(left, right), right

    def contains(self, left, right):
        if isinstance(right, VTup):
            return zor([self.eq(left, x) for x in right.items])
        if isinstance(right, VStr):
            return z3.Contains(right.t, self.as_str(left))
        if isinstance(right, VIter) and right.kind in ("keys", "dict"):
            right = right.src
        if isinstance(right, VIter) and right.kind == "values":
            d = right.src
            k = self.it.bound("kv", Val)
            return z3.Exists([k], z3.And(z3.Select(self.it.sel(self.H("#has"), d.t), k), z3.Select(self.it.sel(self.H("#map"), d.t), k) == enc(left)))
        if isinstance(right, VRef) and right.cls is not None and right.cls.external:
            if right.cls.name in ("dict", "defaultdict", "set"):
                return z3.Select(self.it.sel(self.H("#has"), right.t), enc(left))
            if right.cls.name == "list":
                k = self.it.bound("k", I)
                e = z3.Select(self.elts(right.t), k)
                sub = self
                body = sub.eq(left, self.dec(e, right.elem or T_ANY))
                return z3.Exists([k], z3.And(0 <= k, k < self.length(right.t), body))
        if isinstance(right, VRef) and right.cls is not None and right.cls.find("__contains__"):
            return self.truth(self.call_pure_method(right, "__contains__", [left]))
        raise Unsupported(f"in {right}")

    def e_Attribute(self, n):
        # enum members / class attributes
        if isinstance(n.value, ast.Name) and n.value.id not in self.env:
            try:
                base = self.e_Name(n.value)
            except Unsupported:
                base = None
            if isinstance(base, VClass):
                return self.it.class_attr(base.ci, n.attr)
        base = self.ev(n.value)
        return self.attr(base, n.attr)

    def attr(self, base, name):
        base = self.narrow(base)
        if isinstance(base, VEnum):
            if name == "value":
                return const_value(ast.literal_eval(base.ci.attrs[base.member]))
        if isinstance(base, VAny) and base.ty[0] == "enum" and name == "value":
            ci = base.ty[1]
            r = None
            for m, e in ci.attrs.items():
                cv = const_value(ast.literal_eval(e))
                r = cv if r is None else self.merge(base.t == enc(VEnum(ci, m)), cv, r)
            return r
        if isinstance(base, VTup) and name.startswith("_") and name[1:].isdigit():
            return base.items[int(name[1:])]
        ref = self.as_ref(base)
        cls = base.cls if isinstance(base, VRef) else None
        if cls is not None:
            f = cls.find(name)
            if f is not None and f.kind == "property":
                return self.call_pure_method(base, name, [], prop=True)
            if name == "__class__":
                return VInt(clsof(ref))
            if name not in self.it.inst_attrs(cls) and cls.find_attr(name):
                return self.it.class_attr_of_ref(base, name, pure=self)
        term = self.it.sel(self.H(self.it.hname(cls, name)), ref)
        ty = self.it.field_type(cls, name)
        if cls is not None and not cls.external and ty != T_ANY:
            old = self.old is not None and self.heap is self.old[0]
            self.it.typing_instance(ref, cls, term, ty, self.old[2] if old else self.it.alloc)
        return self.dec(term, ty)

    def call_pure_method(self, recv, name, args, prop=False):
        r = self.it.pure_method(self, recv, name, args)
        if r is None:
            raise Unsupported(f"call of {name} in a pure expression")
        return r

    def e_Subscript(self, n):
        base = self.narrow(self.ev(n.value))
        sl = n.slice
        if isinstance(sl, ast.Slice):
            if isinstance(base, VStr):
                lo = self.as_int(self.ev(sl.lower)) if sl.lower else z3.IntVal(0)
                hi = self.as_int(self.ev(sl.upper)) if sl.upper else z3.Length(base.t)
                return VStr(substr(base.t, lo, hi))
            raise Unsupported("slice")
        return self.index(base, self.ev(sl), sl)

    def index(self, base, idx, sl=None):
        if isinstance(base, VSeq):
            i = self.as_int(idx)
            si = z3.simplify(i)
            if z3.is_int_value(si) and si.as_long() < 0:
                i = base.n + si
            return self.dec(z3.Select(base.arr, i), base.elem)
        if isinstance(base, VTup):
            k = z3.simplify(self.as_int(idx))
            if z3.is_int_value(k):
                return base.items[k.as_long()]
            raise Unsupported("symbolic tuple index")
        if isinstance(base, VStr):
            i = self.as_int(idx)
            ln = z3.Length(base.t)
            i2 = z3.If(i < 0, i + ln, i)
            if self.code:
                self.defs.append(z3.And(i2 >= 0, i2 < ln))
            return VStr(z3.SubString(base.t, z3.simplify(i2), 1))
        if isinstance(base, VRef) and base.cls is not None and base.cls.external:
            if base.cls.name == "list":
                i = self.as_int(idx)
                ln = self.length(base.t)
                si = z3.simplify(i)
                if z3.is_int_value(si):
                    i2 = ln + si if si.as_long() < 0 else si
                elif self.code:
                    i2 = z3.If(i < 0, i + ln, i)
                else:
                    i2 = i
                if self.code:
                    self.defs.append(z3.And(i2 >= 0, i2 < ln))
                arr = self.elts(base.t)
                if not self.code and base.elem is not None and base.elem != T_ANY:
                    old = self.old is not None and self.heap is self.old[0]
                    self.it.elem_typing(base.t, arr, ln, base.elem, self.old[2] if old else self.it.alloc)
                return self.dec(z3.Select(arr, i2), base.elem or T_ANY)
            if base.cls.name in ("dict", "defaultdict"):
                k = enc(idx)
                if self.code:
                    self.defs.append(z3.Select(self.it.sel(self.H("#has"), base.t), k))
                et = base.elem or (T_ANY, T_ANY)
                if not self.code and et[1] != T_ANY:
                    old = self.old is not None and self.heap is self.old[0]
                    self.it.value_typing(base.t, self.it.sel(self.H("#has"), base.t), self.it.sel(self.H("#map"), base.t), et[1], self.old[2] if old else self.it.alloc)
                return self.dec(z3.Select(self.it.sel(self.H("#map"), base.t), k), et[1])
        if isinstance(base, VRef) and base.cls is not None and base.cls.find("__getitem__"):
            return self.call_pure_method(base, "__getitem__", [idx])
        raise Unsupported(f"subscript of {base}")

    # -- calls -------------------------------------------------------------------------
    def sub(self, extra):
        p = Pure(self.it, self.heap, {**self.env, **extra}, self.old, self.module, self.code, self.fr)
        p.depth = self.depth
        return p

    def in_old(self):
        if self.old is None:
            raise Unsupported("old() is not available here")
        h, e, _ = self.old
        env = dict(self.env)
        env.update(e)
        # bound variables stay visible
        for k, v in self.env.items():
            if k not in e:
                env[k] = v
        p = Pure(self.it, h, env, self.old, self.module, self.code, self.fr)
        p.depth = self.depth
        return p

    def e_Call(self, n):
        f = n.func
        if isinstance(f, ast.Name) and f.id not in self.env:
            fid = f.id
            m = getattr(self, "c_" + fid, None)
            if m is not None:
                return m(n)
            if fid in self.it.reg.macros:
                params, body = self.it.reg.macros[fid]
                args = [self.ev(a) for a in n.args]
                if self.it.target is not None and fid in self.it.target.opaque:
                    return self.it.opaque_call(fid, params, body, args)
                p = Pure(self.it, self.heap, dict(zip(params, args)), self.old, self.module, False)
                p.depth = self.depth + 1
                if p.depth > 40:
                    raise Unsupported("macro recursion")
                # old() inside a macro refers to the same arguments in the old heap
                if self.old is not None:
                    p.old = (self.old[0], {}, self.old[2])
                    p.heap = self.heap
                return p.ev(parse_expr(body))
            if fid in self.it.reg.recs:
                return self.it.rec_call(self, fid, [self.ev(a) for a in n.args])
            if fid in self.it.reg.unint:
                ptys, rty = self.it.reg.unint[fid]
                args = [self.ev(a) for a in n.args]
                return self.it.unint_call(fid, ptys, rty, args, self)
            if self.prog.func(fid) is not None:
                r = self.it.pure_function(self, self.prog.func(fid), [self.ev(a) for a in n.args])
                if r is not None:
                    return r
        if isinstance(f, ast.Attribute):
            return self.method_call(n)
        raise Unsupported(f"call {ast.unparse(n)} in a pure expression")

    def method_call(self, n):
        name = n.func.attr
        base = self.narrow(self.ev(n.func.value))
        args = [self.ev(a) for a in n.args]
        if isinstance(base, VStr):
            if name == "startswith":
                return VBool(z3.PrefixOf(self.as_str(args[0]), base.t))
            if name == "endswith":
                return VBool(z3.SuffixOf(self.as_str(args[0]), base.t))
            if name == "removeprefix":
                a = self.as_str(args[0])
                return VStr(z3.If(z3.PrefixOf(a, base.t), z3.SubString(base.t, z3.Length(a), z3.Length(base.t) - z3.Length(a)), base.t))
            if name == "removesuffix":
                a = self.as_str(args[0])
                return VStr(z3.If(z3.SuffixOf(a, base.t), z3.SubString(base.t, 0, z3.Length(base.t) - z3.Length(a)), base.t))
            if name == "split" and len(args) == 1:
                # the pieces that the executed split has (builtins_model.str_split)
                sep = self.as_str(args[0])
                return VSeq(self.it.unint("str.split.e", [S, S], z3.ArraySort(I, Val))(base.t, sep), self.it.unint("str.split.n", [S, S], I)(base.t, sep), T_STR)
            if name in ("lower", "upper", "strip", "rstrip", "lstrip"):
                return VStr(self.it.unint("str." + name, [S], S)(base.t)) if not args else self._u(name, base, args)
        if isinstance(base, VRef) and base.cls is not None and base.cls.external and base.cls.name in ("dict", "defaultdict"):
            if name == "get":
                k = enc(args[0])
                et = base.elem or (T_ANY, T_ANY)
                dflt = args[1] if len(args) > 1 else VNone
                return self.merge(z3.Select(self.it.sel(self.H("#has"), base.t), k),
                                  self.dec(z3.Select(self.it.sel(self.H("#map"), base.t), k), et[1]), dflt)
            if name in ("keys", "values", "items"):
                return self.it.dict_iter(self, base, name)
        if isinstance(base, VRef) and base.cls is not None and not base.cls.external:
            return self.call_pure_method(base, name, args)
        raise Unsupported(f"method {name} in a pure expression")

    def _u(self, name, base, args):
        return VStr(self.it.unint("str." + name + "1", [S, S], S)(base.t, self.as_str(args[0])))

    # spec builtins
    def c_len(self, n):
        v = self.narrow(self.ev(n.args[0]))
        if isinstance(v, VStr):
            return VInt(z3.Length(v.t))
        if isinstance(v, VTup):
            return VInt(len(v.items))
        if isinstance(v, VSeq):
            return VInt(v.n)
        if isinstance(v, VIter):
            return VInt(v.length())
        if isinstance(v, VRef) and v.cls is not None and v.cls.external:
            if v.cls.name == "list":
                return VInt(self.length(v.t))
            return VInt(self.not_negative(self.it.sel(self.H("#dn"), v.t)))
        if isinstance(v, VRef):
            return self.call_pure_method(v, "__len__", [])
        raise Unsupported("len")

    def c_old(self, n):
        return self.in_old().ev(n.args[0])

    def c_implies(self, n):
        a = self.boolean(n.args[0])
        if z3.is_false(z3.simplify(a)):
            return VBool(z3.BoolVal(True))
        return VBool(z3.Implies(a, self.boolean(n.args[1])))

    def c_iff(self, n):
        return VBool(self.boolean(n.args[0]) == self.boolean(n.args[1]))

    def c_ite(self, n):
        a = self.boolean(n.args[0])
        k = z3.simplify(a)
        if z3.is_true(k):
            return self.ev(n.args[1])
        if z3.is_false(k):
            return self.ev(n.args[2])
        return self.merge(a, self.ev(n.args[1]), self.ev(n.args[2]))

    def c_min(self, n):
        a, b = [self.as_int(self.ev(x)) for x in n.args]
        return VInt(z3.If(a <= b, a, b))

    def c_max(self, n):
        a, b = [self.as_int(self.ev(x)) for x in n.args]
        return VInt(z3.If(a >= b, a, b))

    def c_str(self, n):
        v = self.narrow(self.ev(n.args[0]))
        if isinstance(v, VStr):
            return v
        if isinstance(v, VInt):
            return VStr(int_to_str(v.t))
        if isinstance(v, VAny) and v.ty == T_ANY:
            return VStr(z3.If(Val.is_s(v.t), Val.sv(v.t), self.it.str_of(v)))
        return VStr(self.it.str_of(v))

    def c_bool(self, n):
        return VBool(self.boolean(n.args[0]))

    def c_isinstance(self, n):
        v = self.ev(n.args[0])
        cn = n.args[1]
        cs = [self.ev(x) for x in cn.elts] if isinstance(cn, ast.Tuple) else [self.ev(cn)]
        return VBool(self.it.isinstance_term(v, cs))

    def c_is_exact(self, n):
        v = self.ev(n.args[0])
        c = self.ev(n.args[1])
        return VBool(z3.And(Val.is_r(enc(v)), clsof(self.as_ref(v)) == c.ci.id))

    def c_is_defaultdict(self, n):
        v = self.narrow(self.ev(n.args[0]))
        return VBool(clsof(self.as_ref(v)) == self.prog.builtin["defaultdict"].id)

    def c_same_class(self, n):
        a, b = [self.as_ref(self.ev(x)) for x in n.args]
        return VBool(clsof(a) == clsof(b))

    def c_cast(self, n):
        v = self.ev(n.args[0])
        return self.dec(enc(v), self.it.parse_type(ast.literal_eval(n.args[1])))

    def c_fresh(self, n):
        v = self.ev(n.args[0])
        if self.old is None:
            raise Unsupported("fresh() is not available here")
        t = enc(v)
        if isinstance(v, VRef):
            return VBool(v.t >= self.old[2])
        return VBool(z3.And(Val.is_r(t), Val.rv(t) >= self.old[2]))

    def c_allocated(self, n):
        v = self.ev(n.args[0])
        return VBool(self.as_ref(v) < self.it.alloc)

    def c_distinct(self, n):
        """The references are pairwise different."""
        ts = [self.as_ref(self.narrow(self.ev(a))) for a in n.args]
        return VBool(z3.Distinct(*ts))

    def c_unchanged(self, n):
        out = []
        for a in n.args:
            x = self.ev(a)
            y = self.in_old().ev(a)
            out.append(enc(x) == enc(y))
        return VBool(zand(out))

    def c_same_list(self, n):
        """same_list(xs): the list object xs has the same contents as in the old state."""
        out = []
        for a in n.args:
            v = self.as_ref(self.narrow(self.ev(a)))
            o = self.in_old()
            out.append(self.length(v) == o.length(v))
            k = self.it.bound("k", I)
            e1, e2 = z3.Select(self.elts(v), k), z3.Select(o.elts(v), k)
            out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.length(v)), e1 == e2), patterns=[e1]))
        return VBool(zand(out))

    def c_same_dict(self, n):
        out = []
        for a in n.args:
            v = self.as_ref(self.narrow(self.ev(a)))
            o = self.in_old()
            for h in DICT_ARRS:
                out.append(self.it.sel(self.H(h), v) == z3.Select(o.H(h), v))
        return VBool(zand(out))

    def c_seq(self, n):
        """seq(xs): the contents of the list xs in this state, as a value."""
        return self.as_seq(self.ev(n.args[0]))

    def c_matches(self, n):
        """matches(pattern, s): the whole string s is in the language of the pattern."""
        pat = ast.literal_eval(n.args[0])
        v = self.narrow(self.ev(n.args[1]))
        if not isinstance(v, VStr):
            raise Unsupported("matches")
        return VBool(z3.InRe(v.t, self.it.re_lang(list(self.it.re_parse(pat)))))

    def c_joined(self, n):
        """joined(sep, xs, lo, hi): sep.join(xs[lo:hi])."""
        if isinstance(n.args[1], ast.ListComp):
            # the elements of a sequence, mapped: an array defined by its elements
            g = n.args[1].generators[0]
            its = self.iter_of(g.iter)
            if isinstance(its, list):
                arr = self.it.fresh("mapped", z3.ArraySort(I, Val))
                for k, val in enumerate(its):
                    self.it.assume(z3.Select(arr, k) == enc(self.sub(bind_target(g.target, val)).ev(n.args[1].elt)))
                if len(n.args[1].generators) != 1 or g.ifs:
                    raise Unsupported("mapped sequence")
                sep, lo, hi = [self.ev(a) for a in (n.args[0], n.args[2], n.args[3])]
                return VStr(self.it.join_term(self.as_str(sep), arr if z3.is_int_value(z3.simplify(self.as_int(lo))) and z3.simplify(self.as_int(lo)).as_long() == 0 else self.it.dropped(arr, self.as_int(lo)), z3.simplify(self.as_int(hi) - self.as_int(lo))))
            vs, guard, val, _ = its
            e = enc(self.sub(bind_target(g.target, val)).ev(n.args[1].elt))
            if len(n.args[1].generators) != 1 or g.ifs or len(vs) != 1 or self.it.has_bound(z3.substitute(z3.And(guard, e == e), (vs[0], z3.IntVal(0)))):
                raise Unsupported("mapped sequence")
            # elements stored on top of a known array: map those and the array below
            stores, base = [], None
            src = self.narrow(self.ev(g.iter))
            if isinstance(src, VRef) and src.cls is not None and src.cls.name == "list":
                base = z3.simplify(self.elts(src.t))
                at = lambda x: enc(self.sub(bind_target(g.target, self.dec(x, src.elem or T_ANY))).ev(n.args[1].elt))
                while z3.is_app_of(base, z3.Z3_OP_STORE):
                    stores.append((base.arg(1), at(base.arg(2))))
                    base = base.arg(0)
                e = at(z3.Select(base, vs[0]))
            memo = self.it.__dict__.setdefault("_mapped", {})
            e0 = z3.substitute(e, (vs[0], z3.Int("?mapped.k")))
            if e0.get_id() not in memo:
                arr = self.it.fresh("mapped", z3.ArraySort(I, Val))
                self.it.assume(z3.ForAll(vs, z3.Select(arr, vs[0]) == e, patterns=[z3.Select(arr, vs[0])]))
                memo[e0.get_id()] = (arr, e0)
            arr = memo[e0.get_id()][0]
            for i, x in reversed(stores):
                arr = z3.Store(arr, i, x)
            sep, lo, hi = [self.ev(a) for a in (n.args[0], n.args[2], n.args[3])]
            q = VSeq(arr, None, T_STR)
        else:
            sep, xs, lo, hi = [self.ev(a) for a in n.args]
            q = self.as_seq(xs)
        lo, hi = self.as_int(lo), self.as_int(hi)
        arr = q.arr if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0 else self.it.dropped(q.arr, lo)
        return VStr(self.it.join_term(self.as_str(sep), arr, z3.simplify(hi - lo)))

    def c_called(self, n):
        """called(f, x): the value a callback returns for x."""
        f = self.ev(n.args[0])
        xs = [self.ev(a) for a in n.args[1:]]
        if isinstance(f, VClass) and f.ci.external and f.ci.name == "bool" and len(xs) == 1:
            return VBool(self.truth(self.narrow(xs[0])))
        fn = self.it.unint(f"callback{len(xs)}", [Val] * (len(xs) + 1), Val)
        return VAny(fn(enc(f), *[enc(x) for x in xs]), T_ANY)

    def c_key_at(self, n):
        """key_at(d, i): the i-th key of a dict in insertion order."""
        d = self.narrow(self.ev(n.args[0]))
        i = self.as_int(self.ev(n.args[1]))
        et = d.elem or (T_ANY, T_ANY)
        return self.dec(z3.Select(self.it.sel(self.H("#dk"), d.t), i), et[0])

    def c_pos_of(self, n):
        d = self.narrow(self.ev(n.args[0]))
        return VInt(z3.Select(self.it.sel(self.H("#di"), d.t), enc(self.ev(n.args[1]))))

    def c_count(self, n):
        """count(lambda i: cond, k): the number of indices below k that satisfy cond."""
        lam = n.args[0]
        b = self.it.bound(lam.args.args[0].arg, I)
        cond = self.sub({lam.args.args[0].arg: VInt(b)}).boolean(lam.body)
        return VInt(self.it.count_fn(cond, b)(self.as_int(self.ev(n.args[1]))))

    def c_at(self, n):
        """at(e, lambda k: body): body with k bound to the present value of e (inside old(...) too)."""
        return self.sub({n.args[1].args.args[0].arg: self.ev(n.args[0])}).ev(n.args[1].body)

    def c_forall(self, n):
        return self.quant(n, z3.ForAll)

    def c_exists(self, n):
        return self.quant(n, z3.Exists)

    def quant(self, n, q):
        """forall(lambda i, j: body) over integers; forall("str", lambda s: body) over strings;
        forall("Node", lambda x: body) over references."""
        args = list(n.args)
        kind = "int"
        if isinstance(args[0], ast.Constant):
            kind = args.pop(0).value
        lam = args[0]
        pats = []
        vs, extra, guards = [], {}, []
        for a in lam.args.args:
            if kind == "int":
                k = self.it.bound(a.arg, I)
                extra[a.arg] = VInt(k)
            elif kind == "str":
                k = self.it.bound(a.arg, S)
                extra[a.arg] = VStr(k)
            elif kind == "val":
                k = self.it.bound(a.arg, Val)
                extra[a.arg] = VAny(k)
            else:
                k = self.it.bound(a.arg, I)
                ty = self.it.parse_type(kind)
                extra[a.arg] = self.it.ref_of_type(k, ty)
                lim = self.old[2] if (self.old is not None and self.heap is self.old[0]) else self.it.alloc
                guards.append(z3.And(k > 0, k < lim, self.tag(Val.r(k), ty)))
            vs.append(k)
        p = self.sub(extra)
        body = p.boolean(lam.body)
        for a in args[1:]:
            pats.append(p.term(a))
        if guards:
            body = z3.Implies(zand(guards), body) if q is z3.ForAll else z3.And(zand(guards), body)
        if pats:
            return VBool(q(vs, body, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]]))
        return VBool(q(vs, body))

    def term(self, node):
        """The SMT term of an expression, for use in a trigger."""
        v = self.ev(node)
        if getattr(v, "raw", None) is not None:
            return v.raw
        return v.t

    def c_all(self, n):
        return VBool(self.gen_quant(n.args[0], True))

    def c_any(self, n):
        return VBool(self.gen_quant(n.args[0], False))

    def gen_quant(self, g, universal):
        if not isinstance(g, (ast.GeneratorExp, ast.ListComp)):
            raise Unsupported("all/any over a non generator")
        return self._gq(g.generators, g.elt, universal)

    def _gq(self, gens, elt, universal):
        if not gens:
            return self.boolean(elt)
        g = gens[0]
        it = self.iter_of(g.iter)
        if isinstance(it, list):
            out = []
            for x in it:
                p = self.sub(bind_target(g.target, x))
                c = zand([p.boolean(i) for i in g.ifs])
                b = p._gq(gens[1:], elt, universal)
                out.append(z3.Implies(c, b) if universal else z3.And(c, b))
            return zand(out) if universal else zor(out)
        vs, guard, val, pat = it
        p = self.sub(bind_target(g.target, val))
        c = zand([guard] + [p.boolean(i) for i in g.ifs])
        b = p._gq(gens[1:], elt, universal)
        for d in p.defs:
            self.defs.append(z3.ForAll(vs, z3.Implies(c, d)))
        if universal:
            kw = {}
            if pat is not None:
                kw = {"patterns": [pat]}
            elif len(vs) == 1:
                k = vs[0]
                pats = index_patterns(b, k)
                # a body about xs[k] and xs[k + 1]: with two variables a use needs both reads to be there already,
                # (two inequalities: a solver would replace j by an equality and match on k + 1 again); with one
                # variable the read at k + 1 would make the next use possible, and so on
                j = self.it.bound("j", I)
                b2 = z3.substitute(z3.substitute(b, (k + 1, j)), (1 + k, j))
                pats2 = index_patterns(b2, j) if not b2.eq(b) else []
                both = [(x, y) for x in pats for y in pats2 if x.arg(0).eq(y.arg(0))]
                if both:
                    return z3.ForAll([k, j], z3.Implies(z3.And(c, j <= k + 1, j >= k + 1), b2), patterns=[z3.MultiPattern(x, y) for x, y in both])
                kw = {"patterns": pats}
            return z3.ForAll(vs, z3.Implies(c, b), **kw)
        body = z3.And(c, b)
        if len(vs) != 1 or vs[0].sort() != I:
            return z3.Exists(vs, body)
        # what was stored last is tried as a witness; the others are reads of the list below
        k = vs[0]
        pats, seen, tried = [], set(), []
        for arr in list_reads(body, k):
            while z3.is_store(arr):
                if not any(arr.arg(1).eq(x) for x in tried) and len(tried) < 3:
                    tried.append(arr.arg(1))
                arr = arr.arg(0)
            if arr.get_id() not in seen and pattern_ok(arr):
                seen.add(arr.get_id())
                pats.append(z3.Select(arr, k))
        if not tried:
            return z3.Exists(vs, body)
        try:
            ex = z3.Exists(vs, body, patterns=pats) if pats else z3.Exists(vs, body)
        except z3.Z3Exception:       # not a term that z3 takes as a pattern (a constant array)
            ex = z3.Exists(vs, body)
        return z3.Or([ex] + [z3.substitute(body, (k, x)) for x in tried])

    def iter_of(self, node):
        """Either a python list of values or (vars, guard, value, pattern)."""
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "range" and "range" not in self.env:
            a = [self.as_int(self.ev(x)) for x in node.args]
            lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
            lo_s, hi_s = z3.simplify(lo), z3.simplify(hi)
            if z3.is_int_value(lo_s) and z3.is_int_value(hi_s) and hi_s.as_long() - lo_s.as_long() <= 12:
                return [VInt(i) for i in range(lo_s.as_long(), hi_s.as_long())]
            k = self.it.bound("k", I)
            return [k], z3.And(lo <= k, k < hi), VInt(k), None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "enumerate":
            sub = self.iter_of(node.args[0])
            st = self.as_int(self.ev(node.args[1])) if len(node.args) > 1 else z3.IntVal(0)
            if isinstance(sub, list):
                return [VTup([VInt(i), x]) for i, x in enumerate(sub)]
            vs, g, v, pat = sub
            return vs, g, VTup([VInt(vs[0] + st), v]), pat
        v = self.ev(node)
        return self.iter_value(v)

    def iter_value(self, v):
        v = self.narrow(v)
        if isinstance(v, VTup):
            return list(v.items)
        if isinstance(v, VSeq):
            k = self.it.bound("k", I)
            e = z3.Select(v.arr, k)
            return [k], z3.And(0 <= k, k < v.n), self.dec(e, v.elem), e
        if isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name == "list":
            n = z3.simplify(self.length(v.t))
            if z3.is_int_value(n) and n.as_long() <= 12:
                return [self.dec(z3.simplify(z3.Select(self.elts(v.t), i)), v.elem or T_ANY) for i in range(n.as_long())]
            k = self.it.bound("k", I)
            e = z3.Select(self.elts(v.t), k)
            return [k], z3.And(0 <= k, k < self.length(v.t)), self.dec(e, v.elem or T_ANY), e
        if isinstance(v, VRef) and v.cls is not None and v.cls.external and v.cls.name in ("dict", "defaultdict"):
            return self.dict_q(v, "keys")
        if isinstance(v, VIter) and v.kind in ("keys", "values", "items"):
            return self.dict_q(v.src, v.kind)
        if isinstance(v, VIter):
            k = self.it.bound("k", I)
            return [k], z3.And(0 <= k, k < v.length()), v.get(k), None
        raise Unsupported(f"iteration over {v}")

    def dict_q(self, d, kind):
        k = self.it.bound("key", Val)
        has = z3.Select(self.it.sel(self.H("#has"), d.t), k)
        et = d.elem or (T_ANY, T_ANY)
        key = self.dec(k, et[0])
        if kind == "keys":
            return [k], has, key, has
        mv = z3.Select(self.it.sel(self.H("#map"), d.t), k)
        val = self.dec(mv, et[1])
        if kind == "values":
            return [k], has, val, mv
        return [k], has, VTup([key, val]), has


def list_reads(body, k):
    """The lists that are read at exactly the bound index."""
    out, seen, todo, has = [], set(), [body], {}
    bid = k.get_id()

    def mentions(t):
        i = t.get_id()
        if i not in has:
            has[i] = i == bid or any(mentions(c) for c in t.children())
        return has[i]

    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_select(t) and t.arg(1).get_id() == bid and t.arg(0).sort() == z3.ArraySort(I, Val) and not mentions(t.arg(0)):
            out.append(t.arg(0))
        todo.extend(t.children())
    return out


def index_patterns(body, k):
    """The reads of a list at exactly the bound index, each on its own: `xs[k + 1]` in the same body must not be
    needed to use a fact about all k."""
    out, seen = [], set()
    todo = [body]
    bid = k.get_id()
    has = {}

    def mentions(t):
        i = t.get_id()
        if i not in has:
            has[i] = i == bid or any(mentions(c) for c in t.children())
        return has[i]

    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            continue
        if z3.is_select(t) and t.arg(1).get_id() == bid and t.arg(0).sort() == z3.ArraySort(I, Val) and not mentions(t.arg(0)) \
                and not z3.is_store(t.arg(0)) and pattern_ok(t.arg(0)):
            out.append(t)
        todo.extend(t.children())
    return out


def pattern_ok(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() == z3.Z3_OP_ITE or (z3.is_bool(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED):
            return False
        todo.extend(x.children())
    return True


def bind_target(t, v):
    if isinstance(t, ast.Name):
        return {t.id: v}
    if isinstance(t, ast.Tuple) and isinstance(v, VTup):
        out = {}
        for a, b in zip(t.elts, v.items):
            out.update(bind_target(a, b))
        return out
    raise Unsupported("target")


def const_value(x):
    if x is None:
        return VNone
    if isinstance(x, bool):
        return VBool(x)
    if isinstance(x, int):
        return VInt(x)
    if isinstance(x, str):
        return VStr(z3.StringVal(x))
    if isinstance(x, tuple):
        return VTup([const_value(y) for y in x])
    if x is Ellipsis:
        return VNone
    raise Unsupported(f"constant {x!r}")


def int_to_str(t):
    """str(int): z3's int.to.str is only meaningful for naturals."""
    return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))


def substr(s, lo, hi):
    """Python slice s[lo:hi] (step 1)."""
    ln = z3.Length(s)

    def clamp(x):
        xs = z3.simplify(x)
        if z3.is_int_value(xs):
            v = xs.as_long()
            if v >= 0:
                return z3.If(ln < v, ln, z3.IntVal(v)) if v > 0 else z3.IntVal(0)
            return z3.If(ln + v < 0, z3.IntVal(0), ln + v)
        x = z3.If(x < 0, x + ln, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > ln, ln, x))

    if z3.eq(hi, ln):
        h = ln
    else:
        h = clamp(hi)
    l = clamp(lo)
    return z3.SubString(s, l, z3.If(h >= l, h - l, z3.IntVal(0)))
