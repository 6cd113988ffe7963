"""Symbolic values and the universal SMT datatype used for heap cells."""
from __future__ import annotations

import z3

from .front import ClassInfo, Unsupported


# z3's simplifier rewrites bodies but not patterns; a pattern written `x + 1` then never matches the
# normalised `1 + x`.  Patterns are therefore normalised when they are made.
_forall, _exists, _multi = z3.ForAll, z3.Exists, z3.MultiPattern


def _norm_pat(p):
    if isinstance(p, z3.PatternRef) or not z3.is_expr(p) or z3.is_app(p) is False:
        return p
    q = p.decl()(*[z3.simplify(c) for c in p.children()]) if p.num_args() else p
    return q


def _ForAll(vs, body, weight=1, qid="", skid="", patterns=[], no_patterns=[]):
    return _forall(vs, body, weight, qid, skid, [_norm_pat(p) for p in patterns], no_patterns)


def _Exists(vs, body, weight=1, qid="", skid="", patterns=[], no_patterns=[]):
    return _exists(vs, body, weight, qid, skid, [_norm_pat(p) for p in patterns], no_patterns)


if getattr(z3, "_pyvc_patched", None) is None:
    z3._pyvc_patched = True
    z3.ForAll, z3.Exists = _ForAll, _Exists
    z3.MultiPattern = lambda *ps: _multi(*[_norm_pat(p) for p in ps])

_D = z3.Datatype("Val")
_D.declare("none")
_D.declare("b", ("bv", z3.BoolSort()))
_D.declare("i", ("iv", z3.IntSort()))
_D.declare("s", ("sv", z3.StringSort()))
_D.declare("r", ("rv", z3.IntSort()))
_D.declare("c", ("cv", z3.IntSort()))
_D.declare("t2", ("t2a", _D), ("t2b", _D))
_D.declare("t3", ("t3a", _D), ("t3b", _D), ("t3c", _D))
Val = _D.create()
NONE = Val.none
I = z3.IntSort()
B = z3.BoolSort()
S = z3.StringSort()

clsof = z3.Function("clsof", I, I)

ARR = {
    "#len": z3.ArraySort(I, I),
    "#elt": z3.ArraySort(I, z3.ArraySort(I, Val)),
    "#has": z3.ArraySort(I, z3.ArraySort(Val, B)),
    "#map": z3.ArraySort(I, z3.ArraySort(Val, Val)),
    "#dn": z3.ArraySort(I, I),
    "#dk": z3.ArraySort(I, z3.ArraySort(I, Val)),
    "#di": z3.ArraySort(I, z3.ArraySort(Val, I)),
}
DEFAULT_ARR = z3.ArraySort(I, Val)
LIST_ARRS = ("#len", "#elt")
DICT_ARRS = ("#has", "#map", "#dn", "#dk", "#di")


def arr_sort(name):
    return ARR.get(name, DEFAULT_ARR)


# --- static types -----------------------------------------------------------
T_ANY = ("any",)
T_INT = ("int",)
T_BOOL = ("bool",)
T_STR = ("str",)
T_NONE = ("none",)
T_FUNC = ("func",)


def t_union(ts):
    out = []
    for t in ts:
        for u in (t[1] if t[0] == "union" else [t]):
            if u not in out:
                out.append(u)
    if any(u == T_ANY for u in out):
        return T_ANY
    if len(out) == 1:
        return out[0]
    return ("union", out)


# --- values -------------------------------------------------------------------
class V:
    raw = None


class VInt(V):
    def __init__(self, t, raw=None):
        self.t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)
        self.raw = raw


class VBool(V):
    def __init__(self, t, raw=None):
        self.t = t if isinstance(t, z3.ExprRef) else z3.BoolVal(t)
        self.raw = raw


class VStr(V):
    def __init__(self, t, raw=None):
        self.t = t if isinstance(t, z3.ExprRef) else z3.StringVal(t)
        self.raw = raw


class VNoneT(V):
    pass


VNone = VNoneT()


class VRef(V):
    def __init__(self, t, cls, exact=False, elem=None, raw=None):
        self.t = t
        self.cls = cls
        self.exact = exact
        self.elem = elem      # list: element type; dict: (key type, value type)
        self.raw = raw

    def __repr__(self):
        return f"VRef({self.t},{self.cls.name if self.cls else None}{'!' if self.exact else ''})"


class VAny(V):
    def __init__(self, t, ty=T_ANY):
        self.t = t
        self.ty = ty

    def __repr__(self):
        return f"VAny({self.t},{self.ty})"


class VDynClass(VAny):
    """The class of an object whose class is not known statically."""

    def __init__(self, t, ref, cls):
        VAny.__init__(self, t, T_ANY)
        self.ref = ref
        self.cls = cls


class VTup(V):
    def __init__(self, items):
        self.items = list(items)


class VSeq(V):
    """The contents of a list, as a mathematical sequence (specifications only)."""

    def __init__(self, arr, n, elem):
        self.arr = arr
        self.n = n
        self.elem = elem


class VClass(V):
    def __init__(self, ci):
        self.ci = ci


class VEnum(V):
    def __init__(self, ci, member):
        self.ci = ci
        self.member = member


class VFunc(V):
    """A function or lambda, possibly with a closure."""

    def __init__(self, fi, closure=None, owner=None):
        self.fi = fi
        self.closure = closure
        self.owner = owner


class VBound(V):
    def __init__(self, recv, name, fi=None):
        self.recv = recv
        self.name = name
        self.fi = fi


class VPartial(V):
    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class VKw(V):
    """A dictionary of keyword arguments that is only passed on with **."""

    def __init__(self, items):
        self.items = items


class VMod(V):
    def __init__(self, name):
        self.name = name


class VExt(V):
    def __init__(self, name):
        self.name = name


class VSuper(V):
    def __init__(self, recv, after, cls):
        self.recv = recv
        self.after = after
        self.cls = cls


class VMatch(V):
    def __init__(self, groups, names, whole=None):
        self.groups = groups
        self.names = names
        self.whole = whole


class VIter(V):
    """A lazily indexed sequence: length(st) and get(st, k)."""

    def __init__(self, length, get, src=None, kind="iter", on_start=None, parts=None):
        self.length = length
        self.get = get
        self.src = src
        self.kind = kind
        self.on_start = on_start
        self.parts = parts or []


class VGen(V):
    """An unevaluated generator expression."""

    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


class VSlice(V):
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi


class Interner:
    def __init__(self):
        self.ids = {}
        self.objs = {}
        self.next = 1

    def key(self, v):
        if isinstance(v, VEnum):
            return ("enum", v.ci, v.member)
        if isinstance(v, VClass):
            return ("class", v.ci)
        if isinstance(v, VFunc) and v.closure is None:
            return ("func", v.fi)
        if isinstance(v, VExt):
            return ("ext", v.name)
        if isinstance(v, VMod):
            return ("mod", v.name)
        return ("obj", id(v))

    def id(self, v):
        k = self.key(v)
        if k not in self.ids:
            self.ids[k] = self.next
            self.objs[self.next] = v
            self.next += 1
        return self.ids[k]


CONSTS = Interner()


def enc(v):
    """Encode a symbolic value as a Val term."""
    if getattr(v, "raw", None) is not None:
        return v.raw
    if isinstance(v, VAny):
        return v.t
    if isinstance(v, VInt):
        return Val.i(v.t)
    if isinstance(v, VBool):
        return Val.b(v.t)
    if isinstance(v, VStr):
        return Val.s(v.t)
    if isinstance(v, VNoneT):
        return NONE
    if isinstance(v, VRef):
        return Val.r(v.t)
    if isinstance(v, VTup):
        if len(v.items) == 2:
            return Val.t2(*[enc(x) for x in v.items])
        if len(v.items) == 3:
            return Val.t3(*[enc(x) for x in v.items])
        if len(v.items) == 4:
            a = [enc(x) for x in v.items]
            return Val.t2(Val.t2(a[0], a[1]), Val.t2(a[2], a[3]))
        raise Unsupported(f"cannot store a {len(v.items)}-tuple")
    if isinstance(v, (VClass, VEnum, VFunc, VExt, VMod, VBound, VPartial, VMatch, VIter)):
        return Val.c(CONSTS.id(v))
    raise Unsupported(f"cannot store value {type(v).__name__}")


def is_app_of(t, name):
    return z3.is_app(t) and t.decl().name() == name


def ids_intervals(ids):
    ids = sorted(ids)
    out = []
    for i in ids:
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


def renumber(prog):
    """Give class ids in depth-first order so that subclass tests are intervals."""
    n = [100]
    seen = set()

    def go(c):
        if c in seen:
            return
        seen.add(c)
        c.id = n[0]
        n[0] += 1
        for s in c.subclasses:
            if s.bases and s.bases[0] is c:
                go(s)

    go(prog.builtin["object"])
    for c in list(prog.classes.values()):
        go(c)
    prog.cls_iv = {}


def isa(prog, t, ci):
    iv = prog.cls_iv.get(ci)
    if iv is None:
        iv = ids_intervals([c.id for c in ci.all_subs()])
        prog.cls_iv[ci] = iv
    c = clsof(t)
    parts = []
    for lo, hi in iv:
        parts.append(c == lo if lo == hi else z3.And(c >= lo, c <= hi))
    return z3.Or(parts) if len(parts) != 1 else parts[0]
