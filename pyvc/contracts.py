"""Contract registry: the sidecar specification language."""
from __future__ import annotations


class Contract:
    def __init__(self, key, **kw):
        self.key = key
        self.params = kw.pop("params", None)          # positional aliases for the real parameter names
        self.types = kw.pop("types", {})
        self.returns = kw.pop("returns", None)
        self.requires = kw.pop("requires", [])
        self.ensures = kw.pop("ensures", [])
        self.defines = kw.pop("defines", [])           # assumed by callers, not proved: gives uninterpreted relations their only meaning
        self.raises = kw.pop("raises", {})             # exception class -> condition on the entry state ("may raise only if")
        self.raises_iff = kw.pop("raises_iff", {})     # exception class -> condition (raised exactly then)
        self.ensures_raise = kw.pop("ensures_raise", {})
        self.modifies = kw.pop("modifies", [])
        self.loops = kw.pop("loops", [])
        self.pure = kw.pop("pure", None)               # result is exactly this expression, nothing modified
        self.modifies_raise = kw.pop("modifies_raise", {})    # what may differ when that exception is raised
        self.none_pure = kw.pop("none_pure", False)    # when the result is None nothing has been modified
        self.exact = kw.pop("exact", False)            # self has exactly this class
        self.virtual = kw.pop("virtual", False)        # every override satisfies this contract (each is verified)
        self.own = kw.pop("own", False)                # virtual: each body is verified for the classes that use it (never called through super())
        self.trusted = kw.pop("trusted", None)         # reason why the body is not verified
        self.decreases = kw.pop("decreases", None)
        self.inline_only = kw.pop("inline_only", False)
        self.opaque = kw.pop("opaque", [])
        self.ghost = kw.pop("ghost", {})
        self.lemma = kw.pop("lemma", None)
        self.note = kw.pop("note", "")
        self.lemmas = kw.pop("lemmas", [])
        self.heaps = kw.pop("heaps", 1)          # a lemma about two heaps: old(...) is the second one
        self.induct = kw.pop("induct", None)     # (variable, value of the smaller case, measure)
        self.share = kw.pop("share", ())         # heap arrays that are the same in both heaps
        self.trigger = kw.pop("trigger", None)
        self.split = kw.pop("split", None)
        self.max_paths = kw.pop("max_paths", 4000)
        self.timeout = kw.pop("timeout", None)
        self.unwrap = kw.pop("inline", [])             # contract keys to be inlined instead of used by contract
        self.allocates = kw.pop("allocates", True)
        self.assume = kw.pop("assume", [])             # facts assumed (listed as trusted) beyond requires
        for sp in self.loops:
            if isinstance(sp, dict) and set(sp) - {"inv", "modifies", "live", "decreases", "elem", "types", "comp", "nth"}:
                raise ValueError(f"{key}: unknown loop fields {sorted(sp)}")
        if kw:
            raise ValueError(f"{key}: unknown contract fields {sorted(kw)}")

    @staticmethod
    def labelled(items, prefix):
        out = []
        for i, e in enumerate(items):
            if isinstance(e, tuple):
                out.append(e)
            else:
                out.append((f"{prefix}{i}", e))
        return out


class Registry:
    def __init__(self):
        self.contracts = {}
        self.macros = {}
        self.recs = {}
        self.unint = {}
        self.consts = {}
        self.fields = {}
        self.invariants = {}
        self.axioms = []
        self.inline = set()
        self.externs = {}
        self.loopspecs = {}
        self.lemmas = {}
        self.elem_types = {}
        self.splits = {}

    # -- DSL ---------------------------------------------------------------------
    def contract(self, key, **kw):
        if key in self.contracts:
            raise ValueError(f"duplicate contract {key}")
        c = Contract(key, **kw)
        self.contracts[key] = c
        return c

    def new_name(self, name):
        if name in self.macros or name in self.recs or name in self.unint:
            raise ValueError(f"two definitions of {name}")

    def macro(self, sig, body):
        name, params = sig.rstrip(")").split("(", 1)
        self.new_name(name.strip())
        self.macros[name.strip()] = ([p.strip() for p in params.split(",") if p.strip()], body)

    def rec(self, sig, ret, body, **kw):
        """Recursive spec function: rec("f(xs: list[int], n: int)", "int", "...")"""
        name, params = sig.rstrip(")").split("(", 1)
        self.new_name(name.strip())
        self.recs[name.strip()] = (self.signature(params), ret, body, kw)

    @staticmethod
    def signature(params):
        ps = []
        depth = 0
        cur = ""
        for ch in params + ",":
            if ch == "," and depth == 0:
                if cur.strip():
                    n, t = cur.split(":", 1)
                    ps.append((n.strip(), t.strip()))
                cur = ""
                continue
            if ch == "[":
                depth += 1
            if ch == "]":
                depth -= 1
            cur += ch
        return ps

    def pred(self, sig, body, reads=()):
        """A named predicate: expanded where it is used, except in proofs that list it as opaque, where only
        its arguments and the heap arrays it reads count."""
        self.rec(sig, "bool", body, reads=list(reads), plain=True)

    def lemma(self, name, sig, requires, ensures, **kw):
        """A fact about named predicates, proved once; contracts that list it in `lemmas` may use it."""
        self.contract(f"lemma.{name}", lemma=self.signature(sig), requires=requires, ensures=ensures, **kw)

    def uninterpreted(self, name, params, ret):
        self.unint[name] = (params, ret)

    def field(self, cls, **tys):
        self.fields.setdefault(cls, {}).update(tys)

    def split_field(self, name, *classes):
        """Instances of these (unrelated) classes keep the field `name` in heap arrays of their own."""
        self.splits[name] = classes

    def invariant(self, cls, *exprs):
        self.invariants.setdefault(cls, []).extend(exprs)

    def loopspec(self, func, *specs):
        self.loopspecs[func] = list(specs)

    def extern(self, name, **kw):
        self.externs[name] = Contract(name, **kw)
