"""Front end: reads the current source of the code under verification.

Nothing is translated by hand: every run parses the files below /repo/mau with
`ast` and builds a table of modules, classes (with a C3 MRO) and functions.  The
symbolic executor interprets these syntax trees directly.
"""
from __future__ import annotations

import ast
import os


class Unsupported(Exception):
    """The verifier cannot interpret this construct."""


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.globals = {}      # name -> ("class", ClassInfo) | ("func", FuncInfo)
        #                        | ("import", module, attr|None) | ("expr", ast.expr)


class FuncInfo:
    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.decorators = []
        self.kind = "function"
        for d in getattr(node, "decorator_list", []):
            dn = ast.unparse(d)
            self.decorators.append(dn)
            if dn == "classmethod":
                self.kind = "classmethod"
            elif dn == "staticmethod":
                self.kind = "staticmethod"
            elif dn == "property":
                self.kind = "property"
            elif dn.endswith(".setter"):
                self.kind = "setter"
        self.is_generator = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def qualname(self):
        if self.cls is not None:
            return f"{self.module.name}.{self.cls.name}.{self.name}"
        return f"{self.module.name}.{self.name}"

    @property
    def short(self):
        return f"{self.cls.name}.{self.name}" if self.cls is not None else self.name

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def __repr__(self):
        return f"<func {self.qualname}>"


def walk_own(node):
    """Walk a function body without entering nested functions."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class ClassInfo:
    _next = 100

    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.bases = []          # ClassInfo
        self.methods = {}        # name -> FuncInfo
        self.setters = {}
        self.attrs = {}          # class attributes: name -> ast.expr
        self.ann = {}            # annotated names in the class body
        self.is_dataclass = False
        self.dataclass_eq = True
        self.is_enum = False
        self.external = False
        self.mro = [self]
        self.subclasses = []
        self.id = ClassInfo._next
        ClassInfo._next += 1
        self.field_ann = {}      # instance field -> annotation ast (from __init__)
        self.field_module = {}

    @property
    def qualname(self):
        return f"{self.module.name}.{self.name}" if self.module else self.name

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro

    def all_subs(self):
        out = [self]
        seen = {self}
        i = 0
        while i < len(out):
            for s in out[i].subclasses:
                if s not in seen:
                    seen.add(s)
                    out.append(s)
            i += 1
        return out

    def __repr__(self):
        return f"<class {self.qualname}>"


BUILTIN_EXC = {
    "BaseException": None,
    "Exception": "BaseException",
    "ArithmeticError": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "LookupError": "Exception",
    "IndexError": "LookupError",
    "KeyError": "LookupError",
    "ValueError": "Exception",
    "UnicodeDecodeError": "ValueError",
    "TypeError": "Exception",
    "AttributeError": "Exception",
    "NameError": "Exception",
    "RuntimeError": "Exception",
    "RecursionError": "RuntimeError",
    "NotImplementedError": "RuntimeError",
    "OSError": "Exception",
    "FileNotFoundError": "OSError",
    "IsADirectoryError": "OSError",
    "PermissionError": "OSError",
    "StopIteration": "Exception",
    "AssertionError": "Exception",
    "SystemExit": "BaseException",
}


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.classes = {}      # qualname -> ClassInfo
        self._unrel = {}
        self.by_name = {}      # class simple name -> [ClassInfo]
        self.builtin = {}
        self._builtins()
        for dp, dn, fn in sorted(os.walk(os.path.join(root, "mau"))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            for kind, *rest in list(m.globals.values()):
                if kind == "class":
                    self._link(rest[0])
        for c in self.classes.values():
            c.mro = self._mro(c)
        for c in self.classes.values():
            self._flags(c)
            self._fields(c)

    def _builtins(self):
        def mk(name, base=None):
            c = ClassInfo(name, None, None)
            c.external = True
            if base is not None:
                c.bases = [self.builtin[base]]
                self.builtin[base].subclasses.append(c)
            c.mro = self._mro(c)
            self.builtin[name] = c
            self.by_name.setdefault(name, []).append(c)
            return c

        mk("object")
        for n, b in BUILTIN_EXC.items():
            mk(n, b or "object")
        for n in ["list", "dict", "str", "int", "bool", "tuple", "set", "float", "type", "function", "NoneType", "bytes"]:
            mk(n, "object")
        mk("defaultdict", "dict")
        mk("Enum", "object")

    def unrelated(self, a, b):
        """No class of the program derives from both."""
        k = (a, b)
        if k not in self._unrel:
            self._unrel[k] = not (set(a.all_subs()) & set(b.all_subs()))
        return self._unrel[k]

    def _load(self, path):
        rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[: -len(".__init__")]
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        m = Module(rel, path, ast.parse(src, path))
        m.is_pkg = path.endswith("__init__.py")
        self.modules[rel] = m
        self._scan(m, m.tree.body)

    def _scan(self, m, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                c = ClassInfo(n.name, n, m)
                m.globals[n.name] = ("class", c)
                self.classes[c.qualname] = c
                self.by_name.setdefault(n.name, []).append(c)
                for d in n.decorator_list:
                    if ast.unparse(d).split("(")[0] in ("dataclass", "dataclasses.dataclass"):
                        c.is_dataclass = True
                        if isinstance(d, ast.Call):
                            for k in d.keywords:
                                if k.arg == "eq" and isinstance(k.value, ast.Constant):
                                    c.dataclass_eq = bool(k.value.value)
                for s in n.body:
                    if isinstance(s, ast.FunctionDef):
                        fi = FuncInfo(s.name, s, m, c)
                        if fi.kind == "setter":
                            c.setters[s.name] = fi
                        else:
                            c.methods[s.name] = fi
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        c.ann[s.target.id] = s.annotation
                        if s.value is not None:
                            c.attrs[s.target.id] = s.value
            elif isinstance(n, ast.FunctionDef):
                m.globals[n.name] = ("func", FuncInfo(n.name, n, m))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.globals[(a.asname or a.name).split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    m.globals[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = ("expr", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.globals[n.target.id] = ("expr", n.value)
            elif isinstance(n, ast.If):
                self._scan(m, n.body)
                self._scan(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(m, n.body)
                for h in n.handlers:
                    self._scan(m, h.body)

    def resolve(self, module, name, _depth=0):
        """Resolve a global name to a ("class"|"func"|"expr"|"extern"|"module", ...) tuple."""
        g = module.globals.get(name)
        if g is None:
            if name in self.builtin:
                return ("class", self.builtin[name])
            return None
        if g[0] != "import":
            return g + (module,) if g[0] == "expr" else g
        _, base, attr = g
        if attr is None:
            return ("module", base)
        if base in self.modules:
            r = self.resolve(self.modules[base], attr, _depth + 1) if attr in self.modules[base].globals else None
            if r is not None:
                return r
            if f"{base}.{attr}" in self.modules:
                return ("module", f"{base}.{attr}")
            return None
        if attr == "Enum" and base == "enum":
            return ("class", self.builtin["Enum"])
        if attr == "defaultdict":
            return ("class", self.builtin["defaultdict"])
        return ("extern", f"{base}.{attr}")

    def _link(self, c):
        for b in c.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.resolve(c.module, b.id)
            if r is not None and r[0] == "class":
                c.bases.append(r[1])
                r[1].subclasses.append(c)
            else:
                ext = ClassInfo(ast.unparse(b), None, None)
                ext.external = True
                ext.bases = [self.builtin["object"]]
                ext.mro = [ext, self.builtin["object"]]
                c.bases.append(ext)
                ext.subclasses.append(c)
        if not c.bases:
            c.bases = [self.builtin["object"]]
            self.builtin["object"].subclasses.append(c)

    def _mro(self, c):
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported(f"mro {c}")
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out

        return [c] + merge([self._mro(b) for b in c.bases] + [list(c.bases)])

    def _flags(self, c):
        c.is_enum = any(b.name == "Enum" for b in c.mro)

    def _fields(self, c):
        """Collect declared instance-field annotations."""
        if c.is_dataclass:
            for k, v in c.ann.items():
                c.field_ann[k] = v
        for name, fi in c.methods.items():
            if name != "__init__":
                continue
            panns = {a.arg: a.annotation for a in fi.node.args.args + fi.node.args.kwonlyargs if a.annotation is not None}
            for s in ast.walk(fi.node):
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) \
                        and isinstance(s.target.value, ast.Name) and s.target.value.id == "self":
                    c.field_ann[s.target.attr] = s.annotation
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute) \
                        and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == "self":
                    v = s.value
                    an = None
                    if isinstance(v, ast.Name) and v.id in panns:
                        an = panns[v.id]
                    if an is not None and s.targets[0].attr not in c.field_ann:
                        c.field_ann[s.targets[0].attr] = an

    def cls(self, name):
        if name in self.classes:
            return self.classes[name]
        if name in self.builtin:
            return self.builtin[name]
        l = self.by_name.get(name)
        if not l:
            raise Unsupported(f"class {name} not found in the source")
        if len(l) > 1:
            raise Unsupported(f"class name {name} is ambiguous")
        return l[0]

    def has_cls(self, name):
        return name in self.classes or name in self.builtin or len(self.by_name.get(name, [])) == 1

    def func(self, name):
        """Find a function: 'Class.method', 'module.func' or a bare unique function name."""
        if "." in name:
            head, tail = name.rsplit(".", 1)
            if self.has_cls(head):
                c = self.cls(head)
                if tail in c.methods:
                    return c.methods[tail]
                return None
            for mn, m in self.modules.items():
                if mn == head or mn.endswith("." + head):
                    g = m.globals.get(tail)
                    if g and g[0] == "func":
                        return g[1]
            return None
        hits = []
        for m in self.modules.values():
            g = m.globals.get(name)
            if g and g[0] == "func":
                hits.append(g[1])
        if len(hits) == 1:
            return hits[0]
        return None
