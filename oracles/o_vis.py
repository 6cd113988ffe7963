"""C19 C20 C21: template selection, copies of node trees, what visitors return."""
import importlib
import pkgutil

import mau.nodes
from common import *
from mau.nodes.node import Node, NodeArguments
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.jinja_visitor import JinjaVisitor, Template

for _m in pkgutil.iter_modules(mau.nodes.__path__):
    importlib.import_module("mau.nodes." + _m.name)


def subclasses(c):
    for s in c.__subclasses__():
        yield s
        yield from subclasses(s)


CLASSES = sorted({c.__name__: c for c in subclasses(Node) if c.__module__.startswith("mau.")}.items())

# ---------------------------------------------------------------- C19
TYPES = ["header", "text", "block", "style", "macro", "label", "include", "blockgroup", "blockgroup-item"]
# what a template can ask of a node besides its type: the field of each type
FIELD = {"style": "style", "macro": "name", "label": "role", "include": "ctype", "blockgroup": "name", "blockgroup-item": "position"}
VALUES = ["p1", "p2", "p3"]
KEYS = ["style", "name", "role", "ctype", "position", "level"]


def rand_custom(rng, typ):
    c = {}
    if rng.random() < .45:
        c[FIELD.get(typ, "position") if rng.random() < .8 else rng.choice(KEYS)] = rng.choice(VALUES[:2])
        if rng.random() < .15:
            c[rng.choice(KEYS)] = rng.choice(VALUES[:2])
    return c


def rand_template(rng, pool):
    t = rng.choice(pool)
    pt = rng.choice([None, None, None, "document", *pool])
    return {"type": t, "subtype": rng.choice([None, None, "s1", "s2"]), "prefix": rng.choice([None, None, None, "pa", "pb"]),
            "pt": pt, "pts": rng.choice([None, None, None, "s1", "s2"]), "tags": rng.choice([[], [], [], ["t1"], ["t1", "t2"]]),
            "custom": rand_custom(rng, t), "pcustom": rand_custom(rng, pt) if rng.random() < .4 else {}}


def tname(t):
    parts = []
    if t["subtype"]:
        parts.append(t["subtype"])
    if t["prefix"]:
        parts.append("pf_" + t["prefix"])
    if t["pt"]:
        parts.append("pt_" + t["pt"])
    if t["pts"]:
        parts.append("pts_" + t["pts"])
    parts += ["tg_" + x for x in t["tags"]]
    parts += [f"{k}__{v}" for k, v in t["custom"].items()]
    parts += [f"pts_{k}__{v}" for k, v in t["pcustom"].items()]
    return ".".join([t["type"], *parts])


def rand_node(rng, pool):
    return {"type": rng.choice(pool), "subtype": rng.choice([None, "s1", "s2", "s3"]), "tags": rng.choice([[], ["t1"], ["t1", "t2"], ["t2"]]), "value": rng.choice(VALUES)}


def cases19(rng, tier):
    while True:
        pool = rng.sample(TYPES, rng.choice([1, 2, 2, 3]))
        yield {"templates": [rand_template(rng, pool) for _ in range(rng.randint(0, 8))], "prefixes": rng.choice([[], [], ["pa"], ["pb", "pa"], ["pc", "pb"]]), "order": rng.randint(0, 5),
               "node": rand_node(rng, pool), "parent": rng.choice([None, dict(rand_node(rng, ["document"])), rand_node(rng, pool), rand_node(rng, pool)])}


def make(d, parent=None):
    from mau.nodes.block import BlockNode
    from mau.nodes.document import DocumentNode
    from mau.nodes.header import HeaderNode
    from mau.nodes.include import BlockGroupItemNode, BlockGroupNode, IncludeNode
    from mau.nodes.inline import StyleNode, TextNode
    from mau.nodes.label import LabelNode
    from mau.nodes.macro import MacroNode
    kw = {"arguments": NodeArguments(subtype=d["subtype"], tags=list(d["tags"])), "parent": parent}
    t, v = d["type"], d["value"]
    return {"header": lambda: HeaderNode(1, **kw), "text": lambda: TextNode("x", **kw), "block": lambda: BlockNode(**kw), "document": lambda: DocumentNode(**kw), "style": lambda: StyleNode(v, **kw),
            "macro": lambda: MacroNode(v, **kw), "label": lambda: LabelNode(v, **kw), "include": lambda: IncludeNode(v, **kw), "blockgroup": lambda: BlockGroupNode(v, **kw),
            "blockgroup-item": lambda: BlockGroupItemNode("g1", v, None, **kw)}[t]()


def fields(d):
    return {FIELD[d["type"]]: d["value"]} if d["type"] in FIELD else {}


def judge19(case):
    try:
        names, ts = [], []
        for t in case["templates"]:
            n = tname(t)
            if n not in names:
                names.append(n)
                ts.append(t)
        k = case["order"] % 6
        order = list(range(len(ts)))
        random.Random(k).shuffle(order)
        nd, pd = case["node"], case["parent"]
        if nd["type"] not in TYPES or any(t["type"] not in TYPES for t in ts) or "" in case["prefixes"]:
            return None
        if any(x == "" or "_" in x for t in ts for x in [t["subtype"], t["prefix"], t["pt"], t["pts"], *t["tags"], *t["custom"].values(), *t["pcustom"].values()] if x is not None):
            return None
        if any(any(k not in KEYS for k in [*t["custom"], *t["pcustom"]]) for t in ts):
            return None
        parent = make(pd) if pd else None
        node = make(nd, parent)
    except (KeyError, TypeError, AttributeError):
        return None
    env = Environment.from_dict({"custom": {}, "prefixes": case["prefixes"]}, "mau.visitor.templates")
    env = Environment()
    env._variables["mau.visitor.templates.prefixes"] = case["prefixes"]
    for i in order:
        env._variables["mau.visitor.templates.custom." + names[i] + ".j2"] = "T%d" % i
    v = JinjaVisitor(H, env)

    def matches(t, prefix):
        if t["type"] != nd["type"] or t["prefix"] != prefix:
            return False
        if t["subtype"] and t["subtype"] != nd["subtype"]:
            return False
        if not set(t["tags"]) <= set(nd["tags"]):
            return False
        f = fields(nd)
        if any(k not in f or f[k] != x for k, x in t["custom"].items()):
            return False
        if t["pt"] or t["pts"] or t["pcustom"]:
            if pd is None:
                return False
            pf = fields(pd)
            if t["pt"] and t["pt"] != pd["type"] or t["pts"] and t["pts"] != pd["subtype"]:
                return False
            if any(k not in pf or pf[k] != x for k, x in t["pcustom"].items()):
                return False
        return True

    def spec(t):
        return (len(t["custom"]), bool(t["subtype"]), bool(t["prefix"]), bool(t["pt"]), len(t["pcustom"]), bool(t["pts"]), len(t["tags"]))

    want = set()
    for prefix in [*case["prefixes"], None]:
        m = [i for i in range(len(ts)) if matches(ts[i], prefix)]
        if m:
            best = max(spec(ts[i]) for i in m)
            want = {"T%d" % i for i in m if spec(ts[i]) == best}
            break
    try:
        got = v.visit(node)
    except MauException:
        return None if not want else f"no template: {nd!r} below {pd!r} with {names!r} must use {sorted(want)!r}"
    if got not in want:
        return f"template: {nd!r} below {pd!r} uses {got!r}, expected one of {sorted(want)!r} of {names!r}, prefixes {case['prefixes']!r}"
    return None


# ---------------------------------------------------------------- C20
SHARED = {"header", "footnote"}       # cross references: a copy refers to the same target
META = {"parent", "arguments", "info"}


def rich(rng, n=None):
    """A random document that contains many kinds of nodes."""
    parts = ["= Head *bold*", "par _style_ `verb` [link](http://x, txt)", "[footnote](fn) and [header](hh)", "* a\n* b\n** c\n", "[name=hh]\n== Named `v`", "----\nblock *x*\n\n= Inner\n----", "[python, engine=source]\n----\nx = 1:a:\ny:@+:\n----",
             "[engine=raw]\n----\nraw\nlines\n----", "[footnote=fn]\n----\nnote *b*\n----", "<< toc", "<< footnotes", "[group=g, position=p]\n----\nin group\n----", "<< blockgroup:g", "<< image:a.png, alt, \"c1,c2\"", "<< custom:a, b=c", "---",
             "[class](txt, c1, c2) [unicode](1F30B) [raw](\"<b>\") [image](u.png, alt, 10, 20) [mine](a, b=1) [mailto](a@b.c)", ".title Lab *x*\n.role second\n[#tag, *sub, k=v]\nlabelled", "++++\n----\ndeep\n----\n++++"]
    must = {"[footnote](fn) and [header](hh)": ["[footnote=fn]\n----\nnote *b*\n----", "[name=hh]\n== Named `v`"], "<< blockgroup:g": ["[group=g, position=p]\n----\nin group\n----"]}
    pick = [p for p in parts if rng.random() < (n or .5)]
    for a, b in must.items():
        if a in pick:
            pick += [x for x in b if x not in pick]
    rng.shuffle(pick)
    return "\n\n".join(pick) + "\n"


def cases_doc(rng, tier):
    import random as r
    yield {"seed": 0, "rate": 1.1}
    while True:
        yield {"seed": rng.randint(1, 10**9), "rate": rng.choice([.3, .5, .8]), "scramble": rng.random() < .5}


def attrs(n):
    return {k: v for k, v in vars(n).items() if k not in META}


def same(a, b, parent, path, seen, top=False):
    """b is a copy of a, made of new nodes, below parent."""
    if type(a) is not type(b):
        return f"{path}: a {type(b).__name__} is the copy of a {type(a).__name__}"
    if b is a:
        return f"{path}: the node is shared with the original"
    if b.parent is not parent:
        return f"{path}: the copy has the parent {b.parent!r}"
    if b.arguments != a.arguments or b.info != a.info:
        return f"{path}: arguments or position differ"
    if b.arguments is a.arguments:
        return f"{path}: the arguments object is shared"
    if set(attrs(a)) != set(attrs(b)):
        return f"{path}: attributes {sorted(set(attrs(a)) ^ set(attrs(b)))!r} differ"
    for k, v in attrs(a).items():
        w = attrs(b)[k]
        p = f"{path}.{k}"
        if isinstance(v, Node) and (k in SHARED):
            if w is not v:
                return f"{p}: refers to something else"
        elif isinstance(v, Node):
            r = same(v, w, b, p, seen)
            if r:
                return r
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], Node):
            if len(v) != len(w) or w is v:
                return f"{p}: {len(w)} instead of {len(v)} children"
            for i, (x, y) in enumerate(zip(v, w)):
                r = same(x, y, b, f"{p}[{i}]", seen)
                if r:
                    return r
        elif isinstance(v, dict) and v and isinstance(next(iter(v.values())), Node):
            if list(v) != list(w) or w is v:
                return f"{p}: keys {list(w)!r} instead of {list(v)!r}"
            for q in v:
                r = same(v[q], w[q], b, f"{p}[{q}]", seen)
                if r:
                    return r
        else:
            if v != w:
                return f"{p}: {w!r} instead of {v!r}"
            if isinstance(v, (list, dict)) and v is w and v:
                return f"{p}: the list is shared"
    return None


def scramble(nodes, rng, todo=None):
    """Give the plain attributes of a tree values that no constructor chooses by itself."""
    seen, todo = set(), list(nodes)
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        for k, v in attrs(n).items():
            if isinstance(v, bool):
                setattr(n, k, not v if rng.random() < .7 else v)
            elif isinstance(v, int):
                setattr(n, k, rng.randint(-3, 99))
            elif isinstance(v, str) or v is None and k not in ("marker", *SHARED):
                setattr(n, k, rng.choice(["", "0", "zz" + word(rng), " x ", "default", "text"]))
            elif isinstance(v, list) and all(isinstance(x, str) for x in v) and k == "classes":
                setattr(n, k, [word(rng) for _ in range(rng.randint(0, 3))])
            elif isinstance(v, Node) and k not in SHARED:
                todo.append(v)
            elif isinstance(v, (list, tuple)):
                todo += [x for x in v if isinstance(x, Node)]
            elif isinstance(v, dict):
                todo += [x for x in v.values() if isinstance(x, Node)]
        if rng.random() < .5:
            n.arguments = NodeArguments([word(rng)], {word(rng): ""}, [word(rng)], ["m"], rng.choice([None, "", "s"]))


def judge20(case):
    src = rich(random.Random(case["seed"]), case["rate"])
    try:
        p = doc(src)
    except MauException as e:
        return f"rejected: {src!r}: {e.message.text}"
    from mau.nodes.node import Node as N
    marker = N()
    todo = list(p.nodes)
    if p.output.document is not None:
        todo.append(p.output.document)
    if p.output.toc is not None:
        todo.append(p.output.toc)
    if case.get("scramble"):
        scramble(todo, random.Random(case["seed"]))
    for n in todo:
        c = n.deepcopy(parent=marker)
        r = same(n, c, marker, n.type, set())
        if r:
            return f"copy: {r} in {src!r}"
        if n.deepcopy().parent is not None:
            return f"copy: {n.type}: a copy without parent has a parent"
    return None


# ---------------------------------------------------------------- C21
DATA_ONLY = {("macro-header", "header"), ("macro-footnote", "footnote"), ("footnotes-item", "footnote"), ("toc-item", "header")}
HIDDEN = {("blockgroup-item", "group"), ("macro-footnote", "name")}


def dump_check(n, out, path, add_parent=True):
    if not isinstance(out, dict):
        return f"{path}: {out!r} is no dictionary"
    a = n.arguments
    for k, v in (("_type", n.type), ("args", a.unnamed_args), ("kwargs", a.named_args), ("tags", a.tags), ("internal_tags", a.internal_tags), ("subtype", a.subtype), ("_context", n.info.context.asdict())):
        if out.get(k, "missing") != v:
            return f"{path}: {k} is {out.get(k, 'missing')!r}, expected {v!r}"
    if n.parent is not None and n.parent and out["parent"].get("_type") != n.parent.type:
        return f"{path}: parent is {out['parent']!r}"
    for k, v in attrs(n).items():
        if (n.type, k) in HIDDEN or n.type in ("macro",) and k not in ("name",):
            continue
        if k not in out:
            if isinstance(v, (list, dict, Node)) and not v:
                continue
            return f"{path}: {k} is missing from the result"
        w = out[k]
        r = None
        if isinstance(v, Node):
            r = dump_check(v, w, f"{path}.{k}")
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], Node):
            if not isinstance(w, list) or len(w) != len(v):
                return f"{path}.{k}: {len(w)} results for {len(v)} nodes"
            for i, (x, y) in enumerate(zip(v, w)):
                r = r or dump_check(x, y, f"{path}.{k}[{i}]")
        elif isinstance(v, dict) and v and isinstance(next(iter(v.values())), Node):
            if list(w) != list(v):
                return f"{path}.{k}: keys {list(w)!r}, expected {list(v)!r}"
            for q in v:
                r = r or dump_check(v[q], w[q], f"{path}.{k}[{q}]")
        elif v is None and w in (None, {}):
            pass
        elif w != v:
            r = f"{path}.{k}: {w!r}, expected {v!r}"
        if r:
            return r
    return None


def rendered(n, jv):
    """Text below a node in document order, with the joins of the visitor."""
    t = n.type
    if hasattr(n, "value"):
        return n.value
    if t in ("raw", "include-raw"):
        return "\n".join(x.value for x in n.content)
    if t == "source":
        return jv.join_with.get(t, "").join(x.line_content for x in n.content)
    if hasattr(n, "content"):
        return jv.join_with.get(t, jv.join_with_default).join(rendered(x, jv) for x in n.content)
    return "<" + t + ">"


def judge21(case):
    src = rich(random.Random(case["seed"]), case["rate"])
    try:
        p = doc(src)
    except MauException as e:
        return f"rejected: {src!r}: {e.message.text}"
    d = p.output.document
    if d is None:
        return None if BaseVisitor(H).process(None) == {} else "no document: the visitor gives something"
    if case.get("scramble"):
        scramble([d], random.Random(case["seed"]))
    out = BaseVisitor(H, Environment()).process(d)
    r = dump_check(d, out, "document")
    if r:
        return f"visit: {r} in {src!r}"
    if case.get("scramble"):
        return None
    types = {c.type for _, c in CLASSES}
    env = Environment()
    for t in types:
        body = "{{ content }}" if t not in ("toc",) else "<toc>"
        env._variables[f"mau.visitor.templates.custom.{t}.j2"] = "{{ value }}" if t in ("text", "word", "verbatim", "value", "raw-line", "source-marker", "macro-unicode", "macro-raw") else "{{ line_content }}" if t == "source-line" else "<" + t + ">"
    for _, c in CLASSES:
        probe = c.__new__(c)
        from mau.nodes.node import NodeContentMixin
        if isinstance(probe, NodeContentMixin) or c.type in ("source", "raw", "include-raw"):
            env._variables[f"mau.visitor.templates.custom.{c.type}.j2"] = "{{ content }}"
    jv = JinjaVisitor(H, env)
    got = jv.process(d)
    want = rendered(d, jv)
    if got != want:
        return f"render: {src!r} gives {got!r}, expected {want!r}"
    return None


PROP = {"C19": (cases19, judge19), "C20": (cases_doc, judge20), "C21": (cases_doc, judge21)}
