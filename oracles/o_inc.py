"""C12 C13: including documents: loops are rejected, trees are expanded, variables do not leak."""
import os

from common import *

FILES = ["main.mau", "a.mau", "b.mau", "c.mau", "d.mau"]


class Run:
    """Write the files into a scratch directory and parse main.mau there."""

    def __init__(self, files):
        self.files = files

    def __call__(self, env=None):
        cwd = os.getcwd()
        with Scratch() as d:
            os.chdir(d)
            try:
                for n, t in self.files.items():
                    if os.path.dirname(n):
                        os.makedirs(os.path.dirname(n), exist_ok=True)
                    with open(n, "w", encoding="utf-8") as f:
                        f.write(t)
                return doc(self.files["main.mau"], env if env is not None else Environment(), "main.mau")
            finally:
                os.chdir(cwd)


# ---- C12
def cases12(rng, tier):
    while True:
        g = {}
        n = rng.randint(1, 5)
        names = FILES[:n]
        if rng.random() < .5:
            # a tree: every file included once at most
            for f in names:
                g[f] = []
            for i, f in enumerate(names[1:], 1):
                g[rng.choice(names[:i])].append(f)
            if rng.random() < .4:
                g[rng.choice(names)].append(rng.choice(names))
        else:
            for f in names:
                g[f] = [rng.choice(names + ["nothere.mau"] * (rng.random() < .1)) for _ in range(rng.choice([0, 1, 1, 2]))]
        yield {"graph": {f: [["t", word(rng)] for _ in range(rng.randint(0, 2))] + [[rng.choice(["i", "i", "box", "block", "nested", "cond"]), x] for x in l] for f, l in g.items()},
               "env": rng.random() < .5}


def source12(items):
    out = []
    for k, x in items:
        if k == "t":
            out += [x, ""]
        elif k == "i":
            out += [f"<< mau:{x}"]
        elif k == "box":
            out += [f"[{x}, k=v]", "<< mau"]
        elif k == "cond":
            out += ["@if flag==on", f"<< mau:{x}"]
        elif k == "block":
            out += ["----", f"<< mau:{x}", "----"]
        elif k == "nested":
            out += ["----", "++++", "pre", "", f"<< mau:{x}", "++++", "----"]
    return "\n".join(out) + "\n"


def expand(g, f):
    for k, x in g[f]:
        if k == "t":
            yield x
        else:
            if k == "nested":
                yield "pre"
            yield from expand(g, x)


def calls(g, f):
    """All the calls of a tree, in the order the code documents: a call, then the calls of the file called."""
    for k, x in g[f]:
        if k in ("i", "box", "cond"):
            yield (f, x)
            yield from calls(g, x)


def texts(nodes):
    for n in nodes:
        if n.type == "paragraph":
            yield plain(n.content)
        elif n.type in ("block", "include-mau"):
            yield from texts(n.content)


def judge12(case):
    g = case["graph"]
    if "main.mau" not in g or any(f not in FILES for f in g) or any(len(i) != 2 or i[0] not in ("t", "i", "box", "block", "nested", "cond") or not i[1] for l in g.values() for i in l):
        return None
    if any(i[0] == "t" and (not i[1].isalnum() or fence(i[1])) or i[0] != "t" and i[1] not in FILES + ["nothere.mau"] for l in g.values() for i in l):
        return None
    # reachable part
    seen, order, cyc, missing, once = set(), [], [False], [False], [True]

    def visit(f, stack):
        if f not in g:
            missing[0] = True
            return
        if f in stack:
            cyc[0] = True
            return
        if f in seen:
            once[0] = False
            return
        seen.add(f)
        for k, x in g[f]:
            if k != "t":
                visit(x, stack + [f])

    visit("main.mau", [])
    env = Environment.from_dict({"flag": "on"})
    try:
        p = Run({f: source12(l) for f, l in g.items()})(env)
    except MauException as e:
        if cyc[0] or missing[0] or not once[0]:
            return None
        return f"rejected: {g!r} is a tree of includes: {e.message.text}"
    if cyc[0]:
        return f"accepted: {g!r} contains an include loop"
    if missing[0]:
        return f"accepted: {g!r} includes a file that does not exist"
    got, want = list(texts(p.nodes)), list(expand(g, "main.mau"))
    if got != want:
        return f"text: {g!r} gives {got!r}, expected {want!r}"
    gc = [(c.caller_uri, c.callee_uri) for c in p.output.include_calls]
    wc = list(calls(g, "main.mau"))
    if gc != wc:
        return f"calls: {g!r} records {gc!r}, expected {wc!r}"
    return None


# ---- C13
def cases13(rng, tier):
    vs = ["v", "w", "ns.x", "mau.x"]

    def ops(d):
        out = []
        for _ in range(rng.randint(1, 4)):
            k = rng.random()
            if k < .45:
                out.append(["def", rng.choice(vs), word(rng)])
            elif k < .8:
                out.append(["use", rng.choice(vs)])
            else:
                out.append(["inc", rng.choice(["plain", "iso", "call", "isocall"]), [[rng.choice(vs), word(rng)] for _ in range(rng.randint(1, 2))], ops(d + 1) if d < 2 else [["use", rng.choice(vs)]], rng.random() < .2])
        return out

    while True:
        o = ops(0)
        if not any(x[0] == "inc" for x in o):
            o.append(["inc", "call", [["v", "called"]], ops(1), False])
        yield {"ops": o, "env": {k: word(rng) for k in rng.sample(vs, rng.randint(1, 4))}}


def judge13(case):
    files, counter = {}, [0]
    want = []
    vs = ["v", "w", "ns.x", "mau.x"]

    def emit(ops, env):
        lines = []
        for op in ops:
            if op[0] == "def":
                if len(op) != 3 or op[1] not in vs or not op[2].isalnum():
                    raise KeyError
                lines += [f":{op[1]}:{op[2]}", ""]
                env[op[1]] = op[2]
            elif op[0] == "use":
                # a variable may be unknown here: use conditions that do not fail
                if len(op) != 2 or op[1] not in vs:
                    raise KeyError
                if op[1] in env:
                    lines += ["u{" + op[1] + "}u", ""]
                    want.append("u" + env[op[1]] + "u")
                else:
                    probes.append((len(files), op[1]))
            elif op[0] == "inc":
                if len(op) != 5 or op[1] not in ("plain", "iso", "call", "isocall") or not all(len(x) == 2 and x[0] in vs and x[1].isalnum() for x in op[2]):
                    raise KeyError
                counter[0] += 1
                name = f"f{counter[0]}.mau"
                files[name] = None
                a = name
                inner = dict(env) if op[1] in ("plain", "call") else {}
                if op[1].startswith("iso"):
                    a += ", pass_environment=false"
                if op[1] in ("call", "isocall"):
                    cs = dict(op[2])
                    a += "".join(f", call:{k}={v}" for k, v in cs.items())
                    inner.update(cs)
                lines += ["----", f"<< mau:{a}", "----"] if op[4] else [f"<< mau:{a}"]
                files[name] = emit(op[3], inner)
            else:
                raise KeyError
        final.append(env)
        return "\n".join(lines) + "\n"

    probes, final = [], []
    if any(k not in vs or not v.isalnum() for k, v in case["env"].items()):
        return None
    try:
        env0 = dict(case["env"])
        files["main.mau"] = emit(case["ops"], env0)
    except (KeyError, IndexError, TypeError):
        return None
    env = Environment.from_dict(case["env"])
    try:
        p = Run(files)(env)
    except MauException as e:
        return f"rejected: {files!r}: {e.message.text}"
    got = list(texts(p.nodes))
    if got != want:
        return f"text: {files!r} gives {got!r}, expected {want!r}"
    flat = {k: v for k, v in env.asflatdict().items() if k in vs or not k.startswith("mau.parser.")}
    if flat != env0:
        return f"environment: {files!r} leaves {flat!r}, expected {env0!r}"
    return unknown(case)


def unknown(case):
    """A variable that is not visible in an included document is reported there."""
    v = next(iter(case["env"]), None)
    if v is None:
        return None
    files = {"main.mau": "<< mau:x.mau, pass_environment=false\n", "x.mau": "{" + v + "}\n"}
    try:
        Run(files)(Environment.from_dict(case["env"]))
    except MauException:
        pass
    else:
        return f"accepted: {files!r} uses the variable {v!r} of the including document"
    files = {"main.mau": "<< mau:x.mau\n\n{zzz}\n", "x.mau": ":zzz:1\n"}
    try:
        Run(files)(Environment.from_dict(case["env"]))
    except MauException:
        return None
    return f"accepted: {files!r} uses a variable of the included document"


PROP = {"C12": (cases12, judge12), "C13": (cases13, judge13)}
