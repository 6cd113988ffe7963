"""C10 C11: variables and the environment store."""
import copy

from common import *
from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser

# ---------------------------------------------------------------- C10
NAMES = ["a", "b", "ns.x", "ns.y.z", "num", "flag", "sp ace"]


def rand_seg(rng):
    k = rng.random()
    if k < .35:
        return ["text", word(rng, "abc .,:-#*_", 1, 5)]
    if k < .65:
        return ["var", rng.choice(NAMES)]
    if k < .72:
        return ["esc", rng.choice("{}")]
    if k < .8:
        return ["verb", rng.choice(["", "a", "{a}", "{nope}", "{", "}", "x{b", "\\{a\\}"])]
    if k < .88:
        return ["double", word(rng, "abc ", 0, 3)]
    if k < .97:
        return ["keep", rng.choice(["\\a", "\\\\", "\\*", "\\`", "\\x{a}"])]
    return ["undef", rng.choice(["nope", "A", "ns", ""])]


def cases10(rng, tier):
    while True:
        if rng.random() < .45:
            yield {"segs": [rand_seg(rng) for _ in range(rng.randint(0, 7))] + rng.choice([[], [["tail", rng.choice(["\\", "\\", "`", "}"])]]]), "env": {n: rng.choice(["1", "value", "a b", "{a}", "`", "\\", 42, True, ""]) for n in NAMES}}
        else:
            prog = []
            for _ in range(rng.randint(1, 8)):
                k = rng.random()
                if k < .5:
                    prog.append(["def", rng.choice(["a", "b", "ns.x", "c"]), [rng.choice([["t", word(rng)], ["v", rng.choice(["a", "b", "ns.x", "c"])]]) for _ in range(rng.randint(1, 3))]])
                elif k < .6:
                    prog.append(["flag", rng.choice("+-"), rng.choice(["a", "b", "c"])])
                else:
                    prog.append(["use", rng.choice(["para", "header", "arg", "label", "list", "block", "cond", "incl"]), rng.choice(["a", "b", "ns.x", "c"]), word(rng)])
            yield {"prog": prog}


def judge10(case):
    if "segs" in case:
        return judge_text(case)
    env = {}
    lines, want = [], []
    for i, op in enumerate(case["prog"]):
        if op[0] == "def":
            if len(op) != 3 or op[1] not in ("a", "b", "ns.x", "c") or not op[2]:
                return None
            val = ""
            for part in op[2]:
                if len(part) != 2 or not part[1]:
                    return None
                if part[0] == "v":
                    if part[1] not in env:
                        return None
                    val += env[part[1]]
                else:
                    val += part[1]
            lines.append(f":{op[1]}:" + "".join("{%s}" % p[1] if p[0] == "v" else p[1] for p in op[2]))
            env[op[1]] = val
        elif op[0] == "flag":
            if len(op) != 3 or op[1] not in ("+", "-") or op[2] not in ("a", "b", "c"):
                return None
            lines.append(f":{op[1]}{op[2]}:")
            env[op[2]] = "true" if op[1] == "+" else "false"
        else:
            if op[0] != "use" or len(op) != 4 or op[2] not in env or not op[3]:
                return None
            k, v, t = op[1], op[2], op[3]
            x = env[v]
            use = t + "{" + v + "}" + t
            full = t + x + t
            if k == "para":
                lines += [use, ""]
                want.append(("paragraph", full))
            elif k == "header":
                lines += ["= " + use]
                want.append(("header", full))
            elif k == "arg":
                lines += [f"[{use}, k={use}]", "para", ""]
                want.append(("paragraph", "para", (full,), (("k", full),)))
            elif k == "label":
                lines += [f".role {use}", "para", ""]
                want.append(("paragraph", "para", "label", full))
            elif k == "list":
                lines += ["* " + use, ""]
                want.append(("list", full))
            elif k == "block":
                lines += ["----", use, "----"]
                want.append(("block", full))
            elif k == "cond":
                lines += ["@if {" + v + "}zz==other", "no", ""] if False else [f"@if {v}=={{{v}}}", "para", ""]
                want.append(("paragraph", "para"))
            elif k == "incl":
                lines += [f"<< image:{use}"]
                want.append(("include-image", full))
            else:
                return None
    src = "\n".join(lines) + "\n"
    e = Environment()
    try:
        p = doc(src, e)
    except MauException as ex:
        return f"rejected: {src!r}: {ex.message.text}"
    got = []
    for n, w in zip(p.nodes, want):
        t = n.type
        txt = plain(n.content) if t in ("paragraph", "header") else plain(n.content[0].content) if t in ("list", "block") and n.content else getattr(n, "uri", "")
        if len(w) == 2:
            got.append((t, txt))
        elif w[2] == "label":
            got.append((t, txt, "label", plain(n.labels["role"].content) if "role" in n.labels else None))
        else:
            got.append((t, txt, tuple(n.arguments.unnamed_args), tuple(n.arguments.named_args.items())))
    if len(p.nodes) != len(want) or got != want:
        return f"text: {src!r} gives {got!r} ({len(p.nodes)} nodes), expected {want!r}"
    flat = {k: v for k, v in e.asflatdict().items() if not k.startswith("mau.")}
    if flat != env:
        return f"environment: {src!r} leaves {flat!r}, expected {env!r}"
    return None


def judge_text(case):
    env = Environment.from_dict(case["env"])
    flat = dict(env.asflatdict())
    src, want, bad = "", "", False
    for i, seg in enumerate(case["segs"]):
        if len(seg) != 2:
            return None
        k, v = seg
        if k == "tail":
            # what escapes, opens or closes nothing is text
            if v not in ("\\", "`", "}") or i != len(case["segs"]) - 1:
                return None
            src += v
            want += v
            continue
        if k == "text":
            if set(v) & set("\\`{}"):
                return None
            src += v
            want += v
        elif k == "var":
            if v not in flat:
                return None
            src += "{" + v + "}"
            want += str(flat[v])
        elif k == "esc":
            if v not in ("{", "}"):
                return None
            src += "\\" + v
            want += v
        elif k == "verb":
            if v not in ("", "a", "{a}", "{nope}", "{", "}", "x{b", "\\{a\\}"):
                return None
            src += "`" + v + "`"
            want += "`" + v + "`"
        elif k == "double":
            if set(v) & set("\\`{}"):
                return None
            src += "{{" + v + "}}"
            want += "{" + v + "}"
        elif k == "keep":
            if v not in ("\\a", "\\\\", "\\*", "\\`", "\\x{a}") or v == "\\x{a}" and "a" not in flat:
                return None
            src += v
            want += v if v != "\\x{a}" else "\\x" + str(flat["a"])
        elif k == "undef":
            if v not in ("nope", "A", "ns", "") or v in flat:
                return None
            src += "{" + v + "}"
            bad = True
        else:
            return None
    try:
        p = PreprocessVariablesParser.lex_and_parse(src, H, env, 0, 0, SRC)
        got = p.get_processed_text().value if p.nodes else ""
    except MauException as e:
        return None if bad else f"rejected: {src!r}: {e.message.text}"
    if bad:
        return f"accepted: {src!r} names an undefined variable, gives {got!r}"
    if got.rstrip() != want.rstrip() or not want.startswith(got):
        return f"text: {src!r} gives {got!r}, expected {want!r}"
    if dict(env.asflatdict()) != flat:
        return f"environment: {src!r} changes it"
    return None


# ---------------------------------------------------------------- C11
KS = ["a", "b", "ab", "c", "a.b", "a.b.c", "b.a"]


def rand_nested(rng, d=0, dotted=True):
    out = {}
    for k in rng.sample(KS if dotted else ["a", "b", "ab", "c"], rng.randint(0, 3)):
        out[k] = rand_nested(rng, d + 1, dotted) if d < 3 and rng.random() < .45 else rng.choice(["x", "y", 1, None, "", [1]])
    return out


def cases11(rng, tier):
    while True:
        ops = []
        for _ in range(rng.randint(1, 6)):
            k = rng.choice(["dupdate", "set", "update", "keep", "clone", "get", "nest", "del"])
            ops.append([k, rand_nested(rng, 0, rng.random() < .4), rng.choice([None, None, "ns", "a", "a.b"]), rng.choice(KS)])
        yield {"ops": ops}


def flat_of(d, prefix=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            for kk, vv in flat_of(v, prefix + k + ".").items():
                out[kk] = vv
        else:
            out[prefix + k] = v
    return out


def strip_empty(d):
    return {k: (strip_empty(v) if isinstance(v, dict) else v) for k, v in d.items()}


def judge11(case):
    env, model = Environment(), {}
    for op in case["ops"]:
        if len(op) != 4 or not isinstance(op[1], dict) or op[3] not in KS or op[2] not in (None, "ns", "a", "a.b") or any(k == "" or k not in KS for k in keys_of(op[1])):
            return None
        k, d, ns, key = op
        before = copy.deepcopy(d)
        new = flat_of({ns: d} if ns else d)
        if k == "dupdate":
            env.dupdate(d, ns)
            model.update(new)
        elif k == "set":
            env[key] = d if d else "v"
            model.update(flat_of({key: d if d else "v"}))
        elif k in ("update", "keep"):
            other = Environment.from_dict(d, None)
            o2 = dict(other.asflatdict())
            env.update(other, ns, overwrite=(k == "update"))
            new = flat_of({ns: flat_of(d)}) if ns else flat_of(d)
            if k == "update":
                model.update(new)
            else:
                model = {**new, **model}
            if dict(other.asflatdict()) != o2:
                return f"update: the other environment changed: {case!r}"
        elif k == "clone":
            c = Environment.from_environment(env, None)
            if dict(c.asflatdict()) != dict(env.asflatdict()):
                return f"clone: {c.asflatdict()!r} is not {env.asflatdict()!r}"
            c["zz"] = 1
            c.dupdate({"a": {"b": 2}})
            if "zz" in env.asflatdict():
                return f"clone: changing the clone changes the original: {case!r}"
            if ns:
                c = Environment.from_environment(env, ns)
                if dict(c.asflatdict()) != (flat_of({ns: env.asflatdict()})):
                    return f"clone: with namespace {ns!r}: {c.asflatdict()!r}"
        elif k == "get":
            for q in KS + ["zz", "", "a.", ".a", "n", "ns"]:
                g = env.get(q, "DEF")
                sub = {x[len(q) + 1:]: v for x, v in model.items() if x.startswith(q + ".")}
                if q in model:
                    if g is not model[q] and g != model[q]:
                        return f"get: {q!r} gives {g!r}, expected {model[q]!r}"
                elif sub:
                    if not isinstance(g, Environment) or g.asflatdict() != flat_of(sub):
                        return f"get: {q!r} gives {g!r}, expected the namespace {sub!r}"
                elif g != "DEF":
                    return f"get: {q!r} gives {g!r}, expected the default"
                try:
                    env[q]
                    if q not in model:
                        return f"getitem: {q!r} found"
                except KeyError:
                    if q in model:
                        return f"getitem: {q!r} missing"
        elif k == "nest":
            n = copy.deepcopy(env.asdict())
            f = flat_of(n)
            if f != model:
                return f"nest: flattening the nested form gives {f!r}, expected {model!r}"
            if not conflict(model) and any("." in x for x in keys_of(n) ):
                return f"nest: {n!r} still has dotted keys"
            if Environment.from_dict(n).asflatdict() != model:
                return f"nest: storing the nested form gives {Environment.from_dict(n).asflatdict()!r}, expected {model!r}"
        elif k != "del":
            return None
        if d != before:
            return f"input: the dictionary was changed by {k}: {case!r}"
        if dict(env.asflatdict()) != model:
            return f"state: after {k} {dict(env.asflatdict())!r}, expected {model!r} in {case!r}"
    return None


def keys_of(d):
    for k, v in d.items():
        yield k
        if isinstance(v, dict):
            yield from keys_of(v)


def conflict(m):
    return any(o.startswith(k + ".") for k in m for o in m) or any(isinstance(v, dict) for v in m.values())


PROP = {"C10": (cases10, judge10), "C11": (cases11, judge11)}
