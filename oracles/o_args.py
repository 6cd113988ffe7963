"""C06 C07: naming positional arguments, and classifying the arguments of an element."""
from common import *
from mau.lexers.arguments_lexer import ArgumentsLexer
from mau.nodes.node_arguments import NodeArguments, set_names
from mau.parsers.arguments_parser import ArgumentsParser


def cases6(rng, tier):
    names = ["a", "b", "c", "d", "e"]
    while True:
        pn = rng.sample(names, rng.randint(0, 5))
        val = (lambda: word(rng)) if rng.random() < .5 else (lambda: rng.choice(["", "", "0", word(rng), free_value(rng)]))
        yield {"unnamed": [val() for _ in range(rng.randint(0, 6))],
               "named": {k: val() if rng.random() < .6 else "N" + k for k in rng.sample(names + ["x", "y"], rng.randint(0, 4))}, "names": pn,
               "quotes": rng.randint(0, 10**6), "sep": rng.choice([",", ", ", ",   "]), "esc": rng.random() < .5}


def free_value(rng):
    """Any text on one line that is neither tag, subtype nor alias."""
    while True:
        v = "".join(rng.choice(["a", "b", "1", " ", ",", "=", '"', "#", "*", "@", "]", "(", ":", "'", "é", "{", "}"]) for _ in range(rng.randint(1, 7)))
        if v[0] not in "#*@":
            return v


def write(v, rng, named, esc):
    """A way to write the value in an argument list."""
    if v != "" and v == v.strip() and not any(c in v for c in ',"=') and rng.random() < .6:
        return v
    if esc and v != "" and v == v.strip() and '"' not in v[:1] and "=" not in v and rng.random() < .5:
        return v.replace(",", "\\,")
    return '"' + v.replace('"', '\\"') + '"'


def judge6(case):
    for mode in ("function", "node", "parser", "document"):
        u, n, names = list(case["unnamed"]), dict(case["named"]), list(case["names"])
        if len(set(names)) != len(names) or any(c in v for v in u + list(n.values()) for c in "\\\n") or any(v[:1] in ("#", "*", "@") for v in u if v) or any(not k.isalnum() for k in [*names, *n]):
            return None
        free = [x for x in names if x not in n]
        want = dict(n)
        want.update(zip(free, u))
        rest = u[len(free):]
        if mode == "function":
            ru, rn = set_names(u, n, names)
        elif mode == "node":
            na = NodeArguments(unnamed_args=u, named_args=n)
            r = na.set_names(names)
            if r is not na:
                return "set_names does not return its object"
            ru, rn = na.unnamed_args, na.named_args
        else:
            q = random.Random(case["quotes"])
            text = case["sep"].join([write(v, q, False, case["esc"]) for v in u] + [f"{k}={write(v, q, True, case['esc'])}" for k, v in n.items()])
            n = {k: v.strip() for k, v in n.items()}
            want.update(n)
            try:
                if mode == "parser":
                    p = ArgumentsParser.lex_and_parse(text, H, Environment())
                    p.set_names(names)
                    ru, rn = [x.value for x in p.unnamed_argument_nodes], {k: x.value for k, x in p.named_argument_nodes.items()}
                else:
                    if not u and not n or any(c in text for c in "{}`"):
                        continue
                    p = doc(f"[{text}]\n---\n")
                    a = p.nodes[0].arguments
                    ru, rn = a.unnamed_args, a.named_args
                    rest, want = u, n
            except MauException as e:
                return f"{mode}: rejected {text!r}: {e.message.text}"
        if list(ru) != rest or dict(rn) != want:
            return f"{mode}: got {list(ru)} {dict(rn)}, expected {rest} {want}" + (f" from {text!r}" if mode in ("parser", "document") else "")
        if names != case["names"]:
            return "the list of names was changed"
    return None


# ---- C07
SAFE = "abcdefghij0123"


def value(rng):
    k = rng.random()
    if k < .5:
        return word(rng, SAFE)
    if k < .7:
        return word(rng, SAFE) + " " + word(rng, SAFE)
    if k < .8:
        return word(rng, SAFE) + ", " + word(rng, SAFE)
    if k < .9:
        return word(rng, SAFE) + '"' + word(rng, SAFE)
    return word(rng, SAFE) + "=" + word(rng, SAFE)


def cases7(rng, tier):
    while True:
        items = []
        nt, ns, na = rng.randint(0, 3), rng.choice([0, 0, 1, 1, 2]), rng.choice([0, 0, 0, 1, 2])
        for _ in range(rng.randint(0, 3)):
            items.append(["u", value(rng)])
        for _ in range(nt):
            items.append(["t", rng.choice(["", "", "mau:", "mau:", "#", "*", "@", "*@", "mau:#"]) + word(rng, SAFE)])
        for _ in range(ns):
            items.append(["s", rng.choice(["", "", "#", "@", "*", "mau:"]) + word(rng, SAFE)])
        for _ in range(na):
            items.append(["a", rng.choice(["al", "bl", "source", "none", "#al", "*bl", "@al"])])
        rng.shuffle(items)
        keys = rng.sample(["k", "l", "engine", "language", "m", "z"], rng.randint(0, 3))
        alias = {"al": {"args": {"k": "AK", "q": "AQ"}, "names": rng.sample(["n1", "n2", "k", "z"], rng.randint(0, 3))},
                 "bl": {"args": {"m": "BM"}, "names": [], "subtype": "bsub"}}
        if rng.random() < .3:
            alias["al"]["subtype"] = "asub"
        yield {"items": items, "named": {k: value(rng) for k in keys}, "alias": alias, "sep": rng.choice([",", ", ", ",  "]),
               "env": rng.choice(["config", "config", "none"])}


def quote(v):
    if any(c in v for c in ',"=') or v != v.strip():
        return '"' + v.replace('"', '\\"') + '"'
    return v


PRE = {"u": "", "t": "#", "s": "*", "a": "@"}


def judge7(case):
    parts = []
    for k, v in case["items"]:
        if not v or (k in "tsa" and any(c in v for c in ',"= ')) or (k == "u" and (v[0] in "#*@" or v != v.strip() or any(c in v for c in "\\"))):
            return None
        parts.append(quote(PRE[k] + v) if k == "u" else PRE[k] + v)
    for k, v in case["named"].items():
        if not v or v != v.strip() or "\\" in v:
            return None
        parts.append(f"{k}={quote(v)}")
    text = case["sep"].join(parts)
    env = Environment()
    aliases = {"source": {"args": {"engine": "source"}, "names": ["language"]}}
    if case["env"] == "config":
        aliases.update(case["alias"])
        env = Environment.from_dict({"mau": {"parser": {"aliases": aliases}}})
    # expected
    subs = [v for k, v in case["items"] if k == "s"]
    als = [v for k, v in case["items"] if k == "a"]
    err = len(subs) > 1 or len(als) > 1 or (als and (case["env"] != "config" or als[0] not in aliases))
    tags = [v for k, v in case["items"] if k == "t"]
    want = NodeArguments(unnamed_args=[v for k, v in case["items"] if k == "u"], named_args=dict(case["named"]),
                         tags=[t for t in tags if not t.startswith("mau:")], internal_tags=[t[4:] for t in tags if t.startswith("mau:")],
                         subtype=subs[0] if subs else None)
    if not err and als:
        rep = aliases[als[0]]
        for k, v in rep["args"].items():
            want.named_args.setdefault(k, v)
        free = [x for x in rep["names"] if x not in want.named_args]
        want.named_args.update(zip(free, want.unnamed_args))
        want.unnamed_args = want.unnamed_args[len(free):]
        if want.subtype is None:
            want.subtype = rep.get("subtype")
    try:
        got = ArgumentsParser.lex_and_parse(text, H, env).arguments
    except MauException as e:
        return None if err else f"rejected {text!r}: {e.message.text}"
    if err:
        return f"accepted: {text!r} must be rejected, got {got}"
    if got != want:
        return f"{text!r}: got {got}, expected {want}"
    return None


PROP = {"C06": (cases6, judge6), "C07": (cases7, judge7)}
