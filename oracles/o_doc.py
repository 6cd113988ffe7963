"""C08 C09: arguments, labels and conditions apply to exactly the next element; conditional content."""
from common import *

KEYS = ["k1", "k2", "k3", "id"]
ROLES = ["", "role", "other", "a-b"]
VARS = {"flag": "on", "num": "42", "ns.x": "deep"}


def rand_args(rng):
    d = {"unnamed": [word(rng) for _ in range(rng.randint(0, 2))], "tags": [word(rng) for _ in range(rng.randint(0, 2))], "subtype": word(rng) if rng.random() < .3 else None,
         "internal": [word(rng)] if rng.random() < .15 else [], "named": {k: word(rng) for k in rng.sample(KEYS, rng.randint(0, 2))}}
    return d


def rand_cond(rng):
    v = rng.choice(list(VARS))
    return [v, rng.choice(["==", "!="]), VARS[v] if rng.random() < .5 else rng.choice(["off", "42", "on", "deep", ""])]


ELEMS = ["para", "header", "hr", "block", "raw", "source", "list", "image", "custom", "toc", "footnotes", "fn", "group", "para2"]


def rand_items(rng, depth, uid):
    out = []
    for _ in range(rng.randint(1, 6 if depth == 0 else 3)):
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            k = rng.random()
            if k < .4:
                out.append(["args", rand_args(rng)])
            elif k < .7:
                out.append(["label", rng.choice(ROLES), "lab" + word(rng)])
            elif k < .95:
                out.append(["cond", *rand_cond(rng)])
            else:
                out.append(["comment"])
            if rng.random() < .2:
                out.append(["blank"])
        if rng.random() < .93:
            e = rng.choice(ELEMS)
            uid[0] += 1
            it = [e, f"t{uid[0]}{word(rng)}"]
            if e == "block":
                it.append(rand_items(rng, depth + 1, uid) if depth < 2 else [["para", "deep" + word(rng)]])
            out.append(it)
    return out


def cases(rng, tier):
    while True:
        yield {"items": rand_items(rng, 0, [0])}


def args_text(d):
    return ", ".join(d["unnamed"] + ["#" + t for t in d["tags"]] + ["#mau:" + t for t in d["internal"]] + (["*" + d["subtype"]] if d["subtype"] else []) +
                     [f"{k}={v}" for k, v in d["named"].items()])


FENCE = ["++++", "----", "____"]
EMPTY = {"unnamed": [], "tags": [], "subtype": None, "internal": [], "named": {}}


def build(items, depth, fresh):
    """Returns (source lines, expected elements).  fresh: counter for unique footnotes and groups."""
    lines, want = [], []
    args, labels, cond = None, {}, None
    for it in items:
        k = it[0]
        if k == "args":
            args = it[1]
            lines.append("[" + args_text(args) + "]")
        elif k == "label":
            labels[it[1] or "title"] = it[2]
            lines.append("." + it[1] + " " + it[2])
        elif k == "cond":
            cond = it[1:]
            lines.append(f"@if {cond[0]}{cond[1]}{cond[2]}")
        elif k == "comment":
            lines.append("// " + "comment")
        elif k == "blank":
            lines.append("")
        else:
            a = {**EMPTY, **(args or {})}
            a["named"] = dict(a["named"])
            t = it[1]
            exp = {"type": None, "text": t, "kids": []}
            saved = True

            def with_args(**kw):
                d = {**a, "named": {**a["named"], **kw}}
                lines.append("[" + args_text(d) + "]")

            if k == "para":
                lines += [t, ""]
                exp["type"] = "paragraph"
            elif k == "para2":
                lines += [t, t + "b", ""]
                exp.update(type="paragraph", text=t + t + "b")
            elif k == "header":
                lines += ["== " + t]
                exp["type"] = "header"
            elif k == "hr":
                lines += ["---"]
                exp.update(type="horizontal-rule", text="")
            elif k == "list":
                lines += ["* " + t, "* " + t + "2", ""]
                exp.update(type="list", text=t + t + "2")
            elif k in ("raw", "source"):
                with_args(engine=k)
                lines += [FENCE[depth], t, FENCE[depth]]
                exp.update(type="raw" if k == "raw" else "source")
            elif k == "block":
                ls, inner = build(it[2], depth + 1, fresh)
                lines += [FENCE[depth], *ls, FENCE[depth]]
                exp.update(type="block", text="", kids=inner)
            elif k in ("fn", "group"):
                fresh[0] += 1
                if k == "fn":
                    with_args(footnote=f"fn{fresh[0]}")
                else:
                    with_args(group=f"g{fresh[0]}", position="p")
                lines += [FENCE[depth], t, FENCE[depth]]
                saved = False
            elif k in ("image", "custom"):
                if args is None:
                    lines.append(f"<< image:{t}" if k == "image" else f"<< custom:{t}")
                    a = {**EMPTY, "unnamed": [] if k == "image" else [t]}
                else:
                    if k == "image":
                        with_args(uri=t)
                    lines.append("<< " + k)
                exp.update(type="include-image" if k == "image" else "include", text=t if k == "image" else "custom")
            elif k in ("toc", "footnotes"):
                lines.append("<< " + k)
                exp.update(type=k, text="")
            if k == "image" and args is not None:
                # positional arguments of an image get names
                names = [n for n in ("uri", "alt_text", "classes") if n != "uri"]
                a["unnamed"] = a["unnamed"][len(names):]
            if k == "source":
                a["unnamed"] = a["unnamed"][1:]
            exp["args"] = a
            exp["labels"] = labels
            if cond is not None:
                v = VARS[cond[0]]
                if (v == cond[2]) != (cond[1] == "=="):
                    saved = False
            if saved:
                want.append(exp)
            args, labels, cond = None, {}, None
    return lines, want


def text_of(n):
    t = n.type
    if t in ("paragraph", "header"):
        return plain(n.content)
    if t == "list":
        return "".join(plain(x.content) for x in n.content)
    if t in ("raw", "source"):
        return "".join(plain([x]) if hasattr(x, "value") else x.line_content for x in n.content)
    if t == "include-image":
        return n.uri
    if t == "include":
        return n.ctype
    return ""


def observe(nodes):
    out = []
    for n in nodes:
        a = n.arguments
        out.append({"type": n.type, "text": text_of(n), "args": {"unnamed": list(a.unnamed_args), "tags": list(a.tags), "subtype": a.subtype, "internal": list(a.internal_tags), "named": dict(a.named_args)},
                    "labels": {k: plain(v.content) for k, v in n.labels.items()}, "kids": observe(n.content) if n.type == "block" else []})
    return out


def valid(items):
    for it in items:
        if not it:
            return False
        k = it[0]
        if k == "args":
            d = it[1]
            if not isinstance(d, dict) or set(d) != {"unnamed", "tags", "subtype", "internal", "named"} or d["subtype"] == "" or not all(d["unnamed"] + d["tags"] + d["internal"] + list(d["named"].values())):
                return False
        elif k == "label":
            if len(it) != 3 or it[1] not in ROLES or not it[2]:
                return False
        elif k == "cond":
            if len(it) != 4 or it[1] not in VARS or it[2] not in ("==", "!=") or it[3] not in ("off", "42", "on", "deep", ""):
                return False
        elif k in ("comment", "blank"):
            pass
        elif k in ELEMS:
            if len(it) < 2 or not it[1] or not it[1][0] == "t" and k != "block" and not it[1].startswith("deep"):
                return False
            if k == "block" and (len(it) != 3 or not valid(it[2])):
                return False
        else:
            return False
    return True


def judge(case):
    if not valid(case["items"]):
        return None
    lines, want = build(case["items"], 0, [0])
    try:
        p = doc("\n".join(lines) + "\n", Environment.from_dict(VARS))
    except MauException as e:
        return "rejected: " + e.message.text + " | " + repr("\n".join(lines))
    got = observe(p.nodes)
    if len(got) != len(want) or [g["type"] for g in got] != [w["type"] for w in want]:
        return f"elements: {[(g['type'], g['text']) for g in got]}, expected {[(w['type'], w['text']) for w in want]} in {chr(10).join(lines)!r}"
    return compare(got, want, "\n".join(lines))


def compare(got, want, src):
    if [g["type"] for g in got] != [w["type"] for w in want]:
        return f"elements: {[(g['type'], g['text']) for g in got]}, expected {[(w['type'], w['text']) for w in want]} in {src!r}"
    for g, w in zip(got, want):
        for f in ("args", "labels", "text"):
            if g[f] != w[f]:
                return f"{f}: the {g['type']} has {g[f]!r}, expected {w[f]!r} in {src!r}"
        r = compare(g["kids"], w["kids"], src)
        if r:
            return r
    return None


# ---- C09
def cases9(rng, tier):
    vals = ["on", "off", "", "42", "ON", "on "]
    while True:
        if rng.random() < .5:
            items = []
            uid = [0]
            for _ in range(rng.randint(1, 5)):
                uid[0] += 1
                if rng.random() < .6:
                    items.append(["cond", *rand_cond(rng)])
                e = rng.choice(ELEMS)
                it = [e, f"t{uid[0]}{word(rng)}"]
                if e == "block":
                    it.append(rand_items(rng, 1, uid))
                items.append(it)
            yield {"items": items}
        else:
            env = {k: rng.choice(["on", "off", "42", "ON", ""]) for k in rng.sample(["v", "w", "a.b"], rng.randint(1, 3))}
            env.update(T="tv", F="fv")
            v = rng.choice(["v", "w", "a.b"])
            yield {"macro": rng.choice(["if", "ifeval"]), "var": v, "op": rng.choice(["==", "!="]), "value": rng.choice([env.get(v, "on"), rng.choice(["on", "42", "off", "ON"])]),
                   "true": rng.choice(["T", "U"]), "false": rng.choice([None, "F", "U2", "F"]), "env": env, "where": rng.choice(["p", "style", "header"])}


def judge9(case):
    if "items" in case:
        r = judge(case)
        return r
    if not set(case) >= {"env", "macro", "true", "false", "op", "where", "var", "value"} or case["var"] not in ("v", "w", "a.b") or case["op"] not in ("==", "!=") or case["where"] not in ("p", "style", "header") or "T" not in case["env"] or "F" not in case["env"] or not case["value"].isalnum() or case["true"] not in ("T", "U") or case["false"] not in (None, "F", "U2") or any(not (x == "" or x.isalnum()) for x in case["env"].values()):
        return None
    env = Environment.from_dict(case["env"])
    if not case["true"] or case["false"] == "" or case["macro"] not in ("if", "ifeval"):
        return None
    m = f"[{case['macro']}:{case['var']}{case['op']}{case['value']}]({case['true']}" + (f", {case['false']})" if case["false"] is not None else ")")
    body = {"p": f"x{m}y", "style": f"x*z{m}*y", "header": f"= x{m}y"}[case["where"]]
    flat = env.asflatdict()
    if case["var"] not in flat:
        want = None
    else:
        t = (flat[case["var"]] == case["value"]) == (case["op"].strip() == "==")
        pick = case["true"] if t else case["false"]
        if case["macro"] == "ifeval":
            want = None if pick is None or pick not in flat else flat[pick]
        else:
            want = pick or ""
    try:
        got = plain(doc(body + "\n", env).nodes)
    except MauException as e:
        return None if want is None else f"rejected {body!r}: {e.message.text}"
    if want is None:
        return f"accepted: {body!r} must be rejected, got {got!r}"
    full = "x" + ("z" if case["where"] == "style" else "") + want + "y"
    if got != full:
        return f"text: {body!r} gives {got!r}, expected {full!r} with {dict(flat)!r}"
    return None


PROP = {"C08": (cases, judge), "C09": (cases9, judge9)}
