"""C18 C22: raw and source blocks are verbatim; lists nest by level and are numbered."""
from common import *

LINES = ["= header", "[a, b]", ". label", "@if x==y", "* item", "// comment", "////", "{var}", "\\{x\\}", "`code`", "*bold*", ":v:1", "<< toc", "    indented", "trailing  ", "", " ", "---", "----x", "+++", "a\tb",
         "é ü 漢", "[macro](x)", "\\", "\"", "x:y", ":x", "def f(a: int): return a"]
FENCES = ["----", "++++", "____", "~~~~"]
ALIAS = {"+": "add", "-": "remove", "!": "important", "x": "error"}


def cases18(rng, tier):
    while True:
        lines = []
        d = rng.choice([":", ":", ":", "#", "::", "%%", "<-"])
        hp = rng.choice(["@", "@", "$", "!!"])
        for _ in range(rng.randint(1, 6)):
            k = rng.random()
            if k < .55:
                lines.append(["line", rng.choice(LINES)])
            elif k < .75:
                lines.append(["mark", word(rng, "abc ", 0, 4), word(rng, "123xy  ", 1, 3)])
            elif k < .95:
                lines.append(["high", word(rng, "abc ", 0, 4), rng.choice(["", "+", "-", "!", "x", "mine"])])
            else:
                lines.append(["fence", rng.choice(FENCES)])
        yield {"engine": rng.choice(["raw", "source", "source", "include"]), "fence": rng.choice(FENCES), "delim": d, "prefix": hp, "lang": rng.choice([None, "python"]), "lines": lines,
               "style": rng.choice([None, "mine2"])}


def judge18(case):
    eng, fence_, D, P = case["engine"], case["fence"], case["delim"], case["prefix"]
    if eng not in ("raw", "source", "include") or fence_ not in FENCES or D not in (":", "#", "::", "%%", "<-") or P not in ("@", "$", "!!") or case["lang"] not in (None, "python") or not case["lines"] or case["style"] not in (None, "mine2"):
        return None
    text, want = [], []
    for l in case["lines"]:
        if not l:
            return None
        k = l[0]
        if k == "line" and len(l) == 2 and l[1] in LINES:
            t = l[1]
            if eng == "source" and (D in t and t.endswith(D)):
                return None
            text.append(t)
            want.append((t, None, None))
        elif k == "mark" and len(l) == 3 and l[2] and set(l[2]) <= set("123xy ") and set(l[1]) <= set("abc "):
            t = l[1] + D + l[2] + D
            text.append(t)
            want.append((l[1], l[2], None))
        elif k == "high" and len(l) == 3 and l[2] in ("", "+", "-", "!", "x", "mine") and set(l[1]) <= set("abc "):
            if D == "<-" and l[2] == "-" or D == "%%" and l[2] == "%":
                return None
            t = l[1] + D + P + l[2] + D
            text.append(t)
            st = l[2] or case["style"] or "default"
            want.append((l[1], None, ALIAS.get(st, st)))
        elif k == "fence" and len(l) == 2 and l[1] in FENCES and l[1] != fence_:
            text.append(l[1])
            want.append((l[1], None, None))
        else:
            return None
    if any(t == fence_ for t in text) or eng == "include" and "\n".join(text) == "":
        return None
    if eng == "include":
        import os
        with Scratch() as d:
            f = os.path.join(d, "x.txt")
            with open(f, "w", encoding="utf-8", newline="") as h:
                h.write("\n".join(text))
            n = doc(f"<< raw:{f}\n").nodes[0]
        got = [x.value for x in n.content]
        return None if got == text else f"raw: the included file {text!r} gives {got!r}"
    args = [] if case["lang"] is None or eng == "raw" else [case["lang"]]
    args += [f"engine={eng}"]
    if eng == "source":
        if D != ":":
            args.append(f"marker_delimiter={D}" if D != "#" else 'marker_delimiter="#"')
        if P != "@":
            args.append(f"highlight_marker={P}")
        if case["style"]:
            args.append("highlight_default_style=" + case["style"])
    src = "before\n\n[" + ", ".join(args) + "]\n" + "\n".join([fence_, *text, fence_]) + "\nafter\n"
    try:
        nodes = doc(src).nodes
    except MauException as e:
        return f"rejected: {src!r}: {e.message.text}"
    if [n.type for n in nodes] != ["paragraph", eng, "paragraph"]:
        return f"elements: {src!r} gives {[n.type for n in nodes]!r}"
    if plain(nodes[0].content) != "before" or plain(nodes[2].content) != "after":
        return f"elements: {src!r} changes the text around the block"
    n = nodes[1]
    if eng == "raw":
        got = [x.value for x in n.content]
        if got != text:
            return f"raw: {src!r} gives {got!r}"
    else:
        if n.language != (case["lang"] or "text"):
            return f"language: {n.language!r} in {src!r}"
        got = [(x.line_content, x.marker.value if x.marker else None, x.highlight_style) for x in n.content]
        if got != want:
            return f"source: {src!r} gives {got!r}, expected {want!r}"
        if [x.line_number for x in n.content] != [str(i) for i in range(1, len(text) + 1)]:
            return f"numbers: {src!r} gives {[x.line_number for x in n.content]!r}"
    for i, x in enumerate(n.content):
        c = x.info.context
        if (c.start_line, c.end_line) != (i + 4, i + 4) or c.start_column != 0:
            return f"position: line {i} of {src!r} is at {ctx(x)!r}"
        if x.parent is not n:
            return f"parent: line {i} of {src!r}"
    return None


# ---- C22
def cases22(rng, tier):
    while True:
        lists = []
        for _ in range(rng.randint(1, 4)):
            l, lev = [], rng.choice([1, 1, 1, 2])
            for _ in range(rng.randint(1, 7)):
                m = rng.choice("**#")
                if rng.random() < .25:      # mixed markers: the first one decides
                    m += "".join(rng.choice("*#") for _ in range(lev - 1))
                l.append([lev, m, word(rng), rng.choice([0, 0, 2])])
                lev = max(1, lev + rng.choice([-2, -1, -1, 0, 0, 1, 1, 2]))
            if rng.random() < .5:
                l[0][1] = "#"
            lists.append([rng.choice([None, None, "auto", "auto", 5, 0, -3, 10]), rng.choice([None, None, None, True, False]), l])
        yield {"lists": lists}


def nest(items):
    """Reference: (levels below the first one start another list; deeper items form a nested list)."""
    base = items[0][0]
    out, i = [], 0
    while i < len(items) and items[i][0] >= base:
        if items[i][0] == base:
            out.append(items[i][2])
            i += 1
        else:
            sub, used, o = nest(items[i:])
            out.append((o, sub))
            i += used
    return out, i, items[0][1][0] == "#"


def see(node):
    return [(x.ordered, see(x)) if x.type == "list" else plain(x.content) for x in node.content]


def flat22(ns):
    for n in ns:
        if n.type == "list":
            yield from flat22(n.content)
        else:
            yield n


def judge22(case):
    src, want = [], []
    last = 0
    for l in case["lists"]:
        if len(l) != 3 or not l[2] or l[0] not in (None, "auto", 5, 0, -3, 10) or l[1] not in (None, True, False):
            return None
        start, cond, items = l
        if not all(len(i) == 4 and isinstance(i[0], int) and i[0] > 0 and i[1] and set(i[1]) <= set("*#") and len(i[1]) in (1, i[0]) and i[2].isalnum() and i[3] in (0, 2) for i in items):
            return None
        if start is not None:
            src.append(f"[start={start}]")
        if cond is not None:
            src.append("@if f==" + ("on" if cond else "off"))
        src += [" " * i[3] + (i[1] if len(i[1]) == i[0] else i[1] * i[0]) + " " + i[2] for i in items] + [""]
        rest, first = items, True
        while rest:
            tree, used, o = nest(rest)
            rest = rest[used:]
            s = (start if first else None)
            s = last if s == "auto" else 1 if s is None else s
            if not (first and cond is False):
                want.append((o, s, tree))
                if o:
                    last = s + sum(1 for x in tree if isinstance(x, str))
            first = False
    text = "\n".join(src) + "\n"
    try:
        p = doc(text, Environment.from_dict({"f": "on"}))
    except MauException as e:
        return f"rejected: {text!r}: {e.message.text}"
    if any(n.type != "list" for n in p.nodes):
        return f"elements: {text!r} gives {[n.type for n in p.nodes]!r}"
    got = [(n.ordered, n.start, see(n)) for n in p.nodes]
    if [(g[0], g[2]) for g in got] != [(w[0], w[2]) for w in want]:
        return f"nesting: {text!r} gives {got!r}, expected {want!r}"
    if [g[1] for g in got] != [w[1] for w in want]:
        return f"numbers: {text!r} gives {[g[1] for g in got]!r}, expected {[w[1] for w in want]!r}"
    for n in p.nodes:
        if not n.main_node or any(x.main_node for x in n.content if x.type == "list"):
            return f"main: {text!r}"
    lv = [x.level for x in flat22(p.nodes)]
    return None


PROP = {"C18": (cases18, judge18), "C22": (cases22, judge22)}
