"""C14 C15 C16 C17: table of contents, footnotes, header links, block groups."""
from common import *

GROUPS = ["g1", "g2"]
ODD = ["g1", " g1", "g1 ", "G1", "g", "1", "g 1", "g11"]
FENCE = ["++++", "----", "____", "~~~~"]
NAMES = ["n1", "n2", "n3"]
COND = [None, None, None, None, True, False]


def gen(rng, kinds, depth=0, pre="", local=None):
    """Random document.  Names get the prefix of their scope; local: names that can be used without an error."""
    out = []
    for _ in range(rng.randint(1, 6 if depth == 0 else 3)):
        k = rng.choice(kinds + ["p0"])
        t = "t" + word(rng)
        c = rng.choice(COND)
        if k == "h":
            out.append(["h", rng.choice([1, 1, 2, 2, 3, 4, 6]), t, rng.choice([None, None] + NAMES) if "p" in kinds else None, rng.choice([None, None, None, "iid" + word(rng)]), c])
        elif k == "p0":
            out.append(["p", t, [], None])
        elif k == "p":
            refs = []
            for _ in range(rng.randint(1, 2)):
                refs.append([rng.choice(["fn"] if "fnb" in kinds else ["hl"]), rng.choice(NAMES), rng.choice([None, "txt" + word(rng)])])
            out.append(["p", t, refs, None])
        elif k == "fnb":
            out.append(["fnb", rng.choice(NAMES), t, c])
        elif k == "gb":
            out.append(["gb", rng.choice(GROUPS if rng.random() < .8 else ODD), rng.choice(["p1", "p2", "p3"]) if rng.random() < .9 else rng.choice([" p1", "p1 ", "P1", "p"]), t, c])
        elif k == "gi":
            out.append(["gi", rng.choice(GROUPS if rng.random() < .7 else ODD), rng.choice([None, None, True])])
        elif k == "box":
            if depth < 3:
                iso = rng.random() < .4
                out.append(["box", iso, gen(rng, kinds, depth + 1)])
        else:
            out.append([k])
    return out


def maker(kinds):
    def cases(rng, tier):
        while True:
            items = gen(rng, kinds)
            # half of the time repair the document so that it has no error
            if rng.random() < .75:
                items = repair(items, [], [])
            yield {"items": items, "fn": rng.random() < .3}
    return cases


def repair(items, _a, _b, uid=None):
    """Give every definition a fresh name and every reference an existing one."""
    uid = uid if uid is not None else [0]
    defs = {"fnb": [], "h": [], "gb": []}
    out = []
    for it in items:
        it = list(it)
        uid[0] += 1
        if it[0] == "h" and it[3]:
            it[3] = f"n{uid[0]}"
            if it[5] is not False:
                defs["h"].append(it[3])
        elif it[0] == "fnb":
            it[1] = f"n{uid[0]}"
            if it[3] is not False:
                defs["fnb"].append(it[1])
        elif it[0] == "gb":
            it[2] = f"p{uid[0]}"
            if it[4] is not False:
                defs["gb"].append(it[1])
        elif it[0] == "box":
            it[2] = repair(it[2], None, None, uid)
        out.append(it)
    res = []
    for it in out:
        if it[0] == "p":
            refs = []
            for r in it[2]:
                d = defs["fnb" if r[0] == "fn" else "h"]
                if d:
                    refs.append([r[0], d[len(refs) % len(d)] if uid[0] % 2 else d[-1 - len(refs) % len(d)], r[2]])
            it[2] = refs
        elif it[0] == "gi":
            if not defs["gb"]:
                continue
            it[1] = defs["gb"][len(res) % len(defs["gb"])]
        res.append(it)
    return res


def ok(items):
    for it in items:
        if not it:
            return False
        k = it[0]
        n = {"h": 6, "p": 4, "fnb": 4, "gb": 5, "gi": 3, "box": 3, "toc": 1, "fns": 1}.get(k)
        if n != len(it):
            return False
        if k == "h" and (it[1] not in range(1, 7) or not it[2].isalnum() or it[3] == "" or it[4] == ""):
            return False
        if k == "p" and (not it[1].isalnum() or fence(it[1]) or not all(len(r) == 3 and r[0] in ("fn", "hl") and r[1] and (r[2] is None or r[2].isalnum()) for r in it[2])):
            return False
        if k == "fnb" and not (it[1] and it[2].isalnum() and not fence(it[2])):
            return False
        if k == "gb" and not (it[1] and it[2] and it[3].isalnum() and not fence(it[3])):
            return False
        if k == "gi" and not it[1]:
            return False
        if k == "box" and (not it[2] or not ok(it[2])):
            return False
    return True


def stripped(items):
    """Named values lose the blank space around them, positional ones keep it."""
    out = []
    for it in items:
        it = list(it)
        if it[0] == "gb":
            it[1], it[2] = it[1].strip(), it[2].strip()
        elif it[0] == "gi" and it[2]:
            it[1] = it[1].strip()
        elif it[0] == "box":
            it[2] = stripped(it[2])
        out.append(it)
    return out


def quoted(t):
    return f'"{t}"' if t != t.strip() else t


def source(items, depth=0):
    out = []

    def cond(c):
        if c is not None:
            out.append("@if flag==" + ("on" if c else "off"))

    for it in items:
        k = it[0]
        if k == "h":
            cond(it[5])
            a = []
            if it[3]:
                a.append(f"name={it[3]}")
            if it[4]:
                a.append(f"internal_id={it[4]}")
            if a:
                out.append("[" + ", ".join(a) + "]")
            out.append("=" * it[1] + " " + it[2])
        elif k == "p":
            out += [it[1] + "".join(f" [footnote]({r[1]})" if r[0] == "fn" else f" [header]({r[1]}" + (f', "{r[2]}")' if r[2] else ")") for r in it[2]), ""]
        elif k == "fnb":
            cond(it[3])
            out += [f"[footnote={it[1]}]", FENCE[depth], it[2], FENCE[depth]]
        elif k == "gb":
            cond(it[4])
            out += [f"[group={quoted(it[1])}, position={quoted(it[2])}]", FENCE[depth], it[3], FENCE[depth]]
        elif k == "gi":
            out += [f"<< blockgroup:{quoted(it[1])}"] if not it[2] else [f"[group={quoted(it[1])}]", "<< blockgroup"]
        elif k == "box":
            out += ([] if it[1] else ["[isolate=false]"]) + [FENCE[depth]] + source(it[2], depth + 1) + [FENCE[depth]]
        elif k == "toc":
            out.append("<< toc")
        elif k == "fns":
            out.append("<< footnotes")
    return out


def scopes(items, nodes, depth=0):
    """Pair the items of a scope with the nodes they produced: yields (flat list of (item, node)) per scope.
    A box that is not isolated belongs to the scope around it, but it is checked as a scope of its own too."""
    flat, inner = [], []
    i = 0
    for it in items:
        k = it[0]
        gone = k == "fnb" or k == "gb" or (k == "h" and it[5] is False)
        if gone:
            flat.append((it, None))
            continue
        if i >= len(nodes):
            raise Bad(f"elements: fewer nodes than elements: {[n.type for n in nodes]!r}")
        n = nodes[i]
        i += 1
        want = {"h": "header", "p": "paragraph", "gi": "blockgroup", "box": "block", "toc": "toc", "fns": "footnotes"}[k]
        if n.type != want:
            raise Bad(f"elements: a {n.type} where a {want} was expected")
        if k == "box":
            f, sub = scopes(it[2], n.content)
            inner += sub
            if it[1]:
                inner.append((f, True))
            else:
                flat += [x for x in f if x[0][0] not in ("gb", "gi")]
                inner.append((f, False))
        else:
            flat.append((it, n))
    if i != len(nodes):
        raise Bad(f"elements: more nodes than elements: {[n.type for n in nodes]!r}")
    return flat, inner


class Bad(Exception):
    pass


def flat_items(items, groups=True):
    """Items of one scope, boxes that are not isolated merged in (groups stay inside their box)."""
    for it in items:
        if it[0] == "box":
            if not it[1]:
                yield from (x for x in flat_items(it[2]) if x[0] not in ("gb", "gi"))
        else:
            yield it


def errors(items):
    """Does any scope contain an error?"""
    fl = list(flat_items(items))
    bodies = [x[1] for x in fl if x[0] == "fnb" and x[3] is not False]
    heads = [x[3] for x in fl if x[0] == "h" and x[3] and x[5] is not False]
    blocks = [(x[1], x[2]) for x in fl if x[0] == "gb" and x[4] is not False]
    for l in (bodies, heads, blocks):
        if len(set(l)) != len(l):
            return True
    for x in fl:
        if x[0] == "p":
            for r in x[2]:
                if r[1] not in (bodies if r[0] == "fn" else heads):
                    return True
        if x[0] == "gi" and x[1] not in [g for g, _ in blocks]:
            return True
    return any(errors(it[2]) for it in items if it[0] == "box")


def tree(heads):
    """Reference: every header below the nearest header before it that has a lower level."""
    roots, stack = [], []
    for h in heads:
        node = (h, [])
        while stack and stack[-1][0].level >= h.level:
            stack.pop()
        (stack[-1][1] if stack else roots).append(node)
        stack.append(node)
    return roots


def same_tree(entries, ref, parent):
    if len(entries) != len(ref):
        return False
    return all(e.header is r[0] and e.parent is parent and same_tree(e.entries, r[1], parent) for e, r in zip(entries, ref))


def judge(case):
    items = case["items"]
    if not ok(items) or not items:
        return None
    src = "\n".join(source(items)) + "\n"
    items = stripped(items)
    called = []

    def hid(node):
        called.append(node)
        return f"custom{len(called)}"

    env = {"flag": "on"}
    e = Environment.from_dict(env)
    if case.get("fn"):
        e.dupdate({"header_internal_id_function": hid, "footnote_unique_id_function": lambda f: "uid-" + f.name + "-" + f.public_id}, "mau.parser")
    bad = errors(items)
    try:
        p = doc(src, e)
    except MauException as ex:
        return None if bad else f"rejected: {src!r}: {ex.message.text}"
    if bad:
        return f"accepted: {src!r} must be rejected"
    try:
        top, inner = scopes(items, p.nodes)
        for fl, isolated in inner:
            if isolated:
                check(fl, case.get("fn"))
            else:
                groups(fl)
        check(top, case.get("fn"))
        heads = [n for it, n in top if it[0] == "h" and n is not None]
        if p.output.toc is not None:
            if [id(h) for h in p.output.toc.plain_entries] != [id(h) for h in heads]:
                raise Bad(f"toc: the document toc lists {[plain(h.content) for h in p.output.toc.plain_entries]!r}")
            ents = p.output.toc.nested_entries
            if not same_tree(ents, tree(heads), heads[0].parent if heads else None):
                raise Bad("toc: the document toc has the wrong tree")
    except Bad as b:
        return f"{b} in {src!r}"
    if len({id(h) for h in called}) != len(called):
        return f"toc: an identifier was computed twice in {src!r}"
    return None


def groups(fl):
    blocks = {}
    for it, n in fl:
        if it[0] == "gb" and it[4] is not False:
            blocks.setdefault(it[1], {})[it[2]] = it[3]
    users = {}
    for it, n in fl:
        if it[0] == "gi":
            want = blocks[it[1]]
            got = {k: "".join(plain(x.content) for x in v.block.content) for k, v in n.items.items()}
            if n.name != it[1] or list(got.items()) != list(want.items()):
                raise Bad(f"group: {it[1]!r} contains {got!r}, expected {want!r}")
            for pos, item in n.items.items():
                if item.position != pos or item.group != it[1] or item.block.parent is not item:
                    raise Bad(f"group: item {pos!r} says {item.position!r} of {item.group!r}")
            users.setdefault(it[1], []).append(n)
    for g, ns in users.items():
        if any(list(map(id, x.items.values())) != list(map(id, ns[0].items.values())) for x in ns):
            raise Bad("group: two includes of a group show different blocks")


def check(fl, fn):
    groups(fl)
    # table of contents
    heads = [n for it, n in fl if it[0] == "h" and n is not None]
    hits = [it for it, n in fl if it[0] == "h" and n is not None]
    for it, h in zip(hits, heads):
        if h.level != it[1] or plain(h.content) != it[2] or h.name != it[3]:
            raise Bad(f"header: {h.level} {plain(h.content)!r} {h.name!r}, expected {it!r}")
        if h.internal_id is None or it[4] is not None and h.internal_id != it[4]:
            raise Bad(f"header: internal id {h.internal_id!r}, expected {it[4]!r}")
        if fn and it[4] is None and not h.internal_id.startswith("custom"):
            raise Bad(f"header: internal id {h.internal_id!r} does not come from the configured function")
    for it, n in fl:
        if it[0] == "toc":
            got = [(h.level, plain(h.content), h.internal_id, h.name) for h in n.plain_entries]
            want = [(h.level, plain(h.content), h.internal_id, h.name) for h in heads]
            if got != want:
                raise Bad(f"toc: lists {got!r}, expected {want!r}")
            if any(h.parent is not n or h in heads for h in n.plain_entries):
                raise Bad("toc: an entry is not a copy that belongs to the toc")
            if not same_tree(n.nested_entries, tree(heads), n):
                raise Bad(f"toc: wrong tree for levels {[h.level for h in heads]!r}")
    # footnotes
    bodies = [(it[1], it[2]) for it, n in fl if it[0] == "fnb" and it[3] is not False]
    lists = [n for it, n in fl if it[0] == "fns"]
    macros = [(r, m) for it, n in fl if it[0] == "p" for r, m in zip([r for r in it[2] if r[0] == "fn"], [x for x in walk(n.content) if x.type == "macro-footnote"])]
    objs = {}
    for l in lists:
        got = [(x.footnote.name, "".join(plain(y.content) for y in x.footnote.content), x.footnote.public_id, x.footnote.internal_id) for x in l.footnotes]
        want = [(nm, t, str(i), f"uid-{nm}-{i}" if fn else nm) for i, (nm, t) in enumerate(bodies, 1)]
        if got != want:
            raise Bad(f"footnotes: list {got!r}, expected {want!r}")
        for x in l.footnotes:
            if x.parent is not l or objs.setdefault(x.footnote.name, x.footnote) is not x.footnote:
                raise Bad("footnotes: two lists have different notes")
    nref = sum(1 for it, n in fl if it[0] == "p" for r in it[2] if r[0] == "fn")
    if len(macros) != nref:
        raise Bad(f"footnotes: {len(macros)} mentions, expected {nref}")
    for r, m in macros:
        want = dict(bodies)[r[1]]
        if m.name != r[1] or m.footnote is None or m.footnote.name != r[1] or "".join(plain(y.content) for y in m.footnote.content) != want or objs.setdefault(r[1], m.footnote) is not m.footnote:
            raise Bad(f"footnotes: the mention of {r[1]!r} is linked to {m.footnote and m.footnote.name!r}")
        if m.footnote.public_id != str([b[0] for b in bodies].index(r[1]) + 1):
            raise Bad(f"footnotes: {r[1]!r} has the number {m.footnote.public_id!r}")
    # header links
    named = {h.name: h for h in heads if h.name}
    for it, n in fl:
        if it[0] != "p":
            continue
        refs = [r for r in it[2] if r[0] == "hl"]
        ms = [x for x in walk(n.content) if x.type == "macro-header"]
        if len(refs) != len(ms):
            raise Bad(f"links: {len(ms)} links, expected {len(refs)}")
        for r, m in zip(refs, ms):
            h = named[r[1]]
            if m.header is not h or m.target_name != r[1]:
                raise Bad(f"links: the link to {r[1]!r} leads to {m.header and m.header.name!r}")
            if plain(m.content) != (r[2] or plain(h.content)):
                raise Bad(f"links: the link to {r[1]!r} has the text {plain(m.content)!r}")
            if r[2] is None and any(x in h.content or x.parent is not m for x in m.content):
                raise Bad("links: the text of the link is not a copy")


PROP = {"C14": (maker(["h", "h", "h", "toc", "box"]), judge), "C15": (maker(["p", "p", "fnb", "fnb", "fns", "box"]), judge),
        "C16": (maker(["h", "h", "p", "p", "box", "toc"]), judge), "C17": (maker(["gb", "gb", "gb", "gi", "box"]), judge)}
