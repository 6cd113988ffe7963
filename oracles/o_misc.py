"""C23 C24 C25: only Mau errors, positions, command line."""
import contextlib
import io
import os
import sys

import yaml
from common import *
from mau.visitors.base_visitor import BaseVisitor
from mau.visitors.yaml_visitor import YamlVisitor

# ---------------------------------------------------------------- C23
FRAG = ["= ", "== ", "=", "* ", "** ", "# ", "## ", "*", "_", "~", "^", "`", "\\", "{", "}", "{v}", "{u}", "{{", "}}", "[", "]", "(", ")", "\"", ",", ":", "::", ":v:", ":+f:", ":-f:", ":v", "<< ", "<<", "toc", "footnotes",
        "blockgroup", "image", "mau", "raw", ":g", "@if ", "@", "==", "!=", "v", "1", "// ", "////", ".", ". ", ".role ", "#tag", "*sub", "@alias", "@source", "!", "k=v", "k=", "=v", "---", "----", "++++", " ", "  ", "é", "\t", "$", "%", "$$", "%%",
        "[footnote](f)", "[header](h)", "[link](x)", "[link]()", "[mailto](a)", "[image](x, y, 1, 2)", "[image]()", "[class](a, b)", "[class]()", "[unicode](1F30B)", "[unicode]()", "[raw](\"x\")", "[raw]()", "[m](a=1, b)", "[if:v==1](a, b)",
        "[if:v](a)", "[if:](a)", "[ifeval:v==1](v)", "[ifeval:v==1]()", "[ifx:v==1](v)", "[footnote]()", "[header]()", "word", "text here", "https://x.y", "start=auto", "start=x", "engine=raw", "engine=source", "engine=zzz", "footnote=f",
        "group=g", "position=p", "isolate=false", "name=h", "internal_id=i", "classes=a", "marker_delimiter=", "highlight_marker=", "language=", "call:", "pass_environment=false"]
LINES = ["", "", "text", "= Head", "== Head", "----", "----", "++++", "++++", "* a", "** b", "# c", "## d", "  * e", "[name=h]", "[footnote=f]", "[group=g, position=p]", "[engine=raw]", "[engine=source]", "[isolate=false]", "[engine=source, python]",
         "[@source, python]", "[@zzz]", ":v:1", ":v:2", ":+f:", ":-f:", ":!f:", ":v:", ":v", ":n.s:x", "@if v==1", "@if v!=1", "@if v", "@if", "@if v==", "@if =", "@unless v==1", ". title", ".role text", ".", ".role", ".role ", "<< toc", "<< footnotes",
         "<< blockgroup:g", "<< blockgroup", "<< image:x", "<< image", "<< mau:nothere", "<< mau", "<< raw:nothere", "<< raw", "<<", "<< ", "<<toc", "<<toc:", "<< custom", "<< custom:a,b", "<< custom:", "// c", "////", "---", "{v}", "{v", "{}", "{nope}",
         "[a, b=\"c", "[a, b=", "[]", "[,]", "[=]", "[#]", "[*]", "[@]", "[a]b", "[", "]", "x:y:z:", "x:1:", "x:@+:", "x::", "=", "==", "= ", "*", "* ", "#", "[footnote](f)", "[header](h)", "[link](x, y)", "[footnote](f, g)", "[class](a,b)[raw](\"x\")", "\\", "x\\",
         "[start=auto]", "[start=3]", "[start=x]", "[if:v==1](a,b)", "[if:v==1]()", "[if:v==1](a,b,c)", "[ifeval:v==1](v,f)", "[ifnot:v==1](a)", "*bold* _it_ ~s~ ^p^", "*open", "`open", "**", "__", "$$", "`", "``", "(", ")", "\"", "[a](b", "[a](b))"]


KEYS = ["classes=", "engine=", "isolate=", "group=g, position=", "name=", "internal_id=", "start=", "footnote=", "engine=source, language=", "engine=source, marker_delimiter=", "engine=source, highlight_marker=", "engine=source, highlight_default_style=",
        "content=", "label=", "alt_text=", "uri=", "#", "*", "@", ""]
VALUES = ["", "x", "\",\"", "\"a,,b\"", "\" \"", "\"\"", "0", "-1", "auto", "false", "true", "None", ".", "-", "\\", "é", "a.b", "@", ":", "1.5", "99999999999999999999"]
BODIES = ["----\nt\n----", "----\n----", "= H", "* a\n# b", "# a", "text", "<< toc", "<< image:x", "<< footnotes", "<< custom:a", "---", "----\nx:1:\n:@:\n::\n:\n----"]


def cases23(rng, tier):
    for l in LINES:
        yield {"text": l}
    for l in FRAG:
        yield {"text": l}
    for a in KEYS:
        for v in VALUES:
            for b in BODIES:
                yield {"text": f"[{a}{v}]\n{b}\n"}
    while True:
        k = rng.random()
        if k < .15:
            args = ", ".join(rng.choice(KEYS) + rng.choice(VALUES) for _ in range(rng.randint(1, 3)))
            yield {"text": rng.choice(["", "[group=g, position=p]\n----\nt\n----\n\n"]) + f"[{args}]\n{rng.choice(BODIES)}\n" + rng.choice(["", f"\n<< {rng.choice(['image:x', 'blockgroup:g', 'toc', 'footnotes', 'custom'])}, {args}\n"])}
            continue
        if k < .5:
            yield {"text": "\n".join(rng.choice(LINES) for _ in range(rng.randint(1, 12)))}
        elif k < .9:
            yield {"text": "\n".join("".join(rng.choice(FRAG) for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 4)))}
        else:
            ls = [rng.choice(LINES) for _ in range(rng.randint(1, 8))]
            i = rng.randrange(len(ls))
            ls[i] = ls[i] + "".join(rng.choice(FRAG) for _ in range(rng.randint(1, 4)))
            yield {"text": "\n".join(ls)}


def judge23(case):
    t = case["text"]
    if any(sum(l.count(c) for c in "*_~^") > 12 for l in t.split("\n")) or "mau." in t:
        return None
    # a variable whose text evaluates itself never ends (known, see DESIGN.md)
    if any("ifeval" in l and l.lstrip().startswith(":") for l in t.split("\n")):
        return None
    try:
        p = doc(t, Environment.from_dict({"u": "uu"}))
    except MauException as e:
        if not isinstance(e.message.text, str):
            return f"message: {e.message!r} for {t!r}"
        return None
    d = p.output.document
    if (d is None) != (not p.nodes):
        return f"output: the document is {d!r} for {t!r}"
    out = BaseVisitor(H).process(d)
    YamlVisitor(H).process(d)
    if d is not None and len(out["content"]) != len(p.nodes):
        return f"visit: {len(out['content'])} results for {len(p.nodes)} nodes of {t!r}"
    return None


# ---------------------------------------------------------------- C24
import o_doc                                                    # noqa: E402
from mau.text_buffer import Context as Ctx                      # noqa: E402


def cases24(rng, tier):
    while True:
        if rng.random() < .3:
            yield {"merge": [[[rng.randint(0, 5) for _ in range(4)], rng.choice([None, "a", "b"])] for _ in range(2)]}
        else:
            yield {"items": o_doc.rand_items(rng, 0, [0]), "line": rng.choice([0, 0, 7]), "texts": [rng.choice(["plain text", "a *b c* d", "x `v` y", "[class](in *x*, c)", "_a *b* c_ d", "k [link](t, u) z"]) for _ in range(4)]}


def inside(outer, inner):
    return outer.start_position <= inner.start_position and inner.end_position <= outer.end_position


def judge24(case):
    if "merge" in case:
        m = case["merge"]
        if len(m) != 2 or any(len(x) != 2 or len(x[0]) != 4 for x in m):
            return None
        a, b = [Ctx(*x[0], x[1]) for x in m]
        c = Ctx.merge_contexts(a, b)
        want = (min(a.start_line, b.start_line), min(a.start_column, b.start_column), max(a.end_line, b.end_line), max(a.end_column, b.end_column), a.source)
        got = (c.start_line, c.start_column, c.end_line, c.end_column, c.source)
        if got != want:
            return f"merge: {a!r} and {b!r} give {c!r}"
        if (a, b) != tuple(Ctx(*x[0], x[1]) for x in m):
            return "merge: changes its arguments"
        return None
    if not o_doc.valid(case["items"]):
        return None
    lines, _ = o_doc.build(case["items"], 0, [0])
    lines += [x for t in case["texts"] for x in (t, "")]
    src = "\n".join(lines) + "\n"
    try:
        p = doc(src, Environment.from_dict(o_doc.VARS))
    except MauException as e:
        return f"rejected: {src!r}: {e.message.text}"
    nlines = len(src.split("\n"))
    r = check24(p.nodes, None, nlines, lines)
    if r:
        return f"{r} in {src!r}"
    if p.output.document is not None:
        for n in p.nodes:
            if not inside(p.output.document.info.context, n.info.context):
                return f"position: the document {ctx(p.output.document)!r} does not contain {n.type} {ctx(n)!r} in {src!r}"
    return None


def check24(nodes, outer, nlines, lines):
    for n in nodes:
        c = n.info.context
        if n.type in ("toc", "footnotes", "blockgroup"):
            pass
        if c.source != SRC:
            return f"position: {n.type} has the source {c.source!r}"
        if not (0 <= c.start_line <= c.end_line < nlines and c.start_column >= 0 and c.end_column >= 0 and c.start_position <= c.end_position):
            return f"position: {n.type} is at {c!r}, the document has {nlines} lines"
        if n.type == "text" and c.start_line == c.end_line and c.end_column - c.start_column == len(n.value):
            there = lines[c.start_line][c.start_column:c.end_column]
            if there != n.value and "\\" not in lines[c.start_line]:
                return f"position: the text {n.value!r} is said to be at {c!r}, where the source says {there!r}"
        if outer is not None and not inside(outer.info.context, c):
            return f"position: {outer.type} {ctx(outer)!r} does not contain {n.type} {ctx(n)!r}"
        if isinstance(getattr(n, "content", None), list):
            r = check24(n.content, n, nlines, lines)
            if r:
                return r
    return None


# ---------------------------------------------------------------- C25
def cases25(rng, tier):
    while True:
        k = rng.random()
        vs = [[rng.choice(["a", "b", "ns.x", "k"]), rng.choice(["1", "x=y", "", "a=b=c", "text here", "=", "é"] + (["  lead", "trail ", " ", "\t", "\"q\"", "A", "a\nb", "true", "\\"] if k < .9 else []))] for _ in range(rng.randint(0, 4))]
        fs = []
        for i in range(rng.randint(0, 3)):
            fs.append([rng.choice([None, "key", "n.k", f"f{i}"]), f"file{i}", rng.choice([{"a": 1}, {"a": {"b": "c", "d": {}}}, "text", [1, 2], {}, 5]), rng.choice(["yaml", "yml", "txt", ""])])
        if k < .9:
            yield {"vars": vs, "files": fs, "vns": rng.choice([None, "myv", "x.y"]), "fns": rng.choice([None, "myf"]), "bad": rng.choice([None, None, None, "missing", "broken"])}
        else:
            yield {"vars": vs, "files": fs, "vns": None, "fns": None, "bad": None, "cli": rng.choice(["doc.mau", "doc.txt", "d.mau.mau", "noext", "sub.mau/doc.mau"]), "out": rng.choice([None, "res.yaml"]), "conf": rng.choice([None, "", "x: 1\ny:\n  z: deep\n"])}


def flat_of(d, prefix=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flat_of(v, f"{prefix}{k}."))
        else:
            out[prefix + str(k)] = v
    return out


def judge25(case):
    from mau import ConfigurationError, load_environment_files, load_environment_variables
    if any(len(v) != 2 or v[0] not in ("a", "b", "ns.x", "k") for v in case["vars"]) or any(len(f) != 4 or f[1] not in ("file0", "file1", "file2") or f[0] not in (None, "key", "n.k", "f0", "f1", "f2") or f[3] not in ("yaml", "yml", "txt", "") for f in case["files"]):
        return None
    if case["vns"] not in (None, "myv", "x.y") or case["fns"] not in (None, "myf"):
        return None
    cwd = os.getcwd()
    with Scratch() as d:
        os.chdir(d)
        try:
            args, want_f = [], {}
            for key, name, content, ext in case["files"]:
                fn = name + ("." + ext if ext else "")
                with open(fn, "w", encoding="utf-8") as h:
                    yaml.safe_dump(content, h)
                args.append(fn if key is None else f"{key}={fn}")
                want_f[key if key is not None else name] = content
            if case["bad"] == "missing":
                args.append("nothere.yaml")
            elif case["bad"] == "broken":
                with open("broken.yaml", "w") as h:
                    h.write("a: [1\n")
                args.append("k=broken.yaml")
            if "cli" in case:
                return cli(case, args, want_f)
            env = Environment.from_dict({"keep": "me", "mau": {"x": "conf"}})
            base = dict(env.asflatdict())
            try:
                load_environment_files(env, args, case["fns"])
            except ConfigurationError:
                if not case["bad"]:
                    return f"files: {args!r} rejected"
                return None if dict(env.asflatdict()) == base else f"files: a broken file left {dict(env.asflatdict())!r}"
            if case["bad"]:
                return f"files: {args!r} accepted"
            want = {**base, **flat_of(want_f, "mau." + (case["fns"] or "envfiles") + ".")}
            if dict(env.asflatdict()) != want:
                return f"files: {case['files']!r} give {dict(env.asflatdict())!r}, expected {want!r}"
            load_environment_variables(env, [f"{k}={v}" for k, v in case["vars"]], case["vns"])
            want.update({"mau." + (case["vns"] or "envvars") + "." + k: v for k, v in dict(case["vars"]).items()})
            if dict(env.asflatdict()) != want:
                return f"variables: {case['vars']!r} give {dict(env.asflatdict())!r}, expected {want!r}"
            return None
        finally:
            os.chdir(cwd)


def cli(case, args, want_f):
    from mau import cli as C
    inp = case["cli"]
    if inp not in ("doc.mau", "doc.txt", "d.mau.mau", "noext", "sub.mau/doc.mau") or case["out"] not in (None, "res.yaml") or case["conf"] not in (None, "", "x: 1\ny:\n  z: deep\n"):
        return None
    if os.path.dirname(inp):
        os.makedirs(os.path.dirname(inp), exist_ok=True)
    probes = ["mau.envvars." + k for k in dict(case["vars"])]
    text = "= Title\n\nhello {mau.envvars.q}\n" + "".join("\n{" + p + "}|\n" for p in probes)
    if case["conf"]:
        text += "\n{mau.y.z}\n"
    with open(inp, "w", encoding="utf-8") as h:
        h.write(text)
    argv = ["mau", "-i", inp, "-t", "core:YamlVisitor", "-v", "q=quux"]
    for a in args:
        argv += ["-e", a]
    for k, v in case["vars"]:
        argv += ["-v", f"{k}={v}"]
    if case["out"]:
        argv += ["-o", case["out"]]
    if case["conf"] is not None:
        with open("conf.yaml", "w") as h:
            h.write(case["conf"])
        argv += ["-c", "conf.yaml"]
    before = {f: open(f, "rb").read() for f in files_below(".")}
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            C.main()
    except SystemExit as e:
        return f"cli: {argv!r} exits with {e.code!r}"
    finally:
        sys.argv = old
    after = {f: open(f, "rb").read() for f in files_below(".")}
    for f in before:
        if after.get(f) != before[f]:
            return f"cli: {argv!r} changes its input {f!r}"
    new = [f for f in after if f not in before]
    if case["out"] and new != ["./" + case["out"]] or len(new) != 1:
        return f"cli: {argv!r} writes {new!r}"
    out = yaml.safe_load(after[new[0]].decode())
    got = [text21(x) for x in out["content"]]
    want = ["Title", "hello quux"] + [f"{v}|" for v in dict(case["vars"]).values()] + (["deep"] if case["conf"] else [])
    if got != want:
        return f"cli: {argv!r} renders {got!r}, expected {want!r}"
    return None


def text21(x):
    if isinstance(x, dict):
        return x["value"] if "value" in x else text21(x.get("content", []))
    return "".join(text21(i) for i in x)


def files_below(d):
    for r, _, fs in os.walk(d):
        for f in fs:
            yield os.path.join(r, f)


def raw23(case):
    """Judge of the recorded findings: no restriction of the domain."""
    try:
        d = doc(case["text"], Environment.from_dict({"u": "uu"})).output.document
        BaseVisitor(H).process(d)
    except MauException:
        return None
    return None


PROP = {"C23": (cases23, judge23, raw23), "C24": (cases24, judge24), "C25": (cases25, judge25)}
