"""C01 C02 C03: what the lexers guarantee about any text."""
import itertools

from common import *
from mau.lexers.arguments_lexer import ArgumentsLexer
from mau.lexers.base_lexer import BaseLexer
from mau.lexers.condition_lexer import ConditionLexer
from mau.lexers.document_lexer import DocumentLexer
from mau.lexers.preprocess_variables_lexer import PreprocessVariablesLexer
from mau.lexers.text_lexer import TextLexer

LEX = {"base": BaseLexer, "document": DocumentLexer, "text": TextLexer, "arguments": ArgumentsLexer,
       "condition": ConditionLexer, "variables": PreprocessVariablesLexer}

FRAG = ["", " ", "   ", "a", "foo bar", "  lead", "trail  ", "////", "/////", "///", "// c", "//", " // x", "---", "----", "--- ", " ---", "++++",
        "====", "....", "::::", "    ", "aaaa", "abab", "@if a==1", "@if", "@ifeval  x!=y", "@", "@Foo", "@@@@", "<< toc", "<<mau:/a/b", "<<", "<<  image: a , b=c ",
        "<< x_1#.y", "<<:z", ":a:b", ":a.b-c+d:", ":a", ":", "::", ":+x:", ":a b:c", "[a, b=c]", "[]", "[", "[a]b", "[a]]", "[a] ", ". label", ".role x", ".", "..", ".R", ".a-b_c  t ",
        "* item", " ** item", "*item", "*", "#", "# ", "#* x", "# \\", "* ", "= h", "==h", "=", "== ", "=\t", "\t", "a\tb", "\\", "`{a}`", "{a}", "{", "}", '"', '"a, b"', "a=b", "a,b,,", " ,", "_*~^$%()", "[x](y)", "é€", "\r", "a\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "a\u2028b",
        "a==b", "a != b c ", "a==", "==b", "a==b==c", "....\n\n....", "----\nx\n----", "----\n----", "////\nx\n////", "++++\n// not a comment\n++++"]


def texts(rng, tier):
    for f in FRAG:
        yield f
    for f in FRAG:
        yield f + "\n"
        yield "\n" + f
        yield f + "\n\n" + f + "\n"
        yield f + "\n---\n"
    chars = "ab \n/-=:.[]@<*#\\`{}\"',_~^$%()!\t"
    for n in (1, 2):
        for t in itertools.product(chars, repeat=n):
            yield "".join(t)
    while True:
        k = rng.random()
        if k < .6:
            yield "\n".join(rng.choice(FRAG) for _ in range(rng.randint(1, 6)))
        elif k < .8:
            yield "".join(rng.choice(chars) for _ in range(rng.randint(1, 12)))
        else:
            yield "".join(rng.choice(FRAG + ["\n", "\n"]) for _ in range(rng.randint(1, 6)))


def cases(rng, tier):
    for t in texts(rng, tier):
        for name in LEX:
            yield {"lexer": name, "text": t, "line": 0, "col": 0}
        yield {"lexer": rng.choice(list(LEX)), "text": t, "line": rng.randint(0, 5), "col": rng.randint(0, 5)}


def tokens(case):
    try:
        return lex(LEX[case["lexer"]], case["text"], case["line"], case["col"])
    except MauException:
        return None


def unterminated(text):
    """Does this document contain a comment or block section that is never closed?"""
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        s = lines[i]
        if len(s) == 4 and len(set(s)) == 1 and s != "    ":
            j = i + 1
            while j < len(lines) and lines[j] != s:
                j += 1
            if j >= len(lines):
                return True
            i = j
        i += 1
    return False


def judge_end(case):
    ts = tokens(case)
    if ts is None:
        if case["lexer"] == "document" and not unterminated(case["text"]):
            return "rejected: a document in which every comment and block section is closed is rejected"
        if case["lexer"] not in ("document", "condition"):
            return "rejected: this lexer must accept every text"
        return None
    if case["lexer"] == "document" and unterminated(case["text"]) and not case["text"].endswith("\n"):
        return "accepted: an unclosed section is accepted"
    if not ts:
        return "no tokens at all"
    if ts[-1].type is not TokenType.EOF:
        return "the last token is not the end of file"
    n = sum(t.type is TokenType.EOF for t in ts)
    if n != 1:
        return f"{n} end-of-file tokens"
    return None


def source_at(case, sl, sc, el, ec):
    """The text between two recorded positions, or None when they are not inside the text."""
    lines = case["text"].split("\n") if case["text"] else [""]

    def col(line, c):
        return c - case["col"] if line == 0 else c

    sl, el = sl - case["line"], el - case["line"]
    sc, ec = col(sl, sc), col(el, ec)
    if not (0 <= sl <= el):
        return None
    if sl >= len(lines):
        return "" if (sl, sc) == (el, ec) else None
    if el >= len(lines) or sc < 0 or ec < 0 or sc > len(lines[sl]) or ec > len(lines[el]):
        return None
    if sl == el:
        return lines[sl][sc:ec]
    return "\n".join([lines[sl][sc:]] + lines[sl + 1:el] + [lines[el][:ec]])


def judge_span(case):
    ts = tokens(case)
    if ts is None:
        return None
    for t in ts:
        c = t.context
        got = source_at(case, c.start_line, c.start_column, c.end_line, c.end_column)
        if got is None:
            return f"position outside the text: {t!r}"
        if t.type is TokenType.EOF:
            if t.value != "":
                return f"end of file with a value: {t!r}"
        elif got != t.value:
            return f"value differs from the source at its position: {t!r} but the source has {got!r}"
        if c.source != SRC:
            return f"wrong source name: {t!r}"
    return None


def judge_gap(case):
    """Every character outside of the tokens is blank space or belongs to a comment."""
    ts = tokens(case)
    if ts is None:
        return None
    lines = case["text"].split("\n") if case["text"] else [""]
    cov = [[False] * len(s) for s in lines]
    last = (0, 0)
    for t in ts:
        if t.type is TokenType.EOF:
            continue
        c = t.context
        sl, el = c.start_line - case["line"], c.end_line - case["line"]
        sc = c.start_column - (case["col"] if sl == 0 else 0)
        ec = c.end_column - (case["col"] if el == 0 else 0)
        if (sl, sc) < last:
            return f"overlap: {t!r} starts before the end of the previous token"
        last = (el, ec)
        for k in range(sl, el + 1):
            if not 0 <= k < len(lines):
                return f"position outside the text: {t!r}"
            a = sc if k == sl else 0
            b = ec if k == el else len(lines[k])
            for j in range(a, min(b, len(lines[k]))):
                cov[k][j] = True
    comment = set()
    if case["lexer"] == "document":
        i = 0
        while i < len(lines):
            if cov[i] and all(cov[i]):
                i += 1
                continue
            if lines[i] == "////":
                comment.add(i)
                i += 1
                while i < len(lines) and lines[i] != "////":
                    comment.add(i)
                    i += 1
                comment.add(i)
            elif lines[i].startswith("//"):
                comment.add(i)
            i += 1
    for k, s in enumerate(lines):
        miss = "".join(ch for ch, c in zip(s, cov[k]) if not c)
        if miss.strip(" ") and k not in comment:
            return f"dropped: {miss!r} of line {k} is in no token and in no comment"
        if k in comment and any(cov[k]):
            return f"comment: part of the comment line {k} is in a token"
    return None


PROP = {"C01": (cases, judge_end), "C02": (cases, judge_span), "C03": (cases, judge_gap)}
