"""Helpers shared by the oracles: running the real code, random text, observing nodes."""
import itertools
import os
import random
import shutil
import tempfile

from mau.environment.environment import Environment
from mau.message import BaseMessageHandler, MauException
from mau.parsers.document_parser import DocumentParser
from mau.text_buffer import Context, TextBuffer
from mau.token import Token, TokenType


def _quiet(self, *a, **k):
    return None


Quiet = type("Quiet", (BaseMessageHandler,), dict({m: _quiet for m in BaseMessageHandler.__abstractmethods__},
                                                  process=_quiet, type="quiet"))
H = Quiet()
SRC = "main.mau"


def lex(cls, text, line=0, col=0, env=None):
    lx = cls(TextBuffer(text, line, col, SRC), H, env or Environment())
    lx.process()
    return lx.tokens


def doc(text, env=None, source=SRC):
    """Parse a document; returns the parser."""
    return DocumentParser.lex_and_parse(text, H, Environment() if env is None else env, 0, 0, source)


def ctx(n):
    c = n.info.context
    return (c.start_line, c.start_column, c.end_line, c.end_column)


def kids(n):
    out = []
    for f in ("content", ):
        v = getattr(n, f, None)
        if isinstance(v, list):
            out.extend(v)
    lab = getattr(n, "labels", None)
    if isinstance(lab, dict):
        out.extend(lab.values())
    return out


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(kids(n))


def plain(nodes):
    """All the text below a list of inline nodes."""
    out = []
    for n in nodes:
        if hasattr(n, "value") and isinstance(getattr(n, "value"), str):
            out.append(n.value)
        else:
            out.append(plain(getattr(n, "content", []) or []))
    return "".join(out)


def word(rng, alphabet="abcdefgh", lo=1, hi=5):
    while True:
        w = "".join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))
        if not fence(w):
            return w


def fence(w):
    """A line that opens a block."""
    return len(w) == 4 and len(set(w)) == 1


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-mau-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
