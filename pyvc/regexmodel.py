"""Regular expressions: built mechanically from the pattern with the standard library's own parser."""
from __future__ import annotations

import re._constants as C
import re._parser as P

import z3

from .front import Unsupported
from .values import *  # noqa: F401,F403
from .values import Val, I, B, S, NONE

ANYCHAR = z3.AllChar(z3.ReSort(z3.StringSort()))


def ch(c):
    return z3.StringVal(chr(c))


def negate_set(items, ignore=False):
    return z3.Intersect(ANYCHAR, z3.Complement(items))


class Node:
    """A regex piece: either a plain language, or a structure with groups."""


class RegexMixin:
    def re_parse(self, pattern, flags=0):
        key = ("re", pattern)
        if key not in self.ufs:
            self.ufs[key] = P.parse(pattern, flags)
        return self.ufs[key]

    def re_lang(self, seq):
        """z3 language of a pattern without anchors (groups ignored); None when not expressible."""
        parts = []
        for op, av in seq:
            parts.append(self.re_lang1(op, av))
        if not parts:
            return z3.Re(z3.StringVal(""))
        return parts[0] if len(parts) == 1 else z3.Concat(parts)

    def re_lang1(self, op, av):
        if op is C.LITERAL:
            return z3.Re(ch(av))
        if op is C.NOT_LITERAL:
            return negate_set(z3.Re(ch(av)))
        if op is C.ANY:
            return negate_set(z3.Re(z3.StringVal("\n")))
        if op is C.IN:
            neg = False
            alts = []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    alts.append(z3.Re(ch(a)))
                elif o is C.RANGE:
                    alts.append(z3.Range(chr(a[0]), chr(a[1])))
                elif o is C.CATEGORY:
                    alts.append(self.re_category(a))
                else:
                    raise Unsupported("regex class")
            u = alts[0] if len(alts) == 1 else z3.Union(alts)
            return negate_set(u) if neg else u
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            r = self.re_lang(sub)
            if hi is C.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if (lo, hi) == (0, 1):
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if op is C.SUBPATTERN:
            return self.re_lang(av[3])
        if op is C.BRANCH:
            alts = [self.re_lang(x) for x in av[1]]
            return alts[0] if len(alts) == 1 else z3.Union(alts)
        if op is C.AT and av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return z3.Re(z3.StringVal(""))
        raise Unsupported(f"regex {op}")

    def re_category(self, a):
        if a is C.CATEGORY_DIGIT:
            return z3.Range("0", "9")
        if a is C.CATEGORY_SPACE:
            return z3.Union(*[z3.Re(z3.StringVal(c)) for c in " \t\n\r\f\v"])
        if a is C.CATEGORY_WORD:
            return z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re(z3.StringVal("_")))
        raise Unsupported("regex category")

    def re_call(self, fn, args, kwargs, node):
        if fn == "compile":
            return VExt(f"re.compiled:{self.pattern_of(args[0])}")
        if fn in ("sub", "findall", "split", "search"):
            if fn == "sub":
                r = self.unint("re.sub", [Val, Val, S], S)(self.enc_any(args[0]), self.enc_any(args[1]), self.str_arg(args[2]))
                return VStr(r)
            raise Unsupported(f"re.{fn}")
        pat = self.pattern_of(args[0])
        text = self.str_arg(args[1])
        return self.re_match(pat, text, fn == "fullmatch", node)

    def pattern_of(self, v):
        v = self.force(v)
        if isinstance(v, VExt) and v.name.startswith("re.compiled:"):
            return v.name[len("re.compiled:"):]
        t = z3.simplify(self.str_arg(v))
        if not z3.is_string_value(t):
            raise Unsupported("symbolic regular expression")
        from .execmixin import pystr
        return pystr(t)

    def re_match(self, pat, text, full, node):
        """re.match: either None (no prefix in the language) or groups decomposing the text.

        The greedy choice is over-approximated: any decomposition is allowed."""
        tree = self.re_parse(pat)
        seq = list(tree)
        while seq and seq[0][0] is C.AT and seq[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            seq = seq[1:]
        end = False
        while seq and seq[-1][0] is C.AT and seq[-1][1] in (C.AT_END, C.AT_END_STRING):
            end = True
            seq = seq[:-1]
        full = full or end
        names = tree.state.groupdict
        anystr = z3.Full(z3.ReSort(z3.StringSort()))
        nobackrefs = True
        try:
            lang = self.re_lang(seq)
            if not full:
                lang = z3.Concat(lang, anystr)
            # `$` also matches before a final newline; lines never contain one (checked where it matters)
            m = z3.InRe(text, lang)
        except Unsupported:
            nobackrefs = False
            m = self.fresh("rematch", B)
            fx = self.re_fixed(seq, text, 0, {})
            if fx is not None:      # every piece has a fixed width: the match is a condition on the characters
                conds, width = fx
                m = z3.And(z3.Length(text) == width if full else z3.Length(text) >= width, *conds)
        if not self.branch(m):
            return VNone
        ngroups = tree.state.groups
        groups = [None] * ngroups
        pieces = []
        self.re_pieces(seq, groups, pieces)
        rest = None
        if not full:
            rest = self.fresh("re.rest", S)
            pieces.append(rest)
            nxt = self.re_maximal(seq)
            if nxt is not None:     # a greedy repetition at the end stops only where it cannot go on
                self.assume(z3.Or(rest == z3.StringVal(""), z3.Not(z3.InRe(z3.SubString(rest, 0, 1), nxt))))
                if nxt.eq(self.re_lang1(C.ANY, None)):      # a consequence: only a newline stops a dot
                    self.assume(z3.Or(rest == z3.StringVal(""), z3.Contains(text, z3.StringVal("\n"))))
        whole = pieces if full else pieces[:-1]
        if pieces:
            cat = pieces[0] if len(pieces) == 1 else z3.Concat(pieces)
            self.assume(text == cat)
            # consequences of the equation: where every piece stands
            if len(pieces) > 1:
                off = z3.IntVal(0)
                for x in pieces:
                    off2 = z3.simplify(off + z3.Length(x))
                    self.assume(z3.SubString(text, off, z3.Length(x)) == x)
                    self.assume(off2 <= z3.Length(text))
                    off = off2
                self.assume(off == z3.Length(text))
        w = z3.StringVal("") if not whole else (whole[0] if len(whole) == 1 else z3.Concat(whole))
        groups[0] = VStr(w)
        # merge adjacent literal pieces for free
        return VMatch(groups, dict(names))

    def re_fixed(self, seq, text, off, groups):
        """Conditions on the characters of text from off on, for a pattern whose pieces all have a fixed width."""
        conds = []
        for op, av in seq:
            if op is C.SUBPATTERN:
                r = self.re_fixed(list(av[3]), text, off, groups)
                if r is None:
                    return None
                conds += r[0]
                if av[0] is not None:
                    groups[av[0]] = (off, r[1] - off)
                off = r[1]
            elif op is C.GROUPREF:
                if av not in groups:
                    return None
                o, w = groups[av]
                conds.append(z3.SubString(text, off, w) == z3.SubString(text, o, w))
                off += w
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == av[1] and av[0] <= 16:
                for _ in range(av[0]):
                    r = self.re_fixed(list(av[2]), text, off, groups)
                    if r is None:
                        return None
                    conds += r[0]
                    off = r[1]
            elif op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                conds.append(z3.InRe(z3.SubString(text, off, 1), self.re_lang1(op, av)))
                off += 1
            else:
                return None
        return conds, off

    def re_maximal(self, seq):
        """The set of characters a pattern's last, greedy and unbounded repetition runs over, or None."""
        if not seq:
            return None
        op, av = seq[-1]
        if op is C.SUBPATTERN:
            return self.re_maximal(list(av[3]))
        if op is C.MAX_REPEAT:
            lo, hi, sub = av
            sub = list(sub)
            if hi is C.MAXREPEAT and len(sub) == 1 and sub[0][0] in (C.ANY, C.IN, C.LITERAL, C.NOT_LITERAL):
                return self.re_lang1(*sub[0])
            if (lo, hi) == (0, 1) and self.nullable(sub):       # tried first, and it always succeeds
                return self.re_maximal(sub)
        return None

    def nullable(self, seq):
        """The pattern is a sequence of repetitions that may be empty (so that a greedy option is always taken)."""
        for op, av in seq:
            if op is C.SUBPATTERN:
                if not self.nullable(list(av[3])):
                    return False
            elif op is C.MAX_REPEAT:
                if av[0] != 0 and not self.nullable(list(av[2])):
                    return False
            else:
                return False
        return True

    def re_pieces(self, seq, groups, pieces):
        """Emit fresh strings for each piece of the pattern."""
        buf = []

        def flush():
            if buf:
                x = self.fresh("re.lit", S)
                if all(o is C.LITERAL for o, _ in buf):
                    pieces.append(z3.StringVal("".join(chr(a) for _, a in buf)))
                else:
                    self.assume(z3.InRe(x, self.re_lang(buf)))
                    pieces.append(x)
                buf.clear()

        for op, av in seq:
            if op is C.SUBPATTERN and av[0] is not None:
                flush()
                g = av[0]
                sub = []
                inner = list(av[3])
                if self.has_groups(inner):
                    self.re_pieces(inner, groups, sub)
                    t = z3.StringVal("") if not sub else (sub[0] if len(sub) == 1 else z3.Concat(sub))
                    groups[g] = VStr(t)
                    pieces.append(t)
                else:
                    x = self.fresh(f"re.g{g}", S)
                    self.assume(z3.InRe(x, self.re_lang(inner)))
                    groups[g] = VStr(x)
                    pieces.append(x)
            elif op is C.SUBPATTERN and self.has_groups(list(av[3])):
                flush()
                self.re_pieces(list(av[3]), groups, pieces)
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and self.has_groups(list(av[2])):
                flush()
                lo, hi, sub = av
                if lo == hi and all(o is C.GROUPREF for o, _ in sub):
                    for _ in range(lo):
                        self.re_pieces(list(sub), groups, pieces)
                    continue
                if (lo, hi) == (0, 1):
                    if op is C.MAX_REPEAT and self.nullable(list(sub)):
                        self.re_pieces(list(sub), groups, pieces)
                        continue
                    if self.choose(2) == 0:
                        self.re_pieces(list(sub), groups, pieces)
                    continue
                raise Unsupported("repeated group")
            elif op is C.BRANCH and any(self.has_groups(list(x)) for x in av[1]):
                flush()
                k = self.choose(len(av[1]))
                self.re_pieces(list(av[1][k]), groups, pieces)
            elif op is C.GROUPREF:
                flush()
                g = groups[av]
                if g is None:
                    raise Unsupported("backreference to an unmatched group")
                pieces.append(g.t)
            elif op is C.AT:
                flush()
                raise Unsupported("anchor inside a pattern")
            else:
                buf.append((op, av))
        flush()

    def has_groups(self, seq):
        for op, av in seq:
            if op is C.SUBPATTERN:
                if av[0] is not None or self.has_groups(list(av[3])):
                    return True
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                if self.has_groups(list(av[2])):
                    return True
            elif op is C.BRANCH:
                if any(self.has_groups(list(x)) for x in av[1]):
                    return True
            elif op is C.GROUPREF:
                return True
        return False

    def match_group(self, m, args, node):
        out = []
        for a in args or [VInt(0)]:
            a = self.force(a)
            if isinstance(a, VStr):
                from .execmixin import pystr
                k = m.names[pystr(z3.simplify(a.t))]
            else:
                k = z3.simplify(a.t).as_long()
            if k >= len(m.groups):
                self.raise_py("IndexError")
            g = m.groups[k]
            out.append(VNone if g is None else g)
        return out[0] if len(out) == 1 else VTup(out)

    def match_method(self, m, name, args, node):
        if name == "group":
            return self.match_group(m, args, node)
        if name == "groups":
            return VTup([VNone if g is None else g for g in m.groups[1:]])
        if name == "groupdict":
            items = [(VStr(n), VNone if m.groups[i] is None else m.groups[i]) for n, i in m.names.items()]
            d = self.new_dict(items)
            self.remember_lit(d, items)
            return d
        raise Unsupported(f"match.{name}")
