"""C04 C05: the token manager against a reference model (a list and a cursor)."""
from common import *
from mau.parsers.managers.tokens_manager import TokenError, TokensManager

KINDS = [("TEXT", "a"), ("TEXT", "b"), ("LITERAL", "\\"), ("LITERAL", ","), ("LITERAL", "]"), ("LITERAL", ""), ("EOL", ""), ("TEXT", "\\"), ("WHITESPACE", " ")]


def mk(spec, i=0):
    return Token(TokenType[spec[0]], spec[1], Context(i, 2 * i, i, 2 * i + len(spec[1]), "s"))


def cases(rng, tier):
    while True:
        n = rng.randint(0, 8)
        toks = [rng.choice(KINDS) for _ in range(n)]
        if rng.random() < .7:
            toks = [rng.choice(KINDS[:5]) for _ in range(n)]
        prog = [rand_op(rng, 0) for _ in range(rng.randint(1, 6))]
        yield {"tokens": [list(t) for t in toks] + [["EOF", ""]], "prog": prog}


def rand_op(rng, depth):
    k = rng.random()
    want = rng.choice([[None, None], list(rng.choice(KINDS)), [rng.choice(KINDS)[0], None], ["EOF", None]])
    if k < .35:
        return ["get", *want]
    if k < .5:
        return ["peek", *want]
    if k < .6:
        return ["is", *want]
    if k < .7:
        return ["collect", [list(rng.choice(KINDS)) for _ in range(rng.randint(0, 2))], rng.random() < .4]
    if k < .9 and depth < 3:
        return ["try", [rand_op(rng, depth + 1) for _ in range(rng.randint(0, 4))]]
    if k < .95:
        return ["fail"]
    return ["boom"]


class Boom(Exception):
    pass


class Model:
    def __init__(self, toks):
        self.t = toks
        self.i = 0           # next token

    def peek(self, ty, v):
        t = self.t[min(self.i, len(self.t) - 1)]
        if ty is not None and t[0] != ty or v is not None and t[1] != v:
            raise TokenError
        return min(self.i, len(self.t) - 1)

    def get(self, ty, v):
        k = self.peek(ty, v)
        self.i = min(self.i + 1, len(self.t))
        return k

    def collect(self, stops, keep):
        stops = [tuple(s) for s in stops] + [("EOF", "")]
        out = []
        at = lambda i: tuple(self.t[min(i, len(self.t) - 1)])
        while at(self.i) not in stops:
            if at(self.i) == ("LITERAL", "\\"):
                e = self.get(None, None)
                if at(self.i) == ("EOF", ""):
                    # the end cannot be escaped
                    out.append(e)
                    break
                if keep or at(self.i) not in stops:
                    out.append(e)
            out.append(self.get(None, None))
        return out


def run_model(m, prog, log):
    for op in prog:
        if op[0] in ("get", "peek"):
            k = getattr(m, op[0])(op[1], op[2])
            log.append((op[0], k))
        elif op[0] == "is":
            try:
                m.peek(op[1], op[2])
                log.append(("is", True))
            except TokenError:
                log.append(("is", False))
        elif op[0] == "collect":
            log.append(("collect", m.collect(op[1], op[2])))
        elif op[0] == "fail":
            raise TokenError
        elif op[0] == "boom":
            raise Boom
        else:
            i = m.i
            try:
                run_model(m, op[1], log)
            except TokenError:
                m.i = i
            except Boom:
                m.i = i
                raise


def run_real(tm, toks, prog, log):
    ids = {id(t): k for k, t in enumerate(toks)}
    for op in prog:
        ty = TokenType[op[1]] if len(op) == 3 and isinstance(op[1], str) else None
        if op[0] == "get":
            log.append(("get", ids.get(id(tm.get_token(ty, op[2])), "?")))
        elif op[0] == "peek":
            log.append(("peek", ids.get(id(tm.peek_token(ty, op[2])), "?")))
        elif op[0] == "is":
            if ty is None:
                log.append(("is", True))
            else:
                log.append(("is", tm.peek_token_is(ty, op[2])))
        elif op[0] == "collect":
            r = tm.collect([mk(s) for s in op[1]], preserve_escaped_stop_tokens=op[2])
            log.append(("collect", [ids.get(id(t), "?") for t in r]))
        elif op[0] == "fail":
            raise TokenError
        elif op[0] == "boom":
            raise Boom
        else:
            at = getattr(tm, "index", None)
            failed = True
            try:
                with tm:
                    run_real(tm, toks, op[1], log)
                    failed = False
            finally:
                if failed and getattr(tm, "index", None) != at:
                    raise Trace(f"trace: a failed attempt moved the position from {at} to {tm.index}")


class Trace(Exception):
    pass


def judge(case):
    toks = [mk(t, i) for i, t in enumerate(case["tokens"])]
    if not toks or toks[-1].type != TokenType.EOF:
        return None
    if any(t.type == TokenType.EOF for t in toks[:-1]):
        return None
    tm = TokensManager(list(toks))
    m = Model([tuple(t) for t in case["tokens"]])
    a, b = [], []
    ra = rb = None
    try:
        run_model(m, case["prog"], a)
    except (TokenError, Boom) as e:
        ra = type(e).__name__
    try:
        run_real(tm, toks, case["prog"], b)
    except (TokenError, Boom) as e:
        rb = type(e).__name__
    except Trace as e:
        return str(e)
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"different: operation {k} gives {y}, expected {x}"
    if len(a) != len(b):
        return f"different: {len(b)} operations succeeded, expected {len(a)}"
    if ra != rb:
        return f"different: ends with {rb}, expected {ra}"
    got = tm.peek_token()
    if got is not toks[min(m.i, len(toks) - 1)]:
        return f"trace: afterwards the next token is {got!r}, expected {toks[min(m.i, len(toks) - 1)]!r}"
    return None


# ---- C05: delimited collection
def cases5(rng, tier):
    while True:
        n = rng.randint(0, 9)
        yield {"tokens": [list(rng.choice(KINDS[:6] if rng.random() < .8 else KINDS)) for _ in range(n)] + [["EOF", ""]],
               "stops": [list(rng.choice(KINDS[:6])) for _ in range(rng.randint(0, 2))], "keep": rng.random() < .4, "skip": rng.randint(0, 3),
               "join": rng.choice(["", " ", "--"])}


def judge5(case):
    toks = [mk(t, i) for i, t in enumerate(case["tokens"])]
    if not toks or toks[-1].type != TokenType.EOF or any(t.type == TokenType.EOF for t in toks[:-1]):
        return None
    for mode in ("collect", "join"):
        tm = TokensManager(list(toks))
        m = Model([tuple(t) for t in case["tokens"]])
        for _ in range(case["skip"]):
            tm.get_token()
            m.get(None, None)
        want = m.collect(case["stops"], case["keep"])
        stops = [mk(s) for s in case["stops"]]
        if mode == "collect":
            got = tm.collect(stops, preserve_escaped_stop_tokens=case["keep"])
            if [id(t) for t in got] != [id(toks[k]) for k in want]:
                return f"collected {got!r}, expected {[toks[k] for k in want]!r}"
        else:
            got = tm.collect_join(stops, join_with=case["join"], preserve_escaped_stop_tokens=case["keep"])
            w = case["join"].join(toks[k].value for k in want if toks[k].value != "")
            if got.value != w or got.type is not TokenType.TEXT:
                return f"joined {got!r}, expected {w!r}"
            if want:
                c = got.context
                cs = [toks[want[0]].context, toks[want[-1]].context]
                box = (min(x.start_line for x in cs), min(x.start_column for x in cs), max(x.end_line for x in cs), max(x.end_column for x in cs))
                if (c.start_line, c.start_column, c.end_line, c.end_column) != box:
                    return f"position {c}, expected {box}"
        nxt = tm.peek_token()
        if nxt is not toks[min(m.i, len(toks) - 1)]:
            return f"next token {nxt!r} after the collection"
    return None


PROP = {"C04": (cases, judge), "C05": (cases5, judge5)}
