# TokensManager: cursor over the token list, with backtracking.
field("TokensManager", tokens="list[Token]", index="int", _stack="list[int]")
field("Token", type="TokenType", value="str", context="Context")

macro("tm_wf(m)", "m._stack is not m.tokens and m.index >= -1 and m.index <= len(m.tokens)")
macro("tm_nonempty(m)", "len(m.tokens) > 0")
# the token a look-ahead from position i sees: the next one, or the last one past the end
macro("tm_at(m, i)", "ite(i < len(m.tokens), m.tokens[i], m.tokens[len(m.tokens) - 1])")
macro("tm_next(m)", "tm_at(m, m.index + 1)")

contract("Token.__eq__", types={"other": "Any"},
         pure="isinstance(other, Token) and self.type == cast(other, 'Token').type and self.value == cast(other, 'Token').value")

contract("TokensManager._advance", requires=["tm_wf(self)"],
         ensures=["self.index == ite(old(self.index) < len(self.tokens), old(self.index) + 1, old(self.index))", "tm_wf(self)"],
         modifies=["self.index"])

contract("TokensManager.current_token", requires=["tm_wf(self)"], returns="Token",
         raises_iff={"TokenError": "len(self.tokens) == 0"},
         ensures=["result is ite(self.index < 0, self.tokens[len(self.tokens) - 1], tm_at(self, self.index))"])

contract("TokensManager.__enter__", requires=["tm_wf(self)"],
         ensures=["len(self._stack) == old(len(self._stack)) + 1", "self._stack[len(self._stack)-1] == self.index",
                  "all(self._stack[k] == old(self._stack[k]) for k in range(0, len(self._stack)-1))"],
         modifies=["list(self._stack)"])

contract("TokensManager.__exit__", requires=["tm_wf(self)", "len(self._stack) > 0"], types={"etype": "Any"}, returns="bool",
         ensures=[
             "len(self._stack) == old(len(self._stack)) - 1",
             "all(self._stack[k] == old(self._stack[k]) for k in range(0, len(self._stack)))",
             ("rewind", "implies(etype is not None, self.index == old(self._stack[len(self._stack)-1]))"),
             ("keep", "implies(etype is None, self.index == old(self.index))"),
             ("swallow", "implies(etype is not None, iff(result, etype is TokenError))"),
         ],
         modifies=["list(self._stack)", "self.index"])

macro("tm_matches(tok, ttype, tvalue)", "implies(ttype is not None, tok.type == ttype) and implies(tvalue is not None, tok.value == tvalue)")
macro("tm_ok(tok, ttype, tvalue, fn)",
      "(ttype is None or tok.type == ttype) and (tvalue is None or tok.value == tvalue) and (fn is None or called(fn, tok.value) is not False)")

contract("TokensManager._check_token", params=["self", "token", "ttype", "tvalue", "fn"], returns="Token",
         raises_iff={"TokenError": "not tm_ok(token, ttype, tvalue, fn)"}, ensures=["result is token"])

contract("TokensManager.peek_token", params=["self", "ttype", "tvalue", "fn"], returns="Token",
         requires=["tm_wf(self)", "tm_nonempty(self)"],
         raises_iff={"TokenError": "not tm_ok(tm_next(self), ttype, tvalue, fn)"},
         ensures=[("look-ahead", "result is tm_next(self)")])

contract("TokensManager.get_token", params=["self", "ttype", "tvalue", "fn"], returns="Token",
         requires=["tm_wf(self)", "tm_nonempty(self)"],
         raises_iff={"TokenError": "not tm_ok(tm_next(self), ttype, tvalue, fn)"},
         ensures_raise={"TokenError": [("no-advance", "self.index == old(self.index)")]},
         ensures=[("returns-next", "result is old(tm_next(self))"),
                  ("advances", "self.index == old(ite(self.index < len(self.tokens), self.index + 1, self.index))"),
                  "tm_wf(self)"],
         modifies=["self.index"])

contract("TokensManager.peek_token_is", params=["self", "ttype", "tvalue", "fn"], returns="bool",
         requires=["tm_wf(self)", "tm_nonempty(self)"],
         ensures=[("answers", "iff(result, tm_ok(tm_next(self), ttype, tvalue, fn))")])
rec("is_stop(t: Token, stops: seq[Token])", "bool", "any(s.type == t.type and s.value == t.value for s in stops)", reads=["type", "value"])
macro("is_bs(t)", "t.type == TokenType.LITERAL and t.value == '\\\\'")
# token k is escaped: preceded (from lo on) by a backslash that is not itself escaped
rec("esc(T: seq[Token], lo: int, k: int)", "bool", "k > lo and is_bs(T[k - 1]) and not esc(T, lo, k - 1)", reads=["type", "value"])
macro("is_end(t)", "t.type == TokenType.EOF and t.value == ''")
# a backslash at k that the collection removes: unescaped, in front of a stop token (the end cannot be escaped)
macro("dropped(T, stops, lo, k)", "is_bs(T[k]) and not esc(T, lo, k) and is_stop(T[k + 1], stops) and not is_end(T[k + 1])")
rec("kept(T: seq[Token], stops: seq[Token], pres: bool, lo: int, k: int)", "int",
    "ite(k <= lo, 0, kept(T, stops, pres, lo, k - 1) + ite(dropped(T, stops, lo, k - 1) and not pres, 0, 1))", reads=["type", "value"])
# the text of the collected tokens
rec("text_of(T: seq[Token], stops: seq[Token], pres: bool, lo: int, k: int)", "str",
    "ite(k <= lo, '', text_of(T, stops, pres, lo, k - 1) + ite(dropped(T, stops, lo, k - 1) and not pres, '', T[k - 1].value))", reads=["type", "value"])
# one stop token, a literal: where it stands (from lo on), and the text before it
macro("is_lit(t, v)", "t.type == TokenType.LITERAL and t.value == v")
macro("one_lit(stops)", "len(stops) == 1 and stops[0].type == TokenType.LITERAL")
rec("close(T: seq[Token], v: str, lo: int, k: int)", "int", "ite(k >= len(T) or is_end(T[k]) or (is_lit(T[k], v) and not esc(T, lo, k)), k, close(T, v, lo, k + 1))", reads=["type", "value"])
rec("cut(T: seq[Token], v: str, pres: bool, lo: int, k: int)", "str",
    "ite(k <= lo, '', cut(T, v, pres, lo, k - 1) + ite(is_bs(T[k - 1]) and not esc(T, lo, k - 1) and is_lit(T[k], v) and not pres, '', T[k - 1].value))", reads=["type", "value"])
LIT = ("literal", "implies(old(one_lit(stop_tokens)), self.index + 1 == close(self.tokens, old(stop_tokens[0].value), old(self.index) + 1, old(self.index) + 1))")

macro("tm_eof(m)", "len(m.tokens) > 0 and m.tokens[len(m.tokens)-1].type == TokenType.EOF and m.tokens[len(m.tokens)-1].value == ''")
contract("TokensManager.collect", params=["self", "stop_tokens", "preserve"], returns="list[Token]",
         types={"stop_tokens": "list[Token]"},
         requires=["tm_wf(self)", "tm_eof(self)", "self.index < len(self.tokens)", "stop_tokens is not self.tokens"],
         ensures=[
             ("stops-at-stop", "is_stop(tm_next(self), stop_tokens) or tm_next(self).type == TokenType.EOF"),
             ("stop-not-escaped", "is_end(tm_next(self)) or not esc(self.tokens, old(self.index) + 1, self.index + 1)"),
             ("never-past-the-end", "old(self.index) <= self.index and self.index < len(self.tokens) and all(not is_end(self.tokens[k]) for k in range(old(self.index) + 1, self.index + 1))"),
             ("stops", "len(stop_tokens) == old(len(stop_tokens)) + 1 and is_end(stop_tokens[len(stop_tokens) - 1]) and all(stop_tokens[i] is old(stop_tokens[i]) for i in range(0, old(len(stop_tokens))))"),
             ("new-list", "fresh(result)"),
             LIT,
             ("literal-text", "implies(old(one_lit(stop_tokens)), joined('', [t.value for t in result], 0, len(result)) == cut(self.tokens, old(stop_tokens[0].value), preserve, old(self.index) + 1, self.index + 1))"),
             ("text", "joined('', [t.value for t in result], 0, len(result)) == text_of(self.tokens, stop_tokens, preserve, old(self.index) + 1, self.index + 1)"),
             ("first-stop", "all(implies(is_stop(self.tokens[k], stop_tokens), esc(self.tokens, old(self.index) + 1, k)) for k in range(old(self.index) + 1, self.index + 1))"),
             ("count", "len(result) == kept(self.tokens, stop_tokens, preserve, old(self.index) + 1, self.index + 1)"),
             ("elements", "all(implies(preserve or not dropped(self.tokens, stop_tokens, old(self.index)+1, k), result[kept(self.tokens, stop_tokens, preserve, old(self.index)+1, k)] is self.tokens[k]) for k in range(old(self.index) + 1, self.index + 1))"),
         ],
         modifies=["self.index", "list(stop_tokens)"],
         loops=[dict(inv=[
             "tm_wf(self)", "self.index < len(self.tokens)", "self.index >= old(self.index)", "len(stop_tokens) > 0",
             "stop_tokens[len(stop_tokens)-1].type == TokenType.EOF and stop_tokens[len(stop_tokens)-1].value == ''",
             "not esc(self.tokens, old(self.index) + 1, self.index + 1)",
             "all(not is_end(self.tokens[k]) for k in range(old(self.index) + 1, self.index + 1))",
             "all(implies(is_stop(self.tokens[k], stop_tokens), esc(self.tokens, old(self.index) + 1, k)) for k in range(old(self.index) + 1, self.index + 1))",
             "len(tokens) == kept(self.tokens, stop_tokens, preserve, old(self.index) + 1, self.index + 1)",
             "joined('', [t.value for t in tokens], 0, len(tokens)) == text_of(self.tokens, stop_tokens, preserve, old(self.index) + 1, self.index + 1)",
             "len(stop_tokens) == old(len(stop_tokens)) + 1 and all(stop_tokens[i] is old(stop_tokens[i]) for i in range(0, old(len(stop_tokens))))",
             "implies(old(one_lit(stop_tokens)), close(self.tokens, old(stop_tokens[0].value), old(self.index) + 1, old(self.index) + 1) == close(self.tokens, old(stop_tokens[0].value), old(self.index) + 1, self.index + 1))",
             "implies(old(one_lit(stop_tokens)), joined('', [t.value for t in tokens], 0, len(tokens)) == cut(self.tokens, old(stop_tokens[0].value), preserve, old(self.index) + 1, self.index + 1))",
             "forall(lambda k: implies(old(self.index) + 1 <= k and k <= self.index, kept(self.tokens, stop_tokens, preserve, old(self.index)+1, k) >= 0 and implies(preserve or not dropped(self.tokens, stop_tokens, old(self.index)+1, k), kept(self.tokens, stop_tokens, preserve, old(self.index)+1, k) < len(tokens) and tokens[kept(self.tokens, stop_tokens, preserve, old(self.index)+1, k)] is self.tokens[k])), kept(self.tokens, stop_tokens, preserve, old(self.index)+1, k))",
         ], decreases="len(self.tokens) - self.index")])
macro("not_end(m, a, b)", "all(not is_end(m.tokens[k]) for k in range(a, b))")
contract("TokensManager.collect_join", params=["self", "stop_tokens", "join_with", "preserve"], types={"stop_tokens": "list[Token]", "join_with": "str"}, returns="Token",
         requires=["tm_wf(self)", "tm_eof(self)", "self.index < len(self.tokens)", "stop_tokens is not self.tokens", "join_with == ''"],
         ensures=[
             ("stops-at-stop", "is_stop(tm_next(self), stop_tokens) or tm_next(self).type == TokenType.EOF"),
             ("stop-not-escaped", "is_end(tm_next(self)) or not esc(self.tokens, old(self.index) + 1, self.index + 1)"),
             ("first-stop", "all(implies(is_stop(self.tokens[k], stop_tokens), esc(self.tokens, old(self.index) + 1, k)) for k in range(old(self.index) + 1, self.index + 1))"),
             ("never-past-the-end", "old(self.index) <= self.index and self.index < len(self.tokens) and not_end(self, old(self.index) + 1, self.index + 1)"),
             ("stops", "len(stop_tokens) == old(len(stop_tokens)) + 1 and is_end(stop_tokens[len(stop_tokens) - 1]) and all(stop_tokens[i] is old(stop_tokens[i]) for i in range(0, old(len(stop_tokens))))"),
             LIT,
             ("literal-text", "implies(old(one_lit(stop_tokens)), result.value == cut(self.tokens, old(stop_tokens[0].value), preserve, old(self.index) + 1, self.index + 1))"),
             ("text", "fresh(result) and result.type is TokenType.TEXT and result.value == text_of(self.tokens, stop_tokens, preserve, old(self.index) + 1, self.index + 1)")],
         modifies=["self.index", "list(stop_tokens)"],
         loops=[dict(comp="t.value for t in tokens", elem="str", inv=["joined('', _comp, 0, len(_comp)) == joined('', [t.value for t in tokens], 0, _i)"])])
# these functions depend on the tokens from lo on only
SAME = "lo >= 0 and all(T[i].type is old(T[i].type) and T[i].value == old(T[i].value) for i in range(lo, len(T)))"
lemma("esc_frame", "T: seq[Token], lo: int, k: int", [SAME, "k <= len(T)"], ["esc(T, lo, k) == old(esc(T, lo, k))"], heaps=2, induct=("k", "k - 1", "k - lo"), trigger=["esc(T, lo, k)", "old(esc(T, lo, k))"])
lemma("close_frame", "T: seq[Token], v: str, lo: int, k: int", [SAME, "lo <= k"], ["close(T, v, lo, k) == old(close(T, v, lo, k))"], heaps=2, induct=("k", "k + 1", "len(T) - k"), lemmas=["esc_frame"],
      trigger=["close(T, v, lo, k)", "old(close(T, v, lo, k))"])
lemma("close_range", "T: seq[Token], v: str, lo: int, k: int", ["k <= len(T)"], ["close(T, v, lo, k) >= k and close(T, v, lo, k) <= len(T)"], induct=("k", "k + 1", "len(T) - k"), trigger=["close(T, v, lo, k)"])
lemma("cut_frame", "T: seq[Token], v: str, pres: bool, lo: int, k: int", [SAME, "k < len(T)"], ["cut(T, v, pres, lo, k) == old(cut(T, v, pres, lo, k))"], heaps=2, induct=("k", "k - 1", "k - lo"), lemmas=["esc_frame"],
      trigger=["cut(T, v, pres, lo, k)", "old(cut(T, v, pres, lo, k))"])
