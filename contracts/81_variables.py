# ---------------------------------------------------------------- replacing variables (C10)
# what position k of the tokens stands for: the text it gives and where the rest begins
TV = ["type", "value"]
READS = TV + ["_variables", "#map", "#has"]
pred("v_esc(T: seq[Token], k: int)", "is_bs(T[k]) and k + 1 < len(T) and T[k + 1].value != ''", reads=TV)
macro("v_esc_text(t)", "ite(t.value in '{}', t.value, '\\\\' + t.value)")
macro("v_end(T, v, k)", "close(T, v, k + 1, k + 1)")
pred("v_tick(T: seq[Token], k: int)", "is_lit(T[k], '`') and v_end(T, '`', k) < len(T) and is_lit(T[v_end(T, '`', k)], '`')", reads=TV)
pred("v_curly(T: seq[Token], k: int)", "is_lit(T[k], '{') and v_end(T, '}', k) < len(T) and is_lit(T[v_end(T, '}', k)], '}')", reads=TV)
rec("v_escd(T: seq[Token], k: int)", "str", "v_esc_text(T[k + 1])", reads=TV, plain=True)
rec("v_ticked(T: seq[Token], k: int)", "str", "cut(T, '`', True, k + 1, v_end(T, '`', k))", reads=TV, plain=True)
rec("v_named(T: seq[Token], k: int)", "str", "cut(T, '}', False, k + 1, v_end(T, '}', k))", reads=TV, plain=True)
macro("v_name(T, k)", "v_named(T, k)")
# {{text}} is the text in single braces; {name} is the value of the variable
macro("v_after(T, k)", "v_end(T, '}', k) + 1")
macro("v_double(T, k)", "v_name(T, k).startswith('{')")
macro("v_twice(T, k)", "v_after(T, k) < len(T) and is_lit(T[v_after(T, k)], '}')")
macro("v_refused(T, k, env)", "ite(v_double(T, k), not v_twice(T, k), v_name(T, k) not in env._variables)")
rec("v_next(T: seq[Token], k: int)", "int", "ite(v_esc(T, k), k + 2, ite(v_tick(T, k), v_end(T, '`', k) + 1, ite(v_curly(T, k), ite(v_double(T, k), v_after(T, k) + 1, v_after(T, k)), k + 1)))", reads=TV, plain=True)
rec("v_piece(T: seq[Token], env: Environment, k: int)", "str", "ite(v_esc(T, k), v_escd(T, k), ite(v_tick(T, k), '`' + v_ticked(T, k) + '`', "
    "ite(v_curly(T, k), ite(v_double(T, k), v_name(T, k) + '}', str(env._variables[v_name(T, k)])), T[k].value)))", reads=READS, plain=True)
pred("v_wrong(T: seq[Token], env: Environment, k: int)", "not v_esc(T, k) and not v_tick(T, k) and v_curly(T, k) and v_refused(T, k, env)", reads=READS)
macro("pv_wf(p)", "tm_wf(p.tm) and tm_eof(p.tm) and p.tm.index < len(p.tm.tokens) - 2 and p.nodes is not p.tm.tokens and p.nodes is not p.tm._stack and all(isinstance(n, TextNode) for n in p.nodes) and "
      "all(is_end(p.tm.tokens[i]) == (i == len(p.tm.tokens) - 1) for i in range(p.tm.index + 1, len(p.tm.tokens)))")
macro("pv_text(p)", "joined('', [n.value for n in p.nodes], 0, len(p.nodes))")
macro("pv_node(p)", "cast(p.nodes[old(len(p.nodes))], 'TextNode')")
K = "self.tm.index + 1"
TT = "self.tm.tokens"
E_ = "self.environment"
def pv(name, fails, cond, text, nxt, frame=(), also={}, wrong="True"):
    contract(f"PreprocessVariablesParser.{name}", params=["self"], returns="bool", requires=["pv_wf(self)"] + ([f"all({TT}[j] is not {TT}[{K} + 1] for j in range({K} + 2, len({TT})))"] if frame else []), modifies=["self.tm.index", "list(self.nodes)"] + list(frame), raises_iff=({"TokenError": fails} if fails else {}) | also,
             modifies_raise={"TokenError": ["self.tm.index"]}, ensures_raise={"TokenError": [("nothing-saved", "tm_wf(self.tm)")], "MauException": [("in-range", "tm_wf(self.tm)"), ("wrong", f"old({wrong})")]},
             ensures=[("taken", "result is True")] + ([("tokens", f"all({TT}[i].value == old({TT}[i].value) for i in range({K}, len({TT})))")] if frame else []) + [
                      ("one-piece", "nodes_kept(self, 1) and fresh(self.nodes[old(len(self.nodes))]) and isinstance(self.nodes[old(len(self.nodes))], TextNode)"),
                      ("grows", "pv_text(self) == old(pv_text(self)) + pv_node(self).value"),
                      ("in-range", "self.tm.index > old(self.tm.index) and self.tm.index < len(self.tm.tokens) - 1"),
                      ("text", f"pv_node(self).value == {text}"), ("goes-on", f"self.tm.index + 1 == {nxt}"),
                      ("right", f"implies(old({cond}), not old(v_wrong({TT}, {E_}, {K})))"),
                      ("piece", f"implies(old({cond}), pv_node(self).value == old(v_piece({TT}, self.environment, {K})) and self.tm.index + 1 == old(v_next({TT}, {K})))")])
pv("_process_escaped_char", f"not v_esc({TT}, {K})", "True", f"old(v_esc_text({TT}[{K} + 1]))", f"old({K}) + 2", [f"{TT}[{K} + 1].value"])
pv("_process_verbatim", f"not v_tick({TT}, {K})", f"not v_esc({TT}, {K})", f"'`' + old(cut({TT}, '`', True, {K} + 1, v_end({TT}, '`', {K}))) + '`'", f"old(v_end({TT}, '`', {K})) + 1")
pv("_process_curly", f"not v_curly({TT}, {K})", f"not v_esc({TT}, {K}) and not v_tick({TT}, {K})",
   f"old(ite(v_double({TT}, {K}), v_name({TT}, {K}) + '}}', str(self.environment._variables[v_name({TT}, {K})])))", f"old(ite(v_double({TT}, {K}), v_after({TT}, {K}) + 1, v_after({TT}, {K})))",
   also={"MauException": f"v_curly({TT}, {K}) and v_refused({TT}, {K}, {E_})"}, wrong=f"implies(not v_esc({TT}, {K}) and not v_tick({TT}, {K}), v_wrong({TT}, {E_}, {K}))")
pv("_process_pass", "", f"not v_esc({TT}, {K}) and not v_tick({TT}, {K}) and not v_curly({TT}, {K})", f"old({TT}[{K}].value)", f"old({K}) + 1")
SAME_ON = ["k >= 0 and k < len(T) and all(T[i].type is old(T[i].type) and T[i].value == old(T[i].value) for i in range(k, len(T)))", "is_end(T[len(T) - 1])"]
BRK = ["esc_frame", "close_frame", "close_range", "cut_frame"]
for w in ["v_esc", "v_tick", "v_curly"]:
    lemma(f"{w}_frame", "T: seq[Token], k: int", SAME_ON, [f"{w}(T, k) == old({w}(T, k))"], heaps=2, lemmas=BRK, trigger=[f"{w}(T, k)", f"old({w}(T, k))"])
PCS = [f"{w}_frame" for w in ["v_esc", "v_tick", "v_curly"]]
OPQ = ["v_esc", "v_tick", "v_curly"]
lemma("v_next_frame", "T: seq[Token], k: int", SAME_ON, ["v_next(T, k) == old(v_next(T, k))"], heaps=2, lemmas=BRK + PCS, opaque=OPQ, trigger=["v_next(T, k)", "old(v_next(T, k))"])
lemma("v_escd_frame", "T: seq[Token], k: int", SAME_ON + ["v_esc(T, k)"], ["v_escd(T, k) == old(v_escd(T, k))"], heaps=2, trigger=["v_escd(T, k)", "old(v_escd(T, k))"])
lemma("v_ticked_frame", "T: seq[Token], k: int", SAME_ON + ["v_tick(T, k)"], ["v_ticked(T, k) == old(v_ticked(T, k))"], heaps=2, lemmas=BRK, trigger=["v_ticked(T, k)", "old(v_ticked(T, k))"])
lemma("v_named_frame", "T: seq[Token], k: int", SAME_ON + ["v_curly(T, k)"], ["v_named(T, k) == old(v_named(T, k))"], heaps=2, lemmas=BRK, trigger=["v_named(T, k)", "old(v_named(T, k))"])
lemma("v_piece_frame", "T: seq[Token], env: Environment, k: int", SAME_ON, ["v_piece(T, env, k) == old(v_piece(T, env, k))"], heaps=2, share=["_variables", "#map", "#has"], lemmas=["v_escd_frame", "v_ticked_frame", "v_named_frame"] + PCS, opaque=OPQ + ["v_escd", "v_ticked", "v_named"], trigger=["v_piece(T, env, k)", "old(v_piece(T, env, k))"])
lemma("v_wrong_frame", "T: seq[Token], env: Environment, k: int", SAME_ON, ["v_wrong(T, env, k) == old(v_wrong(T, env, k))"], heaps=2, share=["_variables", "#map", "#has"], lemmas=BRK + PCS, opaque=OPQ, trigger=["v_wrong(T, env, k)", "old(v_wrong(T, env, k))"])
# the whole text: every piece in order
rec("v_out(T: seq[Token], env: Environment, k: int, done: str)", "str", "ite(k >= len(T) - 1, done, v_out(T, env, v_next(T, k), done + v_piece(T, env, k)))", reads=READS)
rec("v_bad(T: seq[Token], env: Environment, k: int)", "bool", "k < len(T) - 1 and (v_wrong(T, env, k) or v_bad(T, env, v_next(T, k)))", reads=READS)
macro("start_lt(a, b)", "a.context.start_line < b.context.start_line or (a.context.start_line == b.context.start_line and a.context.start_column < b.context.start_column)")
contract("PreprocessVariablesParser.parse", params=["self"], requires=[
             "tm_wf(self.tm)", "self.tm.index == -1 and len(self.tm.tokens) > 0", "all((self.tm.tokens[i].type is TokenType.EOF) == (i == len(self.tm.tokens) - 1) for i in range(0, len(self.tm.tokens))) and self.tm.tokens[len(self.tm.tokens) - 1].value == ''",
             "all(all(start_lt(self.tm.tokens[i], self.tm.tokens[j]) for i in range(0, j)) for j in range(0, len(self.tm.tokens)))",
             "len(self.nodes) == 0 and self.nodes is not self.tm.tokens and self.nodes is not self.tm._stack", "is_end(self.last_processed_token)"],
         modifies=["self.tm.index", "list(self.tm._stack)", "list(self.nodes)", "self.last_processed_token", "(t.value for t in self.tm.tokens)"],
         raises_iff={"MauException": f"v_bad({TT}, {E_}, 0)"},
         opaque=["v_esc", "v_tick", "v_curly", "v_wrong", "v_next", "v_piece"], lemmas=["v_next_frame", "v_piece_frame", "v_wrong_frame"],
         ensures=[("replaced", f"pv_text(self) == old(v_out({TT}, {E_}, 0, ''))"), ("all", "self.tm.index == len(self.tm.tokens) - 2")],
         loops=[dict(inv=[
             "tm_wf(self.tm)", "self.tm.index >= -1 and self.tm.index < len(self.tm.tokens) - 1", "len(self.tm._stack) == old(len(self.tm._stack))",
             "all(fresh(n) and isinstance(n, TextNode) for n in self.nodes)",
             "is_end(self.last_processed_token) or all(start_lt(self.last_processed_token, self.tm.tokens[i]) for i in range(self.tm.index + 1, len(self.tm.tokens)))",
             "all(self.tm.tokens[i].value == old(self.tm.tokens[i].value) for i in range(self.tm.index + 1, len(self.tm.tokens)))",
             f"at({K}, lambda k: at(pv_text(self), lambda t: old(v_out({TT}, {E_}, 0, '')) == old(v_out({TT}, {E_}, k, t))))",
             f"at({K}, lambda k: old(v_bad({TT}, {E_}, 0)) == old(v_bad({TT}, {E_}, k)))",
             ], decreases="len(self.tm.tokens) - self.tm.index")])
