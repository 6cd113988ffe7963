# ---------------------------------------------------------------- the arguments of an element (C06, C07)
field("ArgumentsParser", unnamed_argument_nodes="list[ValueNode]", named_argument_nodes="dict[str, ValueNode]", tag_nodes="list[ValueNode]", subtype="ValueNode | None", alias="ValueNode | None",
      context="Context | None", _named_arguments_on="bool")
# how many of the first k values are internal tags
rec("internals(T: seq[ValueNode], k: int)", "int", "ite(k <= 0, 0, internals(T, k - 1) + ite(T[k - 1].value.startswith('mau:'), 1, 0))", reads=["value"])
macro("internal(n)", "n.value.startswith('mau:')")
contract("ArgumentsParser.arguments", returns="NodeArguments",
         ensures=["fresh(result)", "fresh(result.named_args) and fresh(result.unnamed_args) and fresh(result.tags) and fresh(result.internal_tags)",
                  ("unnamed", "len(result.unnamed_args) == len(self.unnamed_argument_nodes) and all(result.unnamed_args[i] == self.unnamed_argument_nodes[i].value for i in range(0, len(self.unnamed_argument_nodes)))"),
                  ("named", "forall('val', lambda s: iff(s in result.named_args, s in self.named_argument_nodes) and implies(s in self.named_argument_nodes, result.named_args[s] == self.named_argument_nodes[s].value))"),
                  ("subtype", "ite(self.subtype is None, result.subtype is None, result.subtype == self.subtype.value)"),
                  ("tags-plain", "all(not t.startswith('mau:') for t in result.tags)"),
                  ("tags", "len(result.tags) == len(self.tag_nodes) - internals(self.tag_nodes, len(self.tag_nodes)) and all(implies(not internal(self.tag_nodes[i]), result.tags[i - internals(self.tag_nodes, i)] == self.tag_nodes[i].value) for i in range(0, len(self.tag_nodes)))"),
                  ("internal-tags", "len(result.internal_tags) == internals(self.tag_nodes, len(self.tag_nodes)) and all(implies(internal(self.tag_nodes[i]), result.internal_tags[internals(self.tag_nodes, i)] == self.tag_nodes[i].value.removeprefix('mau:')) for i in range(0, len(self.tag_nodes)))"),
                  ],
         loops=[dict(comp="if node.value.startswith", nth=0, elem="ValueNode", inv=["len(_comp) == internals(self.tag_nodes, _i)", "all(internals(self.tag_nodes, i) >= 0 and internals(self.tag_nodes, i) <= len(_comp) for i in range(0, _i + 1))", "all(internal(n) for n in _comp)",
                     "all(implies(internal(self.tag_nodes[i]), internals(self.tag_nodes, i) < len(_comp) and _comp[internals(self.tag_nodes, i)] is self.tag_nodes[i]) for i in range(0, _i))"]),
                dict(comp="not in internal_tag_nodes", nth=2, elem="ValueNode", inv=["len(_comp) == _i - internals(self.tag_nodes, _i)", "all(i - internals(self.tag_nodes, i) >= 0 and i - internals(self.tag_nodes, i) <= len(_comp) for i in range(0, _i + 1))", "all(not internal(n) for n in _comp)",
                     "all(implies(not internal(self.tag_nodes[i]), i - internals(self.tag_nodes, i) < len(_comp) and _comp[i - internals(self.tag_nodes, i)] is self.tag_nodes[i]) for i in range(0, _i))"])])
# one argument from token k on: its text, in quotes or up to the comma, and where it ends
macro("a_quoted(T, k)", "is_lit(T[k], '\"')")
macro("a_quote(T, k)", "close(T, '\"', k + 1, k + 1)")
macro("a_broken(T, k)", "a_quoted(T, k) and not is_lit(T[a_quote(T, k)], '\"')")
macro("a_text(T, k)", "ite(a_quoted(T, k), cut(T, '\"', False, k + 1, a_quote(T, k)), cut(T, ',', False, k, close(T, ',', k, k)))")
macro("a_end(T, k)", "ite(a_quoted(T, k), a_quote(T, k) + 1, close(T, ',', k, k))")
macro("a_comma(T, k)", "k + ite(is_lit(T[k], ','), 1, 0)")
macro("a_space(T, k)", "k + ite(T[k].type is TokenType.WHITESPACE, 1, 0)")
macro("a_next(T, k)", "a_space(T, a_comma(T, a_end(T, k)))")
macro("ap_wf(p)", "tm_wf(p.tm) and tm_eof(p.tm) and p.tm.index < len(p.tm.tokens) - 2 and distinct(p.unnamed_argument_nodes, p.tm.tokens, p.tm._stack) and all((p.tm.tokens[i].type is TokenType.EOF) == (i == len(p.tm.tokens) - 1) for i in range(0, len(p.tm.tokens)))")
P_ = "self.tm.index + 1"
T_ = "self.tm.tokens"
contract("ArgumentsParser._process_named_argument", params=["self"], returns="bool", requires=["ap_wf(self)"], modifies=["self.tm.index", "list(self.tm._stack)", "dict(self.named_argument_nodes)", "self._named_arguments_on"],
         modifies_raise={"TokenError": ["self.tm.index"]}, lemmas=["close_range"],
         raises_iff={"TokenError": f"{T_}[{P_}].type is not TokenType.TEXT or not is_lit({T_}[{P_} + 1], '=') or a_broken({T_}, {P_} + 2)"},
         ensures=[("taken", "result is True"), ("stack", "len(self.tm._stack) == old(len(self.tm._stack))"), ("named", "self._named_arguments_on"),
                  ("value", f"at(old({T_}[{P_}].value), lambda k: k in self.named_argument_nodes and fresh(self.named_argument_nodes[k]) and self.named_argument_nodes[k].value == old(a_text({T_}, {P_} + 2)).strip())"),
                  ("others", f"forall('val', lambda s: implies(s != old({T_}[{P_}].value), iff(s in self.named_argument_nodes, old(s in self.named_argument_nodes)) and implies(s in self.named_argument_nodes, self.named_argument_nodes[s] is old(self.named_argument_nodes[s]))))"),
                  ("goes-on", f"{P_} == old(a_next({T_}, {P_} + 2))")])
contract("ArgumentsParser._process_unnamed_argument", params=["self"], returns="bool", requires=["ap_wf(self)"], modifies=["self.tm.index", "list(self.tm._stack)", "list(self.unnamed_argument_nodes)"],
         modifies_raise={"TokenError": ["self.tm.index"], "MauException": []}, lemmas=["close_range"],
         raises_iff={"MauException": "self._named_arguments_on", "TokenError": f"not self._named_arguments_on and a_broken({T_}, {P_})"},
         ensures=[("taken", "result is True"), ("stack", "len(self.tm._stack) == old(len(self.tm._stack))"),
                  ("one-more", "len(self.unnamed_argument_nodes) == old(len(self.unnamed_argument_nodes)) + 1 and all(self.unnamed_argument_nodes[i] is old(self.unnamed_argument_nodes[i]) for i in range(0, old(len(self.unnamed_argument_nodes))))"),
                  ("value", f"fresh(self.unnamed_argument_nodes[old(len(self.unnamed_argument_nodes))]) and self.unnamed_argument_nodes[old(len(self.unnamed_argument_nodes))].value == old(a_text({T_}, {P_}))"),
                  ("goes-on", f"{P_} == old(a_next({T_}, {P_}))")])
# the values that start with a prefix, in order, without it
rec("picks(T: seq[ValueNode], x: str, k: int)", "int", "ite(k <= 0, 0, picks(T, x, k - 1) + ite(T[k - 1].value.startswith(x), 1, 0))", reads=["value"])
macro("own_nodes(T)", "all(all(T[i] is not T[j] for i in range(0, j)) for j in range(0, len(T)))")
contract("ArgumentsParser._isolate_by_prefix", params=["self", "prefix", "nodes", "unique"], types={"prefix": "str", "nodes": "list[ValueNode]", "unique": "bool"}, returns="list[ValueNode]", requires=["own_nodes(nodes)"],
         modifies=["(n.value for n in nodes)"], raises_iff={"MauException": "unique and picks(nodes, prefix, len(nodes)) > 1"},
         ensures=["fresh(result)", ("count", "len(result) == old(picks(nodes, prefix, len(nodes)))"),
                  ("found", "all(implies(old(nodes[i].value.startswith(prefix)), old(picks(nodes, prefix, i)) >= 0 and old(picks(nodes, prefix, i)) < len(result) and result[old(picks(nodes, prefix, i))] is nodes[i] and nodes[i].value == old(nodes[i].value.removeprefix(prefix))) for i in range(0, len(nodes)))"),
                  ("others", "all(implies(not old(nodes[i].value.startswith(prefix)), nodes[i].value == old(nodes[i].value)) for i in range(0, len(nodes)))"),
                  ("only", "all(old(n.value.startswith(prefix)) for n in result)"), ("from", "all(n in nodes for n in result)"), ("once", "own_nodes(result)")],
         loops=[dict(comp="startswith", nth=0, elem="ValueNode", inv=["len(_comp) == picks(nodes, prefix, _i)", "all(picks(nodes, prefix, i) >= 0 and picks(nodes, prefix, i) <= len(_comp) for i in range(0, _i + 1))", "all(n.value.startswith(prefix) for n in _comp)",
                     "all(any(n is nodes[i] for i in range(0, _i)) for n in _comp)",
                     "all(implies(nodes[i].value.startswith(prefix), picks(nodes, prefix, i) < len(_comp) and _comp[picks(nodes, prefix, i)] is nodes[i]) for i in range(0, _i))", "own_nodes(_comp)"]),
                dict(modifies=["(n.value for n in old(nodes))"], inv=["all(at(nodes[j], lambda n: n.value == old(n.value).removeprefix(prefix)) for j in range(0, _i))", "all(at(nodes[j], lambda n: n.value == old(n.value)) for j in range(_i, len(nodes)))",
                     "all(implies(not old(nodes[i].value.startswith(prefix)), old(nodes[i]).value == old(nodes[i].value)) for i in range(0, old(len(nodes))))"])])
U = "self.unnamed_argument_nodes"
macro("is_plain(v)", "not v.startswith('#') and not v.startswith('*') and not v.startswith('@')")
macro("listed(n, l)", "any(n is x for x in l)")
# (argument lists without an alias: what an alias adds comes from the configuration)
contract("ArgumentsParser._isolate_tags_and_subtype", params=["self"], requires=[f"own_nodes({U})", f"all(not n.value.startswith('@') for n in {U})", f"distinct({U}, self.tag_nodes)"],
         modifies=["self.tag_nodes", "self.subtype", "self.alias", "self.unnamed_argument_nodes", f"(n.value for n in {U})"],
         raises={"MauException": f"True"},
         ensures=[("tags", f"len(self.tag_nodes) == old(picks({U}, '#', len({U}))) and all(implies(old({U}[i].value.startswith('#')), self.tag_nodes[old(picks({U}, '#', i))] is old({U})[i] and old({U})[i].value == old({U}[i].value.removeprefix('#'))) for i in range(0, old(len({U}))))"),
                  ("subtype", f"all(implies(old({U}[i].value.startswith('*') and not {U}[i].value.startswith('#')), self.subtype is old({U})[i]) for i in range(0, old(len({U}))))"),
                  ("subtype-value", f"implies(self.subtype is not None, self.subtype.value == at(self.subtype, lambda n: old(n.value)).removeprefix('*'))"),
                  ("no-subtype", f"self.subtype is None or any(old({U}[i].value.startswith('*')) and self.subtype is old({U})[i] for i in range(0, old(len({U}))))"),
                  ("plain", f"all(implies(is_plain(old({U}[i].value)), listed(old({U})[i], {U}) and old({U})[i].value == old({U}[i].value)) for i in range(0, old(len({U}))))"),
                  ("only-plain", f"all(is_plain(old(n.value)) for n in {U})"), ("once", f"own_nodes({U})"), ("no-alias", "self.alias is None")],
         loops=[dict(comp="not in self.tag_nodes", nth=0, elem="ValueNode", inv=[f"all(not old(n.value).startswith('#') and n.value == old(n.value) for n in _comp)", f"all(implies(not old({U}[i].value.startswith('#')), listed({U}[i], _comp)) for i in range(0, _i))", f"all(listed(n, {U}) for n in _comp)", "own_nodes(_comp)", f"all(all({U}[i] is not n for n in _comp) for i in range(_i, len({U})))"]),
                dict(comp="not in subtypes", nth=1, elem="ValueNode", inv=[f"all(is_plain(old(n.value)) and n.value == old(n.value) for n in _comp)", f"all(at(nodes[i], lambda n: implies(is_plain(old(n.value)), listed(n, _comp))) for i in range(0, _i))", "all(listed(n, nodes) for n in _comp)", "own_nodes(_comp)", f"all(all(nodes[i] is not n for n in _comp) for i in range(_i, len(nodes)))"]),
                dict(comp="not in aliases", nth=2, elem="ValueNode", inv=[f"all(implies(True, listed(nodes[i], _comp)) for i in range(0, _i))", "own_nodes(_comp)", f"all(listed(n, nodes) for n in _comp)", f"all(all(nodes[i] is not n for n in _comp) for i in range(_i, len(nodes)))"])])
