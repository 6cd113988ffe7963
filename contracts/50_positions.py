# ---------------------------------------------------------------- positions (C24)
field("Context", start_line="int", start_column="int", end_line="int", end_column="int", source="str | None")
macro("same_box(a, b)", "a.start_line == b.start_line and a.start_column == b.start_column and a.end_line == b.end_line and a.end_column == b.end_column and a.source is b.source")
macro("is_box(c, l1, c1, l2, c2, s)", "c.start_line == l1 and c.start_column == c1 and c.end_line == l2 and c.end_column == c2 and c.source is s")
contract("Context.empty", returns="Context", ensures=[("zero", "fresh(result) and is_box(result, 0, 0, 0, 0, None)")])
contract("Context.merge_contexts", params=["cls", "a", "b"], types={"a": "Context", "b": "Context"}, returns="Context",
         ensures=[("new", "fresh(result)"), ("smallest-box", "merged(result, a, b)")])
macro("min2(r, a, b)", "r <= a and r <= b and (r == a or r == b)")
macro("max2(r, a, b)", "r >= a and r >= b and (r == a or r == b)")
macro("merged(c, a, b)", "min2(c.start_line, a.start_line, b.start_line) and min2(c.start_column, a.start_column, b.start_column) and max2(c.end_line, a.end_line, b.end_line) and max2(c.end_column, a.end_column, b.end_column) and c.source is a.source")
contract("Context.start_position", returns="tuple[int, int]", pure="(self.start_line, self.start_column)")
contract("Context.end_position", returns="tuple[int, int]", pure="(self.end_line, self.end_column)")
contract("Context.move_to", params=["self", "line", "column"], types={"line": "int", "column": "int"}, returns="Context", modifies=["self.start_line", "self.start_column", "self.end_line", "self.end_column"],
         ensures=[("same", "result is self"), ("moved", "is_box(self, old(self.start_line) + line, old(self.start_column) + column, old(self.end_line) + line, old(self.end_column) + column, old(self.source))")])
contract("Context.clone", returns="Context", ensures=[("copy", "fresh(result) and same_class(result, self) and same_box(result, self)")])
contract("adjust_context", params=["context"], types={"context": "Context"}, returns="Context",
         ensures=[("shifted", "fresh(result) and is_box(result, context.start_line + 1, context.start_column, context.end_line + 1, context.end_column, context.source)")])
contract("adjust_position", params=["position"], types={"position": "tuple[int, int]"}, returns="tuple[int, int]", pure="(position[0] + 1, position[1])")

# ---------------------------------------------------------------- tokens as text
contract("Token.generate", params=["cls", "ttype", "value"], types={"ttype": "TokenType", "value": "str"}, returns="Token",
         ensures=["fresh(result) and result.type is ttype and result.value == value and fresh(result.context) and is_box(result.context, 0, 0, 0, 0, None)"])
contract("Token.__len__", returns="int", pure="len(self.value)")
# a text token made of tokens: their texts, in order; split again: one token for every line, each standing on its own line
contract("Token.from_token_list", params=["cls", "tokens", "join_with"], types={"tokens": "list[Token]", "join_with": "str"}, returns="Token",
         ensures=[("text", "fresh(result) and result.type is TokenType.TEXT and result.value == joined(join_with, [t.value for t in tokens], 0, len(tokens))"),
                  ("empty", "implies(len(tokens) == 0, fresh(result.context) and is_box(result.context, 0, 0, 0, 0, None))"),
                  ("box", "implies(len(tokens) > 0, fresh(result.context) and merged(result.context, tokens[0].context, tokens[len(tokens) - 1].context))")])
contract("Token.to_token_list", returns="list[Token]",
         ensures=[("text", "fresh(result) and joined('\\n', [t.value for t in result], 0, len(result)) == self.value"),
                  ("lines", "len(result) > 0 and all(fresh(result[k]) and result[k].type is TokenType.TEXT and one_line(result[k].value) and fresh(result[k].context) and is_box(result[k].context, "
                   "self.context.start_line + k, self.context.start_column, self.context.start_line + k, self.context.start_column + len(result[k].value), self.context.source) for k in range(0, len(result)))")],
         loops=[dict(inv=["fresh(result)", "len(result) == _i", "all(result[k].value == token_lines[k] for k in range(0, _i))",
                          "all(fresh(result[k]) and result[k].type is TokenType.TEXT and fresh(result[k].context) and is_box(result[k].context, "
                          "self.context.start_line + k, self.context.start_column, self.context.start_line + k, self.context.start_column + len(token_lines[k]), self.context.source) for k in range(0, _i))"])])
