# ---------------------------------------------------------------- block engines (C18)
field("RawLineNode", value="str")
field("SourceMarkerNode", value="str")
macro("line_box(c, b, k, n)", "fresh(c) and is_box(c, b.start_line + k, b.start_column, b.start_line + k, b.start_column + n, b.source)")
_raw_line = "fresh({l}[k]) and isinstance({l}[k], RawLineNode) and line_box({l}[k].info.context, content.context, k, len(cast({l}[k], 'RawLineNode').value))"
contract("parse_raw_engine", params=["parser", "content", "arguments"], types={"parser": "DocumentParser", "content": "Token | None", "arguments": "NodeArguments"}, returns="RawNode",
         ensures=[("raw", "fresh(result) and isinstance(result, RawNode)"), ("nothing", "implies(content is None, len(result.content) == 0)"),
                  ("text", "implies(content is not None, joined('\\n', [cast(n, 'RawLineNode').value for n in result.content], 0, len(result.content)) == content.value)"),
                  ("lines", "implies(content is not None, len(result.content) > 0 and all(one_line(cast(result.content[k], 'RawLineNode').value) and " + _raw_line.format(l="result.content") + " and result.content[k].parent is result for k in range(0, len(result.content))))")],
         loops=[dict(inv=["fresh(raw_lines)", "len(raw_lines) == _i", "all(cast(raw_lines[k], 'RawLineNode').value == content_lines[k] for k in range(0, _i))",
                          "all(" + _raw_line.format(l="raw_lines") + " and raw_lines[k].parent is node for k in range(0, _i))"])])
field("SourceLineNode", line_number="str", line_content="str", highlight_style="Any", marker="SourceMarkerNode | None")
contract("create_source_line", params=["code", "line_number", "line_content", "line_context", "parent", "marker_node", "highlight_style"],
         types={"code": "list[SourceLineNode]", "line_number": "str", "line_content": "str", "line_context": "Context", "parent": "Node", "marker_node": "SourceMarkerNode | None", "highlight_style": "Any"}, modifies=["list(code)"],
         ensures=[("one-more", "len(code) == old(len(code)) + 1 and all(code[k] is old(code[k]) for k in range(0, old(len(code))))"),
                  ("line", "at(code[old(len(code))], lambda n: fresh(n) and isinstance(n, SourceLineNode) and n.line_number == line_number and n.line_content == line_content and n.info.context is line_context and n.parent is parent and n.marker is marker_node and n.highlight_style is highlight_style)")])
contract("Environment.asdict", returns="dict[str, Any]", trusted="the nested form of the variables is a new dictionary; the store is only read", ensures=["fresh(result)"])
contract("NodeArguments.set_names", params=["self", "positional_names"], types={"positional_names": "list[str]"}, returns="NodeArguments", 
         requires=["all(implies(j != k, positional_names[j] != positional_names[k]) for j in range(0, len(positional_names)) for k in range(0, len(positional_names)))"],
         modifies=["self.unnamed_args", "self.named_args", "dict(self.named_args)"],
         ensures=[("same", "result is self and self.named_args is old(self.named_args)"),
                  ("explicit-wins", "forall('str', lambda s: implies(old(s in self.named_args), s in self.named_args and self.named_args[s] is old(self.named_args[s])))"),
                  ("nothing-else", "forall('str', lambda s: implies(s in self.named_args and old(s not in self.named_args), any(positional_names[k] == s for k in range(0, len(positional_names)))))")])
STYLES = "'mau.parser.source_highlight_style_aliases'"
# the line l of the block is what the node shows, or the node shows what stands before a marker m at its very end
macro("unmarked(l, d)", "not l.endswith(d) or not (d in l.removesuffix(d))")
pred("marked_as(n: SourceLineNode, m: str, p: str)", "ite(m.startswith(p), n.marker is None, n.highlight_style is None and ite(len(m) == 0, n.marker is None, n.marker is not None and n.marker.value == m))")
pred("shown(n: SourceLineNode, l: str, d: str, p: str)", "ite(unmarked(l, d), n.line_content == l and n.marker is None and n.highlight_style is None, exists('str', lambda m: not (d in m) and l.removesuffix(d) == n.line_content + (d + m) and marked_as(n, m, p)))")
macro("option(a, k, d)", "ite(k in a.named_args, a.named_args[k], d)")
CHOSEN = "old(len(option(arguments, 'marker_delimiter', '')) > 0)"
PREFIX = "old(option(arguments, 'highlight_marker', '@'))"
contract("parse_source_engine", params=["parser", "content", "arguments"], types={"parser": "DocumentParser", "content": "Token | None", "arguments": "NodeArguments"}, returns="SourceNode",
         requires=["forall('val', lambda s: implies(s in parser.environment._variables, isinstance(s, str)))", STYLES + " not in parser.environment._variables", "distinct(arguments.named_args, parser.environment._variables)"],
         modifies=["arguments.unnamed_args", "arguments.named_args", "dict(arguments.named_args)"],
         ensures=[("source", "fresh(result) and isinstance(result, SourceNode)"), ("nothing", "implies(content is None, len(result.content) == 0)"),
                  ("numbered", "implies(content is not None, len(result.content) > 0 and all(fresh(result.content[k]) and isinstance(result.content[k], SourceLineNode) and result.content[k].line_number == str(k + 1) and result.content[k].parent is result for k in range(0, len(result.content))))"),
                  ("all-lines", "implies(content is not None, len(result.content) == len(content.value.split('\\n')))"),
                  ("shown", "implies(content is not None and " + CHOSEN + ", forall('str', lambda p: implies(p == " + PREFIX + ", all(shown(result.content[k], content.value.split('\\n')[k], old(option(arguments, 'marker_delimiter', '')), p) for k in range(0, len(result.content))))))"),
                  ("shown-default", "implies(content is not None and not " + CHOSEN + ", forall('str', lambda p: implies(p == " + PREFIX + ", all(shown(result.content[k], content.value.split('\\n')[k], ':', p) for k in range(0, len(result.content))))))"),
                  ],
         loops=[dict(inv=["fresh(code)", "len(code) == _i", "len(marker_delimiter) > 0", "all(fresh(code[k]) and isinstance(code[k], SourceLineNode) and code[k].line_number == str(k + 1) and code[k].parent is node for k in range(0, _i))",
                          "all(shown(code[k], content_lines[k], marker_delimiter, highlight_prefix) for k in range(0, _i))"])])
