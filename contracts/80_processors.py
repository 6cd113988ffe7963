# ---------------------------------------------------------------- variables and conditions (C09, C10)
field("Environment", _variables="dict[str, Any]")
contract("Environment.__getitem__", params=["self", "key"], types={"key": "str"}, returns="Any", raises_iff={"KeyError": "key not in self._variables"}, ensures=["result is self._variables[key]"])
field("Control", operator="str", variable="str", comparison="ControlComparisons", value="str", context="Context | None")
macro("known(c, env)", "c.variable in env._variables")
macro("holds(c, env)", "ite(c.comparison == ControlComparisons.EQUAL_EQUAL, env._variables[c.variable] == c.value, env._variables[c.variable] != c.value)")
contract("create_parser_exception", params=["text", "context", "help_text"], types={"text": "str", "context": "Context | None", "help_text": "str | None"}, returns="MauException", ensures=["fresh(result)"])
contract("Control.__init__", params=["self", "operator", "variable", "comparison", "value", "context"], types={"operator": "str", "variable": "str", "comparison": "str", "value": "str", "context": "Context | None"},
         modifies=["self.operator", "self.variable", "self.comparison", "self.value", "self.context"],
         raises_iff={"MauException": "operator != 'if'", "ValueError": "operator == 'if' and comparison != '==' and comparison != '!='"},
         ensures=[("kept", "self.operator == operator and self.variable == variable and self.value == value and self.context is context"),
                  ("comparison", "self.comparison == ite(comparison == '==', ControlComparisons.EQUAL_EQUAL, ControlComparisons.BANG_EQUAL)")])
contract("Control.process", params=["self", "environment"], types={"environment": "Environment"}, returns="bool",
         raises_iff={"MauException": "not known(self, environment)"}, ensures=[("answer", "iff(result, holds(self, environment))")])

# ---------------------------------------------------------------- the document parser and its element processors (C04, C08, C09)
field("BaseParser", tm="TokensManager", nodes="list[Node]", message_handler="Any", environment="Environment", parent_node="Node | None", last_processed_token="Token")
field("DocumentParser", header_links_manager="HeaderLinksManager", blockgroup_manager="BlockGroupManager", footnotes_manager="FootnotesManager", toc_manager="TocManager",
      arguments_buffer="ArgumentsBuffer", label_buffer="LabelBuffer", control_buffer="ControlBuffer", latest_ordered_list_index="int", forbidden_includes="list[str]")
# the lists and dictionaries of a parser are its own
LISTS = "p.nodes, p.tm.tokens, p.tm._stack, p.header_links_manager.macros, p.footnotes_manager.footnote_macros, p.footnotes_manager.footnotes_list_nodes, p.toc_manager.headers, p.toc_manager.toc_nodes, p.blockgroup_manager.groups, p.forbidden_includes"
DICTS = "p.header_links_manager.headers, p.footnotes_manager.bodies, p.blockgroup_manager.items, p.label_buffer.labels, p.environment._variables"
macro("own_wf(p)", f"tm_wf(p.tm) and tm_nonempty(p.tm) and distinct({LISTS}) and distinct({DICTS}) and "
      "implies(p.arguments_buffer.arguments is not None, distinct(p.arguments_buffer.arguments.named_args, " + DICTS + "))")
# ... and no text of a label is one of the lists that grow
macro("apart(p)", "all(p.label_buffer.labels[r].content is not p.footnotes_manager.footnote_macros and p.label_buffer.labels[r].content is not p.header_links_manager.macros for r in p.label_buffer.labels)")
macro("parser_wf(p)", "own_wf(p) and hl_wf(p.header_links_manager) and bg_wf(p.blockgroup_manager) and labels_wf(p.label_buffer) and apart(p)")
macro("nothing_waits(p)", "p.arguments_buffer.arguments is None and no_keys(p.label_buffer.labels) and p.control_buffer.control is None")
macro("waiting_kept(p)", "p.arguments_buffer.arguments is old(p.arguments_buffer.arguments) and p.label_buffer.labels is old(p.label_buffer.labels) and p.control_buffer.control is old(p.control_buffer.control)")
macro("wanted(p)", "implies(old(p.control_buffer.control is not None), old(holds(p.control_buffer.control, p.environment)))")
macro("nodes_kept(p, n)", "len(p.nodes) == old(len(p.nodes)) + n and all(p.nodes[i] is old(p.nodes[i]) for i in range(0, old(len(p.nodes))))")
macro("last(p)", "p.nodes[old(len(p.nodes))]")
macro("list_eq(a, b)", "len(a) == len(b) and all(a[i] == b[i] for i in range(0, len(b)))")
# the node has all the arguments that were waiting (all but the named ones in `used`), or none
macro("args_full(n, a)", "n.arguments.subtype == a.subtype and list_eq(n.arguments.unnamed_args, a.unnamed_args) and list_eq(n.arguments.tags, a.tags) and list_eq(n.arguments.internal_tags, a.internal_tags)")
macro("args_none(n)", "n.arguments.subtype is None and len(n.arguments.unnamed_args) == 0 and len(n.arguments.named_args) == 0 and len(n.arguments.tags) == 0 and len(n.arguments.internal_tags) == 0")
PFRAME = ["parser.tm.index", "parser.arguments_buffer.arguments", "parser.label_buffer.labels", "parser.control_buffer.control", "list(parser.nodes)", "any.parent"]
contract("BaseParser._save", params=["self", "node"], types={"node": "Node"}, modifies=["node.parent", "list(self.nodes)"],
         ensures=["len(self.nodes) == old(len(self.nodes)) + 1", "all(self.nodes[i] is old(self.nodes[i]) for i in range(0, old(len(self.nodes))))", "self.nodes[old(len(self.nodes))] is node", "node.parent is self.parent_node"])
# the text of a label holds no labels
macro("labels_wf(b)", "all(all(not isinstance(c, LabelNode) for c in b.labels[r].content) for r in b.labels)")
contract("DocumentParser.pop_labels", params=["self", "node"], types={"node": "Node"}, requires=["isinstance(node, NodeLabelsMixin)", "labels_wf(self.label_buffer)"],
         modifies=["self.label_buffer.labels", "cast(node, 'NodeLabelsMixin').labels", "any.parent"],
         ensures=[("given", "cast(node, 'NodeLabelsMixin').labels is old(self.label_buffer.labels)"), ("gone", "fresh(self.label_buffer.labels) and no_keys(self.label_buffer.labels)"),
                  ("below", "all(cast(node, 'NodeLabelsMixin').labels[r].parent is node for r in cast(node, 'NodeLabelsMixin').labels)"),],
         loops=[dict(inv=["all(labels[key_at(labels, i)].parent is node for i in range(0, _i))"]),
                dict(inv=["all(labels[key_at(labels, i)].parent is node for i in range(0, _i0 + 1))"])])
# ---------------------------------------------------------------- text inside a document (C08, C15, C16)
field("ValueNode", value="str")
field("PreprocessVariablesParser", nodes="list[TextNode]")
field("TextParser", footnote_macros="list[MacroFootnoteNode]", header_links="list[MacroHeaderNode]")
LEX_PARSE = dict(types={"cls": "Any", "text": "str", "message_handler": "Any", "environment": "Environment | None", "start_line": "int", "start_column": "int", "source_filename": "str | None"}, params=["cls", "text", "message_handler", "environment", "start_line", "start_column", "source_filename"])
FRAMED = "the lexing and parsing of the text writes only to objects it creates (no global state, the environment is only read) and ends with the parser or a Mau error"
contract("PreprocessVariablesParser.lex_and_parse", **LEX_PARSE, returns="PreprocessVariablesParser", raises={"MauException": "True"}, trusted=FRAMED, ensures=["fresh(result) and fresh(result.nodes)", "all(isinstance(n, TextNode) for n in result.nodes)"])
contract("TextParser.lex_and_parse", **LEX_PARSE, returns="TextParser", raises={"MauException": "True"}, trusted=FRAMED,
         ensures=["fresh(result) and fresh(result.nodes) and fresh(result.footnote_macros) and fresh(result.header_links) and distinct(result.nodes, result.footnote_macros, result.header_links)",
                  "all(fresh(n) and not isinstance(n, LabelNode) for n in result.nodes)", "all(fresh(n) for n in result.footnote_macros)", "all(fresh(n) for n in result.header_links)"])
contract("PreprocessVariablesParser.get_processed_text", returns="Token", requires=["all(isinstance(n, TextNode) for n in self.nodes)"],
         ensures=[("text", "fresh(result) and result.type is TokenType.TEXT and result.value == joined('', [cast(n, 'TextNode').value for n in self.nodes], 0, len(self.nodes))"),
                  ("box", "implies(len(self.nodes) > 0, fresh(result.context) and merged(result.context, self.nodes[0].info.context, self.nodes[len(self.nodes) - 1].info.context))")],
         loops=[dict(comp="Token(", elem="Token", inv=["len(_comp) == _i", "all(fresh(_comp[j]) and _comp[j].value == cast(self.nodes[j], 'TextNode').value and _comp[j].context is self.nodes[j].info.context for j in range(0, _i))"])])
macro("macros_grown(p)", "len(p.footnotes_manager.footnote_macros) >= old(len(p.footnotes_manager.footnote_macros)) and all(p.footnotes_manager.footnote_macros[i] is old(p.footnotes_manager.footnote_macros[i]) for i in range(0, old(len(p.footnotes_manager.footnote_macros)))) and "
      "len(p.header_links_manager.macros) >= old(len(p.header_links_manager.macros)) and all(p.header_links_manager.macros[i] is old(p.header_links_manager.macros[i]) for i in range(0, old(len(p.header_links_manager.macros))))")
contract("DocumentParser._parse_text", params=["self", "text", "context", "parent"], types={"text": "str", "context": "Context", "parent": "Node"}, returns="list[Node]", requires=["distinct(self.footnotes_manager.footnote_macros, self.header_links_manager.macros)"],
         modifies=["list(self.footnotes_manager.footnote_macros)", "list(self.header_links_manager.macros)"], raises={"MauException": "True"},
         ensures=[("new", "fresh(result) and all(fresh(n) and not isinstance(n, LabelNode) for n in result)"), ("below", "all(n.parent is parent for n in result)"), ("collected", "macros_grown(self)")],
         loops=[dict(inv=["all(text_parser.nodes[i].parent is parent for i in range(0, _i))"])])
TEXT_FRAME = ["list(parser.footnotes_manager.footnote_macros)", "list(parser.header_links_manager.macros)"]
# the named arguments of node n are those that were waiting, without the names in `used`
def named_rest(n, a, used):
    gone = " and ".join(f"s != '{u}'" for u in used) or "True"
    return f"forall('str', lambda s: iff(s in {n}.arguments.named_args, old(s in {a}.named_args) and {gone}) and implies(s in {n}.arguments.named_args, {n}.arguments.named_args[s] == old({a}.named_args[s])))"
def element(name, token, cls, extra_frame=(), extra=(), used=(), **kw):
    A = "old(parser.arguments_buffer.arguments)"
    contract(name, params=["parser"], types={"parser": "DocumentParser"}, returns="Any", requires=["parser_wf(parser)"], modifies=PFRAME + TEXT_FRAME + list(extra_frame),
         raises={"TokenError": "True", "MauException": "True"},
         ensures_raise={"TokenError": [("no-trace", "waiting_kept(parser) and nodes_kept(parser, 0)")]},
         ensures=[("taken", "result is True"), ("wf", "own_wf(parser)"), ("wf-links", "hl_wf(parser.header_links_manager)"), ("wf-labels", "labels_wf(parser.label_buffer) and apart(parser)"), ("nothing-waits", "nothing_waits(parser)"),
                  ("dropped", "implies(not wanted(parser), nodes_kept(parser, 0))"),
                  ("kept", f"implies(wanted(parser), nodes_kept(parser, 1) and isinstance(last(parser), {cls}) and last(parser).parent is parser.parent_node)"),
                  ("arguments", f"implies(wanted(parser) and {A} is not None, args_full(last(parser), {A}))"),
                  ("named-arguments", f"implies(wanted(parser) and {A} is not None, {named_rest('last(parser)', 'parser.arguments_buffer.arguments', used)})"),
                  ("no-arguments", f"implies(wanted(parser) and {A} is None, args_none(last(parser)))"),
                  ("labels", f"implies(wanted(parser), cast(last(parser), '{cls}').labels is old(parser.label_buffer.labels))")] + list(extra), **kw)
element("horizontal_rule_processor", "HORIZONTAL_RULE", "HorizontalRuleNode")
NAMED = "old(parser.arguments_buffer.arguments is not None and 'name' in parser.arguments_buffer.arguments.named_args and parser.arguments_buffer.arguments.named_args['name'] != '')"
element("header_processor", "HEADER", "HeaderNode", ["list(parser.toc_manager.headers)", "dict(parser.header_links_manager.headers)", "when(parser.arguments_buffer.arguments is not None, dict(parser.arguments_buffer.arguments.named_args))"],
        [("level", "implies(wanted(parser), cast(last(parser), 'HeaderNode').level == len(old(tm_next(parser.tm).value)))"),
         ("in-contents", "implies(wanted(parser), len(parser.toc_manager.headers) == old(len(parser.toc_manager.headers)) + 1 and parser.toc_manager.headers[old(len(parser.toc_manager.headers))] is last(parser))"),
         ("contents-kept", "all(parser.toc_manager.headers[i] is old(parser.toc_manager.headers[i]) for i in range(0, old(len(parser.toc_manager.headers))))"),
         ("not-in-contents", "implies(not wanted(parser), len(parser.toc_manager.headers) == old(len(parser.toc_manager.headers)) and same_dict(parser.header_links_manager.headers, old(parser.header_links_manager.headers)))"),
         ("named", f"implies(wanted(parser) and {NAMED}, cast(last(parser), 'HeaderNode').name == old(parser.arguments_buffer.arguments.named_args['name']) and cast(last(parser), 'HeaderNode').name in parser.header_links_manager.headers and "
          "parser.header_links_manager.headers[cast(last(parser), 'HeaderNode').name] is last(parser))"),
         ("unnamed", f"implies(not ({NAMED}), same_dict(parser.header_links_manager.headers, old(parser.header_links_manager.headers)))")],
        used=["name", "internal_id"])
element("paragraph_processor", "TEXT", "ParagraphNode",
        loops=[dict(inv=["fresh(line_tokens)", "len(line_tokens) >= 1", "tm_wf(parser.tm)"], modifies=["parser.tm.index"]),
               dict(modifies=TEXT_FRAME, inv=["len(node.content) == _i", "labels_wf(parser.label_buffer)", "all(isinstance(node.content[i], ParagraphLineNode) and fresh(node.content[i]) for i in range(0, _i))"])])
# ---------------------------------------------------------------- what waits for the next element (C08, C09)
field("ConditionNode", variable="str", comparison="str", value="str")
field("ConditionParser", condition_node="ConditionNode | None")
contract("ConditionParser._process_condition", params=["self"], returns="bool", requires=["tm_wf(self.tm)", "tm_eof(self.tm)"], modifies=["self.tm.index", "self.condition_node"], raises={"TokenError": "True"},
         modifies_raise={"TokenError": ["self.tm.index"]},
         ensures=[("taken", "result is True"), ("three", "self.tm.index == old(self.tm.index) + 3"),
                  ("condition", "self.condition_node is not None and fresh(self.condition_node) and self.condition_node.variable == old(self.tm.tokens[self.tm.index + 1].value) and "
                   "self.condition_node.comparison == old(self.tm.tokens[self.tm.index + 2].value) and self.condition_node.value == old(self.tm.tokens[self.tm.index + 3].value)")])
contract("ConditionParser.lex_and_parse", **LEX_PARSE, returns="ConditionParser", raises={"MauException": "True"},
         trusted=FRAMED + "; a condition has been read and its comparison is one of the two that the lexer knows",
         ensures=["fresh(result) and result.condition_node is not None and fresh(result.condition_node)", "result.condition_node.comparison == '==' or result.condition_node.comparison == '!='"])
contract("ArgumentsParser.lex_and_parse", **LEX_PARSE, returns="ArgumentsParser", raises={"MauException": "True"}, trusted=FRAMED, ensures=["fresh(result)"])
def prepared(name, cls, ensures=()):
    contract(name, params=["token", "message_handler", "environment"], types={"token": "Token", "message_handler": "Any", "environment": "Environment | None"}, returns=cls, raises={"MauException": "True"}, ensures=["fresh(result)"] + list(ensures))
prepared("process_condition_with_variables", "ConditionParser", ["result.condition_node is not None and fresh(result.condition_node)", "result.condition_node.comparison == '==' or result.condition_node.comparison == '!='"])
prepared("process_arguments_with_variables", "ArgumentsParser")
prepared("process_arguments", "ArgumentsParser")
def waiting(name, token, frame, ensures, **kw):
    contract(name, params=["parser"], types={"parser": "DocumentParser"}, returns="Any", requires=["parser_wf(parser)"], modifies=["parser.tm.index"] + frame,
             raises={"TokenError": "True", "MauException": "True"}, modifies_raise={"TokenError": ["parser.tm.index"]},
             ensures=[("taken", "result is True"), ("wf", "own_wf(parser)"), ("wf-labels", "labels_wf(parser.label_buffer) and apart(parser)")] + ensures, **kw)
NEXT = "old(parser.tm.tokens[parser.tm.index + 1])"
waiting("arguments_processor", "ARGUMENTS", ["parser.arguments_buffer.arguments"], [("arguments-wait", "parser.arguments_buffer.arguments is not None and fresh(parser.arguments_buffer.arguments)")])
waiting("control_processor", "CONTROL", ["parser.control_buffer.control"], [("condition-waits", "parser.control_buffer.control is not None and fresh(parser.control_buffer.control)"),
        ("operator", "parser.control_buffer.control.operator == 'if'")])
ROLE = f"ite({NEXT}.value[1:] != '', {NEXT}.value[1:], 'title')"
waiting("label_processor", "LABEL", ["dict(parser.label_buffer.labels)", "any.parent"] + TEXT_FRAME,
        [("label-waits", f"{ROLE} in parser.label_buffer.labels and fresh(parser.label_buffer.labels[{ROLE}]) and parser.label_buffer.labels[{ROLE}].role == {ROLE}"),
         ("others-wait", f"forall('val', lambda s: implies(s != {ROLE}, iff(s in parser.label_buffer.labels, old(s in parser.label_buffer.labels)) and implies(s in parser.label_buffer.labels, parser.label_buffer.labels[s] is old(parser.label_buffer.labels[s]))))")])
NAME = "old(parser.tm.tokens[parser.tm.index + 2]).value"
waiting("variable_definition_processor", "VARIABLE", ["dict(parser.environment._variables)"],
        [("true-flag", f"implies({NAME}.startswith('+'), {NAME}[1:] in parser.environment._variables and parser.environment._variables[{NAME}[1:]] == 'true')"),
         ("false-flag", f"implies({NAME}.startswith('-'), {NAME}[1:] in parser.environment._variables and parser.environment._variables[{NAME}[1:]] == 'false')"),
         ("defined", f"implies(not {NAME}.startswith('+') and not {NAME}.startswith('-'), {NAME} in parser.environment._variables and parser.environment._variables[{NAME}] != '')"),
         ("nothing-else", f"forall('str', lambda s: implies(s != {NAME} and not (s == {NAME}[1:] and ({NAME}.startswith('+') or {NAME}.startswith('-'))), iff(s in parser.environment._variables, old(s in parser.environment._variables)) and implies(s in parser.environment._variables, parser.environment._variables[s] is old(parser.environment._variables[s]))))")])
