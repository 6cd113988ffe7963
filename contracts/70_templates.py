# ---------------------------------------------------------------- templates (C19)
field("Template", type="str", content="str", name="str", subtype="str | None", prefix="str | None", parent_type="str | None", parent_subtype="str | None",
      parent_custom="dict[str, str]", tags="list[str]", custom="dict[str, str]")
field("NodeArguments", unnamed_args="list[str]", named_args="dict[str, str]", tags="list[str]", internal_tags="list[str]", subtype="str | None")
# the custom fields a template can ask for
CUSTOM = [("StyleNode", "style"), ("MacroNode", "name"), ("LabelNode", "role"), ("IncludeNode", "ctype"), ("BlockGroupItemNode", "position"), ("BlockGroupNode", "name")]
pred("custom_key(n: Node, k: str)", " or ".join(f"(isinstance(n, {c}) and k == '{f}')" for c, f in CUSTOM))
_v = "''"
for _c, _f in CUSTOM:
    _v = f"ite(isinstance(n, {_c}), cast(n, '{_c}').{_f}, {_v})"
rec("custom_value(n: Node)", "str", _v, plain=True, reads=["style", "name", "role", "ctype", "position"])
macro("has_custom(n, k, v)", "custom_key(n, k) and custom_value(n) == v")
contract("Node.custom_template_fields", virtual=True, own=True, returns="dict[str, str]",
         ensures=[("fields", "fresh(result) and forall('str', lambda k: iff(k in result, custom_key(self, k)) and implies(k in result, result[k] == custom_value(self)))")])
macro("is_set(s)", "s is not None and s != ''")
macro("claims_hold(t, n, prefix)", "(t.type == '' or t.type == n.type) and t.prefix == prefix and all(has_custom(n, k, t.custom[k]) for k in t.custom) and "
      "implies(is_set(t.subtype), t.subtype == n.arguments.subtype) and "
      "implies(len(t.parent_custom) > 0 or is_set(t.parent_type) or is_set(t.parent_subtype), n.parent is not None) and "
      "implies(n.parent is not None, all(has_custom(n.parent, k, t.parent_custom[k]) for k in t.parent_custom) and implies(is_set(t.parent_type), t.parent_type == n.parent.type) and "
      "implies(is_set(t.parent_subtype), t.parent_subtype == n.parent.arguments.subtype)) and all(tag in n.arguments.tags for tag in t.tags)")
# matched(t, n, p): the answer of t.match(n, p), which is exactly that the claims of t hold (no template or node changes while one is chosen)
uninterpreted("matched", ["Template", "Node", "str | None"], "bool")
contract("Template.match", opaque=["custom_key", "custom_value"], params=["self", "node", "prefix"], types={"node": "Node", "prefix": "str | None"}, returns="bool",
         requires=["node.parent is None or isinstance(node.parent, Node)"],
         defines=["iff(result, matched(self, node, prefix))"], ensures=[("exactly-the-claims", "iff(result, claims_hold(self, node, prefix))")],
         loops=[dict(inv=["all(has_custom(node, key_at(self.custom, i), self.custom[key_at(self.custom, i)]) for i in range(0, _i))"]),
                dict(inv=["all(has_custom(node.parent, key_at(self.parent_custom, i), self.parent_custom[key_at(self.parent_custom, i)]) for i in range(0, _i))"])])
macro("one_if(b)", "ite(b, 1, 0)")
contract("Template.specificity", returns="Any", ensures=[("claims-counted", "result == (len(self.custom), one_if(is_set(self.subtype)), one_if(is_set(self.prefix)), one_if(is_set(self.parent_type)), len(self.parent_custom), one_if(is_set(self.parent_subtype)), len(self.tags))")])
contract("create_visitor_exception", params=["text", "node", "data", "environment", "additional_info"], types={"text": "str", "node": "Node | None", "data": "dict[str, Any] | None", "environment": "Any", "additional_info": "Any"},
         requires=["implies(data is not None and len(data) > 0, '_context' in data)"], returns="MauException", ensures=["fresh(result)"], trusted="only builds the text of the error message from the data of the node")
# ---------------------------------------------------------------- choosing a template
field("JinjaVisitor", templates="dict[str, list[Template]]", template_prefixes="list[str]", environment="Environment")
field("MauException", message="Any")
# none of the first n templates of the list matches with prefix p; x is the first of the list that does
macro("none_match(ts, n, node, p)", "all(not matched(ts[k], node, p) for k in range(0, n))")
macro("first_match(ts, n, x, node, p)", "any(ts[j] is x and matched(x, node, p) and none_match(ts, j, node, p) for j in range(0, n))")
macro("first_in(v, ts, n, x, node)", "any(first_match(ts, len(ts), x, node, v.template_prefixes[i]) and all(none_match(ts, len(ts), node, v.template_prefixes[m]) for m in range(0, i)) for i in range(0, n))")
macro("no_prefix(v, ts, n, node)", "all(none_match(ts, len(ts), node, v.template_prefixes[m]) for m in range(0, n))")
contract("JinjaVisitor._find_matching_template", params=["self", "node", "data"], types={"node": "Node", "data": "dict[str, Any]"}, returns="Template",
         requires=["node.parent is None or isinstance(node.parent, Node)", "is_defaultdict(self.templates)", "node.type in self.templates", "implies(len(data) > 0, '_context' in data)"],
         raises_iff={"MauException": "no_prefix(self, self.templates[node.type], len(self.template_prefixes), node) and none_match(self.templates[node.type], len(self.templates[node.type]), node, None)"},
         ensures=[("prefixes-first", "first_in(self, self.templates[node.type], len(self.template_prefixes), result, node) or "
                   "(no_prefix(self, self.templates[node.type], len(self.template_prefixes), node) and first_match(self.templates[node.type], len(self.templates[node.type]), result, node, None))")],
         loops=[dict(inv=["fresh(matching_templates)", "implies(len(matching_templates) > 0, first_in(self, self.templates[node.type], _i, matching_templates[0], node))",
                          "implies(len(matching_templates) == 0, no_prefix(self, self.templates[node.type], _i, node))"]),
                *[dict(comp=f"for t in templates if t.match({a})", elem="Template", inv=["fresh(_comp)", f"implies(len(_comp) > 0, first_match(_it, _i, _comp[0], node, {p}))",
                       f"implies(len(_comp) == 0, none_match(_it, _i, node, {p}))"]) for a, p in (("node, prefix", "prefix"), ("node", "None"))]])
