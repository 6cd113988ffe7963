# ---------------------------------------------------------------- copies of nodes: every field of every class
# plain: kept as it is; lists: a fresh list with the same elements; kids: every element copied under the new node;
# maps: a fresh dictionary with the same keys in the same order, every value copied; one: copied (or None)
macro("copied_map(a, b, p)", "len(a) == len(b) and all(key_at(a, i) == key_at(b, i) and copy_of(a[key_at(b, i)], b[key_at(b, i)]) and a[key_at(b, i)].parent is p and "
      "same_class(a[key_at(b, i)], b[key_at(b, i)]) and fresh(a[key_at(b, i)]) for i in range(0, len(b)))")
macro("copied_strs(a, b)", "fresh(a) and a is not b and len(a) == len(b) and all(a[i] is b[i] for i in range(0, len(b)))")
contract("NodeContentMixin._deepcopy_content", params=["self", "new_node"], types={"new_node": "NodeContentMixin"}, requires=["new_node is not self"],
         modifies=["new_node.content"], ensures=[("content", "fresh(new_node.content) and copied_list(new_node.content, self.content, new_node)")])
contract("NodeLabelsMixin._deepcopy_labels", params=["self", "new_node"], types={"new_node": "NodeLabelsMixin"}, requires=["new_node is not self"],
         modifies=["new_node.labels"], ensures=[("labels", "fresh(new_node.labels) and copied_map(new_node.labels, self.labels, new_node)")])

field("ConditionNode", variable="str", comparison="str", value="str")
field("IncludeNode", ctype="str", labels="dict[str, Node]")
field("IncludeImageNode", uri="str", alt_text="str | None")
field("IncludeMauNode", uri="str", content="list[Node]", labels="dict[str, Node]")
field("IncludeRawNode", uri="str", content="list[Node]", labels="dict[str, Node]")
field("HorizontalRuleNode", labels="dict[str, Node]")
field("FootnotesNode", labels="dict[str, Node]")
field("TocNode", labels="dict[str, Node]")
field("BlockGroupNode", labels="dict[str, Node]")
field("StyleNode", style="str", content="list[Node]")
field("LabelNode", role="str")
field("ListItemNode", level="int")
field("WrapperNode", content="list[Node]")
field("ListNode", ordered="bool", main_node="bool", start="int", content="list[Node]", labels="dict[str, Node]")
field("MacroNode", name="str")
field("MacroClassNode", classes="list[str]", content="list[Node]")
field("MacroLinkNode", target="str", content="list[Node]")
field("MacroImageNode", uri="str", alt_text="str | None", width="str | None", height="str | None")
field("ValueNode", value="Any")
field("ParagraphNode", content="list[Node]", labels="dict[str, Node]")
field("ParagraphLineNode", content="list[Node]", labels="dict[str, Node]")
field("SourceMarkerNode", value="str")
field("SourceLineNode", line_number="str", line_content="str", highlight_style="str | None", marker="SourceMarkerNode | None")

NODE_FIELDS = {
    "BlockNode": dict(lists="classes", kids="content", maps="labels"),
    "ConditionNode": dict(plain="variable comparison value"),
    "HorizontalRuleNode": dict(maps="labels"),
    "FootnoteNode": dict(plain="name public_id internal_id", kids="content"),
    "HeaderNode": dict(plain="level internal_id name", kids="content", maps="labels"),
    "IncludeNode": dict(plain="ctype", maps="labels"),
    "IncludeImageNode": dict(plain="uri alt_text", lists="classes", maps="labels"),
    "IncludeMauNode": dict(plain="uri", kids="content", maps="labels"),
    "IncludeRawNode": dict(plain="uri", kids="content", maps="labels"),
    "FootnotesItemNode": dict(plain="footnote"),
    "FootnotesNode": dict(kids="footnotes", maps="labels"),
    "TocItemNode": dict(plain="header", kids="entries"),
    "TocNode": dict(kids="plain_entries nested_entries", maps="labels"),
    "BlockGroupItemNode": dict(plain="group position", one="block"),
    "BlockGroupNode": dict(plain="name", maps="items labels"),
    "StyleNode": dict(plain="style", kids="content"),
    "LabelNode": dict(plain="role", kids="content"),
    "ListItemNode": dict(plain="level", kids="content"),
    "ListNode": dict(plain="ordered main_node start", kids="content", maps="labels"),
    "MacroNode": dict(plain="name"),
    "MacroClassNode": dict(lists="classes", kids="content"),
    "MacroLinkNode": dict(plain="target", kids="content"),
    "MacroImageNode": dict(plain="uri alt_text width height"),
    "MacroHeaderNode": dict(plain="target_name header", kids="content"),
    "MacroFootnoteNode": dict(plain="name footnote"),
    "ValueNode": dict(plain="value"),
    "WrapperNode": dict(kids="content"),
    "ParagraphLineNode": dict(kids="content", maps="labels"),
    "ParagraphNode": dict(kids="content", maps="labels"),
    "RawNode": dict(lists="classes", kids="content", maps="labels"),
    "SourceLineNode": dict(plain="line_number line_content highlight_style", opt="marker"),
    "SourceNode": dict(plain="language", lists="classes", kids="content", maps="labels"),
}


def _copy_ensures(spec):
    out = [("copied", "copied(result, self, parent)")]
    for f in spec.get("plain", "").split():
        out.append((f, f"result.{f} == self.{f}"))
    for f in spec.get("lists", "").split():
        out.append((f, f"copied_strs(result.{f}, self.{f})"))
    for f in spec.get("kids", "").split():
        out.append((f, f"fresh(result.{f}) and copied_list(result.{f}, self.{f}, result)"))
    for f in spec.get("maps", "").split():
        out.append((f, f"fresh(result.{f}) and copied_map(result.{f}, self.{f}, result)"))
    for f in spec.get("one", "").split():
        out.append((f, f"fresh(result.{f}) and copy_of(result.{f}, self.{f}) and result.{f}.parent is result"))
    for f in spec.get("opt", "").split():
        out.append((f, f"ite(self.{f} is None, result.{f} is None, fresh(result.{f}) and copy_of(result.{f}, self.{f}) and result.{f}.parent is result)"))
    return out


for _cls, _spec in NODE_FIELDS.items():
    contract(f"{_cls}.deepcopy", params=["self", "parent"], types={"parent": "Node | None"}, returns=_cls, ensures=_copy_ensures(_spec), defines=["copy_of(result, self)"])
