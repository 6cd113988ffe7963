# ---------------------------------------------------------------- nodes
field("Node", parent="Node | None", arguments="NodeArguments", info="NodeInfo")
field("NodeInfo", context="Context")
field("NodeContentMixin", content="list[Node]")
field("NodeLabelsMixin", labels="dict[str, Node]")
field("HeaderNode", level="int", internal_id="str | None", name="str | None", content="list[Node]", labels="dict[str, Node]")
field("MacroHeaderNode", target_name="str", header="HeaderNode | None", content="list[Node]")
field("MacroFootnoteNode", name="str", footnote="FootnoteNode | None")
field("FootnoteNode", name="str", public_id="str | None", internal_id="Any", content="list[Node]")
field("FootnotesItemNode", footnote="FootnoteNode")
field("FootnotesNode", footnotes="list[FootnotesItemNode]")
field("TocItemNode", header="HeaderNode", entries="list[TocItemNode]")
field("TocNode", plain_entries="list[HeaderNode]", nested_entries="list[TocItemNode]")
field("BlockNode", classes="list[str]", content="list[Node]", labels="dict[str, Node]")
field("BlockGroupItemNode", group="str", position="str", block="BlockNode")
field("BlockGroupNode", name="str", items="dict[str, BlockGroupItemNode]")

# copy_of(a, b): a was returned by copying b.  Only copying establishes it, what it means is the contract of each class.
uninterpreted("copy_of", ["Node", "Node"], "bool")
macro("same_args(a, b)", "a.subtype is b.subtype and a.unnamed_args is b.unnamed_args and a.named_args is b.named_args and a.tags is b.tags and a.internal_tags is b.internal_tags")
macro("copied(r, n, p)", "fresh(r) and r.parent is p and same_class(r, n) and fresh(r.arguments) and same_args(r.arguments, n.arguments) and fresh(r.info) and r.info.context is n.info.context")
macro("copied_list(a, b, p)", "len(a) == len(b) and all(copy_of(a[j], b[j]) and a[j].parent is p and same_class(a[j], b[j]) and fresh(a[j]) for j in range(0, len(b))) and "
      "all(implies(j != k, a[j] is not a[k]) for j in range(0, len(b)) for k in range(0, len(b)))")
contract("Node.deepcopy", virtual=True, params=["self", "parent"], types={"parent": "Node | None"}, returns="Node",
         ensures=[("fresh", "fresh(result)"), ("parent", "result.parent is parent"), ("same-class", "same_class(result, self)"),
                  ("arguments", "fresh(result.arguments) and same_args(result.arguments, self.arguments)"),
                  ("info", "fresh(result.info) and result.info.context is self.info.context")],
         defines=["copy_of(result, self)"])
field("SourceNode", classes="list[str]", content="list[SourceLineNode]", language="Any", labels="dict[str, Node]")
field("RawNode", classes="list[str]", content="list[Node]", labels="dict[str, Node]")
field("IncludeImageNode", classes="list[str]", labels="dict[str, Node]")
