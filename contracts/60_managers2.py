# ---------------------------------------------------------------- block groups (C17)
field("BlockGroupManager", items="dict[str, dict[str, BlockGroupItemNode]]", groups="list[BlockGroupNode]")
# a manager: the dictionaries of its groups are its own, an item is stored under its own group and position and holds its block
macro("bg_wf(m)", "is_defaultdict(m.items) and forall('str', lambda g: implies(g in m.items, m.items[g] is not m.items and all(m.items[g][p].position == p and m.items[g][p].group == g for p in m.items[g]))) and "
      "forall('str', lambda g: forall('str', lambda h: implies(g in m.items and h in m.items and g != h, m.items[g] is not m.items[h])))")
contract("BlockGroupManager.add_group", params=["self", "data"], types={"data": "BlockGroupNode"}, modifies=["list(self.groups)"],
         ensures=["len(self.groups) == old(len(self.groups)) + 1", "self.groups[old(len(self.groups))] is data", "all(self.groups[i] is old(self.groups[i]) for i in range(0, old(len(self.groups))))"])
contract("BlockGroupManager.add_block", params=["self", "group", "position", "node"], types={"group": "str", "position": "str", "node": "BlockNode"},
         requires=["bg_wf(self)"],
         raises_iff={"MauException": "group in self.items and position in self.items[group]"},
         modifies=["dict(self.items)", "(dict(self.items[g]) for g in self.items if g == group)", "node.parent"],
         ensures=[("wf", "bg_wf(self)"), ("stored", "group in self.items and position in self.items[group] and fresh(self.items[group][position]) and self.items[group][position].block is node and "
                   "self.items[group][position].group == group and self.items[group][position].position == position and node.parent is self.items[group][position]"),
                  ("other-positions", "forall('str', lambda p: implies(p != position, iff(p in self.items[group], old(group in self.items and p in self.items[group])) and "
                   "implies(p in self.items[group], self.items[group][p] is old(self.items[group][p]))))"),
                  ("other-groups", "forall('str', lambda g: implies(g != group, iff(g in self.items, old(g in self.items)) and implies(g in self.items, self.items[g] is old(self.items[g]))))")])
macro("bg_shown(m, g)", "g.name in m.items and forall('str', lambda p: implies(p in m.items[g.name], p in g.items and g.items[p] is m.items[g.name][p] and g.items[p].position == p))")
contract("BlockGroupManager.process", requires=["bg_wf(self)", "forall('str', lambda n: implies(n in self.items, all(g.items is not self.items[n] for g in self.groups)))", "all(g.items is not self.items for g in self.groups)",
                                                "all(implies(j != k, self.groups[j].items is not self.groups[k].items) for j in range(0, len(self.groups)) for k in range(0, len(self.groups)))"],
         raises_iff={"MauException": "any(g.name not in self.items for g in self.groups)"},
         modifies=["any.parent", "(dict(g.items) for g in self.groups)"],
         ensures=[("all-blocks", "all(bg_shown(self, g) for g in self.groups)"),
                  ("no-others", "all(forall('str', lambda p: implies(p in g.items, old(p in g.items) or p in self.items[g.name])) for g in self.groups)")],
         loops=[dict(modifies=["any.parent", "(dict(g.items) for g in self.groups)"], inv=["all(bg_shown(self, self.groups[i]) for i in range(0, _i))",
                          "all(forall('str', lambda p: implies(p in self.groups[i].items, old(p in self.groups[i].items) or (i < _i and p in self.items[self.groups[i].name]))) for i in range(0, len(self.groups)))"]),
                dict(modifies=["any.parent", "dict(group_node.items)"], inv=["all(bg_shown(self, self.groups[i]) for i in range(0, _i0))", "bg_shown(self, group_node)",
                          "all(forall('str', lambda p: implies(p in self.groups[i].items, old(p in self.groups[i].items) or (i <= _i0 and p in self.items[self.groups[i].name]))) for i in range(0, len(self.groups)))"])])

# ---------------------------------------------------------------- footnotes: merging two managers
contract("FootnotesManager.update", params=["self", "other"], types={"other": "FootnotesManager"},
         requires=["self is not other", "self.bodies is not other.bodies", "self.footnote_macros is not other.footnote_macros", "self.footnotes_list_nodes is not other.footnotes_list_nodes",
                   "self.footnote_macros is not other.footnotes_list_nodes", "self.footnotes_list_nodes is not other.footnote_macros", "self.footnote_macros is not self.footnotes_list_nodes"],
         raises_iff={"MauException": "any(k in self.bodies for k in other.bodies)"},
         modifies=["list(self.footnote_macros)", "dict(self.bodies)", "list(self.footnotes_list_nodes)"],
         ensures=[("macros", "len(self.footnote_macros) == old(len(self.footnote_macros)) + len(other.footnote_macros) and all(self.footnote_macros[i] is old(self.footnote_macros[i]) for i in range(0, old(len(self.footnote_macros)))) and "
                   "all(self.footnote_macros[old(len(self.footnote_macros)) + i] is other.footnote_macros[i] for i in range(0, len(other.footnote_macros)))"),
                  ("lists", "len(self.footnotes_list_nodes) == old(len(self.footnotes_list_nodes)) + len(other.footnotes_list_nodes) and all(self.footnotes_list_nodes[i] is old(self.footnotes_list_nodes[i]) for i in range(0, old(len(self.footnotes_list_nodes)))) and "
                   "all(self.footnotes_list_nodes[old(len(self.footnotes_list_nodes)) + i] is other.footnotes_list_nodes[i] for i in range(0, len(other.footnotes_list_nodes)))"),
                  ("bodies", "forall('val', lambda s: iff(s in self.bodies, old(s in self.bodies) or s in other.bodies) and implies(old(s in self.bodies), self.bodies[s] is old(self.bodies[s])) and implies(s in other.bodies, self.bodies[s] is other.bodies[s]))"),
                  ("order", "len(self.bodies) == old(len(self.bodies)) + len(other.bodies) and all(key_at(self.bodies, i) == old(key_at(self.bodies, i)) for i in range(0, old(len(self.bodies)))) and "
                   "all(key_at(self.bodies, old(len(self.bodies)) + i) == key_at(other.bodies, i) for i in range(0, len(other.bodies)))")],
         loops=[dict(modifies=["dict(self.bodies)"], inv=["len(self.bodies) == old(len(self.bodies)) + _i", "all(key_at(self.bodies, i) == old(key_at(self.bodies, i)) for i in range(0, old(len(self.bodies))))",
                          "all(key_at(self.bodies, old(len(self.bodies)) + i) == key_at(other.bodies, i) for i in range(0, _i))",
                          "forall('val', lambda s: iff(s in self.bodies, old(s in self.bodies) or (s in other.bodies and pos_of(other.bodies, s) < _i)) and implies(old(s in self.bodies), self.bodies[s] is old(self.bodies[s])) and "
                          "implies(s in other.bodies and pos_of(other.bodies, s) < _i, not old(s in self.bodies) and self.bodies[s] is other.bodies[s]))"])])

# ---------------------------------------------------------------- table of contents (C14)
field("TocManager", headers="list[HeaderNode]", toc_nodes="list[TocNode]", header_internal_id_function="func", nested_headers="list[TocItemNode]")
contract("TocManager.add_header", params=["self", "data"], types={"data": "HeaderNode"}, modifies=["list(self.headers)"],
         ensures=["len(self.headers) == old(len(self.headers)) + 1", "self.headers[old(len(self.headers))] is data", "all(self.headers[i] is old(self.headers[i]) for i in range(0, old(len(self.headers))))"])
contract("TocManager.add_toc_node", params=["self", "data"], types={"data": "TocNode"}, modifies=["list(self.toc_nodes)"],
         ensures=["len(self.toc_nodes) == old(len(self.toc_nodes)) + 1", "self.toc_nodes[old(len(self.toc_nodes))] is data", "all(self.toc_nodes[i] is old(self.toc_nodes[i]) for i in range(0, old(len(self.toc_nodes))))"])
contract("TocManager.update", params=["self", "other"], types={"other": "TocManager"}, requires=["self.headers is not other.headers", "self.toc_nodes is not other.headers", "self.headers is not other.toc_nodes", "self.toc_nodes is not other.toc_nodes", "self.headers is not self.toc_nodes"],
         modifies=["list(self.headers)", "list(self.toc_nodes)"],
         ensures=[(f, f"len(self.{f}) == old(len(self.{f})) + len(other.{f}) and all(self.{f}[i] is old(self.{f}[i]) for i in range(0, old(len(self.{f})))) and all(self.{f}[old(len(self.{f})) + i] is other.{f}[i] for i in range(0, len(other.{f})))")
                  for f in ("headers", "toc_nodes")])
