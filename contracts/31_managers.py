# ---------------------------------------------------------------- header links
field("HeaderLinksManager", macros="list[MacroHeaderNode]", headers="dict[str, HeaderNode]")
macro("hl_wf(m)", "all(m.headers[k].name == k for k in m.headers)")
contract("HeaderLinksManager.add_header", params=["self", "header"], types={"header": "HeaderNode"},
         requires=["hl_wf(self)"],
         raises_iff={"MauException": "header.name in self.headers"},
         ensures_raise={"MauException": [("nothing-replaced", "same_dict(self.headers, old(self.headers))")]},
         modifies=["dict(self.headers)"],
         ensures=[("wf", "hl_wf(self)"), ("stored", "header.name in self.headers and self.headers[header.name] is header"),
                  ("others", "forall('val', lambda s: implies(s != header.name, iff(s in self.headers, old(s in self.headers)) and implies(s in self.headers, self.headers[s] is old(self.headers[s]))))")])
contract("HeaderLinksManager.add_macros", params=["self", "macros"], types={"macros": "list[MacroHeaderNode]"},
         modifies=["list(self.macros)"],
         ensures=["len(self.macros) == old(len(self.macros)) + old(len(macros))",
                  "all(self.macros[i] is old(self.macros[i]) for i in range(0, old(len(self.macros))))",
                  "all(self.macros[old(len(self.macros)) + i] is old(macros[i]) for i in range(0, old(len(macros))))"])
contract("HeaderLinksManager.process",
         raises_iff={"MauException": "any(m.target_name not in self.headers for m in self.macros)"},
         modifies=["(m.header for m in self.macros)", "(m.content for m in self.macros)"],
         ensures=[("linked", "all(m.target_name in self.headers and m.header is self.headers[m.target_name] for m in self.macros)"),
                  ("own-text-kept", "all(implies(old(len(m.content)) > 0, m.content is old(m.content)) for m in self.macros)"),
                  ("text-from-header", "all(implies(old(len(m.content)) == 0, hl_copied(self.headers[m.target_name], m)) for m in self.macros)")],
         loops=[dict(inv=["all(self.macros[i].target_name in self.headers and self.macros[i].header is self.headers[self.macros[i].target_name] for i in range(0, _i))",
                          "all(implies(old(len(m.content)) > 0, m.content is old(m.content)) for m in self.macros)",
                          "all(implies(old(len(m.content)) == 0, m.content is old(m.content) or (m.target_name in self.headers and hl_copied(self.headers[m.target_name], m))) for m in self.macros)",
                          "all(implies(old(len(self.macros[i].content)) == 0, hl_copied(self.headers[self.macros[i].target_name], self.macros[i])) for i in range(0, _i))"])])
macro("hl_copied(h, m)", "len(m.content) == len(h.content) and all(m.content[j].parent is m and copy_of(m.content[j], h.content[j]) and same_class(m.content[j], h.content[j]) for j in range(0, len(m.content)))")
contract("HeaderLinksManager.update", params=["self", "other"], types={"other": "HeaderLinksManager"},
         requires=["hl_wf(self)", "hl_wf(other)", "self is not other", "self.headers is not other.headers", "self.macros is not other.macros"],
         raises={"MauException": "any(k in self.headers for k in other.headers)"},
         modifies=["list(self.macros)", "dict(self.headers)"],
         ensures=[("wf", "hl_wf(self)"), ("macros-all", "len(self.macros) == old(len(self.macros)) + len(other.macros)"),
                  ("macros-kept", "all(self.macros[i] is old(self.macros[i]) for i in range(0, old(len(self.macros))))"),
                  ("macros-added", "all(self.macros[old(len(self.macros)) + i] is other.macros[i] for i in range(0, len(other.macros)))"),
                  ("headers-kept", "forall('val', lambda s: implies(old(s in self.headers), s in self.headers and self.headers[s] is old(self.headers[s])))"),
                  ("headers-only", "forall('val', lambda s: implies(s in self.headers, old(s in self.headers) or s in other.headers))"),
                  ("headers-added", "all(other.headers[k].name in self.headers and self.headers[other.headers[k].name] is other.headers[k] for k in other.headers)")],
         loops=[dict(inv=["hl_wf(self)", "forall('val', lambda s: implies(s in self.headers, old(s in self.headers) or (s in other.headers and pos_of(other.headers, s) < _i)))", "forall('val', lambda s: implies(old(s in self.headers), s in self.headers and self.headers[s] is old(self.headers[s])))",
                          "all(other.headers[key_at(other.headers, i)].name in self.headers and self.headers[other.headers[key_at(other.headers, i)].name] is other.headers[key_at(other.headers, i)] for i in range(0, _i))"])])


# ---------------------------------------------------------------- footnotes
field("FootnotesManager", footnotes_dict="dict[str, FootnoteNode]", footnote_macros="list[MacroFootnoteNode]", bodies="dict[str, BlockNode]",
      footnotes_list_nodes="list[FootnotesNode]", footnote_unique_id_function="func")
contract("FootnotesManager.add_footnote_macros", params=["self", "macros"], types={"macros": "list[MacroFootnoteNode]"}, modifies=["list(self.footnote_macros)"],
         requires=["macros is not self.footnote_macros"],
         ensures=["len(self.footnote_macros) == old(len(self.footnote_macros)) + len(macros)",
                  "all(self.footnote_macros[i] is old(self.footnote_macros[i]) for i in range(0, old(len(self.footnote_macros))))",
                  "all(self.footnote_macros[old(len(self.footnote_macros)) + i] is macros[i] for i in range(0, len(macros)))"])
contract("FootnotesManager.add_body", params=["self", "name", "data"], types={"name": "str", "data": "BlockNode"},
         raises_iff={"MauException": "name in self.bodies"}, modifies=["dict(self.bodies)"],
         ensures=[("stored", "name in self.bodies and self.bodies[name] is data"),
                  ("others", "forall('val', lambda s: implies(s != name, iff(s in self.bodies, old(s in self.bodies)) and implies(s in self.bodies, self.bodies[s] is old(self.bodies[s]))))"),
                  ("order", "all(key_at(self.bodies, i) == old(key_at(self.bodies, i)) for i in range(0, old(len(self.bodies))))"),
                  ("last", "len(self.bodies) == old(len(self.bodies)) + 1 and key_at(self.bodies, old(len(self.bodies))) == name")],
         ensures_raise={"MauException": [("nothing-replaced", "same_dict(self.bodies, old(self.bodies))")]})
contract("FootnotesManager.add_footnotes_list", params=["self", "data"], types={"data": "FootnotesNode"}, modifies=["list(self.footnotes_list_nodes)"],
         ensures=["len(self.footnotes_list_nodes) == old(len(self.footnotes_list_nodes)) + 1", "self.footnotes_list_nodes[old(len(self.footnotes_list_nodes))] is data",
                  "all(self.footnotes_list_nodes[i] is old(self.footnotes_list_nodes[i]) for i in range(0, old(len(self.footnotes_list_nodes))))"])
macro("fn_made(f, body, name, n)", "f.name == name and f.public_id == str(n) and len(f.content) == len(body.content) and "
      "all(f.content[j].parent is f and copy_of(f.content[j], body.content[j]) and same_class(f.content[j], body.content[j]) for j in range(0, len(f.content)))")
contract("FootnotesManager.process",
         requires=["len(self.footnotes_dict) == 0", "forall('val', lambda s: s not in self.footnotes_dict)", "self.footnotes_dict is not self.bodies"],
         raises_iff={"MauException": "any(m.name not in self.bodies for m in self.footnote_macros)"},
         modifies=["dict(self.footnotes_dict)", "(m.footnote for m in self.footnote_macros)", "(l.footnotes for l in self.footnotes_list_nodes)"],
         ensures=[("one-per-body", "len(self.footnotes_dict) == len(self.bodies) and all(key_at(self.footnotes_dict, i) == key_at(self.bodies, i) for i in range(0, len(self.bodies)))"),
                  ("numbered-in-order", "all(fn_made(self.footnotes_dict[key_at(self.bodies, i)], self.bodies[key_at(self.bodies, i)], key_at(self.bodies, i), i + 1) for i in range(0, len(self.bodies)))"),
                  ("macros-linked", "all(m.name in self.footnotes_dict and m.footnote is self.footnotes_dict[m.name] for m in self.footnote_macros)"),
                  ("lists-complete", "all(fn_listed(self, l) for l in self.footnotes_list_nodes)")],
         loops=[dict(inv=["len(self.footnotes_dict) == _i", "all(key_at(self.footnotes_dict, i) == key_at(self.bodies, i) for i in range(0, _i))",
                          "forall('val', lambda s: iff(s in self.footnotes_dict, s in self.bodies and pos_of(self.bodies, s) < _i))",
                          "all(fn_made(self.footnotes_dict[key_at(self.bodies, i)], self.bodies[key_at(self.bodies, i)], key_at(self.bodies, i), i + 1) for i in range(0, _i))"]),
                dict(inv=["all(self.footnote_macros[i].name in self.footnotes_dict and self.footnote_macros[i].footnote is self.footnotes_dict[self.footnote_macros[i].name] for i in range(0, _i))"]),
                dict(inv=["all(fn_listed(self, self.footnotes_list_nodes[i]) for i in range(0, _i))"]),
                dict(comp="FootnotesItemNode(", elem="FootnotesItemNode", inv=["len(_comp) == _i", "all(fresh(_comp[_j]) and _comp[_j].parent is footnotes_list_node and _comp[_j].footnote is _it[key_at(_it, _j)] for _j in range(0, _i))"])])
macro("fn_listed(m, l)", "len(l.footnotes) == len(m.footnotes_dict) and all(l.footnotes[j].footnote is m.footnotes_dict[key_at(m.footnotes_dict, j)] and l.footnotes[j].parent is l for j in range(0, len(l.footnotes)))")
