# ---------------------------------------------------------------- naming positional arguments
field("NodeArguments", unnamed_args="list[str]", named_args="dict[str, str]", tags="list[str]", internal_tags="list[str]", subtype="str | None")

contract("set_names", params=["unnamed", "named", "names"],
         types={"unnamed": "list", "named": "dict[str, Any]", "names": "list[str]"},
         returns="tuple[list, dict[str, Any]]",
         requires=["all(implies(j != k, names[j] != names[k]) for j in range(0, len(names)) for k in range(0, len(names)))"],
         modifies=["dict(named)"],
         ensures=[
             ("same-dict", "result[1] is named"),
             ("explicit-wins", "forall('str', lambda s: implies(old(s in named), s in named and named[s] is old(named[s])))"),
             ("assigned-in-order", "all(implies(old(names[k] not in named) and old(count(lambda i: names[i] not in named, k)) < len(unnamed), "
              "names[k] in named and named[names[k]] is unnamed[old(count(lambda i: names[i] not in named, k))]) for k in range(0, len(names)))"),
             ("unassigned-absent", "all(implies(old(names[k] not in named) and old(count(lambda i: names[i] not in named, k)) >= len(unnamed), names[k] not in named) for k in range(0, len(names)))"),
             ("nothing-else", "forall('str', lambda s: implies(s in named and old(s not in named), any(names[k] == s for k in range(0, len(names)))))"),
             ("rest-kept", "len(result[0]) == max(0, len(unnamed) - old(count(lambda i: names[i] not in named, len(names)))) and "
              "all(result[0][j] is unnamed[j + old(count(lambda i: names[i] not in named, len(names)))] for j in range(0, len(result[0])))"),
         ])

# ---------------------------------------------------------------- buffers
macro("no_keys(d)", "len(d) == 0 and forall('val', lambda s: s not in d)")
field("ArgumentsBuffer", arguments="NodeArguments | None")
contract("ArgumentsBuffer.push", params=["self", "arguments"], types={"arguments": "NodeArguments"}, ensures=["self.arguments is arguments"], modifies=["self.arguments"])
contract("ArgumentsBuffer.pop", returns="NodeArguments | None", ensures=["result is old(self.arguments)", "self.arguments is None"], modifies=["self.arguments"])
contract("ArgumentsBuffer.pop_or_default", returns="NodeArguments", modifies=["self.arguments"],
         ensures=["self.arguments is None", "implies(old(self.arguments) is not None, result is old(self.arguments))",
                  "implies(old(self.arguments) is None, fresh(result) and fresh(result.unnamed_args) and fresh(result.named_args) and fresh(result.tags) and fresh(result.internal_tags) and no_keys(result.named_args) and len(result.unnamed_args) == 0 and len(result.named_args) == 0 and len(result.tags) == 0 and len(result.internal_tags) == 0 and result.subtype is None)"])
field("LabelBuffer", labels="dict[str, LabelNode]")
contract("LabelBuffer.push", params=["self", "role", "node"], types={"role": "str", "node": "LabelNode"}, modifies=["dict(self.labels)"],
         ensures=["role in self.labels and self.labels[role] is node",
                  "forall('val', lambda s: implies(s != role, iff(s in self.labels, old(s in self.labels)) and implies(s in self.labels, self.labels[s] is old(self.labels[s]))))"])
contract("LabelBuffer.pop", returns="dict[str, LabelNode]", modifies=["self.labels"],
         ensures=["result is old(self.labels)", "fresh(self.labels) and no_keys(self.labels)", "same_dict(result, old(self.labels))"])
field("ControlBuffer", control="Control | None")
contract("ControlBuffer.push", params=["self", "control"], types={"control": "Control"}, ensures=["self.control is control"], modifies=["self.control"])
contract("ControlBuffer.pop", returns="Control | None", ensures=["result is old(self.control)", "self.control is None"], modifies=["self.control"])
