# ---------------------------------------------------------------- the flat store of variables (C11)
# a value that is kept as it is: anything but a dictionary with entries
macro("leaf(v)", "not isinstance(v, dict) or len(cast(v, 'dict[str, Any]')) == 0")
macro("all_leaves(d)", "forall('val', lambda s: implies(s in d, leaf(d[s])))")
macro("top(p)", "p is None or p == ''")
contract("flatten_nested_dict", params=["nested", "parent_key", "separator"], types={"nested": "dict[str, Any]", "parent_key": "str | None", "separator": "str"}, returns="dict[str, Any]",
         ensures=[("new", "fresh(result)"),
                  ("leaves", "implies(old(all_leaves(nested)) and top(parent_key), forall('val', lambda s: iff(s in result, s in nested) and implies(s in nested, result[s] is nested[s])))")],
         loops=[dict(inv=["fresh(flat)", "implies(old(all_leaves(nested)) and top(parent_key), all(key_at(nested, i) in flat and flat[key_at(nested, i)] is nested[key_at(nested, i)] for i in range(0, _i)))",
                          "implies(old(all_leaves(nested)) and top(parent_key), forall('val', lambda s: implies(s in flat, s in nested)))"])])
# `b` has been written over `a`: every entry of `b`, and those of `a` under other names
macro("written(new, a, b)", "forall('val', lambda s: iff(s in new, old(s in a or s in b)) and implies(old(s in b), new[s] is old(b[s])) and implies(old(s in a and s not in b), new[s] is old(a[s])))")
macro("entries_kept(new, a)", "forall('val', lambda s: implies(old(s in a), s in new and new[s] is old(a[s])))")
contract("Environment.__init__", modifies=["self._variables"], ensures=["fresh(self._variables) and no_keys(self._variables)"])
contract("Environment.dupdate", params=["self", "other", "namespace"], types={"other": "dict[str, Any]", "namespace": "str | None"}, modifies=["dict(self._variables)"],
         ensures=[("written", "implies(top(namespace) and old(all_leaves(other)), written(self._variables, old(self._variables), old(other)))")])
contract("Environment.__setitem__", params=["self", "key", "value"], types={"key": "str", "value": "Any"}, modifies=["dict(self._variables)"],
         ensures=[("set", "implies(old(leaf(value)), key in self._variables and self._variables[key] is value)"),
                  ("others", "implies(old(leaf(value)), forall('val', lambda s: implies(s != key, iff(s in self._variables, old(s in self._variables)) and implies(s in self._variables, self._variables[s] is old(self._variables[s])))))")])
contract("Environment.from_dict", params=["cls", "other", "namespace"], types={"cls": "Any", "other": "dict[str, Any]", "namespace": "str | None"}, returns="Environment", 
         ensures=["fresh(result) and fresh(result._variables)", ("copied", "implies(top(namespace) and old(all_leaves(other)), forall('val', lambda s: iff(s in result._variables, s in other) and implies(s in other, result._variables[s] is other[s])))")])
contract("Environment.update", params=["self", "other", "namespace", "overwrite"], types={"other": "Environment", "namespace": "str | None", "overwrite": "bool"}, modifies=["dict(self._variables)", "self._variables"],
         ensures=[("same-store", "ite(overwrite, self._variables is old(self._variables), fresh(self._variables))"), ("over", "implies(overwrite and top(namespace) and old(all_leaves(other._variables)), written(self._variables, old(self._variables), old(other._variables)))"),
                  ("under", "implies(not overwrite and top(namespace) and old(all_leaves(other._variables)), written(self._variables, old(other._variables), old(self._variables)))"),
                  ("kept", "implies(not overwrite, entries_kept(self._variables, old(self._variables)))")])
contract("Environment.from_environment", params=["cls", "other", "namespace"], types={"cls": "Any", "other": "Environment", "namespace": "str | None"}, returns="Environment",
         ensures=["fresh(result) and fresh(result._variables)", ("copied", "implies(top(namespace) and old(all_leaves(other._variables)), forall('val', lambda s: iff(s in result._variables, s in other._variables) and implies(s in other._variables, result._variables[s] is other._variables[s])))")])
contract("Environment.get", params=["self", "key", "default"], types={"key": "str", "default": "Any"}, returns="Any", requires=["forall('val', lambda s: implies(s in self._variables, isinstance(s, str)))"],
         ensures=[("value", "implies(key in self._variables, result is self._variables[key])"),
                  ("namespace-or-default", "implies(key not in self._variables and isinstance(default, Environment), isinstance(result, Environment))"),
                  ("default", "implies(key not in self._variables and not any(key_at(self._variables, i).startswith(key + '.') for i in range(0, len(self._variables))), result is default)"),
                  ("namespace", "implies(key not in self._variables and any(key_at(self._variables, i).startswith(key + '.') for i in range(0, len(self._variables))), isinstance(result, Environment) and fresh(result))"),
                  ("entries", "implies(key not in self._variables and any(key_at(self._variables, i).startswith(key + '.') for i in range(0, len(self._variables))) and all_leaves(self._variables), "
                   "forall('str', lambda s: iff(s in cast(result, 'Environment')._variables, key + '.' + s in self._variables) and implies(key + '.' + s in self._variables, cast(result, 'Environment')._variables[s] is self._variables[key + '.' + s])))")],
         loops=[dict(), dict(comp="{", elem="dict[str, Any]", inv=["fresh(_comp)", "forall('val', lambda s: implies(s in _comp, isinstance(s, str)))",
                     "forall('str', lambda s: implies(s in _comp, key + '.' + s in self._variables and _comp[s] is self._variables[key + '.' + s]))",
                     "all(implies(key_at(self._variables, i).startswith(key + '.'), key_at(self._variables, i)[len(key) + 1:] in _comp) for i in range(0, _i))"])])
contract("Environment.asflatdict", returns="dict[str, Any]", ensures=["result is self._variables"])
