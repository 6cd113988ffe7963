"""setup: the verifier loads the contracts against the current tree and its solvers answer."""
import glob
import os
import shutil
import sys


def main():
    import z3
    s = z3.Solver()
    x = z3.Int("x")
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    for tool in ("cvc5", "z3"):
        print(tool, shutil.which(tool) or "missing (only used as a second opinion)")
    from pyvc.verify import load
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    _, reg = load(os.environ.get("VERIF_REPO", "/repo"), sorted(glob.glob(os.path.join(here, "contracts", "*.py"))))
    print(len(reg.contracts), "contracts loaded")
    return 0


if __name__ == "__main__":
    sys.exit(main())
