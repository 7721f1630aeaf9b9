"""P09: relative imports

Relative imports with up to 4 dots and up to 2 name components in scripts and in
modules, packages and bytecode-only modules with up to 4 name components (5 in the thorough tier), all
names symbolic: the target is the one Python computes, or an invalid relative
import.
"""

from .worlds import Prog

FORMS = tuple(("from", lv, n, 1, False) for lv in (1, 2, 3, 4) for n in (0, 1, 2)) + (
    ("star", 1, 0), ("star", 1, 1), ("star", 3, 1))


def harnesses(tier):
    return [
        Prog(f"depth{d}", "p09", FORMS, root=d, rootkinds=("source", "pkg", "bytecode", "bpkg"),
             must=("valid", "invalid") if d > 1 else ("invalid",)) for d in ((1, 2, 3, 4, 5) if tier == "thorough" else (1, 2, 3, 4))
    ] + [Prog("script", "p09", FORMS, script=True, n=2, must=("invalid",))]
