"""Write BOUNDS.md: the harnesses of every check with their bounds"""

import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sym import rewrite  # noqa: E402

rewrite.install()
with open(os.path.join(VERIF, "BOUNDS.md"), "w") as fp:
    print("# Bounds of the harnesses\n\n(generated by tools/bounds.py)", file=fp)
    for i in range(1, 31):
        mod = importlib.import_module(f"checks.p{i:02}")
        print(f"\n## P{i:02}\n", file=fp)
        thorough = {h.name: h for h in mod.harnesses("thorough")}
        quick = {h.name: h for h in mod.harnesses("quick")}
        for nm in dict.fromkeys([*quick, *thorough]):
            q, t = quick.get(nm), thorough.get(nm)
            print(f"- `{nm}`: ", end="", file=fp)
            if q is None:
                print(f"(thorough only) {t.bounds}", file=fp)
            elif t is None or t.bounds == q.bounds:
                print(f"{q.bounds}", file=fp)
            else:
                print(f"{q.bounds}; thorough: {t.bounds}", file=fp)
