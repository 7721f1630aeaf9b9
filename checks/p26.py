"""P26: dependencies of source fragments

Fragments with the stated import statements at any place, with symbolic names, in
symbolic worlds, for new graphs and for graphs that have modules.
"""

from oracle.model import LOCS, RAW

from .p10 import excludes
from .p11 import one
from .worlds import ALL, FEW, SOME, GraphHarness, World, dotted, statement

FORMS = (("import", 1, False), ("import", 2, False), ("import", 2, True), ("from", 0, 1, 1, False),
         ("from", 0, 1, 1, True), ("from", 0, 2, 1, False), ("star", 0, 1),
         ("from", 1, 0, 1, False), ("from", 1, 1, 1, False), ("from", 2, 1, 1, False))
FROM = (("from", 0, 1, 1, False), ("import", 2, False))
OTHER = (("import", 1, False), ("from", 0, 1, 1, False), ("from", 1, 0, 1, False), ("assign",),
         ("star", 0, 1))


def sysmodules(E, w):
    """an entry of sys.modules for another module"""
    w.alias(dotted(1, "al"), dotted(1 + E.choice("n", 2)))
    return ()


def module(E, w):
    """a module that is added first"""
    yield ["module", dotted(1 + E.choice("n", 2))]


class Fragments(GraphHarness):
    oracle = "p26"
    sample_mod = 64

    def __init__(self, name, forms, n=1, locs=("top",), kinds=FEW, other=(), other_n=0, pre=None,
                 post=None, raw=False, crashes=(0,), must=("target",)):
        self.name = name
        self.o = (forms, n, locs, kinds, other, other_n, pre, post, raw, crashes)
        self.must_reach = must
        self.bounds = {
            "statements in fragment": f"{n} of {forms} at {locs}",
            "modules": kinds,
            "statements in modules": f"at most {other_n} of {other}",
            "before": pre.__doc__ if pre else None,
            "after": post.__doc__ if post else None,
            "invalid fragments": RAW[:1] + RAW[2:4] if raw else None,
        }

    def build(self, E):
        forms, n, locs, kinds, other, other_n, pre, post, raw, crashes = self.o
        left = [other_n]

        def stmts(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, other))
            return out

        w = World(lambda w, c, p: kinds, stmts, crashes)
        ops = list(pre(E, w)) if pre else []
        if raw:
            ops.append(["source", [{"form": "raw", "text": E.pick("raw", (0, 2, 3))}]])
        ops.append(["source", [statement(E, forms, locs) for _ in range(n)]])
        ops.extend(post(E, w) if post else ())
        return w, {"ops": ops}


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Fragments("forms", FORMS, locs=tuple(LOCS), must=("target", "name", "relative")),
        Fragments("kinds", FROM, kinds=ALL, crashes=(0, 1, 4)),
        Fragments("two", FORMS if deep else FORMS[:1] + FORMS[3:4] + FORMS[7:8], n=2),
        Fragments("names", (("from", 0, 1, 2, False),), kinds=SOME, other=OTHER[3:] if not deep else OTHER, other_n=1,
                  must=("name",)),
        Fragments("imports", FROM, other=OTHER, other_n=2 if deep else 1, must=("name",)),
        Fragments("known", FROM, pre=module, post=module, kinds=FEW),
        Fragments("excludes", FROM, pre=excludes),
        Fragments("implies", FROM[:1] if not deep else FROM, pre=one),
        Fragments("sysmodules", FROM, pre=sysmodules),
        Fragments("invalid", FROM, pre=module, raw=True, must=("invalid", "target")),
    ]
