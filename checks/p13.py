"""P13: hooks for missing modules

Programs and operations of the stated shapes with symbolic names in symbolic
worlds, with one to three hooks, each of which may or may not return a node for a
name: hooks are called once per missing name with the importing module, the last
one that was added first, until one returns a node, which is then used.
"""

from .p11 import value
from .worlds import ALL, Prog, dotted, ident, statement

FROM = (("from", 0, 1, 1, False), ("import", 2, False))
DEEP = (("import", 3, False), ("from", 0, 2, 1, False), ("from", 0, 1, 2, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("assign",))


def config(E, w):
    """an excluded name, or a name that implies a name, or is an alias or virtual"""
    if E.choice("exclude", 2):
        yield ["exclude", [dotted(1 + E.choice("n", 2), "ex")]]
    else:
        yield ["implies", [[dotted(1, "from"), value(E)]]]


def alias(E, w):
    """an entry of sys.modules that is not a module"""
    w.alias(dotted(1, "al"), E.pick("what", ("nospec", "nonespec")))
    return []


def more(E, w, ops):
    """another root, script or source fragment"""
    what = E.pick("op", ("module", "script"))
    if what == "module":
        yield ["module", dotted(1 + E.choice("n", 2))]
    elif what == "script":
        yield ["script", [statement(E, OTHER[:3])]]


def harnesses(tier):
    deep = tier == "thorough"
    must = ("called", "provided", "missing", "importer")
    one = {"hooks": 1}
    two = {"hooks": 2}
    return [
        Prog("reexport", "p13", FROM, other=OTHER, other_n=1, must=must, scenario=two if deep else one),
        Prog("deep", "p13", DEEP, must=must, scenario={"hooks": 3} if deep else two),
        Prog("three", "p13", OTHER[:3], must=must, scenario={"hooks": 3}),
        Prog("kinds", "p13", FROM[:1] if not deep else FROM, kinds=ALL, crashes=(0, 1, 3, 5), must=must, scenario=one),
        Prog("script", "p13", FROM, n=2, script=True, must=must, scenario=one),
        Prog("config", "p13", FROM[:1], pre=config, must=must[:3], scenario=one),
        Prog("alias", "p13", FROM, pre=alias, must=must[:3], scenario=one),
        Prog("later", "p13", OTHER[:1], post=more, must=must, scenario=two),
    ]
