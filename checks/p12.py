"""P12: post-processing hooks

Programs and operations of the stated shapes with symbolic names in symbolic
worlds, with two or three hooks, one of which can use the hook interface itself:
each hook is called once for every node, the last one that was added first, and
after the imports of the node were processed.
"""

from .p11 import value
from .worlds import ALL, Prog, dotted, statement

FROM = (("from", 0, 1, 1, False), ("import", 2, False), ("from", 0, 1, 2, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("star", 0, 1), ("assign",))


def config(E, w):
    """an excluded name and a name that implies a name, or is an alias or virtual"""
    yield ["exclude", [dotted(1 + E.choice("n", 2), "ex")]]
    yield ["implies", [[dotted(1, "from"), value(E)]]]


def more(E, w, ops):
    """a new hook, followed by another root, script, source fragment or hook import"""
    root = ops[-1][1]
    yield ["hook"]
    what = E.pick("op", ("module", "script", "source", "hook_import"))
    if what == "module":
        yield ["module", dotted(1 + E.choice("n", 2))]
    elif what == "script":
        yield ["script", [statement(E, OTHER[:3])]]
    elif what == "source":
        yield ["source", [statement(E, OTHER[:3])]]
    else:
        yield ["hook_import", root, dotted(1 + E.choice("n", 2))]


class Acting(Prog):
    """a hook that imports or adds a module itself, for one node"""

    what = ("import", "package", "module")
    plain = False

    def build(self, E):
        w, sc = super().build(E)
        name = dotted(1, "new") if self.plain else dotted(1 + E.choice("n", 2), "new")
        sc["act"] = [E.pick("act", self.what), dotted(1, "at"), name]
        return w, sc


class Providing(Prog):
    """a hook that provides a node for a missing name"""

    def build(self, E):
        w, sc = super().build(E)
        sc["provide"] = dotted(1 + E.choice("n", 2), "missing")
        return w, sc


def harnesses(tier):
    deep = tier == "thorough"
    acting = Acting("acting", "p12", OTHER[:1] + OTHER[2:3], must=("act",))
    acting2 = Acting("acting-deep", "p12", OTHER[:1] + OTHER[2:3], must=("act",),
                     other=OTHER[:1] + OTHER[2:3], other_n=1)
    acting2.plain = not deep
    return [
        Prog("reexport", "p12", FROM[:2], other=OTHER, other_n=1,
             must=("SourceModule", "Package", "MissingModule", "scanned")),
        Prog("kinds", "p12", FROM[:1], kinds=ALL, crashes=(0, 1),
             must=("NamespacePackage", "ExtensionModule", "InvalidModule")),
        Prog("script", "p12", FROM[:2] if not deep else FROM, n=2, script=True, must=("Script",)),
        Prog("config", "p12", FROM[:1], pre=config,
             must=("ExcludedModule", "AliasNode", "VirtualNode")),
        Prog("relative", "p12", (("from", 2, 1, 1, False),), must=("InvalidRelativeImport",)),
        Providing("providing", "p12", FROM[:2], must=("provided",)),
        acting,
        acting2,
        Prog("later", "p12", OTHER[:1] if not deep else FROM[:1], post=more),
    ]
