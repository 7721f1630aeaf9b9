"""P10: excluded modules

Programs of the stated shapes with symbolic names; excluded names, implied
references and entries of sys.modules also have symbolic names, so that any of
them can be the same. Every node for an excluded name, or a name in an excluded
package, is an excluded node without dependencies.
"""

from .worlds import SOME, Prog, dotted

FROM = (("from", 0, 1, 1, False), ("import", 2, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False))


def excludes(E, w):
    """one or two excluded names with one or two components"""
    yield ["exclude", [dotted(n) for n in E.pick("excludes", ((1,), (2,), (1, 2)))]]


def mixed(E, w):
    """an excluded name, before or after implied references for a name"""
    exc = ["exclude", [dotted(1 + E.choice("n", 2))]]
    name = dotted(1 + E.choice("n", 2))
    target = dotted(1 + E.choice("n", 2))
    value = E.pick("value", ([target], {"alias": target}, {"virtual": target}))
    imp = ["implies", [[name, value]]]
    if E.choice("order", 2):
        yield exc
        yield imp
    else:
        yield imp
        yield exc


def aliases(E, w):
    """an excluded name and an entry of sys.modules for a module with another name"""
    w.alias(dotted(1 + E.choice("n", 2), "al"), dotted(1 + E.choice("n", 2)))
    yield ["exclude", [dotted(1 + E.choice("n", 2))]]


def harnesses(tier):
    deep = tier == "thorough"
    must = ("excluded",)
    return [
        Prog("plain", "p10", FROM, pre=excludes, other=OTHER, other_n=1, must=must),
        Prog("implies", "p10", FROM if deep else FROM[:1], pre=mixed, must=must,
             other=OTHER[:1], other_n=1 if deep else 0),
        Prog("alias", "p10", FROM, pre=aliases, must=must, other=OTHER[:1],
             other_n=1 if deep else 0),
        Prog("script", "p10", FROM, script=True, pre=excludes, must=must),
        Prog("roots", "p10", FROM[:1], pre=excludes, must=must, again=1),
    ]
