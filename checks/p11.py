"""P11: implied references, aliases and virtual modules

Configurations of the stated shapes and programs with symbolic names, so that any
of the configured names, the names they stand for and the imported names can be
the same or be nested: implied edges exist, aliases and virtual modules appear
as such, and names imported from them are resolved.
"""

from .worlds import SOME, Prog, dotted

FROM = (("from", 0, 1, 1, False), ("import", 2, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("assign",))


def value(E):
    target = dotted(1 + E.choice("n", 2), "to")
    return E.pick("value", ([target], {"alias": target}, {"virtual": target}))


def one(E, w):
    """a name that implies one or two names, or is an alias or virtual"""
    v = value(E)
    if isinstance(v, list) and E.choice("two", 2):
        v = v + [dotted(1, "to")]
    yield ["implies", [[dotted(1 + E.choice("n", 2), "from"), v]]]


def simple(E, w):
    """a name that implies a name, or is an alias or virtual"""
    target = dotted(1, "to")
    v = E.pick("value", ([target], {"alias": target}, {"virtual": target}))
    yield ["implies", [[dotted(1, "from"), v]]]


def two(E, w):
    """two configured names"""
    yield ["implies", [[dotted(1, "from"), value(E)],
                       [dotted(1 + E.choice("n", 2), "from"), value(E)]]]


def chain(E, w, n=2):
    """two aliases, virtual modules or implied names"""
    out = []
    for _ in range(n):
        target = dotted(1, "to")
        v = E.pick("value", ([target], {"alias": target}, {"virtual": target}))
        out.append([dotted(1, "from"), v])
    yield ["implies", out]


def chain3(E, w):
    """three aliases, virtual modules or implied names"""
    return chain(E, w, 3)


def with_alias(E, w):
    """a configured name and an entry of sys.modules for another module"""
    w.alias(dotted(1, "al"), dotted(1 + E.choice("n", 2)))
    yield ["implies", [[dotted(1, "from"), value(E)]]]


def harnesses(tier):
    deep = tier == "thorough"
    must = ("implied", "AliasNode", "VirtualNode")
    return [
        Prog("one", "p11", FROM, pre=one, must=must),
        Prog("simple", "p11", FROM[:1], pre=simple, must=must,
             other=OTHER if deep else OTHER[2:3] + OTHER[4:], other_n=1),
        Prog("two", "p11", FROM[:1], pre=two, must=must, rootkinds=("source", "pkg") if deep else ("source",)),
        Prog("chain", "p11", FROM[:1], pre=chain3 if deep else chain, must=must),
        Prog("alias", "p11", FROM[:1], pre=with_alias, must=must),
        Prog("script", "p11", FROM, pre=one, script=True, kinds=SOME, must=must),
        Prog("star", "p11", (("star", 0, 1),), pre=simple, other=OTHER[2:3], other_n=1),
    ]
