"""P14: processing order of imported names

Programs with from-imports of two or three symbolic names in symbolic worlds, for
every order in which the names are processed: the graph is the one for the
order in the source. Adding a root again changes nothing.
"""

from .p10 import excludes
from .p11 import one, simple
from .worlds import ALL, SOME, Prog, permute

FROM2 = (("from", 0, 1, 2, False),)
FROM2AS = (("from", 0, 1, 2, True), ("from", 0, 2, 2, False))
FROM3 = (("from", 0, 1, 3, False),)
REL2 = (("from", 1, 0, 2, False), ("from", 1, 1, 2, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("star", 0, 1), ("assign",))


class Orders(Prog):
    replay = "p14"
    max_validate = 2

    def __init__(self, *args, **kw):
        super().__init__(*args, must=("orders", "again"), **kw)
        self.bounds["set iteration orders"] = "all"

    def build(self, E):
        w, sc = super().build(E)
        w.order = permute
        return w, sc


def harnesses(tier):
    deep = tier == "thorough"
    out = [
        Orders("reexport", "p14", FROM2, other=OTHER, other_n=1, rootkinds=("source", "pkg")),
        Orders("renamed", "p14", FROM2AS, other=OTHER[-1:], other_n=1),
        Orders("relative", "p14", REL2, root=1, rootkinds=("pkg",), other=OTHER, other_n=1),
        Orders("names3", "p14", FROM3, kinds=SOME, rootkinds=("source",)),
        Orders("kinds", "p14", FROM2, kinds=ALL, rootkinds=("source",)),
        Orders("implied", "p14", FROM2, pre=one if deep else simple, rootkinds=("source",)),
        Orders("crash", "p14", FROM2, kinds=("pkg", "source", "ns", "extpkg", None), crashes=(0, 1), rootkinds=("source",), again=1 if deep else 0),
        Orders("excludes", "p14", FROM2, pre=excludes, rootkinds=("source",)),
        Orders("pkg", "p14", OTHER[:2], other=FROM2 + REL2[:1], other_n=1, rootkinds=("source",)),
    ]
    if deep:
        out.append(Orders("cycle", "p14", FROM2, other=OTHER, other_n=2,
                          rootkinds=("source",)))
    return out
