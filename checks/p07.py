"""P07: modules in packages depend on their package

Programs of the stated shapes with symbolic names in symbolic worlds, with up to
two roots and all orders of processing from-lists: every dotted node something
depends on has an edge to the node of its package.
"""

from .p11 import one, two
from .worlds import ALL, SOME, Prog

FROM = (("from", 0, 1, 1, False), ("import", 2, False), ("from", 0, 2, 1, True))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("star", 0, 1), ("assign",))
RELATIVE = (
    ("from", 1, 0, 1, False),
    ("from", 1, 1, 1, False),
    ("from", 2, 1, 1, False),
)


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Prog("reexport", "p07", FROM, other=OTHER, other_n=1,
             must=("SourceModule", "Package", "MissingModule")),
        Prog("relative", "p07", RELATIVE, root=2, other=OTHER, other_n=1),
        Prog("script", "p07", FROM, n=2, script=True, other=OTHER[-1:], other_n=1),
        Prog("kinds", "p07", FROM[:1] + (("import", 3, False),), kinds=ALL,
             crashes=(0, 1, 3),
             must=("NamespacePackage", "ExtensionModule", "InvalidModule")),
        Prog("names", "p07", (("from", 0, 1, 2, False),),
             rootkinds=("source", "pkg") if deep else ("source",),
             other=OTHER[:1] + OTHER[-1:] if deep else OTHER[-1:],
             other_n=1, order=True),
        Prog("roots", "p07", FROM[:1], other=OTHER[-1:], other_n=1, again=1),
        Prog("implies", "p07", FROM[:2], pre=two if deep else one,
             rootkinds=("source", "pkg") if deep else ("source",),
             kinds=SOME if deep else ("source", "pkg", None),
             must=("AliasNode", "VirtualNode")),
    ]
