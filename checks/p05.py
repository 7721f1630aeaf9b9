"""P05: every import is represented in the graph

Programs of the stated shapes (absolute and relative, dotted, renamed, star and
from-imports, re-exports and cycles) with all names symbolic, in a world where
every name is found as any of the stated kinds of modules or is missing: every
import and every imported submodule has its node and edge.
"""

from .worlds import ALL, SOME, Prog

FROM = (("from", 0, 1, 1, False), ("from", 0, 2, 1, False), ("import", 2, False))
REEXPORT = (
    ("import", 1, False),
    ("import", 1, True),
    ("from", 0, 1, 1, False),
    ("from", 0, 1, 1, True),
    ("from", 1, 0, 1, False),
    ("assign",),
)
RELATIVE = (
    ("from", 1, 0, 1, False),
    ("from", 1, 1, 1, False),
    ("from", 2, 0, 1, False),
    ("from", 2, 1, 1, False),
    ("star", 1, 1),
)
MUST = ("imported", "named")


def harnesses(tier):
    q = [
        Prog("reexport", "p05", FROM, other=REEXPORT, other_n=1, must=MUST),
        Prog("relative", "p05", RELATIVE, root=2, other=REEXPORT, other_n=1, must=MUST),
        Prog("script", "p05", FROM, n=2, script=True, must=MUST),
        Prog(
            "kinds",
            "p05",
            FROM[:1] + (("import", 3, False),),
            n=1,
            kinds=ALL,
            crashes=(0, 1),
            must=MUST,
        ),
        Prog("names", "p05", (("from", 0, 1, 2, False),), other=REEXPORT[:2],
             other_n=1, order=True, must=MUST),
        Prog("star", "p05", (("from", 0, 1, 1, False),), other=(("star", 0, 1),
             ("import", 1, False)), other_n=2, must=MUST),
    ]
    return q
