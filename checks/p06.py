"""P06: nothing unexplained in the graph

Programs of the stated shapes with symbolic names in symbolic worlds: every node
is a root, an import target, a name imported from a package or a containing
package of one of those, and every edge is explained by an import statement of
its source or by containment.
"""

from .worlds import ALL, SOME, Prog

FROM = (("from", 0, 1, 1, False), ("from", 0, 2, 1, False), ("import", 2, True))
REEXPORT = (
    ("import", 1, False),
    ("import", 1, True),
    ("from", 0, 1, 1, False),
    ("from", 0, 1, 1, True),
    ("from", 1, 0, 1, False),
    ("star", 0, 1),
    ("assign",),
)
RELATIVE = (
    ("from", 1, 0, 1, False),
    ("from", 1, 1, 1, False),
    ("from", 2, 1, 1, False),
    ("star", 1, 1),
)
MUST = ("node", "edge")


def harnesses(tier):
    return [
        Prog("reexport", "p06", FROM, other=REEXPORT, other_n=1, must=MUST),
        Prog("relative", "p06", RELATIVE, root=2, other=REEXPORT, other_n=1, must=MUST),
        Prog("script", "p06", FROM, n=2, script=True, must=MUST),
        Prog("kinds", "p06", FROM[:1] + (("import", 3, False),), kinds=ALL,
             crashes=(0, 1, 3), must=MUST),
        Prog("names", "p06", (("from", 0, 1, 2, False),), other=REEXPORT[:2],
             other_n=1, order=True, must=MUST),
        Prog("roots", "p06", FROM[:1], other=REEXPORT[:1], other_n=1, again=1, must=MUST),
    ]
