"""P04: edge attributes

Programs of the stated shapes with symbolic names and symbolic statement
locations, in source and bytecode-only modules: the attribute records of every
edge are those of the import statements behind it.
"""

from .worlds import Prog

ALL_LOCS = ("top", "func", "if", "else", "try", "except", "finally", "class", "method",
            "iffunc", "with", "tryfunc")
LOCS = ("top", "func", "if", "try", "finally", "class")
IMPORT = (("import", 1, False), ("import", 1, True))
FORMS = IMPORT + (("from", 0, 1, 1, False), ("from", 0, 1, 1, True))
DOTTED = (("import", 2, True), ("from", 0, 2, 1, True), ("from", 1, 0, 1, True),
          ("from", 1, 1, 1, False), ("from", 3, 1, 1, True))
MUST = ("attributes", "explained")


NAMES = (("from", 0, 1, 2, True), ("from", 0, 1, 2, False))


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Prog("single", "p04", FORMS + DOTTED, locs=ALL_LOCS, root=2,
             rootkinds=("source", "pkg", "bytecode"), must=MUST),
        Prog("script", "p04", FORMS, n=2, locs=LOCS, script=True, must=MUST),
        Prog("twice", "p04", FORMS, n=2, locs=("top", "func", "if"),
             rootkinds=("source", "bytecode"), must=MUST),
        Prog("names", "p04", NAMES if deep else NAMES[:1],
             locs=("top", "func") if deep else ("top",),
             other=IMPORT + FORMS[2:3] if deep else FORMS[2:3],
             other_n=1, order=True, rootkinds=("source", "pkg") if deep else ("pkg",),
             must=MUST),
        Prog("reexport", "p04", FORMS, locs=("top", "func"), other=FORMS, other_n=1,
             other_locs=("top", "func"), must=MUST),
    ]
