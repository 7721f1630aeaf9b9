"""P03: global names in bytecode

Programs that bind, read and declare names in nested scopes, each name being any of
a few symbolic names, are compiled by the real compiler, with symbolic indexes of
constants and names: the names written and read are exactly those the language
defines, and the indicators of nodes follow from them.
"""

from .codes import Names

BINDS = (
    "assign", "unpack", "aug", "ann", "for", "with", "except", "walrus", "comp", "match",
    "type", "import", "sub", "as", "from", "fromas", "named", "def", "class",
)
READS = (
    "expr", "attr", "call", "lambda", "default", "deco", "base", "comp", "gen", "format",
    "aug", "nested",
)
SCOPES = ("def", "args", "async", "gdef", "class", "bases", "gclass")
FEW = ("def", "class")


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Names("forms", 1, BINDS, READS, SCOPES if deep else FEW, 1, pool=2),
        Names("scopes", 1, ("assign", "import"), ("expr",), SCOPES, 2, nscopes=2, pool=2 if deep else 1),
        Names("global", 2, ("assign", "import", "from", "def", "as"), ("expr",), SCOPES if deep else FEW + ("gclass",), 1),
        Names("nested", 3 if deep else 2, ("assign", "import") if deep else ("assign",), ("expr",), FEW, 2, nscopes=2),
        Names("flows", 1, ("assign", "from"), ("expr",), ("def", "class"), 2, nscopes=2,
              flows=("if", "else", "try", "except", "finally", "for", "while", "with", "match")),
        Names("operands", 2, ("assign", "from", "import"), ("expr", "lambda"), FEW, 1, budget=3 if deep else 2, nscopes=0 if not deep else 1),
        Names("operands-nested", 2 if deep else 1, ("assign", "from") if deep else ("assign",), ("expr",), FEW + ("gclass",), 1, budget=2),
        Names("special", 2, ("assign",), ("expr", "call"), FEW, 1, special=True),
    ]
