"""P02: imports in bytecode

Programs of imports in nested scopes, with symbolic names, are compiled by the real
compiler; the indexes of constants and names, and with them the prefixes of
instructions, are then symbolic: the imports reported are exactly those of the
program, and scanning does not fail.
"""

from .codes import Imports

SCOPES = ("def", "args", "async", "gdef", "class", "bases", "gclass")
FLOWS = ("if", "else", "try", "except", "finally", "for", "while", "with", "match")
FORMS = (
    ("import", 1, 1, False), ("import", 2, 1, True), ("import", 1, 2, False),
    ("from", 0, 1, 1, False), ("from", 0, 2, 2, True), ("from", 1, 0, 1, False),
    ("from", 2, 1, 1, False), ("star", 0, 1), ("star", 1, 0),
)


def harnesses(tier):
    deep = tier == "thorough"
    few = ("def", "class", "bases", "gclass")
    return [
        Imports("operands", 1, FORMS, (), 0, 5 if deep else 4),
        Imports("nested", 1, FORMS[:1] + FORMS[5:6], SCOPES, 4 if deep else 3, 0, siblings=False),
        Imports("operands-nested", 1, FORMS[:1], few, 1, 3 if deep else 2, siblings=False),
        Imports("operands-deep", 1, FORMS[:1], SCOPES if deep else few, 3 if deep else 2, 1, siblings=False),
        Imports("flows", 1, FORMS[:1] + FORMS[3:4] + FORMS[7:8], ("def", "class"), 2, 1 if deep else 0, flows=FLOWS, siblings=False),
        Imports("several", 2, FORMS[:1] + FORMS[3:4], ("def", "class", "gclass"), 2 if deep else 1, 0),
        Imports("many", 3, FORMS[:1] + FORMS[3:4], ("def", "class"), 1 if deep else 0, 1),
    ]
