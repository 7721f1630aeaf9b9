"""P15: roots and failed operations

Every sequence of the stated length of adding modules, scripts (new, already
added, missing, or not compiling in several ways) and distributions (known or
unknown), with symbolic names in symbolic worlds: the roots are what was added,
failures raise the documented exceptions and change nothing, then or later.
"""

from oracle.model import RAW

from .p20 import FILES, filename
from .worlds import FEW, SOME, GraphHarness, World, dotted, statement

STMT = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False))


class Ops(GraphHarness):
    oracle = "p15"
    sample_mod = 64

    def __init__(self, name, n, ops, kinds=FEW, stmts=STMT, must=(), nfiles=2, comps=2, other=0):
        self.name = name
        self.n = n
        self.ops = ops
        self.kinds = kinds
        self.stmts = stmts
        self.nfiles = nfiles
        self.comps = comps
        self.other = other
        self.must_reach = must
        self.bounds = {
            "operations": f"{n} of {ops}",
            "names": f"symbolic, at most {comps} components",
            "script statements": stmts,
            "statements in other modules": other,
            "found modules": kinds,
            "invalid scripts": RAW,
        }

    def build(self, E):
        left = [self.other]

        def stmts(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, STMT))
            return out

        w = World(lambda w, c, p: self.kinds, stmts)
        ops = []
        bodies = {}
        spec = None
        for _ in range(self.n):
            op = E.pick("op", self.ops)
            if op == "module":
                ops.append(["module", dotted(1 + E.choice("n", self.comps))])
            elif op == "script":
                no = E.choice("path", self.nfiles)
                if no not in bodies:
                    bodies[no] = [statement(E, self.stmts)]
                ops.append(["script", bodies[no], no])
            elif op == "badscript":
                no = 8 + E.choice("raw", len(RAW))
                ops.append(["script", [{"form": "raw", "text": no - 8}], no])
            elif op == "noscript":
                ops.append(["noscript", 99])
            elif op == "unknown":
                ops.append(["unknown"])
            else:
                if spec is None:
                    files = [f.format(filename(E), filename(E)) for f in FILES[:1] + FILES[2:3]]
                    spec = {"name": "foo", "version": "1.0", "record": [E.pick("file", files)]}
                ops.append(["dist", spec, op == "distname"])
        return w, {"ops": ops}


def harnesses(tier):
    deep = tier == "thorough"
    every = ("module", "script", "badscript", "noscript", "unknown", "dist", "distname")
    return [
        Ops("three", 3, every, kinds=("source", None), stmts=STMT[:1], comps=1,
            must=("module", "script", "dist", "failed-script", "failed-noscript",
                  "failed-unknown", "effects")),
        Ops("two", 2, every, stmts=STMT, kinds=SOME,
            other=1 if deep else 0),
        Ops("modules", 3 if deep else 2, ("module", "script"), other=1, comps=2 if deep else 1,
            stmts=STMT if deep else STMT[1:2]),
        Ops("scripts", 3, ("script", "badscript", "noscript", "module"), kinds=FEW if deep else ("source", None),
            stmts=STMT[1:], comps=1),
    ]
