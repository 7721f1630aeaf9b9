"""P29: extension modules imported by SWIG wrappers

Modules with the stated statements and symbolic names (also for the function that
is defined and the module that is imported) in symbolic worlds, in which
importing the package can fail: exactly the pattern of SWIG leads to the
extension module in the package.
"""

from oracle.model import LOCS

from sym.core import E

from .worlds import ALL, GraphHarness, World, dotted, ident, statement

HELPER = {"form": "def", "name": "swig_import_helper"}
SOME = ("source", "ext", "pkg", "extpkg", None)


class Swig(GraphHarness):
    oracle = "p29"
    sample_mod = 64

    def __init__(self, name, root, rootkinds=("source", "pkg"), helper=(0,), forms=(("import", 1, False),),
                 locs=("top",), kinds=SOME, crashes=(0,), other=(), other_n=0, script=False, again=0,
                 direct=True, must=("swig",), parents=("pkg",)):
        self.name = name
        self.o = (root, rootkinds, helper, forms, locs, kinds, crashes, other, other_n, script, again,
                  direct, parents)
        self.must_reach = must
        self.bounds = {
            "importer": f"{rootkinds} with {root} name components, also imported by a script: {script}",
            "helper": [("function", "other function", "variable", "none")[h] for h in helper],
            "import": f"{forms} at {locs} of a symbolic name" + (" or the expected name" if direct else ""),
            "modules": kinds,
            "failing packages": crashes,
            "other statements": f"at most {other_n} of {other}",
            "later roots": again,
        }

    def build(self, E):
        (root, rootkinds, helper, forms, locs, kinds, crashes, other, other_n, script, again,
         direct, parents) = self.o
        left = [other_n]

        def stmts(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, other))
            return out

        w = World(lambda w, c, p: kinds, stmts, crashes)
        name = ".".join(
            E.sym_id("n", distinct_from=("__main__", "__init__", "_main__", "_init__"))
            for _ in range(E.pick("components", root))
        )
        comps = name.split(".")
        body = []
        h = E.pick("helper", helper)
        if h == 0:
            body.append(HELPER)
        elif h == 1:
            body.append({"form": "def", "name": ident("def")})
        elif h == 2:
            body.append({"form": "assign", "name": "swig_import_helper"})
        st = statement(E, forms, locs)
        if direct and E.choice("direct", 2):
            if st["form"] == "import":
                st["names"][0][0] = "_" + comps[-1]
            else:
                st["module"] = "_" + comps[-1]
        body.append(st)
        parent = None
        for c in comps[:-1]:
            parent = w.add(c, parent, E.pick("parent", parents))
        w.add(comps[-1], parent, E.pick("rootkind", rootkinds), body)
        ops = []
        if script:
            ops.append(["script", [{"form": "import", "names": [[name, None]], "loc": "top"}]])
        else:
            ops.append(["module", name])
        for _ in range(again):
            ops.append(["module", dotted(1)])
        return w, {"ops": ops}


def harnesses(tier):
    deep = tier == "thorough"
    imp = (("import", 1, False), ("import", 1, True), ("import", 2, False), ("from", 0, 1, 1, False),
           ("star", 0, 1), ("from", 1, 1, 1, False))
    return [
        Swig("helper", (1, 2), helper=(0, 1, 2, 3)),
        Swig("forms", (2,), forms=imp, locs=tuple(LOCS)),
        Swig("kinds", (1, 2), rootkinds=("source", "bytecode", "pkg", "bpkg"), kinds=ALL),
        Swig("crashes", (2,) if not deep else (2, 3), crashes=tuple(range(8)), kinds=("source", "ext", None)),
        Swig("parents", (2,), parents=("pkg", "bpkg", "extpkg", "invpkg", "ns"), kinds=("source", "ext", None)),
        Swig("script", (2,), script=True, crashes=(0, 4)),
        Swig("importers", (2,), kinds=("source", "ext", None), again=1,
             other=(("def",), ("import", 1, False)), other_n=2 if deep else 1, must=("swig",)),
    ]
