"""P30: modules compiled with mypyc

Extension modules and packages with symbolic names in a real directory with
distributions and source files with the stated statements: which edges they get.
"""

from oracle.model import LOCS, RAW
from sym.core import E, PathEnd, str_eq

from .worlds import GraphHarness, World, dotted, statement

FORMS = (("import", 1, False), ("from", 0, 1, 1, False), ("from", 1, 0, 1, False))
SO, ABI3, PLAIN = ".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so"


def ident(name="n"):
    return E.sym_id(name, distinct_from=("__main__", "__init__", "__pycache__", "__init____mypyc"))


class Mypyc(GraphHarness):
    oracle = "p30"
    sample_mod = 64

    def __init__(self, name, comps=(1, 2), kinds=("ext", "extpkg"), suffixes=(SO,), dist=(0, 1, 2), helpers=(0, 1, 2, 3, 4),
                 source=("none", "text", "raw"), forms=FORMS[:1], n=1, locs=("top",), found=("source", None),
                 parents=("pkg",), again=0, other=(), other_n=0, must=("compiled",)):
        self.name = name
        self.o = (comps, kinds, suffixes, dist, helpers, source, forms, n, locs, found, parents, again, other, other_n)
        self.must_reach = must
        self.bounds = {
            "module": f"{kinds} with {comps} name components, {suffixes}",
            "distribution": [("none", "with the module", "with another file", "two")[d] for d in dist],
            "helper": [("none", "x__mypyc", "p.x__mypyc", "symbolic", "x__mypyc/__init__", "not importable",
                        "two")[h] for h in helpers],
            "source": f"{source}, {n} of {forms} at {locs}",
            "invalid sources": RAW,
            "modules": found,
        }

    def build(self, E):
        (comps, kinds, suffixes, dist, helpers, source, forms, n, locs, found, parents, again, other,
         other_n) = self.o
        left = [other_n]

        def stmts(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                st = statement(E, other)
                for nm, _ in st["names"]:
                    # P29
                    if E.branch(str_eq(nm, "swig_import_helper")):
                        raise PathEnd("infeasible")
                out.append(st)
            return out

        w = World(lambda w, c, p: found, stmts)
        comp = [ident() for _ in range(E.pick("components", comps))]
        kind = E.pick("kind", kinds)
        suffix = E.pick("suffix", suffixes)
        base = "/".join(comp) + ("/__init__" if kind.endswith("pkg") else "")
        path = base + (suffix if kind.startswith("ext") else ".py")
        h = E.pick("helper", helpers)
        record = []
        t = ident("helper")
        if h == 1:
            record.append(f"{t}__mypyc{suffix}")
        elif h == 2:
            record.append(f"{comp[0]}/{t}__mypyc{suffix}")
        elif h == 3:
            record.append(f"{t}{suffix}")
        elif h == 4:
            record.append(f"{t}__mypyc/__init__.py")
        elif h == 5:
            record.append(f"{t}__mypyc.txt")
        elif h == 6:
            record.append(f"{t}__mypyc{suffix}")
            record.append(f"{ident('helper')}__mypyc.py")
        k = E.pick("dist", dist)
        specs = []
        if k == 1:
            specs.append({"name": "foo", "version": "1.0", "record": [path] + record})
        elif k == 2:
            specs.append({"name": "foo", "version": "1.0", "record": [f"{ident('other')}.py"] + record})
        elif k == 3:
            specs.append({"name": "foo", "version": "1.0", "record": record})
            specs.append({"name": "bar", "version": "1.0", "record": [path]})
        w.library(specs)
        texts = []
        what = E.pick("source", source)
        if what == "text":
            body = [statement(E, forms, locs) for _ in range(n)]
            texts.append([base + ".py", body])
        elif what == "raw":
            body = [{"form": "raw", "text": E.choice("raw", len(RAW))}]
            texts.append([base + ".py", body])
        elif what == "other":
            body = [statement(E, forms, locs)]
            src = ident("src")
            for c in comp:
                if E.branch(str_eq(c, src)):
                    raise PathEnd("infeasible")
            texts.append([f"{src}.py", body])
        for filename, body in texts:
            w.source_file(filename, body)
        parent = None
        for c in comp[:-1]:
            parent = w.add(c, parent, E.pick("parent", parents))
        d = w.add(comp[-1], parent, kind)
        if kind.startswith("ext"):
            d.suffix = suffix
        ops = [["module", ".".join(comp)]]
        for _ in range(again):
            ops.append(["module", dotted(1)])
        return w, {"ops": ops, "installed": specs, "texts": texts}


def harnesses(tier):
    deep = tier == "thorough"
    imp = (("import", 1, False), ("import", 2, False), ("import", 1, True), ("from", 0, 1, 1, False),
           ("from", 0, 1, 1, True), ("star", 0, 1), ("from", 1, 0, 1, False), ("from", 1, 1, 1, False),
           ("from", 2, 0, 1, False))
    return [
        Mypyc("source", dist=(1,), helpers=(1,), source=("none", "text", "raw", "other"),
              must=("compiled", "invalid", "no-source")),
        Mypyc("dist", dist=(0, 1, 2, 3), helpers=range(7), source=("none", "text"),
              must=("compiled", "no-helper", "no-distribution")),
        Mypyc("suffixes", suffixes=(SO, ABI3, PLAIN), kinds=("ext", "extpkg", "source", "pkg"), dist=(1,),
              helpers=(1,), source=("text",)),
        Mypyc("imports", forms=imp, dist=(1,), helpers=(1,), source=("text",),
              locs=tuple(LOCS) if deep else ("top", "func", "try"), comps=(1, 2) if deep else (2,),
              must=("compiled", "attributes")),
        Mypyc("two", n=2, comps=(2,), kinds=("ext", "extpkg") if deep else ("ext",), forms=imp[:1] + imp[3:4] + imp[6:7] if not deep else imp, dist=(1,), helpers=(1,), source=("text",)),
        Mypyc("found", dist=(1,), helpers=(1,), source=("text",), found=("source", "ext", "pkg", "ns", None),
              forms=FORMS[:2], comps=(2,), kinds=("ext",)),
        Mypyc("parents", dist=(1,), helpers=(1,), source=("text",), comps=(2,), kinds=("ext",),
              forms=FORMS[1:], parents=("pkg", "extpkg", "ns"), found=("source", "pkg", None) if deep else ("source", None),
              other=FORMS[1:2], other_n=1),
        Mypyc("later", dist=(1,), helpers=(1, 2), source=("text",), again=1),
    ]
