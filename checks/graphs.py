"""Harnesses for the reports about a graph"""

from sym.core import E, snot, str_eq

from .run import Harness

KINDS = (
    "Script", "SourceModule", "FrozenModule", "BytecodeModule", "ExtensionModule",
    "BuiltinModule", "InvalidModule", "NamespacePackage", "Package", "FrozenPackage",
    "ExcludedModule", "MissingModule", "InvalidRelativeImport", "VirtualNode", "AliasNode",
    "dist",
)
FILES = (None, "/lib/one.py", "/lib/two.so")


def dotted(n):
    return ".".join(E.sym_id("n") for _ in range(n))


def chars(lo, hi):
    return lambda: "".join(E.sym_char("c") for _ in range(lo + E.choice("len", hi - lo + 1)))


def ids():
    return dotted(1 + E.choice("comps", 2))


def one():
    return dotted(1)


def long():
    """long names, of every length up to 60 or of 200 letters and an identifier"""
    k = E.choice("length", 62)
    return "m" * (200 if k == 61 else k + 1) + "." + dotted(1)


LONG = (None, "/lib/" + "d" * 150 + "/" + "one" * 30 + ".py")


class Graphs(Harness):
    """
    Nodes with symbolic names, any roots, any edges of the stated kinds
    """

    replay = "reports"

    def __init__(self, name, what, n, kinds=("SourceModule",), names=ids, edges=(0, 1), loops=False,
                 files=FILES[:2], dists=(), distname=one, roots=None, chain=False, kindn=1, must=("reachable",), sample=128):
        self.sample_mod = sample
        self.name = name
        self.what = what
        self.o = (n, kinds, names, edges, loops, files, dists, distname, roots, chain, kindn)
        self.must_reach = must
        self.bounds = {
            "nodes": f"{n}, the first {kindn} any of {kinds}",
            "names": names.__name__ if names in (ids, one) else names.__doc__ if names is long else "strings of arbitrary characters",
            "edges": "in a row" if chain else f"any, {edges}" + (" with loops" if loops else ""),
            "roots": "any" if roots is None else roots,
            "files": files,
            "distributions": dists,
        }

    def setup(self):
        import oracle.reports  # noqa

    def run(self, E):
        n, kinds, names, edges, loops, files, dists, distname, roots, chain, kindn = self.o
        spec = {"nodes": [], "edges": [], "roots": [], "dists": []}
        nd = len(dists)
        for k, other in enumerate(dists):
            nm = distname()
            spec["dists"].append([nm, "1.0"])
            if not other:
                for x, _ in spec["dists"][:k]:
                    E.assume(snot(str_eq(x, nm)))
        for k in range(n):
            kind = E.pick("kind", kinds) if k < kindn else "SourceModule"
            d = E.choice("dist", nd + 1) if nd else 0
            if kind == "dist" and (d == 0 or [x for x in spec["nodes"] if x[0] == "dist" and x[3] == d - 1]):
                kind = "SourceModule"
            file = E.pick("file", files) if kind not in ("dist",) and k < 2 else None
            nm = names()
            for x in spec["nodes"]:
                # one node per identifier
                E.assume(snot(str_eq(x[1], nm)))
            spec["nodes"].append([kind, nm, file, d - 1 if d else None])
        for i in range(n):
            for j in range(n):
                if chain:
                    if j == i + 1:
                        spec["edges"].append([i, j, E.pick("edge", edges)])
                elif i != j or loops:
                    e = E.pick("edge", edges)
                    if e:
                        spec["edges"].append([i, j, e])
        for i in range(n):
            if roots is None:
                if E.choice("root", 2):
                    spec["roots"].append(i)
            elif i in roots:
                spec["roots"].append(i)
        E.scenario = lambda: {"graph": spec, "what": self.what}
        import oracle.reports as o

        try:
            msg = o.run(spec, self.what)
        except Exception as exc:
            E.fail(f"{self.what} raised {type(exc).__name__}: {exc}")
        if spec["roots"]:
            E.reach("reachable")
        if len(o.reachable(spec)) < n:
            E.reach("unreachable")
        E.check(msg is None, msg)
