"""P19: finding distributions

Search paths of the stated shapes with installed and broken distributions, with
symbolic names and files: sequences of look-ups have to find the first distribution
on the path, always as the same object. ModuleGraph.distributions is checked for all
graphs of the stated shapes.
"""

import os
import shutil

import sym.world as sw
from sym.core import E, snot, str_eq

from .graphs import KINDS
from .run import Harness

BROKEN = (None, "file", "empty", "metadata", "record", "name", "version")


class Base(Harness):
    replay = "p19"
    sample_mod = 64

    def setup(self):
        import oracle.p19  # noqa

        sw.setup_base()

    def check(self, E, sc):
        E.scenario = lambda: sc
        tmp = os.path.join(sw.BASE, f"p{os.getpid()}")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        os.chdir(tmp)
        import oracle.p19 as o

        try:
            msg = o.run(sc, tmp, E.reach)
        except Exception as exc:
            E.fail(f"raised {type(exc).__name__}: {exc}")
        finally:
            os.chdir("/")
        E.check(msg is None, msg)

    def signature(self, v):
        return v["message"].partition(" ")[0]


class LookUps(Base):
    def __init__(self, name, entries, kinds, dists, broken, files, ops, nops, must=("found", "none")):
        self.name = name
        self.o = (entries, kinds, dists, broken, files, ops, nops)
        self.must_reach = must
        self.bounds = {
            "search path": f"{entries} entries, each any of {kinds}",
            "distributions": f"at most {dists} in total, with {files} files, any of {[b or 'valid' for b in broken]}",
            "operations": f"{nops} of {ops}",
        }

    def run(self, E):
        entries, kinds, dists, broken, files, ops, nops = self.o
        left = [dists]
        sc = {"path": [], "ops": []}
        for k in range(entries):
            kind = E.pick("kind", kinds[:-1] if not k and kinds[-1] == "same" else kinds)
            specs = []
            while kind in ("dir", "relative") and left[0] and E.choice("more", 2):
                left[0] -= 1
                specs.append({
                    "name": E.sym_id("dist"), "version": "1.0", "dir": f"d{len(specs)}-1.0.dist-info",
                    "record": [E.sym_id("file") + ".py" for _ in range(files)],
                    "broken": E.pick("broken", broken),
                })
            sc["path"].append([kind, specs])
        for _ in range(nops):
            op = E.pick("op", ops)
            if op == "all":
                sc["ops"].append(["all"])
            elif op == "install":
                spec = {"name": E.sym_id("dist"), "version": "2.0", "dir": f"e{len(sc['ops'])}-2.0.dist-info",
                        "record": [E.sym_id("file") + ".py"]}
                sc["ops"].append(["install", spec, E.choice("entry", entries)])
            elif op == "file":
                sc["ops"].append(["file", E.sym_id("file") + ".py", E.choice("entry", entries)])
            else:
                sc["ops"].append(["name", E.sym_id("name"), op == "name-sys"])
        self.check(E, sc)


class Used(Base):
    """Distributions of a graph"""

    def __init__(self, name, n, kinds, kindn=1, chain=False, dists=(0, 0)):
        self.name = name
        self.o = (n, kinds, kindn, chain, dists)
        self.bounds = {
            "nodes": f"{n}, the first {kindn} any of {kinds}",
            "edges": "in a row, or not" if chain else "any",
            "distributions": len(dists),
        }

    def run(self, E):
        n, kinds, kindn, chain, dists = self.o
        spec = {"nodes": [], "edges": [], "roots": [], "dists": [[E.sym_id("d"), "1.0"] for _ in dists]}
        for k in range(n):
            kind = E.pick("kind", kinds) if k < kindn else "SourceModule"
            d = E.choice("dist", len(dists) + 1)
            if kind == "dist" and (d == 0 or [x for x in spec["nodes"] if x[0] == "dist" and x[3] == d - 1]):
                E.assume(False)
            nm = E.sym_id("n")
            for x in spec["nodes"]:
                E.assume(snot(str_eq(x[1], nm)))
            spec["nodes"].append([kind, nm, None, d - 1 if d else None])
        for i in range(n):
            for j in range(n):
                if i != j and (not chain or j == i + 1) and E.choice("edge", 2):
                    spec["edges"].append([i, j, 1])
        for i in range(n):
            if E.choice("root", 2):
                spec["roots"].append(i)
        self.check(E, {"graph": spec})


def harnesses(tier):
    deep = tier == "thorough"
    return [
        LookUps("order", 3, ("dir", "same"), 3 if deep else 2, (None,), 1, ("name", "file", "all", "name-sys"), 2),
        LookUps("entries", 3, ("dir", "relative", "missing", "file", "same"), 2 if deep else 1, (None,), 1, ("name", "file", "all"), 2 if deep else 1),
        LookUps("broken", 2, ("dir",), 3, BROKEN, 1, ("name", "file", "all"), 1),
        LookUps("files", 2, ("dir",), 2, (None,), 3 if deep else 2, ("file",), 2),
        LookUps("history", 2, ("dir",), 2, (None,), 1, ("name", "file", "all"), 3),
        LookUps("installs", 2, ("dir",), 1, (None,), 1, ("name", "file", "all", "install"), 4 if deep else 3),
        Used("graph", 3, KINDS if deep else ("SourceModule", "NamespacePackage", "MissingModule", "dist"), chain=not deep),
        Used("graph-kinds", 2, KINDS, kindn=2 if deep else 1),
    ]
