"""P20: adding distributions

Distributions with records of the stated shapes, with symbolic names, in symbolic
worlds: the distribution is a root with edges to exactly the importable names,
which are processed like any module; adding it again, by name or object, returns
the same node and changes nothing.
"""

from .p10 import excludes
from .p11 import simple
from .worlds import ALL, FEW, GraphHarness, World, dotted, statement

OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False), ("assign",))
FILES = (
    "{0}.py", "{0}/__init__.py", "{0}/{1}.py", "{0}/{1}/__init__.pyc", "{0}.abi3.so",
    "{0}/{1}.cpython-312-x86_64-linux-gnu.so", "{0}/__pycache__/{1}.cpython-312.pyc",
    "../../../bin/{0}.py", "{0}-1.0.data/{1}.py", "{0}.txt", "/opt/{0}.py",
    "{0}.{1}.py",
)


def filename(E):
    # in FILES instead
    return E.sym_id("file", distinct_from=("__main__", "__init__", "__pycache__"))


class Dists(GraphHarness):
    oracle = "p20"
    sample_mod = 64

    def __init__(self, name, n, kinds=FEW, other=(), other_n=0, twice=False, pre=None, files=FILES, first=True):
        self.files = files
        self.first = first
        self.name = name
        self.n = n
        self.o = (kinds, other, other_n, twice, pre)
        self.must_reach = ("name", "again")
        self.bounds = {
            "files": f"{n}, each any of {files} with symbolic names",
            "modules": kinds,
            "statements": f"at most {other_n} of {other}",
            "operations": "a module first or not, an unknown name first or not, the "
            "distribution by name or object" + (", two distributions" if twice else ""),
        }

    def build(self, E):
        kinds, other, other_n, twice, pre = self.o
        left = [other_n]

        def stmts(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, other))
            return out

        w = World(lambda w, c, p: kinds, stmts)
        ops = list(pre(E, w)) if pre else []
        if self.first and E.choice("first", 2):
            if E.choice("what", 2):
                ops.append(["unknown"])
            else:
                ops.append(["module", dotted(1)])
        for k in range(2 if twice else 1):
            record = []
            for _ in range(self.n):
                f = E.pick("file", self.files)
                record.append(f.format(filename(E), filename(E)))
            spec = {"name": f"foo{k}", "version": "1.0", "record": record}
            ops.append(["dist", spec, E.choice("by_name", 2)])
        return w, {"ops": ops}


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Dists("kinds", 1, kinds=ALL),
        Dists("imports", 1, other=OTHER if deep else OTHER[:3], other_n=1, files=FILES if deep else FILES[:3]),
        Dists("two", 2, first=deep),
        Dists("dists", 1, twice=True, first=deep),
        Dists("excludes", 1, pre=excludes),
        Dists("implies", 1, pre=simple),
    ]
