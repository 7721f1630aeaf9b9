"""P17: data files of packages

Packages in real directories and zip files: all trees of the stated shapes, with
names of symbolic characters or special names, listed in any order. The package is
marked as having data files exactly when there are some.
"""

import os
import shutil

import sym.world as sw
from sym.core import E, snot, str_eq

from . import trees
from .run import Harness

IGNORED = ("__pycache__", ".hg", ".svn", ".git")
SUFFIXES = (".py", ".pyc", ".so", ".abi3.so", ".cpython-312-x86_64-linux-gnu.so")


class Tree(Harness):
    replay = "p17"
    must_reach = ("data", "no-data")

    def __init__(self, name, n, depth, files, dirs, zips=(None,), sample=64, order=True, beside=()):
        self.name = name
        self.sample_mod = sample
        self.o = (n, depth, files, dirs, zips, order, beside)
        self.bounds = {
            "entries": f"at most {n}, in directories of depth {depth}",
            "files": f"{files} (* is any character)",
            "directories": dirs,
            "next to the package": beside,
            "order": "any" if order else "as created",
            "place": [("directory" if z is None else f"zip file, in {z!r}") for z in zips],
        }

    def setup(self):
        import oracle.p17  # noqa

        sw.setup_base()
        trees.install()

    def run(self, E):
        n, depth, files, dirs, zips, order, beside = self.o
        left = [n]

        def text(pattern):
            out = ""
            for c in pattern:
                if c == "*":
                    c = E.sym_char("c")
                    for x in "/\n\r":
                        E.assume(snot(str_eq(c, x)))
                out += c
            return out

        def tree(depth, names):
            out = [["__init__.py", None]] if not names else []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                sub = None
                k = E.choice("entry", len(files) + (len(dirs) if depth else 0))
                if k < len(files):
                    nm = text(files[k])
                    if "*" in files[k]:
                        for x in IGNORED + (".", "..") + SUFFIXES:
                            E.assume(snot(str_eq(nm, x)))
                else:
                    nm = text(dirs[k - len(files)])
                    sub = tree(depth - 1, True)
                for x, _ in out:
                    E.assume(snot(str_eq(nm, x)))
                out.insert(E.choice("at", len(out) + 1) if order else len(out), [nm, sub])
            return out

        sc = {"tree": tree(depth, False), "zip": E.pick("zip", zips), "dirs": 0, "beside": [], "first": 0}
        if sc["zip"] is not None:
            sc["dirs"] = E.choice("dirs", 2)
        if beside:
            nm = text(E.pick("beside", beside))
            for x in ("pkg", ".", ".."):
                E.assume(snot(str_eq(nm, x)))
            sc["beside"] = [[nm, E.pick("what", (None, [["data", None]]))]]
            sc["first"] = E.choice("first", 2)
        E.scenario = lambda: sc
        tmp = os.path.join(sw.BASE, f"p{os.getpid()}")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        trees.ROOTS.clear()
        import oracle.p17 as o

        try:
            msg = o.run(sc, tmp, trees, E.reach)
        except Exception as exc:
            E.fail(f"raised {type(exc).__name__}: {exc}")
        E.check(msg is None, msg)

    def signature(self, v):
        return v["message"].partition(" ")[0]


def harnesses(tier):
    deep = tier == "thorough"
    files = ("*.py", "*", "*.pyc", "*.so", "*.txt", "*.pyi", "*.PY", ".gitignore")
    dirs = ("*", "*.py", *IGNORED, ".github", "x__pycache__")
    few = ("*.py", "*")
    return [
        Tree("names", 1, 1, files=("*", "**", "***", "****") + (("*****",) if deep else ()), dirs=("*",), zips=(None, ""), sample=32),
        Tree("kinds", 2, 2, files=files, dirs=dirs, zips=(None, "")),
        Tree("shapes", 4 if deep else 3, 3, files=few, dirs=("*", ".git", "__pycache__"), zips=(None, "")),
        Tree("places", 2, 2, files=few, dirs=("*", ".hg"), zips=("", "sub/", ".hg/", "__pycache__/", "pk/pkg/"), order=False),
        Tree("beside", 1, 1, files=few, dirs=("*",), zips=(None, "", "sub/"), order=False,
             beside=("pkg*", "pkg.*", "*pkg", "pk*", "pkg**")),
    ]
