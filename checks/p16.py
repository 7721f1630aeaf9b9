"""P16: nodes for modules that were found

Specs with loaders of every class of the import system, in all combinations of
package-ness, presence and validity of source and code, origin and search locations,
with symbolic names and dependencies, and a distribution that has the file or not.
"""

import os
import shutil

import sym.world as sw
from sym.core import E

from . import fakeloaders
from .run import Harness

BUILTIN = ("sys", "time", "_thread")


class Specs(Harness):
    replay = "p16"
    sample_mod = 16

    def __init__(self, name, loaders, must, errors=tuple(fakeloaders.ERRORS), depths=(1, 2)):
        self.name = name
        self.o = (loaders, errors, depths)
        self.must_reach = must
        self.bounds = {
            "loader": loaders,
            "name": f"{depths} components",
            "source": f"none, valid, {tuple(fakeloaders.TEXTS)}, or raises {errors}",
            "code": f"valid or raises {errors}",
            "distribution": "none, without the file, with the file",
        }

    def setup(self):
        import oracle.p16  # noqa

        sw.setup_base()
        fakeloaders.install()

    def run(self, E):
        loaders, errors, depths = self.o
        kind = E.pick("loader", loaders)
        if kind == "builtin":
            name = E.pick("builtin", BUILTIN)
        else:
            name = ".".join(E.sym_id("n") for _ in range(E.pick("depth", depths)))
        if kind == "extinit":
            name += ".__init__"
        if kind in ("none", "namespace"):
            pkg = True
        elif kind in ("builtin", "extinit"):
            pkg = False
        else:
            pkg = bool(E.choice("pkg", 2))
        two = bool(E.choice("two", 2))
        source = code = None
        if kind in ("source", "custom", "exec"):
            k = E.choice("source", 3)
            if k == 1:
                source = E.sym_id("src")
            elif k == 2:
                k = E.choice("bad", len(fakeloaders.TEXTS) + len(errors))
                t = tuple(fakeloaders.TEXTS)
                source = t[k] if k < len(t) else [errors[k - len(t)]]
        if kind == "zip":
            source = E.sym_id("src")
            # (zipimport does not find modules that cannot be compiled)
            code = source
        elif kind in ("source", "custom", "exec", "sourceless", "frozen"):
            k = E.choice("code", 1 + len(errors))
            code = [errors[k - 1]] if k else E.sym_id("code")
            if isinstance(source, str) and source in fakeloaders.TEXTS and not k:
                # the code of invalid source
                E.assume(kind == "source" or source == "zz_return")
                code = ["syntax"]
        sc = {"loader": kind, "name": name, "pkg": pkg, "two": two, "source": source,
              "code": code, "dist": E.choice("dist", 3)}
        E.scenario = lambda: sc
        tmp = os.path.join(sw.BASE, f"p{os.getpid()}")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        import oracle.p16 as o

        try:
            msg = o.run(sc, tmp, fakeloaders, E.reach)
        except Exception as exc:
            E.fail(f"raised {type(exc).__name__}: {exc}")
        E.check(msg is None, msg)

    def signature(self, v):
        return v["message"].partition(" is ")[0].replace(" ", "_")


def harnesses(tier):
    return [
        Specs("code", ("source", "custom", "exec"), ("SourceModule", "BytecodeModule", "InvalidModule", "Package", "distribution")),
        Specs("other", ("sourceless", "frozen", "zip", "ext", "extinit", "builtin", "none", "namespace"), (
            "BytecodeModule", "FrozenModule", "FrozenPackage", "ExtensionModule", "BuiltinModule", "NamespacePackage", "Package", "InvalidModule", "SourceModule")),
    ]
