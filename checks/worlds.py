"""Harnesses that build a graph of a symbolic world of modules"""

import importlib
import io
import os
import sys

from oracle import dists
from oracle.model import render
from sym import world as sw
from sym.core import E
from sym.runtime import SYS
from sym.world import World

from .run import Harness


class Env:
    def __init__(self, world):
        self.world = world

    def script_path(self, k, stmts):
        fn = os.path.join(sw.BASE, f"script{k}.py")
        if stmts is not None:
            self.world.scripts[fn] = stmts
        return fn

    def distribution(self, spec, by_name):
        name = self.world.install(spec)
        if by_name:
            return name
        return sys.modules["modulegraph2"].distribution_named(name)

    def source_text(self, stmts):
        return render(stmts)

    def site(self, k, specs):
        """A directory with distributions"""
        site = os.path.join(sw.BASE, f"p{os.getpid()}", f"sites{k}")
        for spec in specs:
            dists.write(site, spec)
        os.makedirs(site, exist_ok=True)
        return site

    def output(self, name, missing):
        return ("/zz-missing/" if missing else "/zz-out/") + name

    def capture(self, fn):
        """(exception, text on stdout, [(name of file, text)])"""
        fp = io.StringIO()
        SYS.__dict__["stdout"] = fp
        exc = None
        try:
            fn()
        except (Exception, SystemExit) as e:
            exc = e
        finally:
            del SYS.__dict__["stdout"]
        return exc, fp.getvalue(), [(p, f.getvalue()) for p, f in self.world.written]


class Output(io.StringIO):
    def close(self):
        pass


def ident(name="n"):
    return E.sym_id(name, distinct_from=("__main__", "__init__"))


def dotted(n, name="n"):
    return ".".join(ident(name) for _ in range(n))


class GraphHarness(Harness):
    """
    build() returns (world, scenario dict); the oracle module's run(world, env,
    scenario, bad) runs the operations and checks the property.
    """

    replay = "world"
    oracle = None
    sample_mod = 256
    max_validate = 16

    def setup(self):
        importlib.import_module(f"oracle.{self.oracle}")

    def prepare(self):
        sw.setup_base()

    def build(self, E):
        raise NotImplementedError

    def run(self, E):
        w, sc = self.build(E)
        sc["oracle"] = self.oracle

        def scenario():
            out = dict(sc)
            out.update(w.as_json())
            return out

        E.scenario = scenario

        def bad(msg, tag=""):
            E.signature = tag
            E.fail(f"{tag}: {msg}")

        w.written = []

        def fs_open(path, *args, **kw):
            if isinstance(path, str) and path.startswith("/zz-"):
                # the output of the command line
                if path.startswith("/zz-missing/"):
                    raise FileNotFoundError(2, "No such file or directory", path)
                out = Output()
                w.written.append((path, out))
                return out
            if path in w.scripts:
                return io.BytesIO(render(w.scripts[path]).encode(errors="surrogateescape"))
            return NotImplemented

        E.locals["open"] = fs_open
        mod = sys.modules[f"oracle.{self.oracle}"]
        mod.run(w, Env(w), sc, bad)

    def signature(self, v):
        return v["message"].partition(":")[0]


# ---------------------------------------------------------------- programs


def statement(E, forms, locs=("top",), maxnames=1):
    """
    A symbolic import statement. forms: ("import", components, renamed) or
    ("from", level, components, names, renamed) or ("star", level, components)
    or ("assign",)
    """
    f = E.pick("form", forms)
    loc = E.pick("loc", locs) if f[0] != "star" else "top"
    if f[0] == "import":
        return {
            "form": "import",
            "names": [[dotted(f[1], "mod"), ident("as") if f[2] else None]],
            "loc": loc,
        }
    if f[0] == "from":
        return {
            "form": "from",
            "level": f[1],
            "module": dotted(f[2], "mod"),
            "names": [
                [ident("name"), ident("as") if f[4] else None] for _ in range(f[3])
            ],
            "star": False,
            "loc": loc,
        }
    if f[0] == "star":
        return {
            "form": "from",
            "level": f[1],
            "module": dotted(f[2], "mod"),
            "names": [],
            "star": True,
            "loc": "top",
        }
    if f[0] == "extend":
        return {"form": "extend", "name": f[1]}
    if f[0] == "def":
        return {"form": "def", "name": ident("def")}
    if f[0] == "assign":
        return {"form": "assign", "name": ident("var"), "loc": loc}
    raise AssertionError(f)


ALL = ("source", "bytecode", "ext", "invalid", "pkg", "bpkg", "extpkg", "invpkg", "ns", None)
FEW = ("source", "pkg", None)
SOME = ("source", "pkg", "ns", None)


class Prog(GraphHarness):
    """
    A root module or script with symbolic statements; all other modules are
    whatever the import system may find.
    """

    def __init__(
        self,
        name,
        oracle,
        forms,
        n=1,
        root=1,
        rootkinds=("source", "pkg"),
        script=False,
        locs=("top",),
        kinds=FEW,
        other=(),
        other_n=0,
        other_locs=("top",),
        crashes=(0,),
        invalid=(0,),
        order=False,
        again=0,
        must=(),
        max_modules=12,
        seeds=None,
        sample_mod=64,
        pre=None,
        post=None,
        scenario=None,
    ):
        self.pre = pre
        self.post = post
        self.extra = scenario or {}
        self.name = name
        self.oracle = oracle
        self.sample_mod = sample_mod
        self.o = dict(
            forms=forms,
            n=n,
            root=root,
            rootkinds=rootkinds,
            script=script,
            locs=locs,
            kinds=kinds,
            other=other,
            other_n=other_n,
            other_locs=other_locs,
            crashes=crashes,
            invalid=invalid,
            order=order,
            again=again,
            max_modules=max_modules,
        )
        self.must_reach = must
        if order:
            self.seeds = seeds or (0, 1, 2, 3, 4, 5, 6, 7)
        self.bounds = {
            "root": "script" if script else f"module of {root} name components, {rootkinds}",
            "root statements": f"{n} of {forms} at {locs}",
            "statements in other modules": f"at most {other_n} of {other} at {other_locs}",
            "found modules": f"{kinds}",
            "import failures": [crashes, invalid],
            "later roots": again,
            "configuration": (self.pre.__doc__ or self.pre.__name__) if self.pre else None,
            "later operations": (self.post.__doc__ or self.post.__name__) if self.post else None,
            "set iteration orders": "all" if order else "insertion",
        }

    def kinds(self, w, comp, parent):
        return self.o["kinds"]

    def build(self, E):
        o = self.o
        left = [o["other_n"]]

        def stmts(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, o["other"], o["other_locs"]))
            return out

        w = World(self.kinds, stmts, o["crashes"], o["invalid"], o["max_modules"])
        if o["order"]:
            E.order_mode = permute
        body = [statement(E, o["forms"], o["locs"]) for _ in range(o["n"])]
        ops = list(self.pre(E, w)) if self.pre is not None else []
        if o["script"]:
            ops.append(["script", body])
        else:
            parent = None
            name = dotted(o["root"])
            comps = name.split(".")
            for c in comps[:-1]:
                parent = w.add(c, parent, "pkg")
            w.add(comps[-1], parent, E.pick("rootkind", o["rootkinds"]), body)
            ops.append(["module", name])
        for _ in range(o["again"]):
            ops.append(["module", dotted(1 + E.choice("comps", 2))])
        if self.post is not None:
            ops.extend(self.post(E, w, ops))
        return w, {"ops": ops, **self.extra}


def permute(items):
    """every order of iteration over a set"""
    if len(items) < 2:
        return items
    left = list(items)
    out = []
    while len(left) > 1:
        out.append(left.pop(E.choice("order", len(left))))
    return out + left
