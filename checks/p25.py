"""P25: imports by hooks

Package trees of the stated shapes with symbolic names, in real directories with
other files, that are (partly) in the graph or not: what is added by importing
modules and packages through the hook interface.
"""

from sym.core import E, str_eq

from .worlds import GraphHarness, World, statement

LEAF = ("source", "bytecode", "ext", "invalid")
SUB = ("pkg", "bpkg", "extpkg", "invpkg")
STMT = (("import", 1, False), ("from", 0, 1, 1, False), ("import", 2, False))
EXTRA = ("{0}.txt", "{0}-x.py", "__pycache__/", "{0}-x/", "{0}/", "{0}.py~", "py.typed")


def member(name="member"):
    return E.sym_id(name, distinct_from=("__main__", "__init__", "__pycache__"))


class Packages(GraphHarness):
    oracle = "p25"
    sample_mod = 64

    def __init__(self, name, tops, subs, depth, extras=(), how=("hook_many",), stmts=(), n=0,
                 root=(), exclude=False, calls=(("package",),), below=False, where=("top",),
                 must=(), unknown=True):
        self.name = name
        self.o = (tops, subs, depth, extras, how, stmts, n, root, exclude, calls, below, unknown)
        self.must_reach = must
        self.bounds = {
            "package": f"{tops}, {'in a package' if below else 'not in a package'}",
            "members per directory": f"each of {subs}",
            "depth": depth,
            "other files": extras,
            "statements in members": f"at most {n} of {stmts}",
            "statements in the root": root,
            "calls": f"{calls} by {how}",
            "exclude": exclude,
        }

    def tree(self, E, w, d, depth):
        tops, subs, _, extras, *_ = self.o
        for what in subs:
            kinds = {"leaf": LEAF, "sub": SUB, "any": LEAF + SUB + ("ns",), "main": ("source",),
                     "source": ("source",), "pkg": ("pkg",)}[what]
            kind = E.pick("member", kinds)
            if depth == 0 and kind not in LEAF:
                kind = "source"
            comp = "__main__" if what == "main" else member()
            c = w.add(comp, d, kind)
            name = c.name
            (self.optional if kind == "ns" else self.members).append(name)
            if c.is_pkg:
                self.packages.append(c)
                if kind != "ns":
                    self.tree(E, w, c, depth - 1)

    def build(self, E):
        tops, subs, depth, extras, how, stmts, n, root, exclude, calls, below, unknown = self.o
        left = [n]
        self.members = []
        self.optional = []
        self.packages = []

        def body(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, stmts))
            return out

        w = World(lambda w, c, p: ("source", None), body)
        rootname = member("root")
        rootbody = [statement(E, root)] if root else []
        w.add(rootname, None, "source", rootbody)
        parent = w.add(member(), None, "pkg") if below else None
        comp = member("package")
        d = w.add(comp, parent, E.pick("top", tops))
        if below:
            self.packages.append(parent)
            self.members.append(d.name)
        if d.is_pkg:
            self.packages.append(d)
            self.tree(E, w, d, depth)
        for c in self.packages:
            extra = []
            if extras and c is d:
                x = E.pick("extra", extras)
                t = member("file")
                if x == "{0}/" and c.kind != "ns":
                    # the same name as a module, or a directory without modules
                    for k, _ in c.children:
                        if E.branch(str_eq(k, t)):
                            break
                    else:
                        w.add(t, c, "ns")
                        self.optional.append(f"{c.name}.{t}")
                extra.append(x.format(t))
            if c.listed is None:
                w.list(c, extra)
        ops = []
        if exclude:
            ops.append(["exclude", [E.pick("exclude", [d.name] + self.members)]])
        names = [d.name] + self.members[below:]
        if unknown:
            names.append("unknown")
        todo = []
        for what in E.pick("calls", calls):
            name = E.pick("name", names) if len(names) > 1 else names[0]
            if name == "unknown":
                name = member()
            todo.append([what, name])
        act = E.pick("how", how)
        sc = {"ops": ops, "members": self.members, "optional": self.optional}
        if act == "hook":
            sc["act"] = [rootname, todo]
            ops.append(["module", rootname])
        else:
            ops.append(["module", rootname])
            ops.append([act, rootname, todo])
        return w, sc


def harnesses(tier):
    deep = tier == "thorough"
    both = ("hook_many", "hook_raise", "hook")
    return [
        Packages("members", ("pkg",), ("any",), 2 if deep else 1, must=("member", "Package"), unknown=False),
        Packages("pairs", ("pkg",), ("any", "any" if deep else "source"), 1, unknown=False),
        Packages("tops", ("pkg", "bpkg", "extpkg", "invpkg", "ns", "source", "bytecode", "ext",
                          "invalid"), ("leaf",), 1, how=both, below=True),
        Packages("files", ("pkg", "ns"), ("source",) if not deep else ("source", "leaf"), 1, extras=EXTRA),
        Packages("main", ("pkg",), ("main", "pkg"), 1, unknown=False),
        Packages("deps", ("pkg",), ("source", "pkg") if deep else ("source",), 1, stmts=STMT, n=2 if deep else 1, how=both, unknown=False),
        Packages("root", ("pkg",), ("source", "pkg"), 1, root=STMT, unknown=False),
        Packages("calls", ("pkg",), ("source",), 1, root=STMT[:1],
                 calls=(("import",), ("import", "package"), ("package", "import"), ("package", "package")),
                 how=both),
        Packages("exclude", ("pkg",), ("source", "pkg"), 1, exclude=True, how=both[1:]),
    ]
