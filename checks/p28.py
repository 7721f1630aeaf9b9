"""P28: names that resolve to other modules

Programs of the stated shapes with symbolic names, with entries of sys.modules
for modules with other symbolic names, and with models of the import hooks of six
and setuptools with symbolic package names and, for six, a symbolic name below
six.moves: the name is an alias node for the actual module, which is processed
like any other module.
"""

from sym.core import PathEnd, str_eq

from .worlds import ALL, FEW, GraphHarness, Prog, World, dotted, ident

FROM = (("from", 0, 1, 1, False), ("import", 2, False))
OTHER = (("import", 1, False), ("import", 2, False), ("from", 0, 1, 1, False),
         ("from", 1, 0, 1, False))


def alias(E, w, *others):
    name = dotted(1 + E.choice("n", 2), "al")
    actual = dotted(1 + E.choice("n", 2))
    for o in others:
        if E.branch(str_eq(name, o[0])):
            raise PathEnd("infeasible")
    for o in (*others, (name, actual)):
        if E.branch(str_eq(name, o[1])) or E.branch(str_eq(actual, o[0])):
            raise PathEnd("infeasible")
    w.alias(name, actual)
    return name, actual


def one(E, w):
    """an entry of sys.modules for a module with another name"""
    alias(E, w)
    return []


def two(E, w):
    """two entries of sys.modules for modules with other names"""
    alias(E, w, alias(E, w))
    return []


class Six(GraphHarness):
    """imports of names below six.moves"""

    oracle = "p28"
    sample_mod = 32
    bounds = {
        "six": "a package with 1 or 2 name components",
        "imports": "from six.moves import <name>, import six.moves.<name>[.<name>], "
        "from six.moves.urllib import <name>; any <name>",
        "other modules": "each missing, a module or a package",
    }

    def __init__(self, name, forms, must):
        self.name = name
        self.forms = forms
        self.must_reach = must

    def build(self, E):
        w = World(lambda w, c, p: FEW, lambda w, d: [])
        six = None
        comps = ["six"] if E.choice("six", 2) else [ident("six"), "six"]
        for c in comps:
            six = w.add(c, six, "pkg", [])
        w.add("moves", six, None)
        name = ".".join(comps)
        w.finder("six", name)
        moves = f"{name}.moves"
        form = E.pick("form", self.forms)
        if form == "from":
            st = [f"{moves}", ident("name")]
        elif form == "urllib":
            st = [f"{moves}.urllib", ident("name")]
        elif form == "sub":
            st = [f"{moves}.{ident('name')}.{ident('name')}", None]
        else:
            st = [f"{moves}.{ident('name')}", None]
        if st[1] is None:
            body = [{"form": "import", "names": [[st[0], None]], "loc": "top"}]
        else:
            body = [{"form": "from", "level": 0, "module": st[0],
                     "names": [[st[1], None]], "star": False, "loc": "top"}]
        w.add("zz_root", None, "source", body)
        return w, {"ops": [["module", "zz_root"]]}


class Vendored(GraphHarness):
    """names below setuptools.extern"""

    name = "vendored"
    oracle = "p28"
    sample_mod = 32
    must_reach = ("alias", "actual-MissingModule", "actual-SourceModule", "actual-Package")
    bounds = {"names": "any name below the virtual package", "other modules": FEW}

    def build(self, E):
        w = World(lambda w, c, p: FEW, lambda w, d: [])
        root = None
        comps = [ident("root"), ident("root")]
        for c in comps:
            root = w.add(c, root, "pkg", [])
        vendor = dotted(2, "vendor")
        name = ident("vendored")
        root = ".".join(comps)
        if E.branch(str_eq(vendor, root)):
            raise PathEnd("infeasible")
        w.finder("vendor", root, [name], vendor)
        what = f"{root}.{ident('name')}"
        if E.choice("form", 2):
            body = [{"form": "import", "names": [[what, None]], "loc": "top"}]
        else:
            body = [{"form": "from", "level": 0, "module": what,
                     "names": [[ident("name"), None]], "star": False, "loc": "top"}]
        w.add("zz_root", None, "source", body)
        return w, {"ops": [["module", "zz_root"]]}


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Prog("sysmodules", "p28", FROM, pre=one, must=("alias", "actual-SourceModule", "actual-Package"),
             other=OTHER if deep else OTHER[:1] + OTHER[2:3], other_n=1),
        Prog("kinds", "p28", FROM, pre=one, must=("alias", "actual-ExtensionModule", "actual-NamespacePackage"),
             kinds=ALL),
        Prog("two", "p28", FROM, pre=two, must=("alias",)),
        Six("six", ("from", "import", "urllib"), ("alias", "six-module", "six-attribute")),
        Six("six-deep", ("sub",), ("alias",)),
        Vendored(),
    ]
