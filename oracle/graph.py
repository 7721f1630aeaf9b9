"""
Reference semantics of the module graph: what must, may and must not be in the
graph of a given world of modules. Written against the properties, not against
the implementation; runs on symbolic (instrumented) and concrete values.

W.find(name) -> Desc or None        what the import system finds
W.scripts    -> {path: statements}
"""

from oracle.loaders import SIX_ATTRIBUTES, SIX_MODULES
from oracle.model import LOCS

DEFAULT = (False, True, False, None)


def parent_of(name):
    return name.rpartition(".")[0]


def absolute(name, is_pkg, is_script, st):
    """
    Absolute name of the target of an import, the way Python does it;
    None for a relative import outside of a package.
    """
    if st["level"] == 0:
        return st["module"]
    if is_script:
        return None
    package = name if is_pkg else parent_of(name)
    for _ in range(st["level"] - 1):
        package = parent_of(package)
    if package == "":
        return None
    return f"{package}.{st['module']}" if st["module"] else package


class Source:
    """A node whose import statements are known"""

    def __init__(self, name, stmts, is_pkg=False, bytecode=False, script=False):
        self.name = name
        self.stmts = stmts
        self.is_pkg = is_pkg
        self.bytecode = bytecode
        self.script = script

    def flags(self, st):
        opt, glob = LOCS[st.get("loc", "top")]
        if self.bytecode:
            return (not glob, glob)
        return (opt, glob)

    def asname(self, a):
        return None if self.bytecode else a


class Oracle:
    def __init__(self, W, G, bad):
        self.W = W
        self.G = G
        self.bad = bad
        self._find = {}

    def find(self, name):
        if name in self._find:
            return self._find[name]
        d = self._find[name] = self.W.find(name)
        return d

    # -- sources -----------------------------------------------------------

    def source(self, name):
        """Source object for a scanned node, or None"""
        kind = self.G.nodes[name]
        if kind == "Script":
            return Source(name, self.W.scripts[name], script=True)
        if kind in ("SourceModule", "BytecodeModule", "Package", "FrozenModule"):
            d = self.find(name)
            if d is not None and d.scanned:
                return Source(name, d.stmts, d.is_pkg, d.bytecode)
        return None

    def sources(self):
        for name in self.G.nodes:
            s = self.source(name)
            if s is not None:
                yield s

    def imports(self, src):
        """(statement, target, asname, names) for all imports"""
        for st in src.stmts:
            if st["form"] == "import":
                for nm, asname in st["names"]:
                    yield st, nm, asname, []
            elif st["form"] == "from":
                target = absolute(src.name, src.is_pkg, src.script, st)
                yield st, target, None, [] if st["star"] else st["names"]

    def node_for(self, name):
        """name of the node that names imported from *name* are looked up in"""
        seen = 0
        while (
            name in self.G.nodes and self.G.nodes[name] == "AliasNode" and seen < 10
        ):
            name = self.G.actual(name)
            seen += 1
        return name

    # -- names in a package --------------------------------------------------

    def bindings(self, d, n):
        """
        How module *d* binds *n*: (modules that n certainly is bound to by a
        plain or renaming import, n may be bound by something else)
        """
        mods = []
        other = False
        src = Source(d.name, d.stmts, d.is_pkg, d.bytecode)
        for st in d.stmts:
            form = st["form"]
            if form == "import":
                for nm, asname in st["names"]:
                    if asname is not None:
                        if asname == n:
                            other = True
                            mods.append(nm)
                        elif nm == n:
                            # "import n as x" does not bind n
                            other = True
                            mods.append(nm)
                    elif nm == n:
                        other = True
                        mods.append(nm)
                    elif nm.split(".")[0] == n:
                        other = True
            elif form == "from":
                if st["star"]:
                    other = True
                    continue
                target = absolute(src.name, src.is_pkg, False, st)
                for nm, asname in st["names"]:
                    if (asname is None and nm == n) or (
                        asname is not None and asname == n
                    ):
                        other = True
                        if target is not None:
                            target = self.node_for(target)
                            mods.append(f"{target}.{nm}")
                    elif nm == n:
                        other = True
                        if target is not None:
                            mods.append(f"{target}.{nm}")
            elif form in ("assign", "def"):
                if st["name"] == n:
                    other = True
        return mods, other

    def from_name(self, pkg, n):
        """
        Targets for "from pkg import n": (must, may) where *must* is a list of
        alternatives, one of which has to be imported, or None.
        """
        d = self.find(pkg)
        if d is None:
            return None, []
        full = f"{pkg}.{n}"
        mods, other = self.bindings(d, n) if d.scanned else ([], False)
        may = list(mods)
        if d.is_pkg:
            may.append(full)
            if self.find(full) is not None:
                return [full] + mods, may
            if d.scanned and not other and not self.extends(d.name):
                # a missing name
                self.W.note("name")
                return [full], may
        return None, may

    # -- explanations --------------------------------------------------------

    def must(self, src):
        """(alternatives, record, text) for every obligation of a module"""
        for st, target, asname, names in self.imports(src):
            flags = src.flags(st)
            if target is None:
                dots = "." * st["level"] + st["module"]
                yield [dots], (*flags, False, None), f"import of {dots}"
                continue
            yield [target], (*flags, False, src.asname(asname)), f"import of {target}"
            pkg = self.node_for(target)
            if pkg not in self.G.nodes or self.G.nodes[pkg] in (
                "ExcludedModule",
                "MissingModule",
                "VirtualNode",
                "AliasNode",
            ):
                continue
            for n, as_ in names:
                must, _ = self.from_name(pkg, n)
                if must is not None:
                    yield must, (*flags, True, src.asname(as_)), (
                        f"import of {n} from {pkg}"
                    )

    def may(self, src):
        """(target, record) of edges that a module can have"""
        for st, target, asname, names in self.imports(src):
            flags = src.flags(st)
            if target is None:
                dots = "." * st["level"] + st["module"]
                yield dots, (*flags, False, None)
                continue
            yield target, (*flags, False, src.asname(asname))
            pkg = self.node_for(target)
            for n, as_ in names:
                _, may = self.from_name(pkg, n)
                for m in may:
                    yield m, (*flags, True, src.asname(as_))

    def has_edge(self, a, b):
        return a in self.G.out and b in self.G.out[a]

    # -- properties ----------------------------------------------------------

    def complete(self):
        """P05"""
        for src in self.sources():
            for n in self.extends(src.name):
                self.W.note("extend")
                if not self.has_edge(src.name, n):
                    self.bad(f"{src.name}: {n} is not in the graph", "extend")
            for alts, rec, text in self.must(src):
                for a in alts:
                    if self.has_edge(src.name, a):
                        self.W.note("named" if rec[2] else "imported")
                        break
                else:
                    self.bad(f"{src.name}: {text} is not in the graph", "missing")

    def attributes(self):
        """P04"""
        for src in self.sources():
            must = [(alts, rec) for alts, rec, _ in self.must(src)]
            for alts, rec in must:
                for a in alts:
                    if self.has_edge(src.name, a) and rec in self.G.out[src.name][a]:
                        self.W.note("attributes")
                        break
                else:
                    self.bad(
                        f"{src.name}: no edge to {alts[0]} has the attributes "
                        f"{rec!r} of the import",
                        "lost",
                    )
            may = list(self.may(src))
            for dst in self.G.out[src.name]:
                for rec in self.G.out[src.name][dst]:
                    if rec == DEFAULT and self.default_allowed(src.name, dst):
                        continue
                    for t, r in may:
                        if t == dst and r == rec:
                            self.W.note("explained")
                            break
                    else:
                        self.bad(
                            f"{src.name}: edge to {dst} has attributes {rec!r} that "
                            "no import has",
                            "invented",
                        )

    def default_allowed(self, a, b):
        """Can there be a containment or implied edge?"""
        return parent_of(a) == b or b in self.extends(a)

    def extends(self, name):
        """Modules used to make *name* a namespace package"""
        src = self.source(name)
        if src is None or not src.is_pkg or src.bytecode:
            return []
        return [st["name"] for st in src.stmts if st["form"] == "extend"]

    def explained_nodes(self, roots):
        """P06: nodes"""
        wanted = set()

        def want(name):
            while name not in wanted:
                wanted.add(name)
                name = parent_of(name)
                if name == "":
                    break

        for r in roots:
            want(r)
        for src in self.sources():
            for target, _ in self.may(src):
                want(target)
            for target in self.extends(src.name):
                want(target)
        for name in self.G.nodes:
            self.W.note("node")
            if name not in wanted:
                self.bad(f"nothing asks for {name}", "node")

    def explained_edges(self):
        """P06: edges of scanned modules and of all others"""
        for name in self.G.nodes:
            src = self.source(name)
            may = [t for t, _ in self.may(src)] if src is not None else []
            for dst in self.G.out[name]:
                self.W.note("edge")
                if dst in may or self.default_allowed(name, dst):
                    continue
                self.bad(f"nothing in {name} explains the edge to {dst}", "edge")

    def parents(self, roots=()):
        """P07"""
        used = set(roots)
        for name in self.G.nodes:
            for dst in self.G.out[name]:
                used.add(dst)
        for name in used:
            if self.G.nodes[name] in (
                "Script",
                "InvalidRelativeImport",
                "PyPIDistribution",
            ):
                continue
            p = parent_of(name)
            if p == "":
                continue
            self.W.note(self.G.nodes[name])
            if p not in self.G.nodes:
                self.bad(f"{p}, the package of {name}, is not in the graph", "package")
            elif p not in self.G.out[name]:
                self.bad(f"no edge from {name} to its package", "edge")

    def kinds(self, skip=()):
        """P08: which nodes are missing, invalid or found"""
        for name, kind in self.G.nodes.items():
            if name in skip:
                self.W.note(kind)
                continue
            if kind in ("Script", "InvalidRelativeImport", "PyPIDistribution"):
                continue
            d = self.find(name)
            self.W.note(kind)
            if d is None:
                if kind != "MissingModule":
                    self.bad(f"{name} does not exist but is a {kind}", "found")
                continue
            if kind == "MissingModule":
                self.bad(f"{name} exists but is recorded as missing", "missing")
            elif kind != d.node_class:
                self.bad(f"{name} is a {kind}, not a {d.node_class}", "kind")
            elif d.init_class is not None:
                init = type(self.G.objects[name].init_module).__name__
                if init != d.init_class:
                    self.bad(
                        f"{name} has a {init}, not a {d.init_class} as init", "kind"
                    )

    def missing_names(self, skip=()):
        """P08: names imported from a package that does not have them"""
        for src in self.sources():
            for _, target, _, names in self.imports(src):
                if target is None or target in skip:
                    continue
                d = self.find(target)
                if d is None or not d.is_pkg or not (d.scanned or d.kind == "ns"):
                    continue
                for n, _ in names:
                    full = f"{target}.{n}"
                    _, other = self.bindings(d, n)
                    if not other and self.find(full) is None:
                        self.W.note("unknown-name")
                        if full not in self.G.nodes:
                            self.bad(f"missing name {full} is not recorded", "unrecorded")

    def relative(self):
        """P09"""
        wanted = set()
        for src in self.sources():
            for st, target, _, _ in self.imports(src):
                if st["form"] != "from" or st["level"] == 0:
                    continue
                self.W.note("invalid" if target is None else "valid")
                if target is None:
                    target = "." * st["level"] + st["module"]
                    wanted.add(target)
                    if (
                        target not in self.G.nodes
                        or self.G.nodes[target] != "InvalidRelativeImport"
                    ):
                        self.bad(
                            f"invalid relative import {target} of {src.name} is not "
                            "recorded",
                            "invalid",
                        )
                if not self.has_edge(src.name, target):
                    self.bad(
                        f"{src.name}: relative import does not lead to {target}",
                        "target",
                    )
        for name, kind in self.G.nodes.items():
            if kind == "InvalidRelativeImport":
                if name not in wanted:
                    self.bad(f"{name} is not an invalid relative import", "valid")
                if len(self.G.out[name]):
                    self.bad(f"{name} has dependencies", "valid")

    # -- configuration -------------------------------------------------------

    def excluded(self, name, excludes):
        """Is *name* excluded, or in an excluded package?"""
        while name != "":
            if name in excludes:
                return True
            name = parent_of(name)
        return False

    def excludes(self, excludes):
        """P10"""
        for name, kind in self.G.nodes.items():
            if kind in ("Script", "InvalidRelativeImport", "PyPIDistribution"):
                continue
            if self.excluded(name, excludes):
                self.W.note("excluded")
                if kind == "MissingModule" and "." in name:
                    # in a package that does not exist
                    p = parent_of(name)
                    if p in self.G.nodes and self.G.nodes[p] == "MissingModule":
                        continue
                if kind != "ExcludedModule":
                    self.bad(f"{name} is excluded but is a {kind}", "kind")
                for dst in self.G.out[name]:
                    if dst != parent_of(name):
                        self.bad(f"{name} is excluded but depends on {dst}", "edge")
            elif kind == "ExcludedModule":
                self.bad(f"{name} is not excluded", "not-excluded")

    def implies(self, config, excludes):
        """P11: config is {name: implied value}"""
        for name, value in config.items():
            if name not in self.G.nodes or self.excluded(name, excludes):
                continue
            p = parent_of(name)
            if p in self.G.nodes and self.G.nodes[p] == "MissingModule":
                continue
            if isinstance(value, dict):
                want = "AliasNode" if "alias" in value else "VirtualNode"
                targets = list(value.values())
                if self.G.nodes[name] != want:
                    self.bad(f"{name} is not a {want}", "kind")
                self.W.note(want)
            else:
                targets = value
                self.W.note("implied")
            for t in targets:
                if t not in self.G.nodes:
                    self.bad(f"{t}, implied by {name}, is not in the graph", "node")
                elif t not in self.G.out[name]:
                    self.bad(f"no edge from {name} to implied {t}", "edge")

    # -- names that resolve to other modules ----------------------------------

    def actual_name(self, name):
        """Name of the module found for *name* when that is another module"""
        actual = self.W.resolve(name)
        if actual != name:
            return actual
        for f in self.W.finders:
            if type(f).__name__ == "VendorImporter":
                root = f.root_name
                if parent_of(name) == root and name[len(root) + 1 :] in f.vendored_names:
                    if self.W.real(name) is not None:
                        return None
                    n = name[len(root) + 1 :]
                    for c in (f"{f.vendor_pkg}.{n}", n):
                        if self.W.real(c) is not None:
                            return c
                    return f"{f.vendor_pkg}.{n}"
            elif name.startswith(f.prefix + "."):
                n = name[len(f.prefix) + 1 :]
                if n in SIX_MODULES:
                    return SIX_MODULES[n]
        return None

    def aliases(self):
        """P28"""
        for name, kind in self.G.nodes.items():
            if kind in ("Script", "InvalidRelativeImport", "PyPIDistribution"):
                continue
            p = parent_of(name)
            if p in self.G.nodes and self.G.nodes[p] == "MissingModule":
                continue
            actual = self.actual_name(name)
            if actual is None:
                if kind == "AliasNode":
                    self.bad(f"{name} is not an alias", "not-alias")
                continue
            self.W.note("alias")
            d = self.W.real(actual)
            if kind != "AliasNode":
                self.bad(f"{name} is a {kind}, not an alias for {actual}", "alias")
            if actual not in self.G.nodes:
                self.bad(f"{actual}, the module behind {name}, is not in the graph", "actual")
            if actual not in self.G.out[name]:
                self.bad(f"no edge from alias {name} to {actual}", "edge")
            kind = self.G.nodes[actual]
            want = "MissingModule" if d is None else d.node_class
            self.W.note("actual-" + want)
            if kind != want:
                self.bad(f"{actual} is a {kind}, not a {want}", "kind")
        self.parents(self.G.roots)

    def six_names(self):
        """P28: names imported from six.moves"""
        for f in self.W.finders:
            if type(f).__name__ == "VendorImporter":
                continue
            for src in self.sources():
                for _, target, _, names in self.imports(src):
                    if target != f.prefix:
                        continue
                    for n, _ in names:
                        if n in SIX_MODULES:
                            self.W.note("six-module")
                            if not self.has_edge(src.name, f"{target}.{n}"):
                                self.bad(f"{src.name}: no edge to {target}.{n}", "six")
                        elif n in SIX_ATTRIBUTES:
                            mod = SIX_ATTRIBUTES[n]
                            self.W.note("six-attribute")
                            if self.has_edge(src.name, f"{target}.{n}"):
                                self.bad(
                                    f"{src.name}: {target}.{n} is not a module", "six"
                                )
                            if mod != "builtins" and not self.has_edge(src.name, mod):
                                self.bad(f"{src.name}: no edge to {mod} for {n}", "six")
