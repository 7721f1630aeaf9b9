"""
Symbolic model of the import system: which modules exist, of which kind, and
what they contain is decided lazily, when the code under test asks.

find_spec and the import of parent packages follow importlib.util.find_spec
and importlib._bootstrap; loaders have the interface of the real ones and
return generated source text that contains symbolic names.
"""

import atexit
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile

from oracle import dists
from oracle.model import CRASHES, INVALID, KINDS, Desc, make_crash, render

from . import runtime
from .core import E, PathEnd, str_eq
from .runtime import SYS

_MISSING = object()
BASE = None
SO = importlib.machinery.EXTENSION_SUFFIXES[0]
NDIRS = 48
SITES = 0


def setup_base():
    """Real, empty package directories (the code under test lists them)"""
    global BASE
    if BASE is None:
        BASE = tempfile.mkdtemp(prefix="symworld")
        pid = os.getpid()
        atexit.register(
            lambda: os.getpid() == pid and shutil.rmtree(BASE, ignore_errors=True)
        )
        for k in range(NDIRS):
            os.mkdir(os.path.join(BASE, f"d{k}"))
    return BASE


class WModule:
    """A module in the modelled sys.modules"""

    def __init__(self, spec):
        self.__spec__ = spec
        if spec.submodule_search_locations is not None:
            self.__path__ = spec.submodule_search_locations


class NoSpec:
    """An entry of sys.modules that is not a module"""


class NoneSpec:
    __spec__ = None


class SLoader(importlib.abc.InspectLoader):
    """Like SourceFileLoader"""

    def __init__(self, world, desc, filename):
        self._world = world
        self._desc = desc
        self.path = filename

    @property
    def name(self):
        return self._desc.name

    def is_package(self, fullname):
        return self._desc.is_pkg

    def get_source(self, fullname):
        d = self._desc
        self._world.body(d)
        what = INVALID[d.inv]
        if d.kind in ("invalid", "invpkg"):
            if what == "syntax":
                return "def ("
            if what == "decode":
                raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
            if what == "encoding":
                raise SyntaxError("unknown encoding")
            if what == "null":
                return "a\0b"
            return None
        if d.bytecode:
            return None
        return d.text

    def get_code(self, fullname):
        d = self._desc
        self._world.body(d)
        what = INVALID[d.inv]
        if d.kind in ("invalid", "invpkg"):
            if what == "decode":
                raise SyntaxError("invalid utf-8")
            if what == "magic":
                raise ImportError("bad magic number")
            if what == "truncated":
                raise EOFError("marshal data too short")
            raise SyntaxError("invalid syntax")
        return compile(d.text, self.path, "exec", dont_inherit=True)


class WDesc(Desc):
    def __init__(self, world, comp, parent, kind, no):
        name = comp if parent is None else f"{parent.name}.{comp}"
        super().__init__(name, kind)
        self.world = world
        self.comp = comp
        self.parent = parent
        self.children = []
        self.no = no
        self.has_body = False
        self.listed = None  # files and directories, for directories that are read

    @property
    def dir(self):
        if self.world.lib is not None:
            return os.path.join(self.world.lib, *self.name.split("."))
        if self.listed is not None:
            if self.parent is not None and self.parent.listed is not None:
                return os.path.join(self.parent.dir, self.comp)
            return os.path.join(BASE, f"p{os.getpid()}", f"l{self.no}")
        return os.path.join(BASE, f"d{self.no}")

    @property
    def filename(self):
        if self.world.lib is not None and self.kind != "ns":
            base = os.path.join(self.world.lib, *self.name.split("."))
            return base + (os.sep + "__init__" if self.is_pkg else "") + self.ext
        if self.is_pkg:
            return os.path.join(self.dir, "__init__" + self.ext)
        return os.path.join(BASE, f"m{self.no}{self.ext}")

    @property
    def ext(self):
        ext = {
            "bytecode": ".pyc",
            "bpkg": ".pyc",
            "ext": self.suffix or SO,
            "extpkg": self.suffix or SO,
        }.get(self.kind, ".py")
        if self.kind in ("invalid", "invpkg") and INVALID[self.inv] in (
            "magic",
            "truncated",
        ):
            ext = ".pyc"
        return ext


class World:
    """
    kinds(world, comp, parent): kinds (and None for missing) a new name can have
    stmts(world, desc): statements of a new module
    """

    def __init__(self, kinds, stmts, crashes=(0,), invalid=(0,), max_modules=12):
        self._kinds = kinds
        self._stmts = stmts
        self.crashes = crashes
        self.invalid = invalid
        self.top = []
        self.descs = []
        self.missing = 0
        self.max_modules = max_modules
        self.scripts = {}
        self.aliases = []
        self.finders = []
        self.finder_args = []
        self.decisions = []
        self.initial = []
        self.installed = []
        self.sites = []
        self.lib = None
        self.sources = []
        self.seen_paths = []
        shutil.rmtree(os.path.join(BASE, f"p{os.getpid()}"), ignore_errors=True)
        E.locals["world"] = self
        SYS.reset(path=[], modules={})

    # -- ground truth ------------------------------------------------------

    def add(self, comp, parent, kind, stmts=None):
        """Add a module that is known to exist (or kind None: is missing)"""
        children = self.top if parent is None else parent.children
        for c, _ in children:
            if E.branch(str_eq(c, comp)):
                raise PathEnd("infeasible")
        return self._add(children, comp, parent, kind, stmts)

    def _add(self, children, comp, parent, kind, stmts=None):
        if kind is None:
            children.append((comp, None))
            return None
        no = len(self.descs)
        if no >= min(NDIRS, self.max_modules):
            raise PathEnd("infeasible")
        d = WDesc(self, comp, parent, kind, no)
        if kind in ("invalid", "invpkg") and len(self.invalid) > 1:
            d.inv = E.pick("inv", self.invalid)
        if d.is_pkg and kind not in ("ns", "invpkg") and len(self.crashes) > 1:
            d.crash = E.pick("crash", self.crashes)
        if stmts is not None:
            d.stmts = stmts
            d.text = render(stmts)
            d.has_body = True
        if self.lib is not None and d.is_pkg:
            os.makedirs(d.dir, exist_ok=True)
        self.descs.append(d)
        children.append((comp, d))
        return d

    def child(self, parent, comp):
        children = self.top if parent is None else parent.children
        for c, d in children:
            if E.branch(str_eq(c, comp)):
                return d
        if parent is not None and parent.listed is not None:
            return self._add(children, comp, parent, None)
        kind = E.pick("kind", self._kinds(self, comp, parent))
        if isinstance(kind, Desc):
            raise AssertionError
        return self._add(children, comp, parent, kind)

    def body(self, d):
        if not d.has_body:
            d.has_body = True
            d.stmts = self._stmts(self, d) if d.scanned else []
            d.text = render(d.stmts)

    def alias(self, name, actual):
        """
        sys.modules[name] is a module that was imported as *actual*, or
        something that is not a module ("nospec", "nonespec")
        """
        self.aliases.append((name, actual))
        if actual == "nospec":
            m = NoSpec()
        elif actual == "nonespec":
            m = NoneSpec()
        else:
            d = self.real(actual)
            if d is None:
                raise PathEnd("infeasible")
            spec = self.spec_for(d, actual)
            if d.kind == "ns":
                spec.loader = object.__new__(importlib.machinery.NamespaceLoader)
            m = WModule(spec)
        SYS.modules[name] = m
        self.initial.append((name, m))

    def finder(self, *args):
        """Add a model of an import hook, see oracle.loaders"""
        self.finder_args.append(list(args))
        self.finders.append(sys.modules["oracle.loaders"].make(args))

    def install(self, spec):
        """Install a distribution; files with symbolic names are written as is"""
        global SITES
        name = spec["name"]
        if name not in self.installed:
            self.installed.append(name)
            SITES += 1
            site = os.path.join(BASE, f"p{os.getpid()}", f"site{SITES}")
            dists.write(site, spec)
            SYS.path.append(site)
            self.sites.append(site)
        return name

    def list(self, d, extra=()):
        """
        The contents of package *d* are known: the modules that were added to
        it and the given other files and (with "/") directories
        """
        d.listed = list(extra)
        os.makedirs(d.dir)
        names = list(extra)
        if d.kind != "ns":
            names.append(os.path.basename(d.filename))
        for comp, c in d.children:
            if c is not None and not c.is_pkg:
                names.append(comp + os.path.splitext(c.filename)[1])
        for name in names:
            path = os.path.join(d.dir, name)
            if name.endswith("/"):
                os.makedirs(path, exist_ok=True)
            else:
                with open(path, "w"):
                    pass

    def library(self, specs):
        """All modules are in one directory, with some distributions"""
        global SITES
        SITES += 1
        self.lib = os.path.join(BASE, f"p{os.getpid()}", f"site{SITES}")
        self.dists = specs
        for spec in specs:
            dists.write(self.lib, spec)
        SYS.path.append(self.lib)
        self.sites.append(self.lib)

    def source_file(self, filename, stmts):
        """A file with source code in the library"""
        self.sources.append([filename, stmts])
        path = os.path.join(self.lib, filename)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as fp:
            fp.write(render(stmts).encode(errors="surrogateescape"))

    def resolve(self, name):
        """name of the module that the import system finds for *name*"""
        for n, actual in self.aliases:
            if actual not in ("nospec", "nonespec") and E.branch(str_eq(n, name)):
                return actual
        return name

    def lookup(self, name):
        """description of a dotted name, None when it does not exist"""
        for n, actual in self.aliases:
            if actual not in ("nospec", "nonespec") and E.branch(str_eq(n, name)):
                return self.real(actual)
            k = n.count(".") + 1
            comps = name.split(".")
            if len(comps) > k and E.branch(str_eq(n, ".".join(comps[:k]))):
                # submodules of aliases are out of scope
                raise PathEnd("infeasible")
        return self.real(name)

    def real(self, name):
        d = None
        for comp in name.split("."):
            if d is not None and not d.is_pkg:
                return None
            d = self.child(d, comp)
            if d is None:
                return None
        return d

    def find(self, name):
        """For oracles: what the import system finds"""
        d = self.lookup(name)
        if d is not None:
            self.body(d)
        return d

    def restart(self, order=None):
        """State of a new process, with another order of iteration over sets"""
        SYS.reset(path=self.sites, modules={})
        for name, m in self.initial:
            SYS.modules[name] = m
        E.order_mode = order

    def decide(self, tag, name, n):
        """A symbolic decision of a hook"""
        for t, nm, v in self.decisions:
            if t == tag and E.branch(str_eq(nm, name)):
                return v
        v = E.choice(tag, n)
        self.decisions.append((tag, name, v))
        return v

    def note(self, tag):
        """An obligation of this kind was found to hold"""
        E.stats.asserts += 1
        E.reach(tag)

    def placeholders(self):
        """names in sys.modules with something that is not a module"""
        initial = [n for n, _ in self.initial]
        return [
            n
            for n, m in SYS.modules.items()
            if n not in initial and not isinstance(m, WModule)
        ]

    def file(self, d):
        return d.filename

    # -- importlib ---------------------------------------------------------

    def spec_for(self, d, name):
        S = importlib.machinery.ModuleSpec
        if d.kind == "ns":
            s = S(name, None, origin=None, is_package=True)
            s.submodule_search_locations = [d.dir]
            return s
        if d.kind in ("ext", "extpkg"):
            ld = importlib.machinery.ExtensionFileLoader(name, d.filename)
        else:
            ld = SLoader(self, d, d.filename)
        s = S(name, ld, origin=d.filename, is_package=d.is_pkg)
        if d.is_pkg:
            s.submodule_search_locations = [d.dir]
        s.has_location = True
        return s

    def _find_spec(self, name, path):
        comp = name.rpartition(".")[2]
        if path is None:
            d = self.child(None, comp)
        else:
            for loc in path:
                parent = [x for x in self.descs if x.dir == loc]
                d = self.child(parent[0], comp) if parent else None
                if d is not None:
                    break
            else:
                d = None
        if d is None:
            for f in self.finders:
                spec = f.find_spec(name, path)
                if spec is not None:
                    return spec
            return None
        return self.spec_for(d, name)

    def _import(self, name):
        mods = SYS.modules
        m = mods.get(name, _MISSING)
        if m is None:
            raise ModuleNotFoundError(
                f"import of {name} halted; None in sys.modules", name=name
            )
        if m is not _MISSING:
            return m
        parent, _, child = name.rpartition(".")
        path = None
        pm = None
        if parent:
            pm = mods.get(parent, _MISSING)
            if pm is _MISSING or pm is None:
                self._import(parent)
            m = mods.get(name, _MISSING)
            if m is not _MISSING:
                return m
            pm = mods[parent]
            try:
                path = pm.__path__
            except AttributeError:
                raise ModuleNotFoundError(
                    f"No module named {name!r}; {parent!r} is not a package", name=name
                ) from None
            pm.__spec__
        spec = self._find_spec(name, path)
        if spec is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if spec.loader in self.finders:
            SYS.modules[name] = WModule(spec)
        else:
            d = self._desc_of(spec)
            self.exec(d, spec, name)
        return mods[name]

    def _desc_of(self, spec):
        for d in self.descs:
            if d.kind == "ns":
                if spec.submodule_search_locations == [d.dir]:
                    return d
            elif spec.origin == d.filename:
                return d
        raise AssertionError

    def exec(self, d, spec, name):
        if d.crash:
            raise make_crash(d.crash)
        if d.kind in ("invalid", "invpkg"):
            what = INVALID[d.inv]
            if what == "magic":
                raise ImportError("bad magic number")
            if what == "truncated":
                raise EOFError("marshal data too short")
            raise SyntaxError("invalid syntax")
        if d.kind == "ns":
            spec.loader = object.__new__(importlib.machinery.NamespaceLoader)
        SYS.modules[name] = WModule(spec)

    def import_module(self, name, package=None):
        return self._import(name)

    def find_spec(self, name, package=None):
        self.seen_paths.append(list(SYS.path))
        if name.startswith("."):
            if not package:
                raise ImportError(
                    f"no package specified for {name!r} (required for relative module names)"
                )
            bits = package.rsplit(".", len(name) - len(name.lstrip(".")) - 1)
            fullname = bits[0] + "." + name.lstrip(".")
        else:
            fullname = name
        if fullname == "":
            raise ValueError("Empty module name")
        mods = SYS.modules
        m = mods.get(fullname, _MISSING)
        if m is _MISSING:
            parent = fullname.rpartition(".")[0]
            if parent:
                pm = self._import(parent)
                try:
                    path = pm.__path__
                except AttributeError as e:
                    raise ModuleNotFoundError(
                        f"__path__ attribute not found on {parent!r} "
                        f"while trying to find {fullname!r}",
                        name=fullname,
                    ) from e
            else:
                path = None
            return self._find_spec(fullname, path)
        if m is None:
            return None
        try:
            spec = m.__spec__
        except AttributeError:
            raise ValueError(f"{name}.__spec__ is not set") from None
        if spec is None:
            raise ValueError(f"{name}.__spec__ is None")
        return spec

    # -- counterexamples ---------------------------------------------------

    def as_json(self):
        for d in self.descs:
            self.body(d) if E.active else None
        return {
            "modules": [d.as_json() for d in self.descs],
            "sysmodules": [list(a) for a in self.aliases],
            "finders": self.finder_args,
            "decisions": [list(d) for d in self.decisions],
            "missing": [c for c, d in self.top if d is None],
            "dists": self.dists if self.lib is not None else [],
            "sources": self.sources,
            "files": [
                [d.name, name] for d in self.descs for name in d.listed or () if name
            ],
        }


runtime.PASS.add(setup_base)
runtime.PASS.add(importlib.machinery.ModuleSpec)
