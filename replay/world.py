"""
Concrete counterpart of sym/world.py: a world of modules in a temporary
directory, found by a meta path finder whose loaders do not execute code.
"""

import contextlib
import importlib
import importlib._bootstrap_external as be
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import sys
import types

from oracle import dists, loaders
from oracle.model import INVALID, Desc, make_crash, render

BAD = {
    "syntax": (".py", b"def ("),
    "decode": (".py", b"# \n# \nx = 1\n\n\ny = '\xff'\n"),
    "encoding": (".py", b"# -*- coding: zz-unknown -*-\n"),
    "null": (".py", b"a\0b"),
    "magic": (".pyc", b"\0\0\0\0" + b"\0" * 12),
    "truncated": (".pyc", None),
}


def pyc(source, filename):
    code = compile(source, filename, "exec", dont_inherit=True)
    return bytes(be._code_to_timestamp_pyc(code, 0, 0))


class NoExec:
    _desc = None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        d = self._desc
        if d.crash:
            raise make_crash(d.crash)
        if d.kind in ("invalid", "invpkg"):
            self.get_code(d.name)


class Source(NoExec, importlib.machinery.SourceFileLoader):
    pass


class Sourceless(NoExec, importlib.machinery.SourcelessFileLoader):
    pass


class Ext(NoExec, importlib.machinery.ExtensionFileLoader):
    pass


class NoSpec:
    pass


class NoneSpec:
    __spec__ = None


class Without:
    """A meta path finder without some names"""

    def __init__(self, finder, hidden):
        self.finder = finder
        self.hidden = hidden
        self.path = list(sys.path)

    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in self.hidden:
            return None
        if path is None and self.finder is importlib.machinery.PathFinder:
            path = self.path
        return self.finder.find_spec(name, path, target)

    def __getattr__(self, name):
        return getattr(self.finder, name)


class World(importlib.abc.MetaPathFinder):
    def __init__(self, tmp, modules, sysmodules=(), finders=(), missing=(), files=(), specs=(),
                 sources=()):
        self.tmp = os.path.realpath(tmp)
        self.root = os.path.join(self.tmp, "lib")
        os.mkdir(self.root)
        self.scripts = {}
        self.seen_paths = []
        self.missing = set(missing)
        self.modules = {}
        self.installed = set()
        self.specs = {}
        for m in modules:
            d = Desc(**m)
            self.modules[d.name] = d
        for d in self.modules.values():
            self.write(d)
        for spec in specs:
            dists.write(self.root, spec)
        for name, stmts in sources:
            path = os.path.join(self.root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as fp:
                fp.write(render(stmts).encode(errors="surrogateescape"))
        for package, name in files:
            path = os.path.join(self.root, *package.split("."), name)
            if name.endswith("/"):
                os.makedirs(path, exist_ok=True)
            else:
                with open(path, "w"):
                    pass
        sys.dont_write_bytecode = True
        # real modules with the names of modules in this world do not exist
        hidden = {n.partition(".")[0] for n in (*self.modules, *missing)}
        sys.meta_path[:] = [Without(f, hidden) for f in sys.meta_path]
        for name in list(sys.modules):
            if name.partition(".")[0] in hidden:
                del sys.modules[name]
        sys.path[:] = [self.root] if specs else []  # no other distributions
        sys.meta_path.insert(0, self)
        self.finders = [loaders.make(f) for f in finders]
        sys.meta_path[1:1] = self.finders
        self.aliases = [tuple(a) for a in sysmodules]
        for name, what in sysmodules:
            if what == "nospec":
                sys.modules[name] = NoSpec()
            elif what == "nonespec":
                sys.modules[name] = NoneSpec()
            else:
                m = types.ModuleType(name)
                m.__spec__ = self.find_spec(what, None)
                if m.__spec__.submodule_search_locations is not None:
                    m.__path__ = m.__spec__.submodule_search_locations
                sys.modules[name] = m

    def write(self, d):
        base = os.path.join(self.root, *d.name.split("."))
        text = render(d.stmts).encode()
        data = text
        if d.kind in ("bytecode", "bpkg"):
            ext = ".pyc"
            data = pyc(text, d.name)
        elif d.kind in ("ext", "extpkg"):
            ext = d.suffix or importlib.machinery.EXTENSION_SUFFIXES[0]
            data = b""
        elif d.kind in ("invalid", "invpkg"):
            ext, data = BAD[INVALID[d.inv]]
            if data is None:
                data = pyc(b"a = 1", d.name)[:20]
        else:
            ext = ".py"
        if d.kind == "ns":
            os.makedirs(base, exist_ok=True)
            d.file = None
            return
        if d.is_pkg:
            os.makedirs(base, exist_ok=True)
            d.file = os.path.join(base, "__init__" + ext)
        else:
            os.makedirs(os.path.dirname(base), exist_ok=True)
            d.file = base + ext
        with open(d.file, "wb") as fp:
            fp.write(data)

    def resolve(self, name):
        for n, actual in self.aliases:
            if n == name and actual not in ("nospec", "nonespec"):
                return actual
        return name

    def find(self, name):
        return self.real(self.resolve(name))

    def real(self, name):
        d = self.modules.get(name)
        if d is not None and "." in name:
            p = self.real(name.rpartition(".")[0])
            if p is None or not p.is_pkg:
                return None
        return d

    def restart(self, order=None):
        """State of a new process"""
        for name in list(sys.modules):
            if name not in self.snapshot:
                del sys.modules[name]

    def placeholders(self):
        return [
            n
            for n, m in sys.modules.items()
            if n not in self.snapshot and not isinstance(m, types.ModuleType)
        ]

    def file(self, d):
        return d.file

    def decide(self, tag, name, n):
        for t, nm, v in self.decisions:
            if t == tag and nm == name:
                return v
        return 0

    def note(self, tag):
        pass

    def find_spec(self, name, path, target=None):
        if name in self.modules or name in self.missing:
            # others are imports of the real process
            self.seen_paths.append(list(sys.path))
        d = self.real(name)
        if d is None:
            return None
        if d.kind == "ns":
            s = importlib.machinery.ModuleSpec(name, None, is_package=True)
            s.submodule_search_locations = [
                os.path.join(self.root, *name.split("."))
            ]
            return s
        if d.file.endswith(".py"):
            cls = Source
        elif d.kind not in ("ext", "extpkg") and d.file.endswith(".pyc"):
            cls = Sourceless
        else:
            cls = Ext
        ld = cls(name, d.file)
        ld._desc = d
        return importlib.util.spec_from_file_location(
            name,
            d.file,
            loader=ld,
            submodule_search_locations=[os.path.dirname(d.file)] if d.is_pkg else None,
        )


class Env:
    def __init__(self, world):
        self.world = world

    def script_path(self, k, stmts):
        fn = os.path.join(self.world.tmp, f"script{k}.py")
        if stmts is None:
            return fn
        if not os.path.exists(fn):
            with open(fn, "wb") as fp:
                fp.write(render(stmts).encode(errors="surrogateescape"))
        self.world.scripts[fn] = stmts
        return fn

    def distribution(self, spec, by_name):
        name = spec["name"]
        if name not in self.world.installed:
            self.world.installed.add(name)
            site = os.path.join(self.world.tmp, f"site{len(self.world.installed)}")
            dists.write(site, spec)
            sys.path.append(site)
        if by_name:
            return name
        return sys.modules["modulegraph2"].distribution_named(name)

    def source_text(self, stmts):
        return render(stmts)

    def site(self, k, specs):
        """A directory with distributions"""
        site = os.path.join(self.world.tmp, f"sites{k}")
        for spec in specs:
            dists.write(site, spec)
        os.makedirs(site, exist_ok=True)
        return site

    def output(self, name, missing):
        path = os.path.join(self.world.tmp, "out")
        os.makedirs(path, exist_ok=True)
        return os.path.join(path, "none", name) if missing else os.path.join(path, name)

    def capture(self, fn):
        """(exception, text on stdout, [(name of file, text)])"""
        fp = io.StringIO()
        exc = None
        with contextlib.redirect_stdout(fp):
            try:
                fn()
            except BaseException as e:  # noqa: B036
                exc = e
        files = []
        out = os.path.join(self.world.tmp, "out")
        for name in os.listdir(out) if os.path.isdir(out) else ():
            with open(os.path.join(out, name)) as f:
                files.append((os.path.join(out, name), f.read()))
        return exc, fp.getvalue(), files


class Violated(BaseException):
    pass


def bad(msg, tag=""):
    raise Violated(f"{tag}: {msg}")


def replay(sc, tmp):
    mod = importlib.import_module(f"oracle.{sc['oracle']}")
    w = World(tmp, sc["modules"], sc.get("sysmodules", ()), sc.get("finders", ()),
              sc.get("missing", ()), sc.get("files", ()),
              sc.get("dists", ()), sc.get("sources", ()))
    w.snapshot = dict(sys.modules)
    w.decisions = sc.get("decisions", ())
    try:
        mod.run(w, Env(w), sc, bad)
    except Violated as exc:
        return True, str(exc)
    return False, "holds"
