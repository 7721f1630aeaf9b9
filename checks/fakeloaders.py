"""Loaders with given results, of the classes of the import system (no symbolic code)"""

import importlib.abc
import importlib.machinery
import importlib.util
import os
import zipfile
import zipimport

ERRORS = {
    "syntax": lambda: SyntaxError("bad"),
    "decode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
    "import": lambda: ImportError("bad magic"),
    "eof": lambda: EOFError("marshal data too short"),
    "value": lambda: ValueError("source code string cannot contain null bytes"),
    "type": lambda: TypeError("bad marshal data"),
    "recursion": lambda: RecursionError("too deep"),
}
TEXTS = {"zz_bad": "def (", "zz_null": "x = 'a\0b'", "zz_return": "return 1"}

_current = {}


def result(value):
    if isinstance(value, list):
        raise ERRORS[value[0]]()
    return value


class Mixin:
    _source = _code = None

    def get_source(self, fullname):
        return result(self._source)

    def get_code(self, fullname):
        return result(self._code)


class Source(Mixin, importlib.machinery.SourceFileLoader):
    pass


class Sourceless(Mixin, importlib.machinery.SourcelessFileLoader):
    pass


class Custom(Mixin, importlib.abc.InspectLoader):
    _pkg = False

    def is_package(self, fullname):
        return self._pkg


class Exec(Mixin, importlib.abc.ExecutionLoader):
    _pkg = False
    _file = None

    def get_filename(self, fullname):
        return self._file

    def is_package(self, fullname):
        return self._pkg


def _frozen(attr):
    cls = importlib.machinery.FrozenImporter
    original = getattr(cls, attr)

    def f(fullname):
        if _current and fullname is _current["name"]:
            return result(_current[attr])
        return original(fullname)

    setattr(cls, attr, staticmethod(f))


def install():
    for attr in ("get_source", "get_code", "is_package"):
        _frozen(attr)


def make(sc, base, source, code):
    """The spec for a scenario and the expected filename"""
    _current.clear()
    kind, name, pkg = sc["loader"], sc["name"], sc["pkg"]
    M = importlib.machinery
    S = M.ModuleSpec
    last = name.rpartition(".")[2]
    lib = os.path.join(base, "lib")
    os.makedirs(lib, exist_ok=True)
    directory = os.path.join(lib, last)
    if pkg:
        os.makedirs(directory)
    if kind in ("none", "namespace"):
        s = S(name, None if kind == "none" else object.__new__(M.NamespaceLoader), is_package=True)
        s.submodule_search_locations = [directory]
        if sc["two"]:
            s.submodule_search_locations.append(os.path.join(base, "other", last))
        return s, None
    if kind == "builtin":
        return M.BuiltinImporter.find_spec(name), None
    if kind == "frozen":
        _current.update(name=name, get_source=None, get_code=code, is_package=pkg)
        s = S(name, M.FrozenImporter, origin="frozen", is_package=pkg)
        if pkg and sc["two"]:
            s.submodule_search_locations = [directory]
        return s, None
    if kind == "zip":
        path = os.path.join(lib, "x.zip")
        fn = f"{last}/__init__.py" if pkg else f"{last}.py"
        with zipfile.ZipFile(path, "w") as zf:
            zf.writestr(fn, source)
        zipimport._zip_directory_cache.clear()
        return zipimport.zipimporter(path).find_spec(last), os.path.join(path, *fn.split("/"))
    ext = {"source": ".py", "custom": ".py", "exec": ".py", "sourceless": ".pyc", "ext": ".abi3.so", "extinit": ""}[kind]
    file = os.path.join(directory, "__init__" + ext) if pkg else os.path.join(lib, last + ext)
    if kind == "extinit":
        # import package.__init__
        file = os.path.join(lib, "__init__.abi3.so")
        ld = M.ExtensionFileLoader(name, file)
        s = S(name, ld, origin=file)
        s.has_location = True
        return s, file
    if kind == "ext":
        ld = M.ExtensionFileLoader(name, file)
    elif kind == "custom":
        ld = Custom()
        ld._pkg = pkg
    elif kind == "exec":
        ld = Exec()
        ld._pkg = pkg
        ld._file = file
    else:
        ld = (Source if kind == "source" else Sourceless)(name, file)
    if kind != "ext":
        ld._source = source
        ld._code = code
    s = S(name, ld, origin=file, is_package=pkg)
    s.has_location = True
    if pkg:
        s.submodule_search_locations = [directory]
    if sc["two"] and kind in ("custom", "ext"):
        s.origin = None
        s.has_location = False
        file = None
    return s, file
