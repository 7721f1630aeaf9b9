"""Nodes for modules that were found"""

import os
import pathlib

import modulegraph2
from modulegraph2 import _graphbuilder

from . import dists

NAMES = {
    "source": "SourceModule", "exec": "SourceModule", "zip": "SourceModule",
    "custom": "SourceModule", "sourceless": "BytecodeModule", "ext": "ExtensionModule", "extinit": "ExtensionModule",
    "frozen": "FrozenModule", "builtin": "BuiltinModule",
}


def run(sc, base, fake, note):
    """
    sc: {"loader", "name", "pkg", "two", "source": None, [error], a text name or a
    module to import, "code": [error] or a module to import, "dist"}
    """
    kind = sc["loader"]
    source = sc["source"]
    text = source
    bad = False
    if isinstance(source, list):
        bad = True
    elif source in fake.TEXTS:
        text = fake.TEXTS[source]
        bad = True
    elif source is not None:
        text = f"import {source}\n"
    code = sc["code"]
    value = code
    if isinstance(code, list):
        bad = True
    elif code is not None:
        value = compile(f"import {code}\nzz_x = zz_y\n", "zz", "exec", dont_inherit=True)
    spec, file = fake.make(sc, base, text, value)
    lib = os.path.join(base, "lib")
    owner = None
    if sc["dist"]:
        record = "zz_none.py"
        if file is not None and sc["dist"] == 2:
            record = os.path.relpath(file, lib)
        dists.write(lib, {"name": "foo", "version": "1.0", "record": [record]})
        if file is not None and sc["dist"] == 2 and kind != "frozen":
            owner = modulegraph2.distribution_named("foo", [lib])
            note("distribution")
    node, imports = _graphbuilder.node_for_spec(spec, [lib])
    imports = list(imports)
    note(type(node).__name__)
    if node.name != spec.name:
        return f"name is {node.name}, not {spec.name}"
    if node.identifier != spec.name:
        return f"identifier is {node.identifier}, not {spec.name}"
    if node.loader is not spec.loader:
        return f"loader is {node.loader}"
    if node.distribution is not owner:
        return f"distribution is {node.distribution} and not {owner}"
    if kind in ("none", "namespace"):
        if type(node) is not modulegraph2.NamespacePackage:
            return f"kind is {type(node).__name__} for a namespace package"
        if [str(x) for x in node.search_path] != list(spec.submodule_search_locations):
            return f"search path is {node.search_path}"
        if node.filename is not None or imports:
            return "details of a namespace package"
        return None
    bad = bad and kind not in ("builtin", "ext", "extinit")
    want = "InvalidModule" if bad else NAMES[kind]
    if want == "SourceModule" and source is None:
        want = "BytecodeModule"
    inner = node
    if sc["pkg"]:
        cls = "FrozenPackage" if kind == "frozen" else "Package"
        if type(node).__name__ != cls:
            return f"kind is {type(node).__name__}, not {cls}"
        if [str(x) for x in node.search_path] != list(spec.submodule_search_locations):
            return f"search path is {node.search_path}"
        directory = None if file is None else os.path.dirname(file)
        if (node.filename is None) != (directory is None) or directory is not None and str(node.filename) != directory:
            return f"filename is {node.filename}, not {directory}"
        inner = node.init_module
        if inner.loader is not spec.loader or inner.distribution is not owner:
            return f"details of the init module: {inner.loader} {inner.distribution}"
        if node.namespace_type is not None or node.has_data_files is not False:
            return f"namespace type {node.namespace_type}, data files {node.has_data_files}"
        if inner.name != spec.name:
            return f"name of the init module is {inner.name}"
    if type(inner).__name__ != want:
        return f"kind is {type(inner).__name__}, not {want}"
    if (inner.filename is None) != (file is None) or file is not None and str(inner.filename) != file:
        return f"filename is {inner.filename}, not {file}"
    if file is not None and not isinstance(inner.filename, pathlib.Path):
        return "filename is not a path"
    deps = [i.import_module for i in imports]
    if bad or kind in ("builtin", "ext", "extinit"):
        if inner.code is not None:
            return f"code {inner.code} for {want}"
        if deps:
            return f"dependencies {deps} for {want}"
        if len(inner.globals_read) or len(inner.globals_written):
            return f"global names for {want}"
        return None
    if kind != "zip" and inner.code is not value:
        return f"code is {inner.code}, not {value}"
    if inner.code is None:
        return "no code"
    expected = code if source is None else source
    if len(deps) != 1 or deps[0] != expected:
        return f"dependencies are {deps}, not {expected}"
    if kind != "zip" and ("zz_x" not in inner.globals_written or "zz_y" not in inner.globals_read):
        return f"global names {inner.globals_written}, {inner.globals_read}"
    return None
