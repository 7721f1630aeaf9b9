"""Data files of packages"""

import importlib.machinery
import importlib.util
import os
import zipimport

from modulegraph2 import _graphbuilder

IGNORED = ("__pycache__", ".hg", ".svn", ".git")
SUFFIXES = importlib.machinery.all_suffixes()


def data_files(tree):
    out = []
    for name, sub in tree:
        if sub is None:
            if not any(name.endswith(s) for s in SUFFIXES):
                out.append(name)
        elif name not in IGNORED:
            out += data_files(sub)
    return out


def run(sc, base, trees, note):
    """sc: {"tree", "zip": None or the path in the zip file, "dirs",
    "beside": what is next to the package}"""
    tree = sc["tree"]
    if sc["zip"] is None:
        path = os.path.join(base, "pkg")
        trees.write(path, tree)
        for name, sub in sc["beside"]:
            if sub is None:
                with open(os.path.join(base, name), "wb"):
                    pass
            else:
                trees.write(os.path.join(base, name), sub)
        spec = importlib.util.spec_from_file_location(
            "pkg", os.path.join(path, "__init__.py"), submodule_search_locations=[path]
        )
    else:
        path = os.path.join(base, "lib.zip")
        trees.write_zip(path, sc["zip"] + "pkg", tree, sc["dirs"], sc["beside"], sc["first"])
        zipimport._zip_directory_cache.clear()
        spec = zipimport.zipimporter(os.path.join(path, sc["zip"])).find_spec("pkg")
    node, _ = _graphbuilder.node_for_spec(spec, [])
    want = data_files(tree)
    note("data" if want else "no-data")
    if node.has_data_files is not bool(want):
        return f"has_data_files is {node.has_data_files} with data files {want}"
    return None
