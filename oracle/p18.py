"""The files and importable names of an installed distribution"""

import os

import modulegraph2

from . import dists


def run(sc, site, search, note):
    """
    sc: {"record": [entry, ...]}; the distribution is in *site*, which is *search*
    on the search path
    """
    spec = {"name": "foo", "version": "1.0", "record": sc["record"]}
    dists.write(site, spec)
    d = modulegraph2.distribution_named("foo", [search])
    if d is None:
        return "no distribution"
    if d.name != "foo" or d.version != "1.0":
        return f"is {d.name} {d.version}"
    files = []
    names = []
    unclear = False
    for entry in sc["record"]:
        path = entry if isinstance(entry, str) else entry[0]
        norm = os.path.normpath(os.path.join(site, path))
        if norm not in files:
            files.append(norm)
        if norm != os.path.join(site, path) and not path.startswith("../"):
            # not written by any installer
            unclear = True
            continue
        name = dists.import_name(path)
        if name is not None:
            note("name")
            if name not in names:
                names.append(name)
        else:
            note("no-name")
    for f in files:
        if f not in d.files:
            return f"file {f!r} is missing in {list(d.files)}"
        if not d.contains_file(f):
            return f"does not contain {f!r}"
    if len(list(d.files)) != len(files):
        return f"files {list(d.files)} and not {files}"
    if d.contains_file(os.path.join(site, "zz_other")):
        return "contains a file that is not in the record"
    for n in names:
        if n not in d.import_names:
            return f"name {n!r} is missing in {list(d.import_names)}"
    if not unclear and len(list(d.import_names)) != len(names):
        return f"names {list(d.import_names)} and not {names}"
    return None
