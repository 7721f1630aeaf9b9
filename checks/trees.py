"""Real directory trees, and the order in which directories are listed (no symbolic code)"""

import os
import zipfile

ROOTS = {}
_listdir = os.listdir
_scandir = os.scandir


def _order(path):
    return ROOTS.get(os.fspath(path)) if isinstance(path, (str, os.PathLike)) else None


def listdir(path="."):
    order = _order(path)
    names = _listdir(path)
    if order is not None and set(order) == set(names):
        return list(order)
    return names


class Scan:
    def __init__(self, items):
        self.items = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def scandir(path="."):
    order = _order(path)
    if order is None:
        return _scandir(path)
    with _scandir(path) as it:
        entries = {e.name: e for e in it}
    if set(entries) != set(order):
        return Scan(entries.values())
    return Scan([entries[n] for n in order])


def install():
    os.listdir = listdir
    os.scandir = scandir
    ROOTS.clear()


def write(path, tree):
    """tree: [name, None or tree], listed in this order"""
    os.mkdir(path)
    ROOTS[path] = [name for name, _ in tree]
    for name, sub in tree:
        p = os.path.join(path, name)
        if sub is None:
            with open(p, "wb"):
                pass
        else:
            write(p, sub)


def write_zip(path, prefix, tree, dirs, beside=(), first=False):
    """dirs: with entries for directories; beside: what is next to the tree"""
    with zipfile.ZipFile(path, "w") as zf:

        def add(prefix, tree):
            if dirs:
                zf.writestr(zipfile.ZipInfo(prefix + "/"), b"")
            for name, sub in tree:
                if sub is None:
                    zf.writestr(f"{prefix}/{name}", b"")
                else:
                    add(f"{prefix}/{name}", sub)

        def others():
            parent = prefix.rpartition("/")[0]
            for name, sub in beside:
                name = f"{parent}/{name}" if parent else name
                if sub is None:
                    zf.writestr(name, b"")
                else:
                    add(name, sub)

        if first:
            others()
        add(prefix, tree)
        if not first:
            others()
