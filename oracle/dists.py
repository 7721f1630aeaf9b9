"""
Installed distributions: real directories with metadata, and which names can be
imported from them.
"""

import os
from importlib.machinery import EXTENSION_SUFFIXES

SUFFIXES = [".py", ".pyc", *EXTENSION_SUFFIXES]


def line(entry):
    """entry: a path, or [path, quoted?, the other columns]"""
    if isinstance(entry, str):
        return entry + ",,"
    path, quoted, rest = entry
    if quoted:
        path = '"' + path.replace('"', '""') + '"'
    return path + rest


def write(site, spec):
    """
    spec: {"name", "version", "record": [entry, ...]}, maybe with "dir" (name of
    the directory) and "broken" (what is wrong); returns the directory
    """
    d = os.path.join(site, spec.get("dir") or f"{spec['name']}-{spec['version']}.dist-info")
    broken = spec.get("broken")
    if broken == "file":
        os.makedirs(site, exist_ok=True)
        with open(d, "w", encoding="utf-8"):
            pass
        return d
    os.makedirs(d)
    if broken == "empty":
        return d
    if broken != "metadata":
        with open(os.path.join(d, "METADATA"), "w", encoding="utf-8") as fp:
            fp.write("Metadata-Version: 2.1\n")
            if broken != "name":
                fp.write(f"Name: {spec['name']}\n")
            if broken != "version":
                fp.write(f"Version: {spec['version']}\n")
            fp.write("\ntext\n")
    if broken == "record":
        return d
    with open(os.path.join(d, "RECORD"), "w", encoding="utf-8") as fp:
        for entry in spec["record"]:
            fp.write(line(entry) + "\n")
    return d


def import_name(path):
    """Name that can be imported for a path in a record, or None"""
    for suffix in SUFFIXES:
        if path.endswith(suffix):
            break
    else:
        return None
    parts = path[: len(path) - len(suffix)].split("/")
    if "__pycache__" in parts[:-1]:
        return None
    if len(parts) > 1 and parts[-1] == "__init__":
        parts = parts[:-1]
    for p in parts:
        if p == "" or "." in p:
            return None
    return ".".join(parts)
