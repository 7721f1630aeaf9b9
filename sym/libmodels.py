"""Models of library functions for strings of symbolic characters"""

import csv
import email._policybase
import html
import os
import pathlib
import posixpath

from . import strmodel as sm
from .core import E, has_char, str_eq
from .runtime import MODELS, PASS


def char_model(*fns):
    """Use the model only when an argument has symbolic characters"""

    def deco(model):
        def f(*args, **kwds):
            if any(isinstance(a, str) and has_char(a) for a in args):
                return model(*args, **kwds)
            return NotImplemented

        for fn in fns:
            MODELS[fn] = f
        return model

    return deco


@char_model(html.escape)
def escape(s, quote=True):
    s = sm.replace(s, "&", "&amp;")
    s = sm.replace(s, "<", "&lt;")
    s = sm.replace(s, ">", "&gt;")
    if quote:
        s = sm.replace(s, '"', "&quot;")
        s = sm.replace(s, "'", "&#x27;")
    return s


@char_model(posixpath.join)
def join(path, *rest):
    for b in rest:
        if sm.b(sm.startswith(b, "/")):
            path = b
        elif not path or sm.b(sm.endswith(path, "/")):
            path += b
        else:
            path += "/" + b
    return path


@char_model(posixpath.normpath)
def normpath(path):
    if not path:
        return "."
    slashes = ""
    if sm.b(sm.startswith(path, "/")):
        slashes = "/"
        if sm.b(sm.startswith(path, "//")) and not sm.b(sm.startswith(path, "///")):
            slashes = "//"
    comps = []
    for c in sm.split(path, "/"):
        if not c or sm.b(str_eq(c, ".")):
            continue
        if sm.b(str_eq(c, "..")):
            if comps and comps[-1] != "..":
                comps.pop()
                continue
            if slashes:
                continue
            c = ".."
        comps.append(c)
    return slashes + "/".join(comps) or "."


@char_model(posixpath.abspath)
def abspath(path):
    if not sm.b(sm.startswith(path, "/")):
        path = os.getcwd() + "/" + path
    return normpath(path)


@char_model(posixpath.isabs)
def isabs(path):
    return sm.startswith(path, "/")


@char_model(posixpath.split)
def split(path):
    i = sm.rfind(path, "/") + 1
    head, tail = path[:i], path[i:]
    if head and not sm.b(str_eq(head, "/" * len(head))):
        head = sm.rstrip(head, "/")
    return head, tail


@char_model(posixpath.dirname)
def dirname(path):
    return split(path)[0]


@char_model(posixpath.basename)
def basename(path):
    return path[sm.rfind(path, "/") + 1 :]


@char_model(posixpath.splitext)
def splitext(path):
    start = sm.rfind(path, "/") + 1
    dot = sm.rfind(path, ".", start)
    if dot > start and not sm.b(str_eq(path[start:dot], "." * (dot - start))):
        return path[:dot], path[dot:]
    return path, ""


PASS |= {
    os.fspath, os.listdir, os.scandir, os.walk, os.stat, os.lstat,
    os.path.isdir, os.path.isfile, os.path.exists, os.path.islink,
}  # fmt: skip


def _suffix(self, original=pathlib.PurePath.suffix):
    name = self.name
    if not has_char(name):
        return original.fget(self)
    i = sm.rfind(name, ".")
    return name[i:] if 0 < i < len(name) - 1 else ""


def _stem(self, original=pathlib.PurePath.stem):
    name = self.name
    if not has_char(name):
        return original.fget(self)
    i = sm.rfind(name, ".")
    return name[:i] if 0 < i < len(name) - 1 else name


pathlib.PurePath.suffix = property(_suffix)
pathlib.PurePath.stem = property(_stem)


def _csv_rows(lines, delimiter=",", quotechar='"'):
    """csv.reader with the default dialect"""
    lines = iter(lines)
    for text in lines:
        row = []
        field = ""
        state = "start"
        while True:
            for c in text:
                if state == "quoted":
                    if sm.b(str_eq(c, quotechar)):
                        state = "quote"
                    else:
                        field += c
                elif state == "quote" and sm.b(str_eq(c, quotechar)):
                    field += c
                    state = "quoted"
                elif sm.b(str_eq(c, delimiter)):
                    row.append(field)
                    field = ""
                    state = "start"
                elif sm.b(str_eq(c, "\n")) or sm.b(str_eq(c, "\r")):
                    pass
                elif state == "start" and sm.b(str_eq(c, quotechar)):
                    state = "quoted"
                else:
                    field += c
                    state = "plain"
            if state != "quoted":
                break
            text = next(lines, None)
            if text is None:
                break
        if row or field or state != "start":
            row.append(field)
        yield row


def csv_reader(lines, *args, **kwds):
    if args or set(kwds) - {"delimiter", "quotechar", "lineterminator"}:
        return NotImplemented
    kwds.pop("lineterminator", None)
    return _csv_rows(lines, **kwds)


MODELS[csv.reader] = csv_reader


def _sanitize_header(self, name, value, original=email._policybase.Compat32._sanitize_header):
    """Names in metadata are ASCII, but tokens are not"""
    if isinstance(value, str) and not value.isascii():
        text = value.encode("ascii", "surrogateescape").decode("utf-8", "surrogateescape")
        if E.active:
            return text
    return original(self, name, value)


email._policybase.Compat32._sanitize_header = _sanitize_header
