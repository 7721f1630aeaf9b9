"""
Description of modules shared by the symbolic world (sym/world.py), the
concrete one (replay/world.py) and the oracles. Plain Python.

A statement is a dict:
  {"form": "import", "names": [[name, as], ...], "loc": loc}
  {"form": "from", "level": n, "module": str, "names": [[name, as], ...],
   "star": bool, "loc": loc}
  {"form": "assign", "name": n, "loc": loc}
  {"form": "def", "name": n}                  a function
  {"form": "extend", "name": "pkgutil" or "pkg_resources"}   explicit namespace
  {"form": "raw", "text": index of a text in RAW}
  {"form": "read", "name": n, "loc": loc}
"""

# location -> (optional, global) according to the source
LOCS = {
    "top": (False, True),
    "func": (True, False),
    "if": (True, True),
    "else": (True, True),
    "try": (True, True),
    "except": (True, True),
    "finally": (False, True),
    "class": (False, True),
    "method": (True, False),
    "iffunc": (True, False),
    "with": (False, True),
    "tryfunc": (True, False),
}

_INDENT = {
    "top": ("", ""),
    "func": ("def zz_f%d():\n    ", ""),
    "if": ("if zz_c:\n    ", ""),
    "else": ("if zz_c:\n    pass\nelse:\n    ", ""),
    "try": ("try:\n    ", "finally:\n    pass\n"),
    "except": ("try:\n    pass\nexcept:\n    ", ""),
    "finally": ("try:\n    pass\nfinally:\n    ", ""),
    "class": ("class zz_c%d:\n    ", ""),
    "method": ("class zz_c%d:\n  def zz_m():\n    ", ""),
    "iffunc": ("if zz_c:\n  def zz_f%d():\n    ", ""),
    "with": ("with zz_c:\n    ", ""),
    "tryfunc": ("def zz_f%d():\n  try:\n    ", "  finally:\n    pass\n"),
}

# kind -> (is package, node class, init class or None, scanned)
KINDS = {
    "source": (False, "SourceModule", None, True),
    "bytecode": (False, "BytecodeModule", None, True),
    "ext": (False, "ExtensionModule", None, False),
    "invalid": (False, "InvalidModule", None, False),
    "pkg": (True, "Package", "SourceModule", True),
    "bpkg": (True, "Package", "BytecodeModule", True),
    "extpkg": (True, "Package", "ExtensionModule", False),
    "invpkg": (True, "Package", "InvalidModule", False),
    "ns": (True, "NamespacePackage", None, False),
}

# ways in which importing a package fails: (exception name, message)
CRASHES = [
    None,
    ("ImportError", "cannot import this"),
    ("ModuleNotFoundError", "No module named 'zz_other'"),
    ("ModuleNotFoundError", "needs zz_other"),
    ("ValueError", "bad value"),
    ("AttributeError", "no such thing"),
    ("SyntaxError", "invalid syntax"),
    ("RuntimeError", None),
]

# ways in which the code of a module cannot be compiled; the last ones are for
# bytecode-only modules
INVALID = ["syntax", "decode", "encoding", "null", "magic", "truncated"]


# scripts that do not compile
RAW = ["def (", "return", "a\0b", "x = '\udcff'", "# -*- coding: zz-unknown -*-"]


def make_crash(c):
    name, msg = CRASHES[c]
    cls = getattr(__import__("builtins"), name)
    return cls(msg) if msg is not None else cls()


def alias(pair):
    return pair[0] if pair[1] is None else f"{pair[0]} as {pair[1]}"


def render_stmt(st, k):
    form = st["form"]
    if form == "import":
        text = "import " + ", ".join(alias(p) for p in st["names"])
    elif form == "from":
        names = "*" if st["star"] else ", ".join(alias(p) for p in st["names"])
        text = f"from {'.' * st['level']}{st['module']} import {names}"
    elif form == "assign":
        text = f"{st['name']} = 1"
    elif form == "raw":
        text = RAW[st["text"]]
    elif form == "extend":
        text = "__path__ = __import__('pkgutil').extend_path(__path__, __name__)"
        if st["name"] == "pkg_resources":
            text = "__import__('pkg_resources').declare_namespace(__name__)"
    elif form == "read":
        text = f"{st['name']}"
    elif form == "def":
        text = f"def {st['name']}(): pass"
    else:
        raise AssertionError(form)
    pre, post = _INDENT[st.get("loc", "top")]
    if "%d" in pre:
        pre = pre % k
    return f"{pre}{text}\n{post}"


def render(stmts):
    return "".join(render_stmt(st, k) for k, st in enumerate(stmts))


class Desc:
    """What is known about a module that exists"""

    def __init__(self, name, kind, stmts=(), crash=0, inv=0, actual=None, suffix=None):
        self.name = name
        self.kind = kind
        self.stmts = list(stmts)
        self.crash = crash
        self.inv = inv
        self.actual = actual  # for entries of sys.modules
        self.suffix = suffix  # of extension modules

    @property
    def is_pkg(self):
        return KINDS[self.kind][0]

    @property
    def node_class(self):
        return KINDS[self.kind][1]

    @property
    def init_class(self):
        return KINDS[self.kind][2]

    @property
    def scanned(self):
        return KINDS[self.kind][3]

    @property
    def bytecode(self):
        return self.kind in ("bytecode", "bpkg")

    def as_json(self):
        d = {"name": self.name, "kind": self.kind, "stmts": self.stmts}
        if self.crash:
            d["crash"] = self.crash
        if self.inv:
            d["inv"] = self.inv
        if self.suffix is not None:
            d["suffix"] = self.suffix
        if self.actual is not None:
            d["actual"] = self.actual
        return d
