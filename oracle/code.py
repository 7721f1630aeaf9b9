"""
Programs for the scan of bytecode: text, imports, and global names.

A statement is one of
  ["import", [[name, as], ...]], ["from", level, module, [[name, as], ...], star]
  ["scope", kind, name, body], ["flow", kind, body]
  ["bind", form, name], ["read", form, name], ["global", name]
"""

SCOPES = {
    "def": "def {0}():\n{1}",
    "args": "@zz_d\ndef {0}(a: zz_t = 1, *b, c=2, **d) -> zz_t:\n{1}",
    "async": "async def {0}():\n{1}",
    "gdef": "def {0}[zz_T]():\n{1}",
    "class": "class {0}:\n{1}",
    "bases": "@zz_d\nclass {0}(zz_b, zz_k=1):\n{1}",
    "gclass": "class {0}[zz_T](zz_b):\n{1}",
}
FUNCTIONS = ("def", "args", "async", "gdef")
FLOWS = {
    "if": "if zz_c:\n{0}",
    "else": "if zz_c:\n  zz_x\nelse:\n{0}",
    "try": "try:\n{0}\nexcept zz_E:\n  zz_x",
    "except": "try:\n  zz_x\nexcept zz_E:\n{0}",
    "finally": "try:\n  zz_x\nfinally:\n{0}",
    "for": "for zz_i in zz_s:\n{0}",
    "while": "while zz_c:\n{0}\nelse:\n  zz_x",
    "with": "with zz_c:\n{0}",
    "match": "match zz_c:\n  case 1:\n{0}",
}
BINDS = {
    "assign": "{0} = 0",
    "unpack": "zz_u, *{0} = zz_s",
    "aug": "{0} += 1",
    "ann": "{0}: zz_t = 0",
    "for": "for {0} in zz_s:\n  zz_x",
    "with": "with zz_c as {0}:\n  zz_x",
    "except": "try:\n  zz_x\nexcept zz_E as {0}:\n  zz_x",
    "walrus": "zz_f({0} := 0)",
    "comp": "[({0} := zz_i) for zz_i in zz_s]",
    "match": "match zz_c:\n  case {0}:\n    zz_x",
    "type": "type {0} = zz_t",
    "import": "import {0}",
    "sub": "import {0}.zz_m",
    "as": "import zz_m as {0}",
    "from": "from zz_m import {0}",
    "fromas": "from zz_m import zz_n as {0}",
    "named": "from zz_m import {0} as zz_n",
    "def": "def {0}(): zz_x",
    "class": "class {0}: pass",
}
READS = {
    "expr": "{0}",
    "attr": "{0}.zz_a",
    "call": "zz_f(zz_k={0})",
    "lambda": "lambda: {0}",
    "default": "def zz_g(a={0}): pass",
    "deco": "@{0}\ndef zz_g(): pass",
    "base": "class zz_C({0}): pass",
    "comp": "[zz_i + {0} for zz_i in zz_s]",
    "gen": "zz_f({0} for zz_i in zz_s)",
    "format": "f'{{{0}}}'",
    "aug": "{0}.zz_a += 1",
    "nested": "def zz_g():\n  {0}",
}
# reads in a function of their own
INNER = ("lambda", "gen", "nested")
# names that are written but not as stated in *BINDS*
EXTRA = "zz_"


def indent(text):
    return "\n".join("  " + ln for ln in text.split("\n"))


def alias(pairs):
    return ", ".join(n if a is None else n + " as " + a for n, a in pairs)


def render(body):
    out = []
    for st in body:
        k = st[0]
        if k == "import":
            out.append("import " + alias(st[1]))
        elif k == "from":
            out.append("from " + "." * st[1] + st[2] + " import " + ("*" if st[4] else alias(st[3])))
        elif k == "scope":
            out.append(SCOPES[st[1]].format(st[2], indent(render(st[3]))))
        elif k == "flow":
            inner = indent(render(st[2]))
            out.append(FLOWS[st[1]].format(indent(inner) if st[1] == "match" else inner))
        elif k == "bind":
            out.append(BINDS[st[1]].format(st[2]))
        elif k == "read":
            out.append(READS[st[1]].format(st[2]))
        else:
            out.append("global " + st[1])
    return "\n".join(out or ["pass"])


def imports(body, in_function=False):
    """[module, level, names, star, in function]"""
    out = []
    for st in body:
        if st[0] == "import":
            for n, _ in st[1]:
                out.append([n, 0, [], False, in_function])
        elif st[0] == "from":
            out.append([st[2], st[1], [n for n, _ in st[3]], st[4], in_function])
        elif st[0] == "scope":
            out += imports(st[3], in_function or st[1] in FUNCTIONS)
        elif st[0] == "flow":
            out += imports(st[2], in_function)
    return out


class Scope:
    def __init__(self, kind, parent):
        self.kind = kind  # "module", "def", "class"
        self.parent = parent
        self.globals = []
        self.bound = []
        self.read = []
        self.written = []  # global names for sure
        self.scopes = []

    def fill(self, body):
        for st in body:
            k = st[0]
            if k == "scope":
                self.bind(st[2])
                inner = Scope("def" if st[1] in FUNCTIONS else "class", self)
                inner.fill(st[3])
                self.scopes.append(inner)
            elif k == "flow":
                self.fill(st[2])
            elif k == "bind":
                if st[1] == "named":
                    if self.kind == "module":
                        # listed in a from-import of the module
                        self.written.append(st[2])
                else:
                    self.bind(st[2])
                if st[1] == "aug":
                    self.read.append(st[2])
            elif k == "read":
                if st[1] in INNER:
                    inner = Scope("def", self)
                    inner.read.append(st[2])
                    self.scopes.append(inner)
                else:
                    self.read.append(st[2])
            elif k == "global":
                self.globals.append(st[1])

    def bind(self, name):
        self.bound.append(name)

    def resolve(self, name):
        """True: global, False: not, None: depends"""
        if self.kind == "module" or name in self.globals:
            return True
        if self.kind == "class":
            return None
        scope = self
        while scope.kind != "module":
            if scope.kind == "def":
                if name in scope.globals:
                    return True
                if name in scope.bound:
                    return False
            scope = scope.parent
        return True

    def names(self, written, read, maybe):
        for n in self.written:
            written.append(n)
        for n in self.bound:
            if self.kind == "module" or n in self.globals:
                written.append(n)
        for n in self.read:
            r = self.resolve(n)
            if r:
                read.append(n)
            elif r is None:
                maybe.append(n)
        for s in self.scopes:
            s.names(written, read, maybe)


def check_imports(body, infos):
    want = imports(body)
    got = []
    for i in infos:
        got.append([i.import_module, i.import_level, i.import_names, i.star_import, i.is_in_function, i])
    for w in want:
        for g in got:
            if g[0] == w[0] and g[1] == w[1] and g[3] == w[3] and g[4] == w[4]:
                if all(n in g[2] for n in w[2]) and all(n in w[2] for n in g[2]):
                    # the code of finally clauses is there more than once
                    g[5] = None
                    break
        else:
            return f"import {w} is not reported in {[g[:5] for g in got]}"
    for g in got:
        if g[5] is not None:
            for w in want:
                if g[0] == w[0] and g[1] == w[1] and g[3] == w[3] and g[4] == w[4]:
                    if all(n in g[2] for n in w[2]) and all(n in w[2] for n in g[2]):
                        break
            else:
                return f"import {g[:5]} is reported, expected {want}"
    return None


def check_names(body, pool, written, read):
    scope = Scope("module", None)
    scope.fill(body)
    w, r, m = [], [], []
    scope.names(w, r, m)
    for n in pool:
        if n in w and n not in written:
            return f"name {n} is missing in the names written: {list(written)}"
        if n not in w and n in written:
            return f"name {n} is in the names written: {list(written)}"
        if n in r and n not in read:
            return f"name {n} is missing in the names read: {list(read)}"
        if n not in r and n not in m and n in read:
            return f"name {n} is in the names read: {list(read)}"
    for n in written:
        if n not in pool and not n.startswith(EXTRA):
            return f"unknown name {n} is in the names written: {list(written)}"
    return None


def check_uses(pool, written, read):
    """uses_dunder_import and uses_dunder_file"""
    import modulegraph2

    init = modulegraph2.SourceModule(
        name="zz", loader=None, distribution=None, extension_attributes={}, filename=None,
        globals_written=set(written), globals_read=read, code=None,
    )
    pkg = modulegraph2.Package(
        name="zz", loader=None, distribution=None, extension_attributes={}, filename=None,
        init_module=init, search_path=[], has_data_files=False, namespace_type=None,
    )
    if bool(init.uses_dunder_import) != bool("__import__" in read):
        return f"uses_dunder_import is {init.uses_dunder_import}"
    if bool(init.uses_dunder_file) != bool("__file__" in read):
        return f"uses_dunder_file is {init.uses_dunder_file}"
    for n in pool:
        if bool(n in pkg.globals_read) != bool(n in read):
            return f"globals_read of the package is {list(pkg.globals_read)}"
        if bool(n in pkg.globals_written) != bool(n in written):
            return f"globals_written of the package is {list(pkg.globals_written)}"
    return None


def run(sc, code, note):
    from modulegraph2 import _bytecode_tools

    infos, written, read = _bytecode_tools.extract_bytecode_info(code)
    body = sc["body"]
    if sc["what"] == "imports":
        return check_imports(body, infos)
    msg = check_names(body, sc["pool"], written, read)
    return msg if msg is not None else check_uses(sc["pool"], written, read)
