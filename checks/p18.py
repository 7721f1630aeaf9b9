"""P18: metadata of distributions

Installed distributions with records of the stated shapes; file names are strings of
arbitrary characters (without line ends), or paths of symbolic and special components. The files
and importable names of the distribution have to be exactly those of the record.
"""

import os
import shutil

import sym.world as sw
from sym.core import E, snot, str_eq

from .run import Harness

SUFFIXES = (
    ".py", ".pyc", ".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so", ".txt", "",
    ".pyo", ".cpython-311-x86_64-linux-gnu.so", ".PY", ".pyi",
)
COMPONENTS = ("{}", "__init__", "__pycache__", "x__init__", "x__pycache__", "__pycache__x", "{}.{}", "..")
RESTS = (",,", ",sha256=AAA_-,12", ",sha256=AAA,")


class Record(Harness):
    replay = "p18"
    sample_mod = 64

    def setup(self):
        import oracle.p18  # noqa

        sw.setup_base()

    def run(self, E):
        sc = {"record": [], "relative": False}
        encoding = self.scenario(E, sc)
        E.scenario = lambda: sc
        tmp = os.path.join(sw.BASE, f"p{os.getpid()}")
        shutil.rmtree(tmp, ignore_errors=True)
        site = os.path.join(tmp, "site")
        os.makedirs(site)
        os.chdir(tmp)

        def fs_open(path, mode="r", buffering=-1, enc=None, *args, encoding=None, **kw):
            enc = encoding or enc
            if "b" not in mode and (enc is None or enc == "locale"):
                return open(path, mode, buffering, self.encoding, *args, **kw)
            return NotImplemented

        if self.encoding:
            E.locals["open"] = fs_open
        import oracle.p18 as o

        try:
            msg = o.run(sc, site, "site" if sc["relative"] else site, E.reach)
        except Exception as exc:
            E.fail(f"raised {type(exc).__name__}: {exc}")
        finally:
            os.chdir("/")
        E.check(msg is None, msg)

    encoding = None

    def signature(self, v):
        return v["message"].partition(" ")[0]


class Names(Record):
    """Names of arbitrary characters"""

    name = "names"
    must_reach = ("name", "no-name")

    def __init__(self, n, suffixes, files=1):
        self.n = n
        self.suffixes = suffixes
        self.files = files
        self.bounds = {
            "name": f"1..{n} arbitrary characters without line ends and one of {suffixes}",
            "quoted": "or not",
            "rest": RESTS,
        }

    def scenario(self, E, sc):
        n = 1 + E.choice("length", self.n)
        s = "".join(E.sym_char("c") for _ in range(n))
        for c in s:
            E.assume(snot(str_eq(c, "\n")))
            E.assume(snot(str_eq(c, "\r")))
        suffix = E.pick("suffix", self.suffixes)
        quoted = E.choice("quoted", 2)
        path = s + suffix
        if not quoted and E.branch(str_eq(path[0], '"')) and E.branch(str_eq(path[-1], '"')):
            E.assume(False)
        sc["record"].append([path, quoted, E.pick("rest", RESTS)])


class Paths(Record):
    """Paths of one character and special names"""

    must_reach = ("name", "no-name")

    def __init__(self, name, n, components=COMPONENTS, suffixes=SUFFIXES, files=1, relative=False):
        self.name = name
        self.o = (n, components, suffixes, files, relative)
        self.bounds = {
            "files": f"{files} of at most {n} components {components} and one of {suffixes}",
            "search path": "absolute or relative" if relative else "absolute",
        }

    def scenario(self, E, sc):
        n, components, suffixes, files, relative = self.o

        def ident():
            c = E.sym_char("n")
            for x in '/."\n\r':
                E.assume(snot(str_eq(c, x)))
            return c

        for _ in range(files):
            comps = []
            for k in range(1 + E.choice("depth", n)):
                c = E.pick("component", components)
                if c == ".." and any(x != ".." for x in comps):
                    E.assume(False)
                comps.append(c.format(*[ident() for _ in range(c.count("{}"))]))
            if comps[-1] == "..":
                E.assume(False)
            sc["record"].append("/".join(comps) + E.pick("suffix", suffixes))
        if relative and E.choice("relative", 2):
            sc["relative"] = True
            E.reach("relative")


class Encoding(Paths):
    """The encoding of the locale is not the one of the file"""

    encoding = "latin-1"
    env = {"PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C"}
    sample_mod = 8


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Names(5 if deep else 4, (".py", "/__init__.py", ".txt", "") if deep else (".py", "")),
        Paths("paths", 3),
        Paths("two", 2, components=("{}", "__init__", "__pycache__", ".."), suffixes=SUFFIXES if deep else SUFFIXES[:3], files=2),
        Paths("relative", 2, components=("{}", "__init__", ".."), suffixes=SUFFIXES[:1], relative=True),
        Encoding("encoding", 2, components=("{}", "\xe9", "__pycache__"), suffixes=SUFFIXES[:3]),
    ]
