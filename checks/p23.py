"""P23: the command line

main() is called with all sequences of the stated options, with symbolic values, in
a symbolic world: its output is parsed again and has to describe the graph that one
gets from the API for the same names, excludes and search path. The search path seen
by the import system and the one afterwards are checked too, also for builds and
outputs that fail.
"""

from sym.core import E

from .worlds import GraphHarness, World, dotted, ident, statement

IMPORT = (("import", 1, False),)
FLAGS = ("m", "s", "d")
ALL = FLAGS + ("f-html", "f-dot", "x", "X", "p", "o")


class Command(GraphHarness):
    oracle = "p23"
    sample_mod = 16

    def __init__(self, name, n, options=ALL, spellings=(0,), names=(1,), stmts=0, kinds=("source", None),
                 sites=False, missing=(False,), scripts=(0,), exact=None, places=None, must=()):
        self.name = name
        self.o = (n, options, spellings, names, stmts, kinds, sites, missing, scripts, exact, places)
        self.must_reach = must
        self.bounds = {
            "options": f"0..{n} of {options}, any order" if exact is None else f"{exact}",
            "spelling": [("-x v", "-xv", "--xx v", "--xx=v")[s] for s in spellings],
            "names": f"{names}, at any place" if places is None else f"{names}, last",
            "modules": kinds,
            "statements": f"at most {stmts} of {IMPORT}",
            "output": "can be written or not" if len(missing) > 1 else "can be written",
            "scripts": [("valid", "does not exist", "syntax error")[s] for s in scripts],
        }

    def build(self, E):
        n, options, spellings, names, stmts, kinds, sites, missing, scripts, exact, places = self.o
        left = [stmts]

        def body(w, d):
            out = []
            while left[0] and E.choice("more", 2):
                left[0] -= 1
                out.append(statement(E, IMPORT))
            return out

        w = World(lambda w, c, p: kinds, body)
        argv = []
        todo = list(exact) if exact is not None else [
            E.pick("option", options) for _ in range(E.choice("n", n + 1))
        ]
        kind = "m"
        for k, opt in enumerate(todo):
            spelling = E.pick("spelling", spellings)
            value = None
            if opt in FLAGS:
                kind = opt
            elif opt == "x":
                value = dotted(1)
            elif opt == "p":
                value = ident("path")
                if sites:
                    # a directory with a distribution that may have the name
                    value = [k, [{"name": "foo", "version": "1.0", "record": [f"{ident('mod')}.py"]}]]
            elif opt == "o":
                value = [ident("out"), E.pick("missing", missing)]
            argv.append([opt, spelling, value])
        block = []
        for k in range(E.pick("names", names)):
            if kind == "s":
                s = E.pick("script", scripts)
                value = [k, None if s == 1 else [{"form": "raw", "text": 0}] if s == 2 else [statement(E, IMPORT)]]
                if s == 0 and k and E.choice("same", 2):
                    value = block[0][2]
            elif kind == "d":
                value = "foo" if sites and not E.choice("unknown", 2) else "zz-unknown"
            else:
                value = dotted(1)
            block.append(["n", 0, value])
        at = len(argv) if places is not None else E.choice("place", len(argv) + 1)
        argv[at:at] = block
        return w, {"argv": argv}


def harnesses(tier):
    deep = tier == "thorough"
    return [
        Command("options", 4 if deep else 3, must=("html", "dot", "file", "failure", "path")),
        Command("spelling", 3 if deep else 2, options=("m", "s", "f-dot", "x", "p", "o"), spellings=(0, 1, 2, 3),
                must=("html", "dot", "file", "path")),
        Command("kinds", 3, options=FLAGS, places=0, must=("html", "failure")),
        Command("excludes", 0, exact=("x", "X", "x"), names=(1,), stmts=1, must=("html",)),
        Command("names", 1, options=FLAGS + ("x",), names=(2, 3) if deep else (2,), stmts=1,
                scripts=(0, 1, 2), must=("html", "failure")),
        Command("paths", 0, exact=("p", "d", "p"), sites=True, names=(1, 2), kinds=("source",), must=("html", "failure", "path")),
        Command("path-order", 0, exact=("p", "p", "p") if deep else ("p", "p"), must=("html", "path")),
        Command("output", 0, exact=("o", "f-dot", "o"), missing=(False, True), must=("dot", "no-output", "file")),
        Command("output-html", 0, exact=("f-dot", "o", "f-html"), missing=(False, True), must=("html", "no-output", "file")),
    ]
