"""The command line; argv is described by items [kind, spelling, value]"""

import sys

import modulegraph2

from . import reports

STDLIB = ("std_a", "std_b")
FORMATS = {"f-html": "html", "f-dot": "dot"}
LONG = {"m": "--module", "s": "--script", "d": "--distribution", "x": "--exclude",
        "p": "--path", "o": "--output", "f": "--format"}


def words(flag, spelling, value):
    if value is None:
        return ["-" + flag] if not spelling else [LONG[flag]]
    if spelling == 0:
        return ["-" + flag, value]
    if spelling == 1:
        return ["-" + flag + value]
    if spelling == 2:
        return [LONG[flag], value]
    return [LONG[flag] + "=" + value]


class Args:
    """What a command line means"""

    def __init__(self, sc, env):
        self.argv = []
        self.kind = "m"
        self.format = "html"
        self.excludes = []
        self.path = []
        self.output = None
        self.names = []
        for kind, spelling, value in sc["argv"]:
            if kind in ("m", "s", "d"):
                self.kind = kind
        for kind, spelling, value in sc["argv"]:
            if kind in ("m", "s", "d"):
                self.argv += words(kind, spelling, None)
            elif kind in FORMATS:
                self.format = FORMATS[kind]
                self.argv += words("f", spelling, self.format)
            elif kind == "x":
                self.excludes.append(value)
                self.argv += words("x", spelling, value)
            elif kind == "X":
                self.excludes += list(STDLIB)
                self.argv.append("--exclude-stdlib")
            elif kind == "p":
                if isinstance(value, list):
                    value = env.site(value[0], value[1])
                self.path.append(value)
                self.argv += words("p", spelling, value)
            elif kind == "o":
                self.output = env.output(value[0], value[1])
                self.missing = value[1]
                self.argv += words("o", spelling, self.output)
            else:
                if isinstance(value, list):
                    value = env.script_path(value[0], value[1])
                self.names.append(value)
                self.argv.append(value)


def spec_of(mg):
    """Description of a graph for the checks of reports"""
    nodes = list(mg.nodes())
    spec = {"nodes": [], "edges": [], "roots": [], "dists": []}

    def index(n):
        for k, x in enumerate(nodes):
            if x is n:
                return k

    def dist(d):
        for k, x in enumerate(spec["dists"]):
            if x[0] == d.name:
                return k
        spec["dists"].append([d.name, d.version])
        return len(spec["dists"]) - 1

    for n in nodes:
        if isinstance(n, modulegraph2.PyPIDistribution):
            spec["nodes"].append(["dist", n.name, None, dist(n)])
        else:
            spec["nodes"].append([
                type(n).__name__, n.name, None if n.filename is None else str(n.filename),
                None if n.distribution is None else dist(n.distribution),
            ])
    for src, dst, attrs in mg.edges():
        opts = [a.is_optional for a in attrs]
        spec["edges"].append([index(src), index(dst), (1 if False in opts else 0) + (2 if True in opts else 0)])
    for n in mg.roots():
        spec["roots"].append(index(n))
    return spec, nodes


def build(args):
    """The graph that is asked for"""
    mg = modulegraph2.ModuleGraph()
    mg.add_excludes(args.excludes)
    for name in args.names:
        if args.kind == "m":
            mg.add_module(name)
        elif args.kind == "s":
            mg.add_script(name)
        else:
            mg.add_distribution(name)
    return mg


def same_list(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def run(W, env, sc, bad):
    import modulegraph2.__main__ as cmd
    import modulegraph2._modulegraph as impl

    impl.STDLIB_IMPLIES = {}
    sys.stdlib_module_names = frozenset(STDLIB)
    args = Args(sc, env)
    path = sys.path
    before = list(path)

    exc, stdout, files = env.capture(lambda: cmd.main(list(args.argv)))
    if sys.path is not path or not same_list(list(sys.path), before):
        bad(f"sys.path is {sys.path} and not {before} afterwards", "path-after")
    want_path = args.path + before
    for seen in W.seen_paths:
        if not same_list(seen, want_path):
            bad(f"the search path is {seen} and not {want_path}", "path")
        W.note("path")
    # what should have happened
    W.restart()
    sys.path[:] = want_path
    try:
        mg = build(args)
        expected = None
    except Exception as e:
        expected = e
    sys.path[:] = before
    if expected is not None:
        W.note("failure")
        if type(exc) is not type(expected):
            bad(f"{exc!r} and not {expected!r}", "failure")
        return
    if args.output is not None and args.missing:
        W.note("no-output")
        if not isinstance(exc, SystemExit) or not exc.code:
            bad(f"{exc!r} when the output cannot be written", "no-output")
        return
    if exc is not None:
        bad(f"failed with {exc!r}", "raises")
    if args.output is None:
        text = stdout
        if files:
            bad(f"files written: {files}", "output")
    else:
        W.note("file")
        if stdout.strip():
            bad(f"output on stdout: {stdout[:200]!r}", "output")
        if len(files) != 1 or files[0][0] != args.output:
            bad(f"files {[f for f, _ in files]} and not {args.output}", "output")
        text = files[0][1]
    spec, nodes = spec_of(mg)
    check = reports.check_dot if args.format == "dot" else reports.check_html
    msg = check(spec, nodes, text)
    if msg is not None:
        bad(f"{args.format}: {msg}", "graph")
    W.note(args.format)
