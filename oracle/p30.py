from oracle import dists
from oracle.graph import DEFAULT, Oracle, Source, parent_of
from oracle.ops import Graph, Run

SUFFIX = "__mypyc"


def run(W, env, sc, bad):
    r = Run(env, builtin_hooks=True)
    for k, op in enumerate(sc["ops"]):
        exc = r.do(k, op)
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
    G = Graph(r.mg)
    sources = {}
    for filename, stmts in sc["texts"]:
        sources[filename] = stmts

    class Compiled(Oracle):
        """modules that were compiled with mypyc have their source"""

        def source(self, name):
            if name in compiled:
                d = self.find(name)
                return Source(name, compiled[name], d.is_pkg)
            return Oracle.source(self, name)

    compiled = {}
    helpers = {}
    o = Compiled(W, G, bad)
    for name in G.nodes:
        d = o.find(name)
        if d is None or d.kind not in ("ext", "extpkg"):
            continue
        base = "/".join(name.split("."))
        if d.is_pkg:
            base += "/__init__"
        path = base + (d.suffix or dists.SUFFIXES[2])
        names = None
        for spec in sc["installed"]:
            if path in spec["record"]:
                names = [dists.import_name(p) for p in spec["record"]]
                break
        if names is None:
            W.note("no-distribution")
            continue
        names = [n for n in names if n is not None and n.endswith(SUFFIX)]
        if len(names) == 0:
            W.note("no-helper")
            continue
        if base + ".py" not in sources:
            W.note("no-source")
            continue
        stmts = sources[base + ".py"]
        compiled[name] = []
        helpers[name] = names
        if len(stmts) > 0 and stmts[0]["form"] == "raw":
            W.note("invalid")
        else:
            W.note("compiled")
            compiled[name] = stmts
    roots = set(G.roots)
    for name, names in helpers.items():
        got = [n for n in names if n in G.out[name] and DEFAULT in G.out[name][n]]
        if len(got) == 0:
            bad(f"no edge from {name} to its helper", "helper")
    for op in sc["ops"]:
        if op[0] == "module":
            if op[1] not in G.roots:
                bad(f"{op[1]} is not a root", "roots")
            roots.discard(op[1])
    if len(roots) > 0:
        bad(f"{sorted(map(repr, roots))} are roots", "roots")
    o.kinds()
    o.complete()
    attributes(o, helpers, bad)
    wanted = set(G.roots)
    for names in helpers.values():
        wanted.update(names)
    o.explained_nodes(wanted)
    for name in G.nodes:
        src = o.source(name)
        may = [t for t, _ in o.may(src)] if src is not None else []
        for dst in G.out[name]:
            if dst in may or parent_of(name) == dst:
                continue
            if name in helpers and dst in helpers[name]:
                continue
            bad(f"nothing in {name} explains the edge to {dst}", "edge")


def attributes(o, helpers, bad):
    for name in helpers:
        src = o.source(name)
        for alts, rec, text in o.must(src):
            for a in alts:
                if o.has_edge(name, a) and rec in o.G.out[name][a]:
                    o.W.note("attributes")
                    break
            else:
                bad(f"no edge for the {text} has its attributes", "attributes")
