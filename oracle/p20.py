from oracle import dists
from oracle.graph import DEFAULT, Oracle
from oracle.ops import Graph, Run
from oracle.p14 import compare


def run(W, env, sc, bad):
    r = Run(env)
    mg = r.mg
    for k, op in enumerate(sc["ops"]):
        if op[0] == "unknown":
            before = Graph(mg)
            exc = r.do(k, op)
            if type(exc) is not ValueError:
                bad(f"unknown distribution: {exc!r}, not a ValueError", "unknown")
            compare(before, Graph(mg), bad, ("before", "after an unknown distribution"))
            W.note("unknown")
            continue
        exc = r.do(k, op)
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
        if op[0] != "dist":
            continue
        spec = op[1]
        node = r.value
        if node.name != spec["name"]:
            bad(f"node is for {node.name}", "node")
        if not mg.find_node(node) is node:
            bad("the distribution is not in the graph", "node")
        g = Graph(mg)
        if node.identifier not in g.roots:
            bad("the distribution is not a root", "root")
        names = []
        for path in spec["record"]:
            name = dists.import_name(path)
            if name is not None:
                names.append(name)
        out = g.out[node.identifier]
        for name in names:
            W.note("name")
            if name not in g.nodes:
                bad(f"{name} is not in the graph", "name")
            if name not in out:
                bad(f"no edge from the distribution to {name}", "edge")
        for name in out:
            if name not in names:
                bad(f"the distribution does not contain {name}", "extra")
            for rec in out[name]:
                if rec != DEFAULT:
                    bad(f"edge to {name} has attributes {rec}", "attributes")
        o = Oracle(W, g, bad)
        o.complete()
        o.parents(out)
        n = len(r.results)
        r.do(n, op)
        if r.results[n] is not None or r.value is not node:
            bad("adding the distribution again does not return its node", "again")
        compare(g, Graph(mg), bad, ("at first", "after adding it again"))
        W.note("again")
    for name in mg.roots():
        W.note(type(name).__name__)
