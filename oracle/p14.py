from oracle.ops import Run


def build(env, ops):
    r = Run(env)
    for k, op in enumerate(ops):
        r.do(k, op)
    return r


def compare(a, b, bad, what):
    """a, b: oracle.ops.Graph"""
    for name, kind in a.nodes.items():
        if name not in b.nodes:
            bad(f"{name} is in the graph {what[0]}, but not {what[1]}", "node")
        if b.nodes[name] != kind:
            bad(f"{name} is a {kind} {what[0]}, and a {b.nodes[name]} {what[1]}", "kind")
    for name in b.nodes:
        if name not in a.nodes:
            bad(f"{name} is in the graph {what[1]}, but not {what[0]}", "node")
    for name, out in a.out.items():
        for dst, attrs in out.items():
            if dst not in b.out[name]:
                bad(f"edge {name} -> {dst} exists {what[0]}, but not {what[1]}", "edge")
            if b.out[name][dst] != attrs:
                bad(
                    f"edge {name} -> {dst} has {attrs} {what[0]}, {b.out[name][dst]} "
                    f"{what[1]}",
                    "attributes",
                )
        for dst in b.out[name]:
            if dst not in out:
                bad(f"edge {name} -> {dst} exists {what[1]}, but not {what[0]}", "edge")


def run(W, env, sc, bad):
    first = build(env, sc["ops"])
    g1 = first.graph()
    W.restart(W.order)
    second = build(env, sc["ops"])
    g2 = second.graph()
    W.restart()
    for a, b in zip(first.results, second.results):
        if type(a).__name__ != type(b).__name__:
            bad(f"{a!r} for one order of names, {b!r} for another", "raises")
    W.note("orders")
    compare(g1, g2, bad, ("for one order of names", "for another"))
    for name in g1.roots:
        if name not in g2.roots:
            bad(f"{name} is a root for one order of names only", "roots")
    for name in g2.roots:
        if name not in g1.roots:
            bad(f"{name} is a root for one order of names only", "roots")
    # adding a root again
    for op in sc["ops"]:
        if op[0] == "module":
            n = len(first.results)
            first.do(n, op)
            if first.results[n] is not None:
                bad(f"adding {op[1]} again raised {first.results[n]!r}", "raises")
            g3 = first.graph()
            compare(g1, g3, bad, ("at first", "after adding a root again"))
            if len(g3.roots) != len(g1.roots):
                bad("adding a root again changes the roots", "roots")
            W.note("again")
