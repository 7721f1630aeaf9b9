from oracle.graph import DEFAULT, Oracle
from oracle.ops import Graph, Run, Stop


def run(W, env, sc, bad):
    r = Run(env)
    mg = r.mg
    act = sc.get("act")  # what a post-processing hook does: [at node, op]
    done = []

    def hook(graph, node):
        if node.identifier == act[0]:
            for what, name in act[1]:
                if what == "import":
                    got = mg.import_module(node, name)
                else:
                    got = mg.import_package(node, name)
                if got.identifier != name:
                    bad(f"{name} leads to {got.identifier}", "result")
                done.append((node.identifier, what, name))

    if act is not None:
        mg.add_post_processing_hook(hook)
    excludes = {"__main__"}
    for k, op in enumerate(sc["ops"]):
        roots = {n.identifier for n in mg.roots()}
        if op[0] == "exclude":
            excludes.update(op[1])
        exc = r.do(k, op)
        if op[0] == "hook_raise":
            if not isinstance(exc, Stop):
                bad(f"{op} does not raise the exception of its body but {exc!r}", "exception")
        elif exc is not None:
            bad(f"{op} raises {exc!r}", "exception")
        if op[0] == "module":
            roots.add(op[1])
        elif op[0] in ("hook_raise", "hook_many"):
            for what, name in op[2]:
                done.append((op[1], what, name))
        if {n.identifier for n in mg.roots()} != roots:
            bad(f"{op} changes the roots", "roots")
    G = Graph(mg)
    o = Oracle(W, G, bad)
    wanted = set(G.roots)
    edges = set()

    def imported(a, b, where="edge"):
        if b not in G.nodes:
            bad(f"{b} is not in the graph", "node")
        if b not in G.out[a] or DEFAULT not in G.out[a][b]:
            bad(f"no edge from {a} to {b}", where)
        edges.add((a, b))
        wanted.add(b)

    def members(name):
        """members of a package"""
        W.note(G.nodes[name])
        if G.nodes[name] != "Package":
            return
        for m in sc["members"]:
            if m.rpartition(".")[0] == name:
                W.note("member")
                imported(name, m, "member")
                members(m)
        for m in sc["optional"]:
            if m.rpartition(".")[0] == name:
                edges.add((name, m))
                wanted.add(m)

    for importer, what, name in done:
        imported(importer, name)
        if what == "package":
            members(name)
    if len(excludes) == 1:
        # all dependencies are processed, and nothing else is added
        o.kinds()
        o.explained_nodes(wanted)
    else:
        o.excludes(excludes)
    o.complete()
    for name in G.nodes:
        src = o.source(name)
        may = [t for t, _ in o.may(src)] if src is not None else []
        for dst in G.out[name]:
            if dst in may or o.default_allowed(name, dst) or (name, dst) in edges:
                continue
            bad(f"nothing explains the edge from {name} to {dst}", "extra")
