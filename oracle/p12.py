import modulegraph2
from oracle.graph import Oracle
from oracle.ops import Graph, Run


def run(W, env, sc, bad):
    r = Run(env)
    mg = r.mg
    state = {"registered": 0}
    events = {}  # node -> hooks that were called, in order
    expect = {}  # node -> hooks that should be called, in order
    act = sc.get("act")  # [what, at node, name]

    def finished(node):
        name = node.identifier
        o = Oracle(W, Graph(mg), bad)
        if name not in o.G.nodes:
            bad(f"hook called for {name}, which is not in the graph", "node")
        src = o.source(name)
        if src is None:
            return
        W.note("scanned")
        for alts, rec, text in o.must(src):
            for a in alts:
                if o.has_edge(name, a):
                    break
            else:
                bad(f"hook called for {name} before the {text}", "early")

    def hook(k):
        def call(graph, node):
            name = node.identifier
            if graph is not mg:
                bad("hook called with another graph", "graph")
            if name not in events:
                events[name] = []
            if k in events[name]:
                bad(f"hook called twice for {name}", "twice")
            events[name].append(k)
            if len(events[name]) == 1:
                finished(node)
            if act is not None and k == 0 and name == act[1]:
                if act[0] == "import":
                    W.note("act")
                    mg.import_module(node, act[2])
                elif act[0] == "package":
                    W.note("act")
                    mg.import_package(node, act[2])
                else:
                    W.note("act")
                    mg.add_module(act[2])

        return call

    def register():
        mg.add_post_processing_hook(hook(state["registered"]))
        state["registered"] += 1

    def provide(graph, importing, name):
        if name == sc["provide"]:
            W.note("provided")
            node = modulegraph2.InvalidRelativeImport(name)
            mg.add_node(node)
            return node

    if "provide" in sc:
        mg.add_missing_hook(provide)
    register()
    register()
    for k, op in enumerate(sc["ops"]):
        if op[0] == "hook":
            register()
            continue
        exc = r.do(k, op)
        if exc is not None and op[0] != "script":
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
        want = list(range(state["registered"]))[::-1]
        for node in mg.nodes():
            name = node.identifier
            if name not in expect:
                expect[name] = want
            if name not in events:
                bad(f"no hook was called for {name}", "missed")
            if events[name] != expect[name]:
                bad(
                    f"hooks {events[name]} were called for {name}, not {expect[name]}",
                    "order",
                )
            W.note(type(node).__name__)
        for name in events:
            if name not in expect:
                bad(f"hook called for {name}, which is not in the graph", "node")
