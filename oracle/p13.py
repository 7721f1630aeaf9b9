import modulegraph2
from oracle.graph import Oracle, parent_of
from oracle.ops import Graph, Run


def below(name, top):
    """Is *name* the same as *top*, or is *top* a package it is in?"""
    while name != "":
        if name == top:
            return True
        name = parent_of(name)
    return False


def run(W, env, sc, bad):
    r = Run(env)
    mg = r.mg
    calls = []  # [name, importing, hooks that were called, result]
    nhooks = sc["hooks"]
    config = {}
    roots = []
    excludes = {"__main__"}

    def hook(k):
        def call(graph, importing, name):
            if graph is not mg:
                bad("hook called with another graph", "graph")
            who = None if importing is None else importing.identifier
            entry = None
            for c in calls:
                if c[0] == name:
                    entry = c
            if entry is None:
                entry = [name, who, [], None]
                calls.append(entry)
            if entry[3] is not None:
                bad(f"hook called for {name}, which was already provided", "again")
            if k in entry[2]:
                bad(f"hook called twice for {name}", "twice")
            if k != nhooks - 1 - len(entry[2]):
                bad(f"hook {k} called for {name} after {entry[2]}", "order")
            if entry[1] != who:
                bad(f"hooks called with different modules for {name}", "importing")
            entry[2].append(k)
            if mg.find_node(name) is not None:
                bad(f"hook called for {name}, which is in the graph", "graph")
            W.note("called")
            if W.decide(f"hook{k}", name, 2):
                node = modulegraph2.InvalidRelativeImport(name)
                mg.add_node(node)
                entry[3] = node
                return node

        return call

    for k in range(nhooks):
        mg.add_missing_hook(hook(k))
    for k, op in enumerate(sc["ops"]):
        if op[0] == "implies":
            for name, value in op[1]:
                config[name] = value
        elif op[0] == "exclude":
            excludes.update(op[1])
        elif op[0] == "module":
            roots.append(op[1])
        exc = r.do(k, op)
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
    o = Oracle(W, Graph(mg), bad)
    # what was called
    for name, who, hooks, result in calls:
        if o.find(name) is not None:
            bad(f"hook called for {name}, which exists", "exists")
        kind = o.G.nodes[name] if name in o.G.nodes else None
        if result is not None:
            W.note("provided")
            if kind is None or o.G.objects[name] is not result:
                bad(f"the node that a hook returned for {name} is not used", "result")
        else:
            W.note("missing")
            if len(hooks) != nhooks:
                bad(f"only hooks {hooks} were called for {name}", "all")
            if kind != "MissingModule":
                bad(f"no hook returned a node for {name}, but it is a {kind}", "kind")
        # who it was called for
        if len(config) == 0:
            if who is None:
                for root in roots:
                    if below(root, name):
                        break
                else:
                    bad(f"hook called without importing module for {name}", "importing")
            else:
                W.note("importer")
                src = o.source(who) if who in o.G.nodes else None
                may = [t for t, _ in o.may(src)] if src is not None else []
                for t in may:
                    if below(t, name):
                        break
                else:
                    bad(f"hook called for {name}, that {who} does not import", "importing")
    # what was not called
    for name, kind in o.G.nodes.items():
        if kind == "MissingModule":
            for c in calls:
                if c[0] == name:
                    break
            else:
                bad(f"no hook was called for {name}, which is missing", "uncalled")
