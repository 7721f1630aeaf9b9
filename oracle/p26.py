from oracle.graph import Oracle, Source
from oracle.ops import Graph, Run
from oracle.p14 import compare


def assigned(d, n):
    """Is *n* certainly a variable in package *d*?"""
    for st in d.stmts:
        if st["form"] in ("assign", "def") and st["name"] == n:
            return True
    return False


def run(W, env, sc, bad):
    r = Run(env)
    mg = r.mg
    may = set()  # roots that are allowed
    must = []
    fragments = []
    excludes = {"__main__"}
    special = set()  # names with implied references
    for k, op in enumerate(sc["ops"]):
        before = Graph(mg)
        exc = r.do(k, op)
        if op[0] == "exclude":
            excludes.update(op[1])
        elif op[0] == "implies":
            special.update(n for n, _ in op[1])
        elif op[0] == "module":
            may.add(op[1])
            must.append(op[1])
        if op[0] == "source" and len(op[1]) > 0 and op[1][0]["form"] == "raw":
            W.note("invalid")
            if not isinstance(exc, (SyntaxError, ValueError)):
                bad(f"source that cannot be parsed leads to {exc!r}", "invalid")
            compare(before, Graph(mg), bad, ("before", "after failed source"))
            continue
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
        if op[0] == "source":
            fragments.append(Source("-fragment-", op[1], script=True))
    G = Graph(mg)
    o = Oracle(W, G, bad)
    for src in fragments:
        for st, target, asname, names in o.imports(src):
            if target is None:
                # outside of any package
                W.note("relative")
                may.add("." * st["level"] + st["module"])
                continue
            W.note("target")
            must.append(target)
            may.add(target)
            if target not in G.nodes:
                bad(f"{target} is not in the graph", "target")
            pkg = o.node_for(target)
            if pkg not in G.nodes:
                continue
            kind = G.nodes[pkg]
            if kind not in ("Package", "NamespacePackage"):
                if kind == "MissingModule":
                    may.update(f"{pkg}.{n}" for n, _ in names)
                continue
            d = o.find(pkg)
            for n, _ in names:
                full = f"{pkg}.{n}"
                if o.find(full) is not None or full in special or o.excluded(full, excludes):
                    W.note("name")
                    must.append(full)
                    may.add(full)
                elif not (d.scanned and assigned(d, n)):
                    may.add(full)
    for name in must:
        if name not in G.roots:
            bad(f"{name} is not a root", "not-root")
    for name in G.roots:
        if name not in may:
            bad(f"{name} is a root", "root")
    o.complete()
    if len(W.aliases) > 0:
        o.aliases()
    elif len(special) == 0 and len(excludes) == 1:
        o.kinds()
        o.parents(G.roots)
        # names that are variables are allowed in the graph, just like for modules
        wanted = set(G.roots)
        for src in fragments:
            for target, _ in o.may(src):
                wanted.add(target)
        o.explained_nodes(wanted)
        o.explained_edges()
    o.excludes(excludes)
