from oracle.graph import parent_of
from oracle.ops import Graph, Run
from oracle.p14 import compare


def run(W, env, sc, bad):
    r = Run(env)
    mg = r.mg
    roots = []  # expected roots
    scripts = []
    done = []  # operations that succeed
    for k, op in enumerate(sc["ops"]):
        before = Graph(mg)
        want = None
        if op[0] == "script":
            if op[2] in scripts:
                want = ValueError
            elif len(op[1]) > 0 and op[1][0]["form"] == "raw":
                want = SyntaxError
            else:
                scripts.append(op[2])
        elif op[0] == "noscript":
            want = OSError
        elif op[0] == "unknown":
            want = ValueError
        exc = r.do(k, op)
        after = Graph(mg)
        if want is None:
            if exc is not None:
                if op[0] == "module":
                    # reported by P08
                    return
                bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
            done.append(op)
            W.note(op[0])
            name = r.value.identifier
            if not mg.find_node(name) is r.value:
                bad(f"the result of {op[0]} is not the node in the graph", "result")
            if op[0] == "module" and name != op[1]:
                bad(f"the result of adding {op[1]} is the node for {name}", "result")
            if name not in roots:
                roots.append(name)
            for n, kind in before.nodes.items():
                if n not in after.nodes or not before.objects[n] is after.objects[n]:
                    bad(f"{op[0]} removes or replaces {n}", "removed")
        else:
            W.note("failed-" + op[0])
            if exc is None:
                bad(f"no exception for {op}", "accepted")
            ok = isinstance(exc, want)
            if op[0] == "script" and want is SyntaxError and isinstance(exc, ValueError):
                ok = True  # undecodable source
            if not ok:
                bad(
                    f"{op[0]} raised {type(exc).__name__}: {exc} instead of "
                    f"{want.__name__}",
                    "exception",
                )
            compare(before, after, bad, ("before", f"after failed {op[0]}"))
            for n in after.nodes:
                if not before.objects[n] is after.objects[n]:
                    bad(f"failed {op[0]} replaces {n}", "removed")
        for name in after.roots:
            if name not in roots:
                bad(f"{name} is a root after {op[0]}", "root")
        for name in roots:
            if name not in after.roots:
                bad(f"{name} is not a root after {op[0]}", "root")
    # Failed operations have no later effects
    if len(done) < len(sc["ops"]):
        W.restart()
        other = Run(env)
        for k, op in enumerate(done):
            if other.do(k, op) is not None:
                bad(f"{op[0]} fails without the operations that failed", "effects")
        W.restart()
        compare(
            other.graph(), Graph(mg), bad, ("without", "with operations that failed")
        )
        W.note("effects")
