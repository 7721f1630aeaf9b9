from oracle.graph import Oracle
from oracle.ops import Run


def run(W, env, sc, bad):
    r = Run(env)
    excludes = {"__main__"}
    for k, op in enumerate(sc["ops"]):
        if op[0] == "exclude":
            excludes.update(op[1])
        exc = r.do(k, op)
        if exc is not None and op[0] != "script":
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
    Oracle(W, r.graph(), bad).excludes(excludes)
