from oracle.graph import Oracle
from oracle.ops import Run


def run(W, env, sc, bad):
    r = Run(env)
    for k, op in enumerate(sc["ops"]):
        exc = r.do(k, op)
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
    o = Oracle(W, r.graph(), bad)
    o.aliases()
    o.complete()
    o.six_names()
