from oracle.graph import Oracle
from oracle.ops import Run


def run(W, env, sc, bad):
    r = Run(env)
    excludes = {"__main__"}
    config = {}
    for k, op in enumerate(sc["ops"]):
        if op[0] == "exclude":
            excludes.update(op[1])
        elif op[0] == "implies":
            for name, value in op[1]:
                if name not in excludes:
                    config[name] = value
        exc = r.do(k, op)
        if exc is not None:
            bad(f"{op[0]} raised {type(exc).__name__}: {exc}", "raises")
    o = Oracle(W, r.graph(), bad)
    o.implies(config, excludes)
    o.complete()
