from oracle.p05 import build


def run(W, env, sc, bad):
    o = build(W, env, sc, bad)
    special = set()  # aliases and virtual modules
    for op in sc["ops"]:
        if op[0] == "implies":
            for name, value in op[1]:
                if isinstance(value, dict):
                    special.add(name)
    o.kinds(special)
    o.missing_names(special)
    # processing of the other imports continues
    o.complete()
