from oracle.p05 import build


def roots(W, sc):
    out = list(W.scripts)
    for op in sc["ops"]:
        if op[0] == "module":
            out.append(op[1])
    return out


def run(W, env, sc, bad):
    o = build(W, env, sc, bad)
    if o is not None:
        o.explained_nodes(roots(W, sc))
        o.explained_edges()
