from oracle.p05 import build


def run(W, env, sc, bad):
    o = build(W, env, sc, bad)
    if o is not None:
        o.relative()
        o.explained_edges()
