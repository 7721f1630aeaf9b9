import os

from checks import trees
from oracle import p17


def replay(sc, tmp):
    trees.install()
    try:
        msg = p17.run(sc, os.path.realpath(tmp), trees, lambda what: None)
    except Exception as exc:
        return True, f"{type(exc).__name__}: {exc}"
    return msg is not None, msg or "ok"
