import os

from oracle import p19


def replay(sc, tmp):
    tmp = os.path.realpath(tmp)
    os.chdir(tmp)
    try:
        msg = p19.run(sc, tmp, lambda what: None)
    except Exception as exc:
        return True, f"{type(exc).__name__}: {exc}"
    return msg is not None, msg or "ok"
