import os

from checks import fakeloaders
from oracle import p16


def replay(sc, tmp):
    fakeloaders.install()
    try:
        msg = p16.run(sc, os.path.realpath(tmp), fakeloaders, lambda what: None)
    except Exception as exc:
        return True, f"{type(exc).__name__}: {exc}"
    return msg is not None, msg or "ok"
