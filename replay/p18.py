import os

from oracle import p18


def replay(sc, tmp):
    tmp = os.path.realpath(tmp)
    site = os.path.join(tmp, "site")
    os.mkdir(site)
    os.chdir(tmp)
    search = "site" if sc["relative"] else site
    try:
        msg = p18.run(sc, site, search, lambda what: None)
    except Exception as exc:
        return True, f"{type(exc).__name__}: {exc}"
    return msg is not None, msg or "ok"
