from oracle.reports import run


def replay(sc, tmp):
    try:
        msg = run(sc["graph"], sc["what"])
    except Exception as exc:
        return True, f"{type(exc).__name__}: {exc}"
    return msg is not None, msg or "ok"
