import importlib
import importlib.metadata
import sys

EXCS = [None, "Exception", "SystemExit", "KeyboardInterrupt", "GeneratorExit"]


class Boom(Exception):
    pass


def make_exc(name):
    return {
        "Exception": Boom,
        "SystemExit": SystemExit,
        "KeyboardInterrupt": KeyboardInterrupt,
        "GeneratorExit": GeneratorExit,
    }[name]("x")


def apply(sysmod, rebind, new):
    """Leave sys.path in an arbitrary state"""
    if rebind:
        sysmod.path = list(new)
    else:
        sysmod.path[:] = list(new)


def run_block(ctx, sysmod, blk, check, counter):
    """
    blk: {"before": [[rebind, entries]], "inner": blk | None, "after": [...], "exc": name}
    Runs one guarded block, *check* compares the state before and after.
    """
    before_obj = sysmod.path
    before = list(before_obj)
    n0 = counter()
    raised = None
    exc = make_exc(blk["exc"]) if blk["exc"] else None
    try:
        with ctx():
            for rebind, new in blk["before"]:
                apply(sysmod, rebind, new)
            if blk["inner"] is not None:
                try:
                    run_block(ctx, sysmod, blk["inner"], check, counter)
                except BaseException as e:
                    if type(e).__name__ in ("PathEnd", "Limit") or blk["exc"] is None:
                        raise
            for rebind, new in blk["after"]:
                apply(sysmod, rebind, new)
            if exc is not None:
                raise exc
    except BaseException as e:
        if type(e).__name__ in ("PathEnd", "Limit"):
            raise
        raised = e
    check("object", sysmod.path is before_obj)
    check("length", len(sysmod.path) == len(before))
    for i in range(len(before)):
        check("entries", (sysmod.path[i], before[i]))
    inner_exc = (
        blk["inner"] is not None and blk["inner"]["exc"] and exc is None
    )
    if exc is not None:
        check("exception", raised is exc)
    elif inner_exc:
        check("exception", type(raised) is type(make_exc(blk["inner"]["exc"])))
    else:
        check("exception", raised is None)
    check("caches", counter() > n0)
    if raised is not None:
        raise raised


def replay(sc, tmp):
    from modulegraph2 import saved_sys_path

    bad = []
    n = [0]
    orig_inv = importlib.invalidate_caches

    def inv():
        n[0] += 1
        return orig_inv()

    importlib.invalidate_caches = inv

    def check(what, c):
        if isinstance(c, tuple):
            c = c[0] == c[1]
        if not c:
            bad.append(what)

    keep = sys.path
    mine = list(sc["path"])
    try:
        sys.path = mine
        try:
            run_block(saved_sys_path, sys, sc["block"], check, lambda: n[0])
        except BaseException:
            pass
        after = list(sys.path)
    finally:
        sys.path = keep
    return bool(bad), f"{sorted(set(bad))} path {sc['path']} -> {after}"
