"""P24: saved_sys_path

Every search path up to the stated length with symbolic entries, every short
sequence of operations on sys.path in up to two nested blocks (entries symbolic)
and every way to leave the block: the same list object with the same entries is
restored, the exception passes on, caches are invalidated.
"""


from replay.p24 import EXCS, run_block
from sym.core import E, str_eq
from sym.runtime import SYS

from .run import Harness

TEXT = {
    "object": "sys.path is another list object after the block",
    "length": "sys.path has another number of entries after the block",
    "entries": "sys.path has other entries after the block",
    "exception": "the exception of the block is not passed on unchanged",
    "caches": "import caches were not invalidated",
}


class Block(Harness):
    sample_mod = 16
    replay = "p24"
    must_reach = ("normal", "exception", "nested", "rebind")

    def __init__(self, name, maxlen, nbefore, inner, nafter):
        self.name = name
        self.maxlen = maxlen
        self.nbefore = nbefore
        self.inner = inner
        self.nafter = nafter
        self.bounds = {
            "initial entries": f"0..{maxlen} unconstrained strings, equal or not",
            "block": "leaves sys.path in an arbitrary state: the same or another "
            f"list object with 0..{maxlen + 1} unconstrained entries, which may "
            "or may not be equal to the initial ones",
            "nesting": "a nested block with the same freedom" if inner else "none",
            "exceptions": EXCS,
        }
        if not inner:
            self.must_reach = ("normal", "exception", "rebind")

    def ops(self, E, n, what):
        out = []
        for i in range(n):
            rebind = E.choice(f"{what}_rebind", 2) == 1
            if rebind:
                E.reach("rebind")
            new = [E.sym_id("e") for _ in range(E.choice(f"{what}_len", self.maxlen + 2))]
            out.append([rebind, new])
        return out

    def run(self, E):
        from modulegraph2 import saved_sys_path

        path = [E.sym_id("p") for _ in range(E.choice("len", self.maxlen + 1))]
        SYS.reset(path)
        SYS.path = list(path)
        inner = None
        if self.inner:
            inner = {
                "before": self.ops(E, self.inner, "inner"),
                "inner": None,
                "after": [],
                "exc": E.pick("innerexc", EXCS),
            }
            E.reach("nested")
        blk = {
            "before": self.ops(E, self.nbefore, "before"),
            "inner": inner,
            "after": self.ops(E, self.nafter, "after"),
            "exc": E.pick("exc", EXCS),
        }
        E.scenario = lambda: {"path": path, "block": blk}
        E.reach("exception" if blk["exc"] else "normal")

        def check(what, c):
            if isinstance(c, tuple):
                c = str_eq(*c)
            E.check(c, TEXT[what])

        try:
            run_block(
                saved_sys_path,
                SYS,
                blk,
                check,
                lambda: E.locals.get("invalidated", 0),
            )
        except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit):
            pass


def harnesses(tier):
    if tier == "quick":
        return [Block("flat", 4, 1, 0, 0), Block("nested", 2, 1, 1, 1)]
    return [Block("flat", 8, 2, 0, 0), Block("nested", 4, 1, 1, 1)]
