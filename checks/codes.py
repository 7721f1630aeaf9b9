"""Harnesses for the scan of bytecode"""

from sym import codemodel
from sym.core import E, snot, str_eq

from .run import Harness


class Codes(Harness):
    replay = "code"
    sample_mod = 64
    what = "imports"

    def setup(self):
        import oracle.code  # noqa

    def execute(self, E, body, budget, pool=()):
        import oracle.code as o

        real = compile(o.render(body), "zz", "exec", dont_inherit=True)
        ctx = codemodel.Context(budget)
        code = ctx.wrap(real)
        sc = {"what": self.what, "body": body, "pool": list(pool)}
        E.scenario = lambda: {**sc, "tables": code.scenario()}
        try:
            msg = o.run(sc, code, E.reach)
        except Exception as exc:
            E.fail(f"raised {type(exc).__name__}: {exc}")
        E.check(msg is None, msg)

    def signature(self, v):
        return " ".join(v["message"].split(" ")[:1])


class Imports(Codes):
    """Imports in nested scopes"""

    def __init__(self, name, n, forms, scopes, depth, budget, flows=(), siblings=True):
        self.name = name
        self.o = (n, forms, scopes, depth, budget, flows, siblings)
        self.bounds = {
            "imports": f"at most {n} of {forms}",
            "scopes": f"{scopes} nested up to {depth} deep",
            "statements": flows,
            "indexes": f"any, up to {budget} operands of 256 or more (less than {codemodel.LIMIT})",
        }

    def run(self, E):
        n, forms, scopes, depth, budget, flows, siblings = self.o
        left = [n, 2 * depth + 1]

        def name():
            return E.sym_id("n")

        def dotted(k):
            return ".".join(name() for _ in range(k))

        def statement(star):
            f = E.pick("form", forms)
            if f[0] == "import":
                return ["import", [[dotted(f[1]), name() if f[3] else None] for _ in range(f[2])]]
            if f[0] == "star":
                E.assume(star)
                return ["from", f[1], dotted(f[2]), [], True]
            return ["from", f[1], dotted(f[2]), [[name(), name() if f[4] else None] for _ in range(f[3])], False]

        def block(depth, star):
            out = []
            while left[0] and E.choice("more", 2):
                out.append(item(depth, star))
                if not siblings:
                    break
            return out

        def item(depth, star):
            k = E.choice("item", 1 + (len(scopes) + len(flows) if depth else 0))
            if k == 0:
                left[0] -= 1
                return statement(star)
            left[1] -= 1
            E.assume(left[1] >= 0)
            if k <= len(scopes):
                return ["scope", scopes[k - 1], f"zz_{k}", block(depth - 1, False)]
            return ["flow", flows[k - 1 - len(scopes)], block(depth - 1, star)]

        body = block(depth, True)
        self.execute(E, body, budget)


# names used by code the compiler adds
IMPLICIT = ("__annotations__", "__name__", "__build_class__")


class Names(Codes):
    """Global names in nested scopes"""

    what = "names"

    def __init__(self, name, n, binds, reads, scopes, depth, budget=0, flows=(), pool=2, special=False, nscopes=1):
        self.name = name
        self.o = (n, binds, reads, scopes, depth, budget, flows, pool, special, nscopes)
        self.bounds = {
            "statements": f"at most {n}, binding names by any of {binds}, reading by any of {reads}, or global",
            "scopes": f"at most {nscopes}, any of {scopes} nested up to {depth} deep",
            "flow": flows,
            "names": f"up to {pool}, each used any number of times, other than __annotations__ and __name__" + (", __file__ or __import__" if special else ""),
            "indexes": f"any, up to {budget} operands of 256 or more (less than {codemodel.LIMIT})",
        }

    def run(self, E):
        n, binds, reads, scopes, depth, budget, flows, npool, special, nscopes = self.o
        left = [n, nscopes]
        pool = []
        used = []

        def name():
            k = E.choice("name", min(len(pool) + 1, npool))
            if k == len(pool):
                kinds = 3 if special else 1
                c = E.choice("special", kinds)
                nm = E.sym_id("n") if c == 0 else ("__file__", "__import__")[c - 1]
                for other in pool + [*IMPLICIT]:
                    E.assume(snot(str_eq(nm, other)))
                pool.append(nm)
            return pool[k]

        def block(depth, where):
            out = []
            while left[0] + left[1] > 0 and E.choice("more", 2):
                out.append(item(depth, where))
            # declarations come first
            return [s for s in out if s[0] == "global"] + [s for s in out if s[0] != "global"]

        def item(depth, where):
            nb, nr = len(binds), len(reads)
            k = E.choice("item", nb + nr + 1 + (len(scopes) + len(flows) if depth else 0))
            if k >= nb + nr + 1:
                E.assume(left[1] > 0)
                left[1] -= 1
                k -= nb + nr + 1
                if k < len(scopes):
                    kind = scopes[k]
                    return ["scope", kind, name(), block(depth - 1, kind)]
                return ["flow", flows[k - len(scopes)], block(depth - 1, None)]
            E.assume(left[0] > 0)
            left[0] -= 1
            if k < nb:
                return ["bind", binds[k], name()]
            if k < nb + nr:
                return ["read", reads[k - nb], name()]
            E.assume(where not in (None, "module"))
            return ["global", name()]

        body = block(depth, "module")
        used[:] = pool
        import oracle.code as o

        try:
            compile(o.render(body), "zz", "exec", dont_inherit=True)
        except SyntaxError:
            # such as a name that is annotated and global
            E.assume(False)
        self.execute(E, body, budget, pool)
