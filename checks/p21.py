"""P21: split_package

Every string up to the stated length, all characters symbolic, and values of
other types: split_package returns parts that rejoin, or raises exactly the
documented exception.
"""

from sym.core import E, char_eq, sand, simplies, snot, sor, str_eq

from .run import Harness

OTHER = [None, 3, 2.5, b"a.b", ["a", "b"], ("a",), {"a": 1}, object, True]


def all_dots(s):
    return sand(len(s) > 0, *[char_eq(c, ".") for c in s])


def any_dot(s):
    return sor(*[char_eq(c, ".") for c in s])


def valid_name(s):
    """non-empty components after any number of leading dots"""
    n = len(s)
    if n == 0:
        return False
    out = [snot(char_eq(s[-1], "."))]
    for i in range(1, n):
        both = sand(char_eq(s[i - 1], "."), char_eq(s[i], "."))
        out.append(simplies(both, all_dots(s[: i + 1])))
    return sand(*out)


class Strings(Harness):
    name = "strings"
    replay = "p21"
    must_reach = ("ok", "toplevel", "relative", "rejected")

    def __init__(self, n):
        self.n = n
        self.bounds = {
            "length": f"0..{n} characters",
            "characters": "any code point except NUL and surrogates",
        }

    def run(self, E):
        from modulegraph2._utilities import split_package

        n = E.choice("length", self.n + 1)
        s = "".join(E.sym_char(f"c{i}") for i in range(n))
        E.scenario = lambda: {"value": s}
        ok = valid_name(s)
        try:
            r = split_package(s)
        except ValueError:
            E.reach("rejected")
            E.check(snot(ok), "a valid name was rejected with ValueError")
            return
        except Exception as exc:
            E.fail(f"split_package raised {type(exc).__name__}")
        E.check(ok, "an invalid name was accepted")
        E.check(
            isinstance(r, tuple) and len(r) == 2, "result is not a (package, name) pair"
        )
        pkg, name = r
        E.check(isinstance(name, str) and len(name) > 0, "the name part is empty")
        E.check(snot(any_dot(name)), "the name part contains a dot")
        if pkg is None:
            E.reach("toplevel")
            E.check(str_eq(name, s), "parts do not rejoin")
        else:
            E.reach("ok")
            E.check(isinstance(pkg, str) and len(pkg) > 0, "empty package")
            ad = all_dots(pkg)
            E.check(
                sor(
                    sand(ad, str_eq(pkg + name, s)),
                    sand(snot(ad), str_eq(pkg + "." + name, s)),
                ),
                "parts do not rejoin",
            )
            if ad:
                E.reach("relative")
        E.check(
            snot(any_dot(s)) if pkg is None else any_dot(s),
            "package is absent iff the name is top-level",
        )


class Types(Harness):
    name = "types"
    replay = "p21"
    bounds = {"values": "one representative of nine non-string types"}
    must_reach = ("typeerror",)

    def run(self, E):
        from modulegraph2._utilities import split_package

        i = E.choice("type", len(OTHER))
        E.scenario = lambda: {"other": i}
        try:
            split_package(OTHER[i])
        except TypeError:
            E.reach("typeerror")
        except Exception as exc:
            E.fail(f"raised {type(exc).__name__} for a non-string")
        else:
            E.fail("non-string accepted")


def harnesses(tier):
    return [Strings(8 if tier == "quick" else 11), Types()]
