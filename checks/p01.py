"""P01: the AST scanner

Every syntax tree up to the stated nesting depth and statement count, with the
kind of every statement, the part of the enclosing statement it is in and all
names symbolic: extract_ast_info reports exactly the imports in the tree with
exactly their flags. Expression nodes and statements beyond the bounds are not
covered.
"""

import ast

import z3

from sym import astmodel
from sym.astmodel import Compound, Leaf
from sym.containers import deep_eq, raw
from sym.core import E, mkbool, sand, snot, sor, str_eq, zbool

from .run import Harness

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
TRIES = (ast.Try, ast.TryStar)


def opt_eq(a, b):
    if a is None or b is None:
        return a is b
    return str_eq(a, b)


def pairs_eq(xs, ys):
    """equality of two sets of (name, asname) pairs"""

    def inside(p, qs):
        return sor(*[sand(str_eq(p[0], q[0]), opt_eq(p[1], q[1])) for q in qs])

    return sand(*[inside(x, ys) for x in xs], *[inside(y, xs) for y in ys])


def info_entry(info):
    return (
        str(info.import_module),
        info.import_module.asname,
        info.import_level,
        [(str(n), n.asname) for n in raw(info.import_names)],
        info.star_import,
        info.is_in_function,
        info.is_in_conditional,
        info.is_in_tryexcept,
    )


def entry_eq(a, b):
    return sand(
        str_eq(a[0], b[0]),
        opt_eq(a[1], b[1]),
        deep_eq(a[2], b[2]),
        pairs_eq(a[3], b[3]),
        *[deep_eq(x, y) for x, y in zip(a[4:], b[4:])],
    )


def count(entry, entries):
    return z3.Sum(
        [z3.If(zbool(entry_eq(entry, e)), 1, 0) for e in entries] + [z3.IntVal(0)]
    )


def check_entries(E, got, expected, what):
    E.check(
        len(got) == len(expected),
        f"{what}: {len(got)} imports reported instead of {len(expected)}",
    )
    for e in expected:
        n, m = count(e, got), count(e, expected)
        E.check(
            mkbool(z3.simplify(n == m)),
            f"{what}: an import is not reported with its own attributes",
        )


def tree_json(node):
    """nested lists describing the syntax tree for the counterexample"""
    if type(node) is Compound:
        k = _kind(node)
        return [
            k,
            [[_slot(v), tree_json(c)] for v, c in node._children],
        ]
    k = _kind(node)
    if k == "Import":
        return [k, node._alias(node)]
    if k == "ImportFrom":
        return [k, node._module, node._level, node._alias(node)]
    return [k]


class _Term:
    pass


def _ev(z):
    return E.model_for_text.eval(z, model_completion=True).as_long()


def _kind(node):
    return node._order[_ev(node._kind)].__name__


def _slot(v):
    return astmodel.SLOTS[_ev(v.z)]


def expected_for(E, leaf, chain):
    """chain: list of (compound, child index) from the root to the leaf"""
    in_def = sor(*[c.is_kind(*FUNCS) for c, _ in chain])
    in_if = sor(*[c.is_kind(ast.If) for c, _ in chain])
    in_try = sor(
        *[sand(c.is_kind(*TRIES), snot(c.slot_is(i, "finalbody"))) for c, i in chain]
    )
    flags = (in_def, in_if, in_try)
    if leaf.is_kind(ast.Import):
        return [(n, a, 0, [], False, *flags) for n, a in leaf._alias(leaf)]
    if leaf.is_kind(ast.ImportFrom):
        names = leaf._alias(leaf)
        star = any(n == "*" for n, _ in names)
        return [
            (
                leaf._module or "",
                None,
                leaf._level,
                [] if star else names,
                star,
                *flags,
            )
        ]
    return []


def leaves(node, chain=()):
    if type(node) is Leaf:
        yield node, list(chain)
    else:
        for i, (_, c) in enumerate(node._children):
            yield from leaves(c, list(chain) + [(node, i)])


class Scan(Harness):
    replay = "p01"

    def setup(self):
        astmodel.install()

    def build(self, E):
        raise NotImplementedError

    def run(self, E):
        from modulegraph2._ast_tools import extract_ast_info

        body = self.build(E)
        root = ast.Module(body=body, type_ignores=[])
        E.scenario = lambda: {"body": [tree_json(b) for b in body]}
        try:
            infos = list(extract_ast_info(root))
        except Exception as exc:
            E.fail(f"extract_ast_info raised {type(exc).__name__}: {exc}")
        expected = []
        for b in body:
            for leaf, chain in leaves(b):
                expected += expected_for(E, leaf, chain)
        check_entries(E, [info_entry(i) for i in infos], expected, "scan")
        for e in expected:
            E.reach("import")
            E.reach("star" if e[4] else "names")
        if len(expected) > 1:
            E.reach("several")


def simple_import(E, tag):
    n = E.sym_id(tag)
    m = E.sym_id(tag)
    f = E.sym_id(tag)

    def alias(leaf):
        if leaf.is_kind(ast.Import) if E.active else _kind(leaf) == "Import":
            return [(n, None)]
        return [(f, None)]

    return Leaf(tag, alias=alias, module=m, level=0)


class Chain(Scan):
    must_reach = ("import",)

    def __init__(self, depth):
        self.name = f"chain{depth}"
        self.depth = depth
        self.bounds = {
            "nesting": f"0..{depth} compound statements of any kind, import in any part",
            "statement": "any simple statement",
        }

    def build(self, E):
        d = E.choice("depth", self.depth + 1)
        leaf = simple_import(E, "leaf")
        node = leaf
        nodes = [Compound(f"c{i}") for i in range(d)]
        for c in nodes:
            c.add(node)
            node = c
        return [node]


class Bush(Scan):
    must_reach = ("import", "several")
    bounds = {
        "tree": "module{compound{stmt, compound{stmt}, [stmt]}, stmt}, compound "
        "statements of any kind, statements in any part, any simple statements"
    }

    def __init__(self, large):
        self.large = large
        self.name = "large-bush" if large else "bush"

    def build(self, E):
        a = Compound("a")
        b = Compound("b")
        if self.large:
            a.add(simple_import(E, "l1"))
        a.add(b)
        b.add(simple_import(E, "l2"))
        a.add(simple_import(E, "l3"))
        if self.large:
            return [a, simple_import(E, "l4")]
        return [a]


class Content(Scan):
    must_reach = ("import", "star", "names")

    def __init__(self, names, repeated):
        self.maxnames = names
        self.repeated = repeated
        self.name = "repeated" if repeated else "content"
        self.bounds = {
            "names": f"1..{names} per statement, with or without rename, "
            + ("possibly repeated" if repeated else "pairwise distinct in from-lists"),
            "module": "1 or 2 components or absent",
            "level": "any integer >= 0",
            "nesting": "0 or 1 compound statement of any kind",
        }
        if repeated:
            self.must_reach = ("import", "names")

    def build(self, E):
        kind = E.pick("kind", [ast.Import, ast.ImportFrom])
        n = 1 + E.choice("names", self.maxnames)
        names = []
        if kind is ast.ImportFrom and n == 1 and E.choice("star", 2):
            names = [("*", None)]
        else:
            for i in range(n):
                nm = E.sym_id("name")
                if kind is ast.Import and E.choice("dotted", 2):
                    nm += "." + E.sym_id("name")
                names.append((nm, E.sym_id("as") if E.choice("as", 2) else None))
            if kind is ast.ImportFrom and not self.repeated:
                for i in range(n):
                    for j in range(i):
                        E.assume(snot(str_eq(names[i][0], names[j][0])))
        module = None
        level = 0
        if kind is ast.ImportFrom:
            level = E.sym_int("level", 0, None)
            m = E.choice("module", 3)
            if m:
                module = ".".join(E.sym_id("mod") for _ in range(m))
            else:
                E.assume(level > 0)
        leaf = Leaf("leaf", [kind], alias=lambda _: names, module=module, level=level)
        if E.choice("nested", 2):
            c = Compound("c")
            c.add(leaf)
            return [c]
        return [leaf]

    def run(self, E):
        if not self.repeated:
            return super().run(E)
        from modulegraph2._ast_tools import extract_ast_info

        body = self.build(E)
        root = ast.Module(body=body, type_ignores=[])
        E.scenario = lambda: {"body": [tree_json(b) for b in body], "repeated": True}
        infos = [info_entry(i) for i in extract_ast_info(root)]
        expected = []
        for b in body:
            for leaf, chain in leaves(b):
                expected += expected_for(E, leaf, chain)
        # every (name, rename) pair is reported, in records that are otherwise equal

        def flat(es):
            return [
                (e[0], e[1], e[2], [p], *e[4:]) for e in es for p in (e[3] or [("", None)])
            ]

        E.reach("import")
        E.reach("names")
        fg, fe = flat(infos), flat(expected)
        for x in fe:
            E.check(
                sor(*[entry_eq(x, y) for y in fg]),
                "repeated: an imported name or rename is not reported",
            )
        for x in fg:
            E.check(
                sor(*[entry_eq(x, y) for y in fe]),
                "repeated: a name is reported that is not imported",
            )


def harnesses(tier):
    if tier == "quick":
        return [Chain(3), Bush(False), Content(2, False), Content(2, True)]
    return [
        Content(3, False),
        Content(3, True),
        Bush(False),
        Chain(4),
        Bush(True),
        Chain(5),
    ]
