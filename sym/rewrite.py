"""
Loader that instruments the current sources of /repo (and objectgraph): calls,
comparisons, container displays and `sys` are routed through runtime.py.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import runtime

REPO = os.environ.get("VERIF_REPO", "/repo")
OBJECTGRAPH = "/opt/venv/lib/python3.12/site-packages"

OPNAME = {
    ast.Eq: "==",
    ast.NotEq: "!=",
    ast.Lt: "<",
    ast.LtE: "<=",
    ast.Gt: ">",
    ast.GtE: ">=",
    ast.In: "in",
    ast.NotIn: "not in",
    ast.Is: "is",
    ast.IsNot: "is not",
}
OPFUNC = {
    "==": "eq",
    "!=": "ne",
    "<": "lt",
    "<=": "le",
    ">": "gt",
    ">=": "ge",
    "in": "contains",
    "not in": "not_contains",
}
NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}
TYPE_NAMES = {"set", "dict", "frozenset"}


def sv(name):
    return ast.Attribute(
        value=ast.Name(id="SV_rt", ctx=ast.Load()), attr=name, ctx=ast.Load()
    )


def svcall(name, *args):
    return ast.Call(func=sv(name), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.no_names = 0

    # functions: coverage, no rewriting of annotations
    def _function(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [
            self.visit(d) if d is not None else None for d in node.args.kw_defaults
        ]
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        doc = []
        if (
            body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
        ):
            doc = [body.pop(0)]
        qual = f"{self.modname}.{'.'.join(self.stack)}"
        cov = ast.Expr(
            ast.Call(
                func=ast.Name(id="SV_cov", ctx=ast.Load()),
                args=[ast.Constant(qual)],
                keywords=[],
            )
        )
        node.body = doc + [cov] + body
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in TYPE_NAMES:
                bases.append(svcall("namemap", ast.Constant(b.id)))
            else:
                bases.append(b)
        node.bases = bases
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for st in node.body:
            r = self.visit(st)
            if isinstance(r, list):
                body.extend(r)
            elif r is not None:
                body.append(r)
        node.body = body
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _const_part(self, node):
        """(lo, hi) for parts of strings given by constants, (i,) for an index"""

        def const(x):
            if x is None:
                return True, None
            if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
                ok, v = const(x.operand)
                return ok and v is not None, -v if v is not None else None
            if isinstance(x, ast.Constant) and type(x.value) is int:
                return True, x.value
            return False, None

        if not isinstance(node, ast.Subscript) or not isinstance(node.ctx, ast.Load):
            return None
        if isinstance(node.slice, ast.Slice):
            if node.slice.step is not None:
                return None
            (ok1, lo), (ok2, hi) = const(node.slice.lower), const(node.slice.upper)
            if ok1 and ok2 and not (lo is None and hi is None):
                return (lo, hi)
            return None
        ok, i = const(node.slice)
        return (i,) if ok else None

    def visit_Subscript(self, node):
        part = self._const_part(node)
        self.generic_visit(node)
        if part is None:
            return node
        return ast.copy_location(
            svcall("part", node.value, *[ast.Constant(x) for x in part]), node
        )

    def visit_Compare(self, node):
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            part = self._const_part(node.left)
            other = node.comparators[0]
            if (
                part is not None
                and isinstance(other, ast.Constant)
                and isinstance(other.value, str)
            ):
                new = svcall(
                    "part_eq",
                    self.visit(node.left.value),
                    other,
                    *[ast.Constant(x) for x in part],
                )
                if isinstance(node.ops[0], ast.NotEq):
                    new = svcall("not_", new)
                return ast.copy_location(new, node)
        self.generic_visit(node)
        names = [OPNAME[type(o)] for o in node.ops]
        if len(names) == 1:
            if names[0] in ("is", "is not"):
                return node
            return ast.copy_location(
                svcall(OPFUNC[names[0]], node.left, node.comparators[0]), node
            )
        thunks = [
            ast.Lambda(
                args=ast.arguments(
                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
                ),
                body=c,
            )
            for c in node.comparators
        ]
        return ast.copy_location(
            svcall(
                "chain",
                ast.Tuple([ast.Constant(n) for n in names], ast.Load()),
                node.left,
                *thunks,
            ),
            node,
        )

    def visit_match_case(self, node):
        """string constants in patterns become captures with guards"""
        guards = []
        visitor = self

        class Pat(ast.NodeTransformer):
            def _guarded(self, node, values):
                visitor.captures = getattr(visitor, "captures", 0) + 1
                name = f"SV_m{visitor.captures}"
                guards.append(
                    svcall(
                        "contains",
                        ast.Name(name, ast.Load()),
                        ast.Tuple([ast.Constant(v) for v in values], ast.Load()),
                    )
                )
                return ast.copy_location(ast.MatchAs(None, name), node)

            def visit_MatchValue(self, node):
                v = node.value
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    return self._guarded(node, [v.value])
                return node

            def visit_MatchOr(self, node):
                vs = [
                    p.value.value
                    if isinstance(p, ast.MatchValue)
                    and isinstance(p.value, ast.Constant)
                    else None
                    for p in node.patterns
                ]
                if all(isinstance(v, str) for v in vs):
                    return self._guarded(node, vs)
                return node

            def visit_MatchAs(self, node):
                if node.pattern is not None and node.name is not None:
                    inner = self.visit(node.pattern)
                    if isinstance(inner, ast.MatchAs) and inner.pattern is None:
                        # "x" as name
                        guards[-1].args[0] = ast.Name(node.name, ast.Load())
                        inner.name = node.name
                        return inner
                    node.pattern = inner
                return node

        node.pattern = Pat().visit(node.pattern)
        guard = self.visit(node.guard) if node.guard is not None else None
        tests = guards + ([guard] if guard is not None else [])
        if tests:
            node.guard = tests[0] if len(tests) == 1 else ast.BoolOp(ast.And(), tests)
        node.body = [y for x in node.body for y in self._many(self.visit(x))]
        ast.fix_missing_locations(node)
        return node

    @staticmethod
    def _many(x):
        return x if isinstance(x, list) else [] if x is None else [x]

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(svcall("not_", node.operand), node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        # attribute chains without side effects are merged into one formula
        if isinstance(node.op, ast.Or) and all(self._simple(v) for v in node.values):
            return ast.copy_location(svcall("or_all_lazy", *node.values), node)
        return node

    def _simple(self, node):
        if not isinstance(node, ast.Attribute):
            return False
        while isinstance(node, ast.Attribute):
            if not node.attr.startswith(("is_", "in_")):
                return False
            node = node.value
            if isinstance(node, ast.Name):
                return True
        return False

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(svcall("mkset", *node.elts), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            svcall("mkset_it", ast.GeneratorExp(node.elt, node.generators)), node
        )

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(
                ast.Tuple([k if k is not None else sv("STAR"), v], ast.Load())
            )
        return ast.copy_location(
            svcall("mkdict", ast.Tuple(pairs, ast.Load())), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            svcall(
                "mkdict_it",
                ast.GeneratorExp(
                    ast.Tuple([node.key, node.value], ast.Load()), node.generators
                ),
            ),
            node,
        )

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        plain = isinstance(f, ast.Name) and f.id in (
            "isinstance",
            "issubclass",
            "cast",
            "TypeVar",
        )
        args = []
        for a in node.args:
            if isinstance(a, ast.Name) and a.id in TYPE_NAMES and not plain:
                args.append(svcall("namemap", ast.Constant(a.id)))
            else:
                args.append(self.visit(a))
        kws = []
        for k in node.keywords:
            v = k.value
            if isinstance(v, ast.Name) and v.id in TYPE_NAMES and not plain:
                v = svcall("namemap", ast.Constant(v.id))
            else:
                v = self.visit(v)
            kws.append(ast.keyword(k.arg, v))
        if isinstance(f, ast.Attribute):
            # super().method(...) and friends keep their form
            new = ast.Call(
                func=sv("mcall"),
                args=[self.visit(f.value), ast.Constant(f.attr)] + args,
                keywords=kws,
            )
        else:
            new = ast.Call(func=sv("call"), args=[self.visit(f)] + args, keywords=kws)
        return ast.copy_location(new, node)

    def visit_Import(self, node):
        out = [node]
        for nm in node.names:
            if nm.name in runtime.PROXIES:
                target = nm.asname or nm.name
                out.append(
                    ast.Assign(
                        targets=[ast.Name(id=target, ctx=ast.Store())],
                        value=svcall(
                            "get_module",
                            ast.Constant(nm.name),
                            ast.Name(id=target, ctx=ast.Load()),
                        ),
                    )
                )
        return out if len(out) > 1 else node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in runtime.PROXIES:
            out = []
            for nm in node.names:
                out.append(
                    ast.Assign(
                        targets=[ast.Name(id=nm.asname or nm.name, ctx=ast.Store())],
                        value=ast.Attribute(
                            value=svcall(
                                "get_module",
                                ast.Constant(node.module),
                                ast.Constant(None),
                            ),
                            attr=nm.name,
                            ctx=ast.Load(),
                        ),
                    )
                )
            return out
        return node


def or_all_lazy(*vals):
    return runtime.or_all(*vals)


runtime.or_all_lazy = or_all_lazy


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        return instrument(importlib.util.decode_source(data), path, self.name)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["SV_rt"] = runtime
        module.__dict__["SV_cov"] = runtime.cov
        super().exec_module(module)


VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = {"modulegraph2": REPO, "objectgraph": OBJECTGRAPH, "oracle": VERIF}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        top = fullname.partition(".")[0]
        if top not in ROOTS:
            return None
        base = os.path.join(ROOTS[top], *fullname.split("."))
        if os.path.isdir(base):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname,
                fn,
                loader=Loader(fullname, fn),
                submodule_search_locations=[base],
            )
        fn = base + ".py"
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=Loader(fullname, fn)
            )
        return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    # dispatchers, before the code under test can bind the originals
    from . import libmodels, world_hooks  # noqa: F401

    world_hooks.install()
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True


# ------------------------------------------------------- module level state

_snapshot = None


def _copy(v):
    import copy

    if isinstance(v, (runtime.SymDict, dict)):
        return ("d", list(v.items()))
    if isinstance(v, list):
        return ("l", list(v))
    if isinstance(v, runtime.SymSet):
        return ("s", v.raw_items())
    if isinstance(v, set):
        return ("s", list(v))
    return copy.copy(v)


def snapshot():
    """Remember the module level state of the code under test."""
    global _snapshot
    _snapshot = []
    for name, mod in list(sys.modules.items()):
        if name.partition(".")[0] not in ROOTS:
            continue
        spaces = [mod.__dict__]
        for v in list(mod.__dict__.values()):
            if isinstance(v, type) and v.__module__ == name:
                spaces.append(v)
        for sp in spaces:
            d = sp if isinstance(sp, dict) else vars(sp)
            for k, v in list(d.items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, (dict, list, set)):
                    _snapshot.append((sp, k, v, _copy(v)))
                elif isinstance(sp, dict) and (
                    v is None or isinstance(v, (str, int, bool, float, tuple))
                ):
                    _snapshot.append((sp, k, v, None))


def reset():
    """Restore the module level state, called before every path."""
    for sp, k, v, c in _snapshot or ():
        if isinstance(sp, dict):
            if sp.get(k) is not v:
                sp[k] = v
        if c is None:
            continue
        kind, items = c
        if kind == "d":
            if len(v) != len(items):
                v.clear()
                for a, b in items:
                    v[a] = b
        elif kind == "l":
            v[:] = items
        else:
            if type(v) is runtime.SymSet:
                v._init(items)
            else:
                v.clear()
                v.update(items)
