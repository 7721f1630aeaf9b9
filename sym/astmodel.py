"""
Symbolic abstract syntax trees: the kind of a compound statement and the part
of it that holds each child are solver variables.
"""

import ast

import z3

from . import runtime
from .core import E, SymBool, SymInt, mkbool, sor

# kind -> names of the parts that hold statements; "handlers" and "cases" hold
# them by way of an ExceptHandler or match_case node.
KINDS = {
    ast.If: ("body", "orelse"),
    ast.FunctionDef: ("body",),
    ast.AsyncFunctionDef: ("body",),
    ast.ClassDef: ("body",),
    ast.For: ("body", "orelse"),
    ast.AsyncFor: ("body", "orelse"),
    ast.While: ("body", "orelse"),
    ast.With: ("body",),
    ast.AsyncWith: ("body",),
    ast.Try: ("body", "handlers", "orelse", "finalbody"),
    ast.TryStar: ("body", "handlers", "orelse", "finalbody"),
    ast.Match: ("cases",),
}
ORDER = list(KINDS)
INDEX = {k: i for i, k in enumerate(ORDER)}
SLOTS = ("body", "orelse", "handlers", "finalbody", "cases")
SLOT_INDEX = {s: i for i, s in enumerate(SLOTS)}

LEAVES = [ast.Import, ast.ImportFrom, ast.Pass, ast.Expr, ast.Assign, ast.Global]


def _name(n="x"):
    return ast.Name(id=n, ctx=ast.Load())


class SymStmt:
    """Common parts of symbolic statements"""

    lineno = 1
    col_offset = 0
    end_lineno = 1
    end_col_offset = 1

    def __sym_isinstance__(self, cls):
        if isinstance(cls, tuple):
            return sor(*[self.__sym_isinstance__(c) for c in cls])
        if not isinstance(cls, type):
            return isinstance(self._concrete(), cls)
        hit = [i for i, k in enumerate(self._order) if issubclass(k, cls)]
        if len(hit) == len(self._order):
            return True
        if not hit:
            return cls in (SymStmt, type(self), object)
        return mkbool(
            z3.simplify(z3.Or(*[self._kind == i for i in hit]))
        )

    @property
    def __class__(self):
        return self._order[self._fix()]

    def _fix(self):
        if self._fixed is None:
            self._fixed = E.concretise_int(self._kind)
        return self._fixed

    def _concrete(self):
        raise NotImplementedError

    @property
    def _fields(self):
        return self._order[self._fix()]._fields

    @property
    def _attributes(self):
        return ()

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_fixed",):
            raise AttributeError(name)
        return getattr(self._concrete(), name)


# the class of an instance is reported symbolically to native isinstance()
# and sv_isinstance uses type()


class Compound(SymStmt):
    def __init__(self, name, kinds=None):
        self._fixed = None
        self._order = ORDER
        v = E.sym_int(f"kind_{name}", 0, len(ORDER) - 1)
        self._kind = v.z
        if kinds is not None:
            E.assume_z(z3.Or(*[self._kind == INDEX[k] for k in kinds]))
        self._children = []  # (slot variable, stmt)
        self._node = None

    def add(self, child):
        v = E.sym_int("slot", 0, len(SLOTS) - 1)
        alts = []
        for k, slots in KINDS.items():
            alts.append(
                z3.And(
                    self._kind == INDEX[k],
                    z3.Or(*[v.z == SLOT_INDEX[s] for s in slots]),
                )
            )
        E.assume_z(z3.Or(*alts))
        self._children.append((v, child))
        return child

    def is_kind(self, *kinds):
        return mkbool(z3.simplify(z3.Or(*[self._kind == INDEX[k] for k in kinds])))

    def slot_is(self, i, slot):
        return mkbool(z3.simplify(self._children[i][0].z == SLOT_INDEX[slot]))

    def _child_nodes(self):
        """Direct children as ast.iter_child_nodes would report them"""
        out = []
        if self._fixed is not None:
            return list(_real_iter_child_nodes(self._concrete()))
        # an expression child (test, decorator, context manager, ...)
        out.append(ast.Constant(value=1))
        for v, c in self._children:
            wrapped = SymBool(
                z3.Or(
                    v.z == SLOT_INDEX["handlers"],
                    v.z == SLOT_INDEX["cases"],
                )
            )
            if wrapped:
                if SymBool(v.z == SLOT_INDEX["cases"]):
                    out.append(_case([c]))
                else:
                    out.append(_handler([c]))
            else:
                out.append(c)
        return out

    def _concrete(self):
        if self._node is not None:
            return self._node
        k = ORDER[self._fix()]
        parts = {s: [] for s in SLOTS}
        for v, c in self._children:
            parts[SLOTS[E.concretise_int(v.z)]].append(c)
        self._node = build(k, parts)
        return self._node


def _handler(body):
    return ast.ExceptHandler(type=_name("E"), name=None, body=body)


def _case(body):
    return ast.match_case(
        pattern=ast.MatchAs(pattern=None, name=None), guard=None, body=body
    )


def build(k, parts):
    """AST node of type *k*, *parts* maps the name of a part to statements"""
    body = parts.get("body") or [ast.Pass()]
    orelse = parts.get("orelse") or []
    if k is ast.If:
        return ast.If(test=_name(), body=body, orelse=orelse)
    if k in (ast.FunctionDef, ast.AsyncFunctionDef):
        return k(
            name="f",
            args=ast.arguments(
                posonlyargs=[],
                args=[ast.arg(arg="p", annotation=_name())],
                kwonlyargs=[],
                kw_defaults=[],
                defaults=[ast.Constant(value=2)],
            ),
            body=body,
            decorator_list=[_name("deco")],
            returns=_name(),
            type_params=[],
            lineno=1,
            col_offset=0,
        )
    if k is ast.ClassDef:
        return ast.ClassDef(
            name="C",
            bases=[_name("B")],
            keywords=[],
            body=body,
            decorator_list=[],
            type_params=[],
        )
    if k in (ast.For, ast.AsyncFor):
        return k(
            target=ast.Name(id="i", ctx=ast.Store()),
            iter=_name(),
            body=body,
            orelse=orelse,
            lineno=1,
        )
    if k is ast.While:
        return ast.While(test=_name(), body=body, orelse=orelse)
    if k in (ast.With, ast.AsyncWith):
        return k(
            items=[ast.withitem(context_expr=_name(), optional_vars=None)],
            body=body,
            lineno=1,
        )
    if k in (ast.Try, ast.TryStar):
        handlers = [_handler([c]) for c in parts.get("handlers", ())]
        final = parts.get("finalbody") or []
        if not handlers and (orelse or not final or k is ast.TryStar):
            handlers = [_handler([ast.Pass()])]
        return k(body=body, handlers=handlers, orelse=orelse, finalbody=final)
    if k is ast.Match:
        cases = [_case([c]) for c in parts.get("cases", ())] or [_case([ast.Pass()])]
        # only the last irrefutable pattern is accepted by the compiler
        for c in cases[:-1]:
            c.pattern = ast.MatchValue(value=ast.Constant(value=1))
        return ast.Match(subject=_name(), cases=cases)
    raise AssertionError(k)


class Leaf(SymStmt):
    """A simple statement: an import or something else"""

    def __init__(self, name, kinds=LEAVES, alias=None, module=None, level=None):
        self._fixed = None
        self._order = LEAVES
        v = E.sym_int(f"leaf_{name}", 0, len(LEAVES) - 1)
        self._kind = v.z
        E.assume_z(z3.Or(*[self._kind == LEAVES.index(k) for k in kinds]))
        self._alias = alias
        self._module = module
        self._level = level
        self._node = None

    def is_kind(self, *kinds):
        return mkbool(
            z3.simplify(z3.Or(*[self._kind == LEAVES.index(k) for k in kinds]))
        )

    @property
    def names(self):
        return [ast.alias(name=n, asname=a) for n, a in self._alias(self)]

    def _child_nodes(self):
        if self.is_kind(ast.Import, ast.ImportFrom):
            return self.names
        return []

    def _concrete(self):
        if self._node is None:
            k = LEAVES[self._fix()]
            if k is ast.Import:
                n = ast.Import(names=self.names)
            elif k is ast.ImportFrom:
                n = ast.ImportFrom(
                    module=self._module, names=self.names, level=self._level
                )
            elif k is ast.Pass:
                n = ast.Pass()
            elif k is ast.Expr:
                n = ast.Expr(value=_name("y"))
            elif k is ast.Assign:
                n = ast.Assign(
                    targets=[ast.Name(id="z", ctx=ast.Store())],
                    value=ast.Constant(value=1),
                    lineno=1,
                )
            else:
                n = ast.Global(names=["g"])
            self._node = n
        return self._node


_real_iter_child_nodes = ast.iter_child_nodes


def iter_child_nodes(node):
    if isinstance_sym(node):
        return iter(node._child_nodes())
    out = []
    for _, field in ast.iter_fields(node):
        if type(field) is list:
            for x in field:
                if isinstance_sym(x) or isinstance(x, ast.AST):
                    out.append(x)
        elif isinstance_sym(field) or isinstance(field, ast.AST):
            out.append(field)
    return iter(out)


def isinstance_sym(x):
    return type(x) in (Compound, Leaf)


def walk(node):
    todo = [node]
    while todo:
        n = todo.pop(0)
        todo.extend(iter_child_nodes(n))
        yield n


def install():
    runtime.MODELS[ast.iter_child_nodes] = iter_child_nodes
    runtime.MODELS[ast.walk] = walk
