"""
Code objects whose tables are of arbitrary size: real code objects of compiled
programs, with symbolic indexes of constants and names.

The compiler chooses indexes for the constants and names of a code object, and
instructions use them through a byte of operand and EXTENDED_ARG prefixes for the
higher bytes. Everything else of the instruction sequence does not depend on them.
A Code wraps a real code object; each entry of its tables has a symbolic index
(distinct within the table), and its instructions have symbolic operands and as
many prefixes as the value of the operand needs.
"""

import dis
import types

import z3

from .core import E, SymBool, SymInt, mkbool
from .runtime import MODELS

CONST_OPS = ("LOAD_CONST", "RETURN_CONST", "KW_NAMES")
LIMIT = 1 << 23
SHIFTED = {"LOAD_GLOBAL": 1, "LOAD_ATTR": 1, "LOAD_SUPER_ATTR": 2}


class Table:
    """A table of which some entries are known"""

    def __init__(self, values, zs):
        self.values = list(values)
        self.zs = zs

    def __getitem__(self, i):
        if type(i) is SymInt:
            for v, z in zip(self.values, self.zs):
                if E.branch(mkbool(z3.simplify(i.z == z))):
                    return v
            raise IndexError("tuple index out of range")
        raise AssertionError(f"index {i!r} of a table of a code object")

    def __iter__(self):
        return iter(self.values)

    def __contains__(self, x):
        from .runtime import contains

        return contains(x, self.values)


class Code:
    def __init__(self, real, ctx):
        self._real = real
        self._ctx = ctx
        no = len(ctx.codes)
        ctx.codes[real] = self
        consts = [
            ctx.wrap(c) if isinstance(c, types.CodeType) else c for c in real.co_consts
        ]
        self.co_consts = Table(consts, ctx.indexes(f"c{no}_", len(consts)))
        self.co_names = Table(real.co_names, ctx.indexes(f"n{no}_", len(real.co_names)))

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __sym_isinstance__(self, cls):
        return issubclass(types.CodeType, cls)

    def table(self, inst):
        """(zs, index in the real tables, value of the operand as a function)"""
        if inst.opcode in dis.hasconst:
            return self.co_consts, inst.arg, lambda z: z
        if inst.opcode in dis.hasname:
            s = SHIFTED.get(inst.opname, 0)
            low = inst.arg & ((1 << s) - 1)
            return self.co_names, inst.arg >> s, lambda z: z * (1 << s) + low
        return None

    def instructions(self):
        for inst in dis.get_instructions(self._real):
            t = self.table(inst)
            if t is None:
                yield inst
                continue
            table, k, f = t
            z = z3.simplify(f(table.zs[k]))
            n = self._ctx.prefixes(z)
            for p in range(n):
                yield inst._replace(
                    opname="EXTENDED_ARG", opcode=dis.EXTENDED_ARG, argrepr="",
                    arg=SymInt(z / z3.IntVal(1 << 8 * (n - p))), argval=None,
                )
            value = table.values[k]
            yield inst._replace(
                arg=SymInt(z), argval=value if inst.opcode in (*dis.hasconst, *dis.hasname) else None
            )

    def scenario(self):
        """[indexes of constants, indexes of names, codes in the constants]"""
        return [
            [SymInt(z) for z in self.co_consts.zs],
            [SymInt(z) for z in self.co_names.zs],
            {str(k): v.scenario() for k, v in enumerate(self.co_consts.values) if isinstance(v, Code)},
        ]


class Context:
    """budget: the number of operands that may need prefixes"""

    def __init__(self, budget):
        self.codes = {}
        self.budget = budget
        self.known = {}

    def wrap(self, real):
        c = self.codes.get(real)
        return c if c is not None else Code(real, self)

    def indexes(self, tag, n):
        zs = []
        for k in range(n):
            z = E.sym_int(f"{tag}{k}", 0, LIMIT - 1).z
            for other in zs:
                E.assume(SymBool(z != other))
            zs.append(z)
        return zs

    def prefixes(self, z):
        key = z.get_id()
        if key in self.known:
            return self.known[key][0]
        n = 0
        if self.budget:
            n = 0 if E.branch(mkbool(z < 256)) else 1 if E.branch(mkbool(z < 65536)) else 2
            if n:
                self.budget -= 1
        else:
            E.assume(mkbool(z < 256))
        self.known[key] = (n, z)
        return n


def get_instructions(code, *args, **kwds):
    if isinstance(code, Code):
        return code.instructions()
    return NotImplemented


MODELS[dis.get_instructions] = get_instructions
MODELS[dis.Bytecode] = get_instructions
