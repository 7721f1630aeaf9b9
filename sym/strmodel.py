"""
Symbolic models of str methods.

Two kinds of symbolic content occur in strings (see core.py): identifier
tokens, for which only whole components (between dots) are compared, and
character tokens, for which every search forks on the values of characters.
"""

import z3

from .core import (
    CH_HI,
    CH_LO,
    E,
    pred_cat_axiom,
    ID_HI,
    ID_LO,
    SymBool,
    ch_z,
    char_eq,
    has_char,
    has_id,
    id_z,
    mkbool,
    sand,
    snot,
    sor,
    str_eq,
    str_lt,
    _eq_comp,
    _split_atoms,
)

# ---------------------------------------------------------------- characters


def match_at(s, sub, i):
    if i < 0 or i + len(sub) > len(s):
        return False
    out = []
    for k, c in enumerate(sub):
        r = char_eq(s[i + k], c)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return sand(*out)


def b(c):
    return bool(c)


def find(s, sub, start=0, end=None):
    n = len(s) if end is None else min(end, len(s))
    for i in range(start, n - len(sub) + 1):
        if b(match_at(s, sub, i)):
            return i
    return -1


def rfind(s, sub, start=0, end=None):
    n = len(s) if end is None else min(end, len(s))
    for i in range(n - len(sub), start - 1, -1):
        if b(match_at(s, sub, i)):
            return i
    return -1


def char_in(c, chars):
    return sor(*[char_eq(c, x) for x in chars])


WHITESPACE = [
    0x9, 0xA, 0xB, 0xC, 0xD, 0x1C, 0x1D, 0x1E, 0x1F, 0x20, 0x85, 0xA0, 0x1680,
    *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000,
]  # fmt: skip
LINEBREAKS = [0xA, 0xB, 0xC, 0xD, 0x1C, 0x1D, 0x1E, 0x85, 0x2028, 0x2029]


def is_tok(c):
    return CH_LO <= ord(c) <= CH_HI


def is_space(c):
    if not is_tok(c):
        return c.isspace()
    z = ch_z(c)
    return SymBool(z3.Or(*[z == w for w in WHITESPACE]))


def _stripset(chars):
    if chars is None:
        return is_space
    return lambda c: char_in(c, chars)


def lstrip(s, chars=None):
    f = _stripset(chars)
    i = 0
    while i < len(s) and b(f(s[i])):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    f = _stripset(chars)
    i = len(s)
    while i > 0 and b(f(s[i - 1])):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def partition(s, sep):
    i = find(s, sep)
    if i < 0:
        return (str(s), "", "")
    return s[:i], s[i : i + len(sep)], s[i + len(sep) :]


def rpartition(s, sep):
    i = rfind(s, sep)
    if i < 0:
        return ("", "", str(s))
    return s[:i], s[i : i + len(sep)], s[i + len(sep) :]


def split(s, sep=None, maxsplit=-1):
    if sep is None:
        out = []
        cur = ""
        i = 0
        n = len(s)
        while i < n:
            if b(is_space(s[i])):
                if cur:
                    out.append(cur)
                    cur = ""
            else:
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(rstrip(s[i:]))
                    return out
                cur += s[i]
            i += 1
        if cur:
            out.append(cur)
        return out
    if not sep:
        raise ValueError("empty separator")
    out = []
    pos = 0
    while maxsplit < 0 or len(out) < maxsplit:
        i = find(s, sep, pos)
        if i < 0:
            break
        out.append(s[pos:i])
        pos = i + len(sep)
    out.append(s[pos:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if sep is None:
        return [x[::-1] for x in split(s[::-1], None, maxsplit)][::-1]
    if not sep:
        raise ValueError("empty separator")
    out = []
    end = len(s)
    while maxsplit < 0 or len(out) < maxsplit:
        i = rfind(s, sep, 0, end)
        if i < 0:
            break
        out.insert(0, s[i + len(sep) : end])
        end = i
    out.insert(0, s[:end])
    return out


def splitlines(s, keepends=False):
    out = []
    cur = ""
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if is_tok(c):
            z = ch_z(c)
            nl = SymBool(z3.Or(*[z == w for w in LINEBREAKS]))
        else:
            nl = ord(c) in LINEBREAKS
        if b(nl):
            j = i + 1
            if j < n and b(sand(char_eq(c, "\r"), char_eq(s[j], "\n"))):
                j += 1
            out.append(cur + (s[i:j] if keepends else ""))
            cur = ""
            i = j
        else:
            cur += c
            i += 1
    if cur:
        out.append(cur)
    return out


def replace(s, old, new, count=-1):
    if not old:
        raise NotImplementedError
    out = ""
    pos = 0
    n = 0
    while count < 0 or n < count:
        i = find(s, old, pos)
        if i < 0:
            break
        out += s[pos:i] + new
        pos = i + len(old)
        n += 1
    return out + s[pos:]


def startswith(s, p, start=0, end=None):
    if start or end is not None:
        s = s[start:end]
    if isinstance(p, tuple):
        return sor(*[startswith(s, x) for x in p])
    return match_at(s, p, 0)


def endswith(s, p, start=0, end=None):
    if start or end is not None:
        s = s[start:end]
    if isinstance(p, tuple):
        return sor(*[endswith(s, x) for x in p])
    return match_at(s, p, len(s) - len(p))


def removeprefix(s, p):
    return s[len(p) :] if b(startswith(s, p)) else str(s)


def removesuffix(s, p):
    return s[: len(s) - len(p)] if p and b(endswith(s, p)) else str(s)


def count(s, sub):
    if not sub:
        return len(s) + 1
    n = 0
    pos = 0
    while True:
        i = find(s, sub, pos)
        if i < 0:
            return n
        n += 1
        pos = i + len(sub)


def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def rindex(s, sub, *a):
    i = rfind(s, sub, *a)
    if i < 0:
        raise ValueError("substring not found")
    return i


def _ascii_class(lo_hi):
    def f(c):
        z = ch_z(c)
        return SymBool(z3.Or(*[z3.And(z >= lo, z <= hi) for lo, hi in lo_hi]))

    return f


def isdigit(s):
    f = _ascii_class([(48, 57)])
    return bool(s) and sand(*[f(c) if is_tok(c) else c.isdigit() for c in s])


def isidentifier(s):
    """exact for ASCII, other characters count as letters"""
    if not s:
        return False
    first = _ascii_class([(65, 90), (95, 95), (97, 122), (128, 0x10FFFF)])
    rest = _ascii_class([(48, 57), (65, 90), (95, 95), (97, 122), (128, 0x10FFFF)])
    out = []
    for i, c in enumerate(s):
        if is_tok(c):
            out.append((rest if i else first)(c))
        elif not ("a" + c if i else c).isidentifier():
            return False
    return sand(*out)


def isascii(s):
    return sand(*[mkbool(ch_z(c) < 128) if is_tok(c) else c.isascii() for c in s])


def isspace(s):
    return bool(s) and sand(*[is_space(c) for c in s])


def _case(s, lo, hi, delta):
    out = ""
    for c in s:
        if is_tok(c):
            z = ch_z(c)
            if b(SymBool(z3.And(z >= lo, z <= hi))):
                out += chr_of(z + delta)
            else:
                out += c
        else:
            out += c.lower() if delta > 0 else c.upper()
    return out


def chr_of(z):
    tok = E.sym_char("derived")
    E.assume_z(ch_z(tok) == z)
    return tok


def lower(s):
    return _case(s, 65, 90, 32)


def upper(s):
    return _case(s, 97, 122, -32)


def translate(s, table):
    out = ""
    keys = [k for k in table]
    for c in s:
        if is_tok(c):
            for k in keys:
                if b(mkbool(z3.simplify(ch_z(c) == k))):
                    v = table[k]
                    out += "" if v is None else (chr(v) if isinstance(v, int) else v)
                    break
            else:
                out += c
        else:
            v = table[ord(c)] if ord(c) in table else c
            out += "" if v is None else (chr(v) if isinstance(v, int) else v)
    return out


CHAR_METHODS = {
    f.__name__: f
    for f in (
        find, rfind, index, rindex, lstrip, rstrip, strip, partition, rpartition,
        split, rsplit, splitlines, replace, startswith, endswith, removeprefix,
        removesuffix, count, isdigit, isidentifier, isascii, isspace, lower,
        upper, translate,
    )
}  # fmt: skip


# --------------------------------------------------------------- identifiers


def id_pred(op, const, tok):
    """Uninterpreted predicate: identifier *tok* starts/ends with/contains const"""
    f = z3.Function(f"P_{op}_{const}", z3.IntSort(), z3.BoolSort())
    preds = E.locals.setdefault("preds", {})
    fns = {
        "startswith": str.startswith,
        "endswith": str.endswith,
        "contains": str.__contains__,
    }
    key = (op, const)
    if key not in preds:
        preds[key] = set()
        for text, v in list(E.const_ids.items()):
            E.solver.add(f(z3.IntVal(v)) == bool(fns[op](text, const)))
        for (pre, t, suf), z in E.cats.items():
            E.solver.add(pred_cat_axiom(op, const, pre, t, suf, z))
        E.model = None
    if tok not in preds[key]:
        for (op2, c2), toks in preds.items():
            if op2 == op and c2 != const:
                f2 = z3.Function(f"P_{op2}_{c2}", z3.IntSort(), z3.BoolSort())
                if fns[op](c2, const):
                    E.solver.add(z3.Implies(f2(id_z(tok)), f(id_z(tok))))
                elif fns[op](const, c2):
                    E.solver.add(z3.Implies(f(id_z(tok)), f2(id_z(tok))))
                elif op != "contains":
                    E.solver.add(z3.Not(z3.And(f(id_z(tok)), f2(id_z(tok)))))
        preds[key].add(tok)
        E.model = None
    return SymBool(f(id_z(tok)))


def _comp_starts(comp, p):
    """component starts with p (p without dots, not empty)"""
    if not has_id(comp) and not has_id(p):
        return comp.startswith(p)
    if comp == p:
        return True
    a = _split_atoms(comp)
    q = _split_atoms(p)
    if len(q) == 1 and not q[0][0]:
        t = q[0][1]
        if not a[0][0]:
            if a[0][1].startswith(t):
                return True
            if not t.startswith(a[0][1]):
                return False
            return False if len(a) == 1 else id_pred("startswith", t[len(a[0][1]) :], a[1][1])
        if not (t + "x").isidentifier():
            return False
        return id_pred("startswith", t, a[0][1])
    # symbolic prefix: only whole components are known to match
    return _eq_comp(comp, p)


def _comp_ends(comp, p):
    if not has_id(comp) and not has_id(p):
        return comp.endswith(p)
    if comp == p:
        return True
    a = _split_atoms(comp)
    q = _split_atoms(p)
    if len(q) == 1 and not q[0][0]:
        t = q[0][1]
        if not a[-1][0]:
            if a[-1][1].endswith(t):
                return True
            if not t.endswith(a[-1][1]):
                return False
            return (
                False
                if len(a) == 1
                else id_pred("endswith", t[: len(t) - len(a[-1][1])], a[-2][1])
            )
        if not ("x" + t).isidentifier():
            return False
        return id_pred("endswith", t, a[-1][1])
    return _eq_comp(comp, p)


def id_startswith(s, p, *a):
    if a:
        s = s[slice(*a)]
    if isinstance(p, tuple):
        return sor(*[id_startswith(s, x) for x in p])
    if s.startswith(p):
        return True
    sc, pc = s.split("."), p.split(".")
    if len(pc) > len(sc):
        return False
    out = [_eq_comp(x, y) for x, y in zip(sc, pc[:-1])]
    if pc[-1]:
        out.append(_comp_starts(sc[len(pc) - 1], pc[-1]))
    return sand(*out)


def id_endswith(s, p, *a):
    if a:
        s = s[slice(*a)]
    if isinstance(p, tuple):
        return sor(*[id_endswith(s, x) for x in p])
    if s.endswith(p):
        return True
    sc, pc = s.split("."), p.split(".")
    if len(pc) > len(sc):
        return False
    out = [_eq_comp(x, y) for x, y in zip(reversed(sc), reversed(pc[1:]))]
    if pc[0]:
        out.append(_comp_ends(sc[len(sc) - len(pc)], pc[0]))
    return sand(*out)


def id_contains(s, sub):
    if sub in str(s):
        return True
    if not has_id(s):
        return False if not has_id(sub) else str_eq(s, sub)
    if not has_id(sub):
        if not sub.isidentifier() and not ("x" + sub).isidentifier():
            return False
        return sor(
            *[
                id_pred("contains", sub, c)
                for c in s
                if ID_LO <= ord(c) <= ID_HI
            ]
        )
    sc = s.split(".")
    out = []
    for i, pc in _alignments(sc, sub):
        out.append(sand(*[_eq_comp(x, y) for x, y in zip(sc[i:], pc)]))
    return sor(*out)


def _alignments(sc, sub):
    """places where *sub* may occur in the components *sc*, as whole components"""
    pc = sub.split(".")
    lead = len(pc) > 1 and not pc[0]
    trail = len(pc) > 1 and not pc[-1]
    pc = pc[lead : len(pc) - trail]
    for i in range(int(lead), len(sc) - len(pc) - trail + 1):
        yield i, pc


def id_split_with(s, name, args, kwds):
    """
    Methods that look for a separator: make occurrences of separators with
    identifiers explicit, then use the native method.
    """
    sep = args[0] if args else kwds.get("sep")
    if not isinstance(sep, str) or s.isascii() and sep.isascii():
        return None
    if has_id(sep) or sep[:1] == sep[-1:] == "." and len(sep) > 2:
        if not any(has_id(x) or x.isalnum() for x in s):
            return None
        sc = s.split(".")
        for i, pc in _alignments(sc, sep):
            cur = sc[i : i + len(pc)]
            if cur != pc and b(sand(*[_eq_comp(x, y) for x, y in zip(cur, pc)])):
                sc[i : i + len(pc)] = pc
        s = ".".join(sc)
    elif has_id(s) and sep and ("x" + sep).isidentifier():
        # in symbolic identifiers, or only in other parts
        if b(id_contains("".join(c for c in s if has_id(c)), sep)):
            s = E.pin(s, f"str.{name}")
    return (getattr(s, name)(*args, **kwds),)


def id_removeprefix(s, p):
    if s.startswith(p):
        return s[len(p) :]
    if bool(id_startswith(s, p)):
        n = p.count(".")
        if p.endswith("."):
            return ".".join(s.split(".")[n:])
        return ".".join([""] + s.split(".")[n + 1 :])
    return str(s)


def id_removesuffix(s, p):
    if s.endswith(p):
        return s[: len(s) - len(p)]
    if bool(id_endswith(s, p)):
        n = p.count(".")
        if p.startswith("."):
            return ".".join(s.split(".")[:-n])
        return ".".join(s.split(".")[: -n - 1] + [""])
    return str(s)


ID_METHODS = {
    "startswith": id_startswith,
    "endswith": id_endswith,
    "removeprefix": id_removeprefix,
    "removesuffix": id_removesuffix,
}


FINDS = {"find", "rfind", "index", "rindex", "count"}
SEPARATED = FINDS | {"partition", "rpartition", "split", "rsplit", "replace"}


def contains(s, sub):
    """sub in s"""
    if s.isascii() and sub.isascii():
        return sub in s
    if has_char(s) or has_char(sub):
        return sor(*[match_at(s, sub, i) for i in range(len(s) - len(sub) + 1)])
    return id_contains(s, sub)


def str_method(s, name, args, kwds):
    """
    Symbolic version of s.name(*args), or None when the native method is
    right. Returns a tuple with the result otherwise.
    """
    if has_char(s) or any(
        isinstance(a, str) and has_char(a)
        or type(a) is tuple and any(isinstance(x, str) and has_char(x) for x in a)
        for a in args
    ):
        if name in ("join", "format", "encode", "zfill", "ljust", "rjust"):
            return None
        f = CHAR_METHODS.get(name)
        if f is not None:
            return (f(s, *args, **kwds),)
        s2 = "".join(E.pin(c, f"str.{name}") if is_tok(c) else c for c in s)
        args = [
            "".join(E.pin(c, f"str.{name}") if is_tok(c) else c for c in a)
            if isinstance(a, str)
            else a
            for a in args
        ]
        return (getattr(s2, name)(*args, **kwds),)
    f = ID_METHODS.get(name)
    if f is not None:
        return (f(s, *args, **kwds),)
    if name in SEPARATED and not (has_char(s) or len(args) > 1 and name in FINDS):
        return id_split_with(s, name, args, kwds)
    return None


def lt(a, b_):
    return str_lt(a, b_)


def str_le(a, b_):
    return sor(str_lt(a, b_), str_eq(a, b_))


def str_gt(a, b_):
    return str_lt(b_, a)


def str_ge(a, b_):
    return snot(str_lt(a, b_))
