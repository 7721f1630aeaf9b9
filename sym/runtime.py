"""
Runtime support for instrumented code: every call, comparison and container
display in the code under test is routed through these functions.
"""

import builtins
import collections
import functools
import itertools
import operator
import re
import sys as real_sys
import types

from . import containers, regex, strmodel
from .containers import SymDefaultDict, SymDict, SymFrozenSet, SymSet, deep_eq, is_sym
from .core import CH_HI, CH_LO, E, SymBool, SymInt, has_char, has_id, snot, sor

COV = set()


def cov(name):
    COV.add(name)


# ------------------------------------------------------------- comparisons


def eq(a, b):
    return deep_eq(a, b)


def ne(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return snot(deep_eq(a, b))
    ta = type(a)
    if ta is int or ta is bool or a is None or b is None:
        return a != b
    if ta is SymInt or ta is SymBool:
        return a != b
    r = deep_eq(a, b)
    return snot(r)


def _order(op, native):
    def f(a, b):
        if isinstance(a, str) and isinstance(b, str):
            if a.isascii() and b.isascii():
                return native(a, b)
            return op(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (
            is_sym(tuple(a)) or is_sym(tuple(b))
        ):
            for x, y in zip(a, b):
                if not bool(deep_eq(x, y)):
                    return f(x, y)
            return native(len(a), len(b))
        return native(a, b)

    return f


lt = _order(strmodel.str_lt, operator.lt)
le = _order(strmodel.str_le, operator.le)
gt = _order(strmodel.str_gt, operator.gt)
ge = _order(strmodel.str_ge, operator.ge)


def contains(x, c):
    """x in c"""
    if isinstance(c, str) and isinstance(x, str):
        return strmodel.contains(c, x)
    if isinstance(c, (SymSet, SymFrozenSet, SymDict)):
        return c.contains(x)
    tc = type(c)
    if tc in (list, tuple, collections.deque):
        return containers.contains_list(c, x)
    if tc in (set, frozenset, dict) or tc in (
        type({}.keys()),
        types.MappingProxyType,
    ):
        if is_sym(x) or (len(c) < 200 and any(is_sym(y) for y in c)):
            return containers.contains_list(list(c), x)
        return x in c
    if tc is type({}.values()) or isinstance(
        c, (types.GeneratorType, map, filter, zip)
    ):
        for y in c:
            if deep_eq(y, x):
                return True
        return False
    return x in c


def not_contains(x, c):
    return snot(contains(x, c))


def not_(x):
    return snot(x)


OPS = {
    "==": eq,
    "!=": ne,
    "<": lt,
    "<=": le,
    ">": gt,
    ">=": ge,
    "in": contains,
    "not in": not_contains,
    "is": operator.is_,
    "is not": operator.is_not,
}


def chain(ops, first, *thunks):
    left = first
    r = True
    for op, th in zip(ops, thunks):
        right = th()
        r = OPS[op](left, right)
        if not r:
            return r
        left = right
    return r


# --------------------------------------------------------------- displays


def mkset(*items):
    return SymSet(items)


def mkset_it(items):
    return SymSet(items)


def mkdict(pairs):
    """pairs: sequence of (key, value), key is STAR for **mapping"""
    d = SymDict()
    for k, v in pairs:
        if k is STAR:
            d.update(v)
        else:
            d[k] = v
    return d


def mkdict_it(items):
    d = SymDict()
    for k, v in items:
        d[k] = v
    return d


class _Star:
    pass


STAR = _Star()


# ------------------------------------------------------------------- calls


def sv_isinstance(obj, cls):
    t = type(obj)
    f = getattr(t, "__sym_isinstance__", None)
    if f is not None:
        return f(obj, cls)
    if isinstance(cls, type) or t is not tuple:
        pass
    return isinstance(obj, _norm(cls))


def _norm(cls):
    if isinstance(cls, tuple):
        return tuple(_norm(c) for c in cls)
    return cls


def sv_sorted(iterable, *, key=None, reverse=False):
    items = list(iterable)
    keys = [call(key, x) for x in items] if key is not None else items
    if not any(is_sym(k) for k in keys):
        return sorted(items, key=key, reverse=reverse)
    out = []
    for k, x in zip(keys, items):
        # insertion sort, stable
        pos = len(out)
        while pos > 0:
            k2 = out[pos - 1][0]
            if bool(lt(k2, k) if reverse else lt(k, k2)):
                pos -= 1
            else:
                break
        out.insert(pos, (k, x))
    return [x for _, x in out]


def _minmax(native, cmp):
    def f(*args, key=None, **kw):
        items = list(args[0]) if len(args) == 1 else list(args)
        if not items:
            return native(items, key=key, **kw)
        keys = [call(key, x) for x in items] if key is not None else items
        if not any(is_sym(k) for k in keys):
            return native(items, key=key)
        best = 0
        for i in range(1, len(items)):
            if bool(cmp(keys[i], keys[best])):
                best = i
        return items[best]

    return f


def sv_len(x):
    return len(x)


def sv_int(*args, **kw):
    if args and type(args[0]) is SymInt and len(args) == 1:
        return args[0]
    return int(*args, **kw)


def sv_bool(*args):
    if args and type(args[0]) is SymBool:
        return args[0]
    return bool(*args)


def sv_defaultdict(*args, **kw):
    if args and args[0] in (set, dict, frozenset):
        args = (CALLS[args[0]],) + args[1:]
    return SymDefaultDict(*args, **kw)


def sv_fromkeys(keys, value=None):
    d = SymDict()
    for k in keys:
        d[k] = value
    return d


def sv_lru_cache(*args, **kw):
    if args and callable(args[0]):
        return args[0]
    return lambda f: f


def sv_open(path, *args, **kw):
    fs = E.locals.get("open") if E.active else None
    if fs is not None:
        r = fs(path, *args, **kw)
        if r is not NotImplemented:
            return r
    return open(path, *args, **kw)


def sv_ord(c):
    if len(c) == 1 and CH_LO <= ord(c) <= CH_HI and E.active:
        return SymInt(E.ch_names[c][1])
    return ord(c)


def sv_hash(x):
    if E.active and is_sym(x):
        return 5
    return hash(x)


class SymCounter(SymDict):
    def __init__(self, items=()):
        SymDict.__init__(self)
        for x in items:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0


CALLS = {
    isinstance: sv_isinstance,
    set: SymSet,
    frozenset: SymFrozenSet,
    dict: SymDict,
    sorted: sv_sorted,
    min: _minmax(min, lt),
    max: _minmax(max, gt),
    int: sv_int,
    bool: sv_bool,
    ord: sv_ord,
    hash: sv_hash,
    open: sv_open,
    collections.defaultdict: sv_defaultdict,
    collections.OrderedDict: SymDict,
    collections.Counter: SymCounter,
    dict.fromkeys: sv_fromkeys,
    functools.lru_cache: sv_lru_cache,
    functools.cache: sv_lru_cache,
    operator.eq: eq,
    operator.ne: ne,
    operator.contains: lambda a, b: contains(b, a),
    operator.not_: not_,
}

# C functions through which character tokens pass unharmed
PASS = {
    print,
    str,
    repr,
    list,
    tuple,
    iter,
    next,
    len,
    enumerate,
    zip,
    map,
    filter,
    reversed,
    getattr,
    setattr,
    hasattr,
    any,
    all,
    type,
    id,
    sum,
    range,
    callable,
    super,
    vars,
    collections.deque,
    functools.partial,
    operator.attrgetter,
    operator.itemgetter,
}

_INSTRUMENTED_FILES = set()
_simple_types = (types.FunctionType, types.MethodType)


def _foreign(f):
    """True for functions that are neither instrumented nor part of /verif"""
    t = type(f)
    if t is types.MethodType:
        f = f.__func__
        t = type(f)
    if t is types.FunctionType:
        g = f.__globals__
        if "SV_cov" in g:
            return False
        name = g.get("__name__", "")
        if name.startswith(("sym.", "checks.")):
            return False
        if f.__code__.co_filename == "<string>":  # dataclass generated
            return False
        return getattr(f, "__wrapped__", None) is None
    if t is types.BuiltinFunctionType:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            return True
        return not isinstance(
            s, (list, dict, set, tuple, collections.deque, str)
        ) and f.__name__ not in ("write", "writelines")
    if isinstance(f, type):
        m = f.__module__
        if m.startswith(("modulegraph2", "objectgraph", "oracle", "sym.", "checks.")):
            return False
        return not issubclass(f, BaseException)
    return False


# Modules for files: names of files are compared literally
LITERAL = {"zipfile", "pathlib", "zipfile._path"}


def _literal(f):
    if type(f) is types.MethodType:
        f = f.__func__
    return getattr(f, "__module__", None) in LITERAL


def _pin_args(f, args, kwds):
    nm = getattr(f, "__qualname__", repr(f))

    def p(a):
        if isinstance(a, str) and has_char(a):
            return "".join(E.pin(c, nm) if CH_LO <= ord(c) <= CH_HI else c for c in a)
        if type(a) in (list, tuple) and any(
            isinstance(x, str) and has_char(x) for x in a
        ):
            return type(a)(p(x) for x in a)
        return a

    return [p(a) for a in args], {k: p(v) for k, v in kwds.items()}


MODELS = {}
regex.install(MODELS)


def _modelled(f):
    """calls of *f* by foreign code have to go through call()"""
    t = type(f)
    if t is types.BuiltinFunctionType or t is types.MethodWrapperType:
        s = getattr(f, "__self__", None)
        if isinstance(s, (str, re.Pattern)) or type(s) is list:
            return True
    elif t is functools.partial:
        return _modelled(f.func)
    elif t is types.MethodDescriptorType:
        return f.__objclass__ is str
    elif t is not types.FunctionType and t is not type:
        return False
    try:
        return f in CALLS or f in MODELS
    except TypeError:
        return False


# C functions which call the functions they are given
HIGHER = {map, filter, functools.partial, functools.reduce, itertools.takewhile,
          itertools.dropwhile, itertools.filterfalse, itertools.starmap,
          itertools.groupby, sum, iter}  # fmt: skip


def _indirect(args):
    return [functools.partial(call, a) if _modelled(a) else a for a in args]


def call(f, /, *args, **kwds):
    try:
        m = CALLS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kwds)
    if not E.active:
        return f(*args, **kwds)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        r = m(*args, **kwds)
        if r is not NotImplemented:
            return r
    elif type(f) is types.MethodWrapperType or type(f) is types.BuiltinFunctionType:
        s = getattr(f, "__self__", None)
        ts = type(s)
        if ts is str or ts is list:
            return mcall(s, f.__name__, *args, **kwds)
        if isinstance(s, str) or ts is re.Pattern:
            return mcall(s, f.__name__, *args, **kwds)
    elif type(f) is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kwds})
    elif type(f) is types.MethodDescriptorType and f.__objclass__ is str and args:
        return mcall(args[0], f.__name__, *args[1:], **kwds)
    try:
        if f in HIGHER and any(_modelled(a) for a in args):
            return f(*_indirect(args), **kwds)
    except TypeError:
        pass
    if E.n_ch:
        try:
            known = f in PASS
        except TypeError:
            known = False
        if not known and _foreign(f) and not _literal(f):
            args, kwds = _pin_args(f, args, kwds)
    return f(*args, **kwds)


def part(v, *at):
    """
    Part of a value by constant positions: the length of identifiers is not
    known, such parts of strings need a value
    """
    if isinstance(v, str) and not v.isascii() and E.active and has_id(v):
        if len(at) == 1:
            known = v[at[0] :] if at[0] < 0 else v[: at[0] + 1]
        else:
            lo, hi = at
            known = ""
            for x in (lo, hi):
                if x is not None:
                    known += v[x:] if x < 0 else v[:x]
        if has_id(known):
            v = E.pin(v, "part of an identifier")
    return v[at[0]] if len(at) == 1 else v[slice(*at)]


def part_eq(v, const, *at):
    if isinstance(v, str) and not v.isascii() and E.active and has_id(v):
        k = len(const)
        if at in ((0,), (None, k), (0, k)) and k:
            if len(at) > 1 or k == 1:
                return mcall(v, "startswith", const)
        if at in ((-1,), (-k, None)) and k:
            if len(at) > 1 or k == 1:
                return mcall(v, "endswith", const)
    return eq(part(v, *at), const)


def _list_index(lst, x, *a):
    idx = range(len(lst))[slice(*a)] if a else range(len(lst))
    for i in idx:
        if deep_eq(lst[i], x):
            return i
    raise ValueError(f"{x!r} is not in list")


def mcall(obj, name, /, *args, **kwds):
    t = type(obj)
    if isinstance(obj, str) and E.active:
        if (
            not obj.isascii()
            or any(isinstance(a, str) and not a.isascii() for a in args)
            or any(type(a) is tuple for a in args)
        ):
            own = t is str or getattr(t, name) is getattr(str, name)
            if own:
                r = strmodel.str_method(obj, name, args, kwds)
                if r is not None:
                    return r[0]
        return getattr(obj, name)(*args, **kwds)
    if t is list or t is collections.deque:
        if name == "index":
            return _list_index(obj, *args)
        if name == "remove":
            del obj[_list_index(obj, args[0])]
            return None
        if name == "count":
            n = 0
            for y in obj:
                if deep_eq(y, args[0]):
                    n += 1
            return n
        if name == "sort":
            if any(is_sym(x) for x in obj) or kwds.get("key") is not None:
                obj[:] = sv_sorted(obj, **kwds)
                return None
        return getattr(obj, name)(*args, **kwds)
    if t is re.Pattern and E.active:
        r = regex.method(obj, name, args, kwds)
        return r[0] if r is not None else getattr(obj, name)(*args, **kwds)
    return call(getattr(obj, name), *args, **kwds)


# ---------------------------------------------------------------- modules


class SysProxy(types.ModuleType):
    """Stand-in for the sys module in instrumented code."""

    def __init__(self):
        super().__init__("sys")
        d = self.__dict__
        d["path"] = []
        d["modules"] = SymDict()

    def __getattr__(self, name):
        return getattr(real_sys, name)

    def reset(self, path=(), modules=()):
        d = self.__dict__
        d["path"] = list(path)
        d["modules"] = SymDict(modules)


SYS = SysProxy()
PROXIES = {"sys": SYS}


def get_module(name, fallback):
    return PROXIES.get(name, fallback)


def or_all(*vals):
    return sor(*vals)


def namemap(name):
    return {"set": SymSet, "dict": SymDict, "frozenset": SymFrozenSet}[name]


BUILTINS = builtins
