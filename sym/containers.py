"""Sets and dictionaries that compare their (string) keys symbolically."""

import dataclasses
import types

from .core import (
    E,
    SymBool,
    SymInt,
    sand,
    snot,
    sor,
    str_eq,
)

_missing = object()


def is_sym(v):
    """True when *v* (shallow) is or contains a symbolic value"""
    t = type(v)
    if t is SymBool or t is SymInt:
        return True
    if isinstance(v, str):
        return not v.isascii()
    if t is tuple:
        return any(is_sym(x) for x in v)
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        p = getattr(v, "__dataclass_params__", None)
        if p is not None and p.eq:
            return any(is_sym(getattr(v, f.name, None)) for f in dataclasses.fields(v))
    return False


def generated_eq(cls):
    p = cls.__dict__.get("__dataclass_params__")
    if p is None or not p.eq:
        return False
    f = cls.__dict__.get("__eq__")
    return f is not None and getattr(f, "__globals__", {}).get("SV_cov") is None


def deep_eq(a, b):
    """a == b as a bool or SymBool"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymBool or tb is SymBool or ta is SymInt or tb is SymInt:
        if ta is SymBool or ta is SymInt:
            return a == b
        return b == a
    if isinstance(a, str):
        if not isinstance(b, str):
            r = tb.__eq__(b, a) if hasattr(tb, "__sym_str_eq__") else False
            return r
        if (ta is not str and ta.__eq__ is not str.__eq__) or (
            tb is not str and tb.__eq__ is not str.__eq__
        ):
            return a == b
        return str_eq(a, b)
    if ta is int or ta is bool or a is None or b is None:
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and ta.__eq__ is tuple.__eq__:
        if len(a) != len(b):
            return False
        return _seq_eq(a, b)
    if ta is list and tb is list:
        if len(a) != len(b):
            return False
        return _seq_eq(a, b)
    if isinstance(a, (SymSet, SymFrozenSet)):
        if isinstance(b, (set, frozenset)):
            return set_eq(a, b)
        return False
    if isinstance(b, (SymSet, SymFrozenSet)):
        if isinstance(a, (set, frozenset)):
            return set_eq(b, a)
        return False
    if isinstance(a, SymDict) and isinstance(b, dict):
        return dict_eq(a, b)
    if isinstance(b, SymDict) and isinstance(a, dict):
        return dict_eq(b, a)
    if ta is tb and not isinstance(a, type) and generated_eq(ta):
        out = []
        for f in dataclasses.fields(a):
            if not f.compare:
                continue
            c = deep_eq(getattr(a, f.name, _missing), getattr(b, f.name, _missing))
            if c is False:
                return False
            out.append(c)
        return sand(*out)
    return a == b


def _seq_eq(a, b):
    out = []
    for x, y in zip(a, b):
        c = deep_eq(x, y)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return sand(*out)


def contains_list(items, value):
    out = []
    for x in items:
        c = deep_eq(x, value)
        if c is True:
            return True
        if c is not False:
            out.append(c)
    return sor(*out)


def set_eq(a, b):
    ia = list(raw(a))
    ib = list(raw(b))
    return sand(
        *[contains_list(ib, x) for x in ia], *[contains_list(ia, x) for x in ib]
    )


def dict_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for k, v in a.items():
        alts = []
        for k2, v2 in b.items():
            alts.append(sand(deep_eq(k, k2), deep_eq(v, v2)))
        out.append(sor(*alts))
    return sand(*out)


def raw(s):
    if isinstance(s, (SymSet, SymFrozenSet)):
        return s.raw_items()
    return s


class _SetBase:
    """
    A set represented by a list of elements in insertion order. Elements that
    are possibly equal are kept side by side until something depends on the
    number of elements.
    """

    __slots__ = ()

    def _init(self, items=()):
        self._items = []
        self._conc = {}
        self._merged = True
        self._symc = 0
        for x in items:
            self._add(x)

    def _add(self, x):
        # syntactic duplicates are dropped straight away
        s = is_sym(x)
        if s and (type(x) is not tuple and not isinstance(x, str)):
            for y in self._items:
                if y is x or deep_eq(y, x) is True:
                    return
        else:
            if x in self._conc:
                return
            self._conc[x] = True
        if s or self._symc:
            self._merged = False
        if s:
            self._symc += 1
        self._items.append(x)

    def _force(self):
        """Decide which of the elements are equal"""
        if self._merged:
            return
        if len(self._items) > 1:
            out = []
            for x in self._items:
                for y in out:
                    if is_sym(x) or is_sym(y):
                        c = deep_eq(y, x)
                        if c is True or (c is not False and bool(c)):
                            break
                else:
                    out.append(x)
            if len(out) != len(self._items):
                self._items[:] = out
                self._conc = {}
                for x in out:
                    if not (
                        is_sym(x) and (type(x) is not tuple and not isinstance(x, str))
                    ):
                        self._conc[x] = True
        self._merged = True

    def raw_items(self):
        return list(self._items)

    def __iter__(self):
        self._force()
        mode = E.order_mode
        if mode is None or not E.active:
            return iter(list(self._items))
        return iter(mode(list(self._items)))

    def __len__(self):
        self._force()
        return len(self._items)

    def __bool__(self):
        return bool(self._items)

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if not is_sym(x):
            try:
                if x in self._conc:
                    return True
            except TypeError:
                raise
            if not self._symc:
                return False
        elif isinstance(x, str) and x in self._conc:
            return True
        return contains_list(self._items, x)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        r = set_eq(self, o)
        return r

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def issubset(self, o):
        items = list(raw(o))
        return sand(*[contains_list(items, x) for x in self._items])

    def issuperset(self, o):
        return sand(*[contains_list(self._items, x) for x in raw(o)])

    def isdisjoint(self, o):
        items = list(raw(o))
        return snot(sor(*[contains_list(items, x) for x in self._items]))

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return sand(self.issubset(o), snot(set_eq(self, o)))

    def __gt__(self, o):
        return sand(self.issuperset(o), snot(set_eq(self, o)))

    def _new(self, items):
        r = type(self).__new__(type(self))
        r._init(items)
        return r

    def copy(self):
        return self._new(self._items)

    __copy__ = copy

    def union(self, *others):
        r = self._new(self._items)
        for o in others:
            for x in raw(o):
                r._add(x)
        return r

    def __or__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.union(o)

    def __ror__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        r = self._new(raw(o))
        for x in self._items:
            r._add(x)
        return r

    def difference(self, *others):
        items = []
        for x in self._items:
            for o in others:
                if contains_list(list(raw(o)), x):
                    break
            else:
                items.append(x)
        return self._new(items)

    def __sub__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.difference(o)

    def __rsub__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self._new([x for x in o if not contains_list(self._items, x)])

    def intersection(self, *others):
        items = []
        for x in self._items:
            if all(contains_list(list(raw(o)), x) for o in others):
                items.append(x)
        return self._new(items)

    def __and__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.intersection(o)

    __rand__ = __and__

    def symmetric_difference(self, o):
        return self.difference(o).union(self._new(raw(o)).difference(self))

    def __xor__(self, o):
        return self.symmetric_difference(o)

    __rxor__ = __xor__

    def __repr__(self):
        return "{" + ", ".join(map(repr, self._items)) + "}"

    def __reduce__(self):
        return (set, (list(self._items),))


class SymFrozenSet(_SetBase, frozenset):
    def __new__(cls, items=()):
        r = frozenset.__new__(cls)
        return r

    def __init__(self, items=()):
        if type(items) is SymSet or type(items) is SymFrozenSet:
            items = items.raw_items()
        self._init(items)

    def __hash__(self):
        return 7


class SymSet(_SetBase, set):
    def __new__(cls, items=()):
        return set.__new__(cls)

    def __init__(self, items=()):
        if type(items) is SymSet or type(items) is SymFrozenSet:
            items = items.raw_items()
        self._init(items)

    def add(self, x):
        try:
            hash_check(x)
        except TypeError:
            raise
        self._add(x)

    def update(self, *others):
        for o in others:
            for x in raw(o):
                self._add(x)

    def __ior__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        self.update(o)
        return self

    def clear(self):
        self._init()

    def _remove(self, x):
        """Remove all elements equal to x, return number of removals"""
        out = []
        n = 0
        for y in self._items:
            c = deep_eq(y, x)
            if c is True or (c is not False and bool(c)):
                n += 1
            else:
                out.append(y)
        if n:
            self._init(out)
        return n

    def discard(self, x):
        self._remove(x)

    def remove(self, x):
        if not self._remove(x):
            raise KeyError(x)

    def pop(self):
        self._force()
        if not self._items:
            raise KeyError("pop from an empty set")
        items = list(iter(self))
        x = items[0]
        self._init([y for y in self._items if y is not x])
        return x

    def difference_update(self, *others):
        self._init(self.difference(*others)._items)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, *others):
        self._init(self.intersection(*others)._items)

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def symmetric_difference_update(self, o):
        self._init(self.symmetric_difference(o)._items)

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


def hash_check(x):
    if isinstance(x, (list, dict)) or type(x) in (set, SymSet):
        raise TypeError(f"unhashable type: '{type(x).__name__}'")


class SymDict(dict):
    """
    A dictionary whose (string) keys are compared symbolically. The
    underlying dict is keyed by the syntactic form of the keys.
    """

    def __init__(self, *args, **kwds):
        dict.__init__(self)
        self._symkeys = 0
        self.update(*args, **kwds)

    def _find(self, key):
        """Return the stored key equal to key, or _missing"""
        if dict.__contains__(self, key):
            return key
        s = is_sym(key)
        if not s and not self._symkeys:
            return _missing
        for k in list(dict.keys(self)):
            if not s and not is_sym(k):
                continue
            c = deep_eq(k, key)
            if c is True or (c is not False and bool(c)):
                return k
        return _missing

    def contains(self, key):
        if dict.__contains__(self, key):
            return True
        s = is_sym(key)
        if not s and not self._symkeys:
            return False
        return contains_list(
            [k for k in dict.keys(self) if s or is_sym(k)], key
        )

    def __contains__(self, key):
        return bool(self.contains(key))

    def __getitem__(self, key):
        k = self._find(key)
        if k is _missing:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return dict.__getitem__(self, k)

    def get(self, key, default=None):
        k = self._find(key)
        if k is _missing:
            return default
        return dict.__getitem__(self, k)

    def __setitem__(self, key, value):
        k = self._find(key)
        if k is _missing:
            if is_sym(key):
                self._symkeys += 1
            k = key
        dict.__setitem__(self, k, value)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _missing:
            raise KeyError(key)
        if is_sym(k):
            self._symkeys -= 1
        dict.__delitem__(self, k)

    def pop(self, key, *default):
        k = self._find(key)
        if k is _missing:
            if default:
                return default[0]
            raise KeyError(key)
        if is_sym(k):
            self._symkeys -= 1
        return dict.pop(self, k)

    def popitem(self):
        k, v = dict.popitem(self)
        if is_sym(k):
            self._symkeys -= 1
        return k, v

    def clear(self):
        dict.clear(self)
        self._symkeys = 0

    def setdefault(self, key, default=None):
        k = self._find(key)
        if k is not _missing:
            return dict.__getitem__(self, k)
        self[key] = default
        return default

    def update(self, *args, **kwds):
        if args:
            o = args[0]
            if hasattr(o, "keys"):
                for k in list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kwds.items():
            self[k] = v

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        r = type(self)(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def copy(self):
        return SymDict(self)

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        return dict_eq(self, o)

    def __ne__(self, o):
        return snot(self.__eq__(o))

    __hash__ = None

    def __reduce__(self):
        return (dict, (dict(dict.items(self)),))


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *args, **kwds):
        self.default_factory = factory
        SymDict.__init__(self, *args, **kwds)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


MISSING = _missing
CodeType = types.CodeType
