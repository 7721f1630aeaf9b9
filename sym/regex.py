"""
Symbolic model of regular expressions: a backtracking matcher for the parse
trees of the re module, which forks on the values of character tokens. Strings
with identifier tokens and rarely used constructs get a value (E.pin).
"""

import re
from re import _constants as C
from re import _parser

import z3

from .core import CH_HI, CH_LO, E, SymBool, ch_z, char_eq, has_char, has_id
from . import strmodel

_CLASSES = {
    C.CATEGORY_DIGIT: ([(48, 57)], r"\d"),
    C.CATEGORY_SPACE: ([(9, 13), (28, 32)], r"\s"),
    C.CATEGORY_WORD: ([(48, 57), (65, 90), (95, 95), (97, 122)], r"\w"),
}
_NOT = {
    C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
    C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
    C.CATEGORY_NOT_WORD: C.CATEGORY_WORD,
}


class Unsupported(Exception):
    pass


def _tok(c):
    return CH_LO <= ord(c) <= CH_HI


def _in_ranges(c, ranges):
    if _tok(c):
        z = ch_z(c)
        return E.branch(
            SymBool(z3.Or(*[z3.And(z >= lo, z <= hi) for lo, hi in ranges]))
        )
    return any(lo <= ord(c) <= hi for lo, hi in ranges)


def _is(c, code):
    return E.branch(char_eq(c, chr(code)))


def _category(c, cat, flags):
    if cat in _NOT:
        return not _category(c, _NOT[cat], flags)
    ranges, text = _CLASSES[cat]
    if not _tok(c):
        return re.match(text, c, flags & re.ASCII) is not None
    if _in_ranges(c, ranges):
        return True
    if flags & re.ASCII or _in_ranges(c, [(0, 127)]):
        return False
    return re.match(text, E.pin(c, "character class")) is not None


def _member(c, items, flags):
    negate = False
    found = False
    for op, av in items:
        if op is C.NEGATE:
            negate = True
        elif op is C.LITERAL:
            found = _is(c, av)
        elif op is C.RANGE:
            found = _in_ranges(c, [av])
        elif op is C.CATEGORY:
            found = _category(c, av, flags)
        else:
            raise Unsupported(op)
        if found:
            break
    return found != negate


class _Matcher:
    def __init__(self, s, flags, end):
        self.s = s
        self.flags = flags
        self.n = end

    def seq(self, items, k, pos, groups, cont):
        if k == len(items):
            return cont(pos, groups)
        op, av = items[k]

        def rest(p, g):
            return self.seq(items, k + 1, p, g, cont)

        s = self.s
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos >= self.n:
                return None
            c = s[pos]
            if op is C.LITERAL:
                ok = _is(c, av)
            elif op is C.NOT_LITERAL:
                ok = not _is(c, av)
            elif op is C.ANY:
                ok = bool(self.flags & re.DOTALL) or not _is(c, 10)
            else:
                ok = _member(c, av, self.flags)
            return rest(pos + 1, groups) if ok else None
        if op is C.AT:
            if av is C.AT_BEGINNING_STRING or (
                av is C.AT_BEGINNING and not self.flags & re.MULTILINE
            ):
                ok = pos == 0
            elif av is C.AT_END_STRING:
                ok = pos == len(s)
            elif av is C.AT_END and not self.flags & re.MULTILINE:
                ok = pos == self.n or (pos == self.n - 1 and _is(s[pos], 10))
            else:
                raise Unsupported(av)
            return rest(pos, groups) if ok else None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            return self.repeat(sub, lo, hi, op is C.MAX_REPEAT, 0, pos, groups, rest)
        if op is C.SUBPATTERN:
            group, add, dele, sub = av
            if add or dele:
                raise Unsupported("flags")

            def done(p, g):
                if group is not None:
                    g = dict(g)
                    g[group] = (pos, p)
                return rest(p, g)

            return self.seq(list(sub), 0, pos, groups, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, pos, groups, rest)
                if r is not None:
                    return r
            return None
        if op in (C.ASSERT, C.ASSERT_NOT) and av[0] == 1:
            r = self.seq(list(av[1]), 0, pos, groups, lambda p, g: (p, g))
            if op is C.ASSERT:
                return rest(pos, r[1]) if r is not None else None
            return rest(pos, groups) if r is None else None
        raise Unsupported(op)

    def repeat(self, sub, lo, hi, greedy, n, pos, groups, rest):
        def more():
            if hi is not C.MAXREPEAT and n >= hi:
                return None

            def again(p, g):
                if p == pos and n >= lo:
                    return None
                return self.repeat(sub, lo, hi, greedy, n + 1, p, g, rest)

            return self.seq(list(sub), 0, pos, groups, again)

        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else rest(pos, groups)
        r = rest(pos, groups)
        return r if r is not None else more()


class SymMatch:
    def __init__(self, pattern, s, pos, endpos, start, end, groups):
        self.re = pattern
        self.string = s
        self.pos = pos
        self.endpos = endpos
        self._g = {0: (start, end), **groups}

    def _span(self, g):
        if isinstance(g, str):
            try:
                g = self.re.groupindex[g]
            except KeyError:
                raise IndexError("no such group") from None
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return self._g.get(g, (-1, -1))

    def _text(self, g, default=None):
        a, b = self._span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if len(gs) <= 1:
            return self._text(*(gs or (0,)))
        return tuple(self._text(g) for g in gs)

    def __getitem__(self, g):
        return self._text(g)

    def groups(self, default=None):
        return tuple(self._text(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._text(v, default) for k, v in self.re.groupindex.items()}

    def start(self, g=0):
        return self._span(g)[0]

    def end(self, g=0):
        return self._span(g)[1]

    def span(self, g=0):
        return self._span(g)

    @property
    def lastindex(self):
        return max((k for k in self._g if k), default=None)

    def expand(self, template):
        out = ""
        parsed = _parser.parse_template(template, self.re)
        for x in parsed:
            out += self._text(x, "") if isinstance(x, int) else x
        return out


def _run(p, s, pos, endpos, full, search, advance=False):
    tree = list(_parser.parse(p.pattern, p.flags & ~re.DEBUG))
    if p.flags & (re.IGNORECASE | re.LOCALE):
        raise Unsupported("flags")
    end = min(endpos, len(s))
    for i in range(min(pos, len(s)), (end if search else min(pos, len(s))) + 1):
        m = _Matcher(s, p.flags, end)
        r = m.seq(
            tree,
            0,
            i,
            {},
            lambda q, g: (
                None if full and q != end or advance and q == pos else (q, g)
            ),
        )
        if r is not None:
            return SymMatch(p, s, pos, endpos, i, r[0], r[1])
    return None


def _match(p, s, pos=0, endpos=10**9):
    return _run(p, s, pos, endpos, False, False)


def _fullmatch(p, s, pos=0, endpos=10**9):
    return _run(p, s, pos, endpos, True, False)


def _search(p, s, pos=0, endpos=10**9):
    return _run(p, s, pos, endpos, False, True)


def _finditer(p, s, pos=0, endpos=10**9):
    out = []
    advance = False  # the next match at this place may not be empty
    while True:
        m = _run(p, s, pos, endpos, False, True, advance)
        if m is None:
            return iter(out)
        out.append(m)
        pos = m.end()
        advance = m.end() == m.start()


def _findall(p, s, pos=0, endpos=10**9):
    out = []
    for m in _finditer(p, s, pos, endpos):
        g = m.groups("")
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def _subn(p, repl, s, count=0):
    out, at, n = "", 0, 0
    for m in _finditer(p, s):
        if count and n >= count:
            break
        out += s[at : m.start()] + (repl(m) if callable(repl) else m.expand(repl))
        at = m.end()
        n += 1
    return out + s[at:], n


def _sub(p, repl, s, count=0):
    return _subn(p, repl, s, count)[0]


def _split(p, s, maxsplit=0):
    out, at = [], 0
    for m in _finditer(p, s):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(s[at : m.start()])
        out.extend(m.groups())
        at = m.end()
    out.append(s[at:])
    return out


METHODS = {
    "match": _match,
    "fullmatch": _fullmatch,
    "search": _search,
    "finditer": _finditer,
    "findall": _findall,
    "sub": _sub,
    "subn": _subn,
    "split": _split,
}


def _pin(v):
    return E.pin(v, "regular expression") if isinstance(v, str) else v


def method(p, name, args, kwds):
    """p.name(*args) for a compiled pattern; None when natively right"""
    f = METHODS.get(name)
    strings = [a for a in (*args, *kwds.values()) if isinstance(a, str)]
    if f is None or all(a.isascii() for a in strings):
        return None
    if any(has_id(a) for a in strings):
        if not any(has_char(a) for a in strings):
            args = [_pin(a) for a in args]
            kwds = {k: _pin(v) for k, v in kwds.items()}
            return (getattr(p, name)(*args, **kwds),)
    if "string" in kwds:
        kwds = dict(kwds)
        kwds["s"] = kwds.pop("string")
    try:
        return (f(p, *args, **kwds),)
    except Unsupported:
        if "s" in kwds:
            kwds["string"] = kwds.pop("s")
        args = [_pin(a) for a in args]
        kwds = {k: _pin(v) for k, v in kwds.items()}
        return (getattr(p, name)(*args, **kwds),)


def _function(name, native):
    def f(pattern, *args, flags=0, **kwds):
        nargs = 2 if name in ("sub", "subn") else 1
        if len(args) > nargs and name in ("match", "fullmatch", "search"):
            flags = args[nargs]
            args = args[:nargs]
        p = pattern if isinstance(pattern, re.Pattern) else None
        if p is None:
            if has_char(pattern) or has_id(pattern):
                pattern = _pin(pattern)
            p = re.compile(pattern, flags)
        r = method(p, name, args, kwds)
        return r[0] if r is not None else getattr(p, name)(*args, **kwds)

    return f


def escape(s):
    out = ""
    for c in s:
        if _tok(c):
            special = strmodel.char_in(c, "()[]{}?*+-|^$\\.&~# \t\n\r\v\f")
            out += "\\" + c if E.branch(special) else c
        else:
            out += re.escape(c)
    return out


def install(models):
    for name in METHODS:
        models[getattr(re, name)] = _function(name, getattr(re, name))
    models[re.escape] = escape
