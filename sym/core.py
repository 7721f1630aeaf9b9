"""
Re-execution based symbolic execution engine for Python.

One *path* is one execution of a harness function.  Every data dependent
decision on a symbolic value goes through :meth:`Engine.branch`, which asks z3
which outcomes are possible under the current path condition, takes one of
them and queues the other one.  Running the queue until it is empty explores
every feasible path within the bounds of the harness, and
:meth:`Engine.check` asks z3 whether the negation of an assertion is
satisfiable together with the path condition.
"""

import re
import time

import z3


class PathEnd(BaseException):
    """The current path is finished (infeasible, or its violation was recorded)."""


class Limit(BaseException):
    """The current path went over a per-path resource limit."""


class Violation(Exception):
    pass


# Two families of one character tokens are used inside ordinary Python
# strings. Both ranges consist of letters that are valid in identifiers, so
# the real compiler accepts them.
ID_LO, ID_HI = 0x4E00, 0x6FFF  # an unknown identifier (any length, no dots)
CH_LO, CH_HI = 0x7000, 0x9FFF  # one unknown character

CONST_BASE = 1_000_000


class Stats:
    FIELDS = (
        "paths",
        "paths_infeasible",
        "branch_queries",
        "decisions",
        "forks",
        "asserts",
        "asserts_concrete",
        "asserts_solver",
        "unknown",
        "pins",
        "limits",
        "witnesses",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.functions = set()
        self.pin_sites = set()
        self.samples = []
        self.reach = {}

    def merge(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(other, f))
        self.solver_s += other.solver_s
        self.functions |= other.functions
        self.pin_sites |= other.pin_sites
        if len(self.samples) < 6:
            self.samples += other.samples[: 6 - len(self.samples)]
        for k, v in other.reach.items():
            self.reach[k] = self.reach.get(k, 0) + v

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


class SymBool:
    """A boolean z3 term; using it as a condition forks the path."""

    __slots__ = ("z", "eqs")

    def __init__(self, z, eqs=None):
        self.z = z
        self.eqs = eqs

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self)

    def __hash__(self):
        return 1

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, zbool(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or o in (0, 1):
            return mkbool(self.z == zbool(bool(o) if not isinstance(o, SymBool) else o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return snot(r)

    def __repr__(self):
        return f"<SymBool {self.z}>"

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __reduce__(self):
        raise TypeError("SymBool cannot be pickled")


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def zbool(v):
    if type(v) is SymBool:
        return v.z
    if type(v) is bool:
        return z3.BoolVal(v)
    if z3.is_expr(v):
        return v
    return z3.BoolVal(bool(v))


def snot(v):
    if type(v) is SymBool:
        if z3.is_not(v.z):
            return SymBool(v.z.arg(0))
        return SymBool(z3.Not(v.z))
    return not v


def sand(*vs):
    out = []
    eqs = []
    for v in vs:
        if type(v) is SymBool:
            out.append(v.z)
            if eqs is not None and v.eqs is not None:
                eqs = eqs + v.eqs
            else:
                eqs = None
        elif not v:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0], eqs)
    return SymBool(z3.And(*out), eqs)


def sor(*vs):
    out = []
    for v in vs:
        if type(v) is SymBool:
            out.append(v)
        elif v:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(z3.Or(*[v.z for v in out]))


def simplies(a, b):
    return sor(snot(a), b)


class SymInt:
    """An integer z3 term."""

    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return int

    @staticmethod
    def _z(o):
        if type(o) is SymInt:
            return o.z
        if type(o) is SymBool:
            return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, int):
            return z3.IntVal(int(o))
        return None

    def __index__(self):
        return E.concretise_int(self.z)

    __int__ = __index__

    def __hash__(self):
        return hash(E.concretise_int(self.z))

    def __bool__(self):
        return E.branch(SymBool(self.z != 0))

    def __repr__(self):
        return f"<SymInt {self.z}>"

    def __format__(self, spec):
        return format(int(self), spec)

    def __str__(self):
        return str(int(self))

    def _bin(self, o, f):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return mkint(f(self.z, z))

    def _cmp(self, o, f):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.z, z)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, int):
            return self._bin(o, lambda a, b: a * b)
        return int(self) * o

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.z)

    def __rshift__(self, o):
        n = int(o)
        return mkint(self.z / z3.IntVal(1 << n))

    def __lshift__(self, o):
        return mkint(self.z * z3.IntVal(1 << int(o)))

    def __floordiv__(self, o):
        return mkint(self.z / z3.IntVal(int(o)))

    def __mod__(self, o):
        return mkint(self.z % z3.IntVal(int(o)))

    def __and__(self, o):
        m = int(o)
        if m >= 0 and (m & (m + 1)) == 0:
            return mkint(self.z % z3.IntVal(m + 1))
        return int(self) & m

    __rand__ = __and__

    def __or__(self, o):
        # only used to combine EXTENDED_ARG parts; the low bits are disjoint
        return mkint(self.z + self._z(o))

    __ror__ = __or__

    def __eq__(self, o):
        z = self._z(o)
        if z is None:
            return False
        return mkbool(z3.simplify(self.z == z))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


class Engine:
    def __init__(self):
        self.stats = Stats()
        self.active = False
        self.const_ids = {}
        self.const_text = {}
        self.reserved = set()
        self.max_decisions = 4000
        self.solver = None

    # -- path management -------------------------------------------------

    def start(self, prefix):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set("timeout", 20000)
        self.solver.reset()
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.model = None
        self.memo = {}
        self.uf = {}
        self.diseq = set()
        self.n_ids = 0
        self.n_ch = 0
        self.id_names = {}
        self.ch_names = {}
        self.inputs = []
        self.cats = {}
        self.violations = []
        self.scenario = None
        self.signature = None
        self.keep = []
        self.order_used = False
        self.order_mode = None
        self.reached = set()
        self.fresh = 0
        self.locals = {}

    def run_path(self, fn, prefix):
        """Run one path, return (violations, pending prefixes)."""
        self.start(prefix)
        self.active = True
        self.stats.paths += 1
        self.ended = "done"
        try:
            fn(self)
        except PathEnd as exc:
            if exc.args and exc.args[0] == "infeasible":
                self.stats.paths_infeasible += 1
                self.ended = "infeasible"
            else:
                self.ended = "violation"
        except Limit:
            self.stats.limits += 1
            self.ended = "limit"
        finally:
            self.active = False
        for r in self.reached:
            self.stats.reach[r] = self.stats.reach.get(r, 0) + 1
        return self.violations, self.pending

    def _check(self, *assumptions):
        t0 = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.branch_queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            if r == z3.unknown:
                raise Limit()
            self.model = self.solver.model()
        return self.model

    # -- decisions -------------------------------------------------------

    def branch(self, cond):
        if type(cond) is not SymBool:
            return bool(cond)
        z = cond.z
        key = z.get_id()
        m = self.memo.get(key)
        if m is not None:
            return m[0]
        if len(self.decisions) >= self.max_decisions:
            raise Limit()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.solver.add(z if v else z3.Not(z))
            self.model = None
        else:
            model = self._ensure_model()
            mv = model.eval(z, model_completion=True)
            v = z3.is_true(mv)
            if not v and not z3.is_false(mv):
                v = self._check(z) == z3.sat
                self.model = None
            other = z3.Not(z) if v else z
            r = self._check(other)
            if r != z3.unsat:
                self.stats.forks += 1
                self.pending.append(self.decisions + [not v])
            self.solver.add(z if v else z3.Not(z))
        self.decisions.append(v)
        self.stats.decisions += 1
        self.memo[key] = (v, z)
        if cond.eqs:
            if v:
                for a, b in cond.eqs:
                    self.uf_union(a, b)
            elif len(cond.eqs) == 1:
                self.uf_diseq(*cond.eqs[0])
        return v

    def choice(self, name, n):
        """Fork over a fresh symbolic variable with *n* possible values."""
        if n <= 0:
            raise PathEnd("infeasible")
        z = z3.Int(f"choice_{name}_{self.nfresh()}")
        if n == 1:
            v = 0
        elif self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.decisions + [k])
                self.stats.forks += 1
            self.decisions.append(0)
        self.stats.decisions += 1
        self.solver.add(z == v)
        # the current model does not mention z, hence it can be extended
        self.inputs.append((name, v))
        return v

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def concretise_int(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        while True:
            if self.pos < len(self.prefix):
                # stored as ("=", value, outcome)
                kind = self.prefix[self.pos]
                val, out = kind
                self.pos += 1
                self.solver.add(z == val if out else z != val)
                self.model = None
                self.decisions.append(kind)
                if out:
                    return val
                continue
            if len(self.decisions) >= self.max_decisions:
                raise Limit()
            model = self._ensure_model()
            val = model.eval(z, model_completion=True).as_long()
            r = self._check(z != val)
            if r != z3.unsat:
                self.stats.forks += 1
                self.pending.append(self.decisions + [(val, False)])
            self.solver.add(z == val)
            self.decisions.append((val, True))
            self.stats.decisions += 1
            return val

    def assume(self, cond):
        if type(cond) is SymBool:
            self.solver.add(cond.z)
            if cond.eqs:
                for a, b in cond.eqs:
                    self.uf_union(a, b)
            if self.model is not None:
                mv = self.model.eval(cond.z, model_completion=True)
                if not z3.is_true(mv):
                    self.model = None
            # feasibility is checked before the next decision or assertion
            if self.pos >= len(self.prefix):
                self._ensure_model()
        elif not cond:
            raise PathEnd("infeasible")

    def assume_z(self, z):
        self.assume(SymBool(z))

    def check(self, cond, msg, **info):
        """Assert *cond* for every value on this path."""
        self.stats.asserts += 1
        if type(cond) is not SymBool:
            if callable(cond):
                cond = cond()
            if cond:
                self.stats.asserts_concrete += 1
                return
            self._ensure_model()
            self.violate(msg, self.model, info)
            return
        self.stats.asserts_solver += 1
        r = self._check(z3.Not(cond.z))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Limit()
        model = self.solver.model()
        self.violate(msg, model, info)

    def violate(self, msg, model, info):
        self.model_for_text = model
        self._names = None
        sc = self.scenario() if self.scenario is not None else {}
        self.violations.append(
            {
                "message": self.conc(msg),
                "scenario": self.conc(sc),
                "info": self.conc(info),
                "decisions": list(self.decisions),
            }
        )
        raise PathEnd("violation")

    def fail(self, msg, **info):
        self.check(False, msg, **info)

    def reach(self, tag):
        self.reached.add(tag)

    # -- fresh symbols ---------------------------------------------------

    def nfresh(self):
        self.fresh += 1
        return self.fresh

    def sym_bool(self, name):
        b = z3.Bool(f"b_{name}_{self.nfresh()}")
        return SymBool(b)

    def sym_int(self, name, lo=None, hi=None):
        v = z3.Int(f"i_{name}_{self.nfresh()}")
        if lo is not None:
            self.solver.add(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
        if lo is not None or hi is not None:
            self.model = None
        return SymInt(v)

    def sym_id(self, name="n", distinct_from=()):
        """A fresh symbolic identifier, as a one-character string token."""
        k = self.n_ids
        self.n_ids += 1
        tok = chr(ID_LO + k)
        if ID_LO + k > ID_HI:
            raise Limit()
        self.id_names[tok] = name
        for o in distinct_from:
            r = snot(str_eq(tok, o))
            self.assume(r)
        return tok

    def sym_char(self, name="c", lo=1, hi=0x10FFFF):
        k = self.n_ch
        self.n_ch += 1
        tok = chr(CH_LO + k)
        if CH_LO + k > CH_HI:
            raise Limit()
        z = z3.Int(f"ch_{k}")
        self.ch_names[tok] = (name, z)
        self.solver.add(z >= lo, z <= hi)
        # surrogates cannot be written to files
        if hi >= 0xD800:
            self.solver.add(z3.Or(z < 0xD800, z > 0xDFFF))
        self.model = None
        return tok

    # -- identifiers: union find as a syntactic filter --------------------

    def const_id(self, text):
        v = self.const_ids.get(text)
        if v is None:
            v = CONST_BASE + len(self.const_ids)
            self.const_ids[text] = v
            self.const_text[v] = text
            if self.active and self.cats:
                for (pre, tok, suf), z in self.cats.items():
                    self.solver.add(_cat_const_axiom(pre, tok, suf, z, text, v))
                self.model = None
            if self.active and self.locals.get("preds"):
                for op, const in self.locals["preds"]:
                    f = {
                        "startswith": str.startswith,
                        "endswith": str.endswith,
                        "contains": str.__contains__,
                    }[op]
                    self.solver.add(pred(op, const)(z3.IntVal(v)) == bool(f(text, const)))
                self.model = None
        return v

    def uf_find(self, k):
        uf = self.uf
        while k in uf:
            k = uf[k]
        return k

    def uf_union(self, a, b):
        a = self.uf_find(a)
        b = self.uf_find(b)
        if a == b:
            return
        # prefer constants as representative
        if isinstance(a, int):
            a, b = b, a
        self.uf[a] = b
        if any(a in p for p in self.diseq):
            self.diseq = {
                frozenset(b if x == a else x for x in p) for p in self.diseq
            }

    def uf_diseq(self, a, b):
        a = self.uf_find(a)
        b = self.uf_find(b)
        if a != b:
            self.diseq.add(frozenset((a, b)))

    def uf_known(self, a, b):
        """True/False when (dis)equality follows, None when unknown"""
        a = self.uf_find(a)
        b = self.uf_find(b)
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        if frozenset((a, b)) in self.diseq:
            return False
        return None

    # -- concrete values for a model --------------------------------------

    def names(self):
        """Mapping of id token -> text for the current counterexample model"""
        if self._names is not None:
            return self._names
        m = self.model_for_text
        val = {}
        out = {}
        for tok in self.id_names:
            v = m.eval(id_z(tok), model_completion=True).as_long()
            val[tok] = v
        texts = {}
        used = set(self.const_text.values())
        # structured terms ("_" + x) first
        cats = []
        for (pre, tok, suf), z in self.cats.items():
            cats.append((m.eval(z, model_completion=True).as_long(), pre, tok, suf))
        catval = {c[0]: c for c in cats}

        order = sorted(set(val.values()))
        rank = {v: i for i, v in enumerate(order)}

        def text_of(v, depth=0):
            if v in texts:
                return texts[v]
            if v in self.const_text:
                t = self.const_text[v]
            elif v in catval and depth < 5:
                _, pre, tok, suf = catval[v]
                t = pre + text_of(val[tok], depth + 1) + suf
            else:
                t = self._generate(m, v, f"{rank.get(v, 0):02d}")
                if _lt_consts and E.order_used:
                    for n in _lt_consts.values():
                        # before the constants, most of which start with "_"
                        lt = _LT(z3.IntVal(v), z3.IntVal(n))
                        if z3.is_true(m.eval(lt)):
                            t = "N" + t[1:]
                while t in used:
                    t = t.replace("x", "xx", 1)
                used.add(t)
            texts[v] = t
            return t

        for tok, v in val.items():
            out[tok] = text_of(v)
        for tok, (nm, z) in self.ch_names.items():
            out[tok] = chr(m.eval(z, model_completion=True).as_long())
        self._names = out
        return out

    def _generate(self, m, v, no):
        """A name for which the predicates have their values in the model"""
        pre = suf = mid = ""
        false = []
        for op, const in self.locals.get("preds", ()):
            f = z3.Function(f"P_{op}_{const}", z3.IntSort(), z3.BoolSort())
            if not z3.is_true(m.eval(f(z3.IntVal(v)))):
                false.append((op, const))
            elif op == "startswith":
                pre = max(pre, const, key=len)
            elif op == "endswith":
                suf = max(suf, const, key=len)
            else:
                mid += const
        for c in "nqkwzjv":
            t = f"{pre}{c}{no}{mid}x{suf}"
            if not any(
                t.startswith(x) if op == "startswith" else
                t.endswith(x) if op == "endswith" else x in t
                for op, x in false
            ):
                break
        return t

    def conc(self, v):
        """Concrete version of *v* in the current counterexample model"""
        if type(v) is str or (isinstance(v, str) and not type(v) is SymBool):
            v = str(v)
            if v.isascii():
                return v
            names = self.names()
            return "".join(names.get(c, c) for c in v)
        if type(v) is SymBool:
            return z3.is_true(self.model_for_text.eval(v.z, model_completion=True))
        if type(v) is SymInt:
            return self.model_for_text.eval(v.z, model_completion=True).as_long()
        if isinstance(v, dict):
            return {self.conc(k): self.conc(x) for k, x in dict.items(v)} if type(
                v
            ) is dict else {self.conc(k): self.conc(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return type(v)(self.conc(x) for x in v) if type(v) in (list, tuple) else [
                self.conc(x) for x in v
            ]
        if isinstance(v, (set, frozenset)):
            return sorted({self.conc(x) for x in v.raw_items()} if hasattr(v, "raw_items") else {self.conc(x) for x in v})
        return v

    def witness(self):
        """Concretise with the model of the path condition of this path."""
        self.model_for_text = self._ensure_model()
        self._names = None

    def pin(self, s, why=""):
        """
        Fallback: replace symbolic parts of a string by the values in the
        current model (under-approximation, reported in the evidence).
        """
        if s.isascii() or not has_token(s):
            return s
        self.stats.pins += 1
        if why:
            self.stats.pin_sites.add(why)
        # Values must be the same when the path is re-executed, therefore the
        # chosen text is part of the recorded decisions.
        if self.pos < len(self.prefix):
            text = self.prefix[self.pos]
            self.pos += 1
        else:
            self.witness()
            text = self.conc(s)
        self.decisions.append(text)
        cond = str_eq(s, text)
        if type(cond) is SymBool:
            self.solver.add(cond.z)
            self.model = None
            if cond.eqs:
                for a, b in cond.eqs:
                    self.uf_union(a, b)
        return text


E = Engine()


def has_token(s):
    for c in s:
        if ID_LO <= ord(c) <= CH_HI:
            return True
    return False


def has_id(s):
    for c in s:
        if ID_LO <= ord(c) <= ID_HI:
            return True
    return False


def has_char(s):
    if s.isascii():
        return False
    for c in s:
        if CH_LO <= ord(c) <= CH_HI:
            return True
    return False


_idz = {}


def id_z(tok):
    z = _idz.get(tok)
    if z is None:
        z = _idz[tok] = z3.Int(f"id_{ord(tok) - ID_LO}")
    return z


def ch_z(c):
    """z3 term for one character of a string (token or concrete)"""
    o = ord(c)
    if CH_LO <= o <= CH_HI:
        return E.ch_names[c][1]
    return z3.IntVal(o)


def char_eq(a, b):
    if a == b:
        return True
    ta = CH_LO <= ord(a) <= CH_HI
    tb = CH_LO <= ord(b) <= CH_HI
    if not ta and not tb:
        return False
    key = ("ch", a, b)
    c = E.locals.get(key)
    if c is None:
        c = E.locals[key] = SymBool(ch_z(a) == ch_z(b))
    return c


def _split_atoms(comp):
    """Split a component in a list of const texts and id tokens"""
    out = []
    cur = ""
    for c in comp:
        if ID_LO <= ord(c) <= ID_HI:
            if cur:
                out.append((0, cur))
                cur = ""
            out.append((1, c))
        else:
            cur += c
    if cur or not out:
        out.append((0, cur))
    return out


def _key(atom):
    kind, t = atom
    return t if kind else E.const_id(t)


def _zatom(atom):
    kind, t = atom
    return id_z(t) if kind else z3.IntVal(E.const_id(t))


def _eq_simple(a, b):
    """equality of two single atom components"""
    if a == b:
        return True
    if not a[0] and not b[0]:
        return False
    if not a[0]:
        a, b = b, a
    if not b[0] and (not b[1].isidentifier() or b[1].startswith("zz_")):
        # zz_ is reserved for fixed helper names
        return False
    k = E.uf_known(_key(a), _key(b))
    if k is not None:
        return k
    ka, kb = _key(a), _key(b)
    key = ("eq", ka, kb) if str(ka) <= str(kb) else ("eq", kb, ka)
    c = E.locals.get(key)
    if c is None:
        c = E.locals[key] = SymBool(_zatom(a) == _zatom(b), [(ka, kb)])
    return c


def _cat_const_axiom(pre, tok, suf, z, text, v):
    if (
        text.startswith(pre)
        and text.endswith(suf)
        and len(text) > len(pre) + len(suf)
    ):
        inner = text[len(pre) : len(text) - len(suf)]
        if inner.isidentifier():
            return (z == v) == (id_z(tok) == E.const_id(inner))
    return z != v


def pred(op, const):
    return z3.Function(f"P_{op}_{const}", z3.IntSort(), z3.BoolSort())


def pred_cat_axiom(op, const, pre, tok, suf, z):
    """Value of a predicate for pre + tok + suf, as far as that is known"""
    f = pred(op, const)(z)
    if op == "startswith" and pre:
        if pre.startswith(const):
            return f
        if not const.startswith(pre):
            return z3.Not(f)
    elif op == "endswith" and suf:
        if suf.endswith(const):
            return f
        if not const.endswith(suf):
            return z3.Not(f)
    elif op == "contains" and (const in pre or const in suf):
        return f
    return z3.BoolVal(True)


def _cat(pre, tok, suf):
    key = (pre, tok, suf)
    z = E.cats.get(key)
    if z is None:
        f = z3.Function(f"cat_{pre}_{suf}", z3.IntSort(), z3.IntSort())
        z = f(id_z(tok))
        # Axioms for this term: not equal to its argument, injective, and
        # equal to a constant only when that has the right shape
        ax = [z != id_z(tok)]
        for (p2, t2, s2), z2 in E.cats.items():
            if (p2, s2) == (pre, suf):
                ax.append(z3.Implies(z == z2, id_z(tok) == id_z(t2)))
                ax.append(z3.Implies(id_z(tok) == id_z(t2), z == z2))
        for text, v in list(E.const_ids.items()):
            ax.append(_cat_const_axiom(pre, tok, suf, z, text, v))
        for op, const in E.locals.get("preds", ()):
            ax.append(pred_cat_axiom(op, const, pre, tok, suf, z))
        E.cats[key] = z
        E.solver.add(*ax)
        E.model = None
    return z


def _eq_comp(a, b):
    if a == b:
        return True
    a = _split_atoms(a)
    b = _split_atoms(b)
    if len(a) == 1 and len(b) == 1:
        return _eq_simple(a[0], b[0])
    # strip common constant prefix/suffix
    if not a[0][0] and not b[0][0]:
        pa, pb = a[0][1], b[0][1]
        n = 0
        while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
            n += 1
        if n < len(pa) and n < len(pb):
            return False
        a = ([(0, pa[n:])] if pa[n:] else []) + a[1:]
        b = ([(0, pb[n:])] if pb[n:] else []) + b[1:]
    if a and b and not a[-1][0] and not b[-1][0]:
        pa, pb = a[-1][1], b[-1][1]
        n = 0
        while n < len(pa) and n < len(pb) and pa[-1 - n] == pb[-1 - n]:
            n += 1
        if n < len(pa) and n < len(pb):
            return False
        a = a[:-1] + ([(0, pa[: len(pa) - n])] if pa[: len(pa) - n] else [])
        b = b[:-1] + ([(0, pb[: len(pb) - n])] if pb[: len(pb) - n] else [])
    if not a and not b:
        return True
    if not a or not b:
        # identifiers are not empty
        return False
    if len(a) == 1 and len(b) == 1:
        return _eq_simple(a[0], b[0])
    if len(a) == len(b) and all(x[0] and y[0] for x, y in zip(a, b)):
        pass
    # id against  text+id+text
    if len(b) == 1:
        a, b = b, a
    if len(a) == 1 and a[0][0] and sum(x[0] for x in b) == 1:
        i = [x[0] for x in b].index(1)
        pre = b[0][1] if i == 1 else ""
        suf = b[-1][1] if i < len(b) - 1 else ""
        if not (pre + "x" + suf).isidentifier():
            return False
        z = _cat(pre, b[i][1], suf)
        return SymBool(id_z(a[0][1]) == z)
    if all(not x[0] for x in a) and sum(x[0] for x in b) == 1:
        text = "".join(x[1] for x in a)
        i = [x[0] for x in b].index(1)
        pre = b[0][1] if i == 1 else ""
        suf = b[-1][1] if i < len(b) - 1 else ""
        if (
            text.startswith(pre)
            and text.endswith(suf)
            and len(text) > len(pre) + len(suf)
        ):
            return _eq_simple((1, b[i][1]), (0, text[len(pre) : len(text) - len(suf)]))
        return False
    sa = "".join(x[1] for x in a)
    sb = "".join(x[1] for x in b)
    if [x[0] for x in a] == [x[0] for x in b] and all(
        x[0] or x[1] == y[1] for x, y in zip(a, b)
    ):
        # same shape with separators between the holes: sufficient condition,
        # exact unless a hole can contain the separator text
        return sand(*[_eq_simple(x, y) for x, y in zip(a, b)])
    if sum(x[0] for x in a) == 1 and sum(x[0] for x in b) == 1:
        za, zb = (
            _cat(
                "" if x[0][0] else x[0][1],
                [t for i, t in x if i][0],
                "" if x[-1][0] else x[-1][1],
            )
            for x in (a, b)
        )
        return SymBool(za == zb)
    # out of reach: fall back to the values in the model
    return E.pin(sa, "string equality") == E.pin(sb, "string equality")


_SEP = re.compile(r"[^\w.]")
_SEPS = re.compile(r"(\W)")


def str_eq(a, b):
    """Symbolic equality of two (token) strings."""
    if str.__eq__(a, b):
        return True
    if a.isascii() and b.isascii():
        return False
    if not E.active:
        return False
    if has_char(a) or has_char(b):
        if has_id(a) or has_id(b):
            a = "".join(E.pin(c, "mixed string equality") if has_id(c) else c for c in a)
            b = "".join(E.pin(c, "mixed string equality") if has_id(c) else c for c in b)
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            c = char_eq(x, y)
            if c is False:
                return False
            out.append(c)
        return sand(*out)
    if _SEP.search(a) or _SEP.search(b):
        # identifiers have no separators
        ca = _SEPS.split(a)
        cb = _SEPS.split(b)
        if ca[1::2] != cb[1::2]:
            return False
        ca = ca[::2]
        cb = cb[::2]
    else:
        ca = a.split(".")
        cb = b.split(".")
    if len(ca) != len(cb):
        return False
    out = []
    for x, y in zip(ca, cb):
        c = _eq_comp(x, y)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    return sand(*out)


_LT = z3.Function("lt_const", z3.IntSort(), z3.IntSort(), z3.BoolSort())
_lt_consts = {}


def _lt_const(tok, const):
    n = _lt_consts.setdefault(const, len(_lt_consts))
    return _LT(id_z(tok), z3.IntVal(n))


def str_lt(a, b):
    """a < b; identifiers are ordered by their value in the model"""
    if a.isascii() and b.isascii():
        return a < b
    if has_char(a) or has_char(b):
        i = 0
        res = len(a) < len(b)
        n = min(len(a), len(b))
        for i in range(n - 1, -1, -1):
            za, zb = ch_z(a[i]), ch_z(b[i])
            res = mkbool(z3.simplify(z3.Or(za < zb, z3.And(za == zb, zbool(res)))))
        return res
    E.order_used = True
    ca = a.split(".")
    cb = b.split(".")
    n = min(len(ca), len(cb))
    res = len(ca) < len(cb)
    for i in range(n - 1, -1, -1):
        x = _split_atoms(ca[i])
        y = _split_atoms(cb[i])
        if len(x) != 1 or len(y) != 1 or not (x[0][0] and y[0][0]):
            if not x[0][0] and not y[0][0] and len(x) == 1 and len(y) == 1:
                if x[0][1] == y[0][1]:
                    continue
                res = x[0][1] < y[0][1]
                continue
            if len(x) == 1 and not x[0][0] and x[0][1] == "":
                res = True
                continue
            if len(y) == 1 and not y[0][0] and y[0][1] == "":
                res = False
                continue
            if len(x) == 1 and len(y) == 1:
                # an identifier and a constant: any order (over-approximation)
                if x[0][0]:
                    eq, lt = str_eq(ca[i], cb[i]), _lt_const(x[0][1], y[0][1])
                else:
                    eq = str_eq(ca[i], cb[i])
                    lt = z3.And(z3.Not(zbool(eq)), z3.Not(_lt_const(y[0][1], x[0][1])))
                eq = zbool(eq)
                res = mkbool(z3.simplify(z3.Or(z3.And(z3.Not(eq), lt), z3.And(eq, zbool(res)))))
                continue
            return E.pin(a, "string order") < E.pin(b, "string order")
        zx, zy = id_z(x[0][1]), id_z(y[0][1])
        res = mkbool(z3.simplify(z3.Or(zx < zy, z3.And(zx == zy, zbool(res)))))
    return res
