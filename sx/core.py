"""Paths, conditions, solver: the heart of the symbolic executor.

A *path* is one execution of a harness.  Inputs are integer variables with a
finite set of possible values (a character is its code point, an "atom" is an
index in a list of strings).  Whenever the code under test needs the truth
value of something that depends on the inputs, the path forks: z3 says which
of the two outcomes is possible under the path condition, and all possible
outcomes are explored by running the harness again.
"""
import math
import os
import time

import z3

from sx import charset
from sx.charset import CS

#: the context of the path being executed (None outside symbolic execution)
cur = None


class PathEnd(BaseException):
    """The path is given up (infeasible, outside the bounds, or a gap)."""


class Var:
    __slots__ = ("name", "dom", "z", "default", "dom_z", "serial")
    table = {}

    def __init__(self, name, dom, default):
        self.name = name
        self.dom = dom
        self.z = z3.Int(name)
        self.default = default
        self.dom_z = None

    @classmethod
    def get(cls, name, dom, prefer=()):
        key = (name, dom)
        v = cls.table.get(key)
        if v is None:
            default = dom.first()
            for p in prefer:
                if p in dom:
                    default = p
                    break
            v = cls.table[key] = cls(name, dom, default)
        return v

    # linear-term protocol
    def ev(self, assign):
        return assign[self.name]

    def bounds(self, known):
        return known[self.name].bounds()

    def zt(self):
        return self.z

    def __repr__(self):
        return self.name


def cs_z3(z, cs):
    parts = []
    for lo, hi in cs.r:
        if lo == hi:
            parts.append(z == lo)
        else:
            parts.append(z3.And(z >= lo, z <= hi))
    if not parts:
        return z3.BoolVal(False)
    if len(parts) == 1:
        return parts[0]
    return z3.Or(*parts)


class LenOf:
    """Length of the string an atom variable selects."""
    __slots__ = ("var", "lens", "name", "_z")
    table = {}

    def __init__(self, var, lens):
        self.var = var
        self.lens = lens
        self.name = "len!" + var.name
        self._z = None

    @classmethod
    def get(cls, var, lens):
        key = (var.name, var.dom, lens)
        t = cls.table.get(key)
        if t is None:
            t = cls.table[key] = cls(var, lens)
        return t

    def ev(self, assign):
        return self.lens[assign[self.var.name]]

    def bounds(self, known):
        ls = [self.lens[i] for i in known[self.var.name].values()]
        return min(ls), max(ls)

    def zt(self):
        if self._z is None:
            e = z3.IntVal(self.lens[-1])
            for i in range(len(self.lens) - 1):
                e = z3.If(self.var.z == i, z3.IntVal(self.lens[i]), e)
            self._z = e
        return self._z


# --------------------------------------------------------------------------
# conditions

class CTrue:
    __slots__ = ()

    def ev(self, a):
        return True

    def decide(self, known):
        return True

    def zt(self):
        return z3.BoolVal(True)

    def neg(self):
        return FALSE


class CFalse:
    __slots__ = ()

    def ev(self, a):
        return False

    def decide(self, known):
        return False

    def zt(self):
        return z3.BoolVal(False)

    def neg(self):
        return TRUE


TRUE = CTrue()
FALSE = CFalse()
_cin_z = {}


class CIn:
    __slots__ = ("var", "cs")

    def __init__(self, var, cs):
        self.var = var
        self.cs = cs

    def ev(self, a):
        return a[self.var.name] in self.cs

    def decide(self, known):
        k = known[self.var.name]
        x = k & self.cs
        if not x.r:
            return False
        if x.r == k.r:
            return True
        return None

    def zt(self):
        key = (self.var.name, self.cs)
        z = _cin_z.get(key)
        if z is None:
            z = _cin_z[key] = cs_z3(self.var.z, self.cs)
        return z

    def neg(self):
        return CNot(self)

    def __repr__(self):
        return "%s in %r" % (self.var, self.cs)


class CLin:
    """lin <= 0 or lin == 0"""
    __slots__ = ("op", "const", "terms")

    def __init__(self, op, const, terms):
        self.op = op
        self.const = const
        self.terms = terms  # tuple of (term, coef)

    def ev(self, a):
        v = self.const
        for t, c in self.terms:
            v += c * t.ev(a)
        return v <= 0 if self.op == "le" else v == 0

    def decide(self, known):
        lo = hi = self.const
        for t, c in self.terms:
            a, b = t.bounds(known)
            if c < 0:
                a, b = b, a
            lo += c * a
            hi += c * b
        if self.op == "le":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            if len(self.terms) == 2 and self.const == 0:
                (t, c), (u, d) = self.terms
                if c == -d and type(t) is Var and type(u) is Var:
                    if not (known[t.name] & known[u.name]).r:
                        return False
        return None

    def zt(self):
        e = z3.IntVal(self.const)
        for t, c in self.terms:
            e = e + (t.zt() if c == 1 else c * t.zt())
        return e <= 0 if self.op == "le" else e == 0

    def neg(self):
        return CNot(self)

    def __repr__(self):
        return "%s+%s %s 0" % (self.const, [(c, t) for t, c in self.terms],
                               self.op)


class CNot:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def ev(self, a):
        return not self.c.ev(a)

    def decide(self, known):
        d = self.c.decide(known)
        return None if d is None else not d

    def zt(self):
        return z3.Not(self.c.zt())

    def neg(self):
        return self.c

    def __repr__(self):
        return "not(%r)" % (self.c,)


class CAnd:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    def ev(self, a):
        return all(c.ev(a) for c in self.cs)

    def decide(self, known):
        res = True
        for c in self.cs:
            d = c.decide(known)
            if d is False:
                return False
            if d is None:
                res = None
        return res

    def zt(self):
        return z3.And(*[c.zt() for c in self.cs])

    def neg(self):
        return CNot(self)

    def __repr__(self):
        return "and%r" % (self.cs,)


class COr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    def ev(self, a):
        return any(c.ev(a) for c in self.cs)

    def decide(self, known):
        res = False
        for c in self.cs:
            d = c.decide(known)
            if d is True:
                return True
            if d is None:
                res = None
        return res

    def zt(self):
        return z3.Or(*[c.zt() for c in self.cs])

    def neg(self):
        return CNot(self)

    def __repr__(self):
        return "or%r" % (self.cs,)


def c_and(conds):
    out = []
    for c in conds:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return CAnd(tuple(out))


def c_or(conds):
    out = []
    for c in conds:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return COr(tuple(out))


def as_cond(x):
    if type(x) is SymBool:
        return x.c
    return TRUE if x else FALSE


def mk(c):
    """Python bool where decided, SymBool otherwise."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if cur is not None:
        d = c.decide(cur.known)
        if d is not None:
            return d
    return SymBool(c)


class SymBool:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return cur.branch(self.c)

    def __and__(self, o):
        return mk(c_and([self.c, as_cond(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mk(c_or([self.c, as_cond(o)]))
    __ror__ = __or__

    def __invert__(self):
        return mk(self.c.neg())

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "SymBool(%r)" % (self.c,)

    def __str__(self):
        return str(bool(self))


def sx_not(x):
    if type(x) is SymBool:
        return ~x
    return not x


def sx_and(*xs):
    return mk(c_and([as_cond(x) for x in xs]))


def sx_or(*xs):
    return mk(c_or([as_cond(x) for x in xs]))


# --------------------------------------------------------------------------
# integers: linear forms over variables

class SymInt:
    __slots__ = ("const", "terms")

    def __init__(self, const, terms):
        self.const = const
        self.terms = terms  # dict name -> (term, coef)

    # construction ------------------------------------------------------
    @staticmethod
    def make(const, terms):
        if not terms:
            return const
        return SymInt(const, terms)

    @staticmethod
    def of_var(v):
        return SymInt(0, {v.name: (v, 1)})

    def _lin(self, o):
        if type(o) is SymInt:
            return o.const, o.terms
        if type(o) is SymBool:
            return int(bool(o)), {}
        if isinstance(o, int):
            return int(o), {}
        return None

    def _comb(self, o, k):
        lin = self._lin(o)
        if lin is None:
            return NotImplemented
        const, terms = lin
        t = dict(self.terms)
        for n, (v, c) in terms.items():
            c = c * k
            if n in t:
                c += t[n][1]
                if c == 0:
                    del t[n]
                    continue
            t[n] = (v, c)
        return SymInt.make(self.const + k * const, t)

    def __add__(self, o):
        return self._comb(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._comb(o, -1)

    def __neg__(self):
        return SymInt.make(-self.const,
                           {n: (v, -c) for n, (v, c) in self.terms.items()})

    def __rsub__(self, o):
        return (-self)._comb(o, 1)

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0:
                return 0
            return SymInt.make(self.const * o, {
                n: (v, c * o) for n, (v, c) in self.terms.items()})
        if type(o) is SymInt:
            return self.__index__() * o
        if isinstance(o, (str, list, tuple)) or hasattr(o, "_sx_str"):
            return o * self.__index__()
        return NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, int) and o != 0:
            return SymRat(self, o) if o > 0 else SymRat(-self, -o)
        return self.__index__() / o

    def __floordiv__(self, o):
        return self.__index__() // o

    def __mod__(self, o):
        return self.__index__() % o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return divmod(self.__index__(), o)

    def __abs__(self):
        return self if self >= 0 else -self

    def __pos__(self):
        return self

    # comparisons -------------------------------------------------------
    def _cmp(self, op, o):
        if type(o) is SymRat:
            return NotImplemented
        if isinstance(o, float):
            if o != o or o in (float("inf"), -float("inf")):
                return NotImplemented
            if o != int(o):
                if op in ("eq", "ne"):
                    return op == "ne"
                o = math.floor(o) if op in ("le", "gt") else math.ceil(o)
            o = int(o)
        d = self._comb(o, -1)
        if d is NotImplemented:
            return NotImplemented
        return lin_cmp(op, d)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __eq__(self, o):
        r = self._cmp("eq", o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return sx_not(self == o)

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(lin_cmp("ne", self))

    def __index__(self):
        return cur.concretize_int(self)
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __repr__(self):
        return "SymInt(%s, %s)" % (self.const, self.terms)

    def ev(self, a):
        v = self.const
        for t, c in self.terms.values():
            v += c * t.ev(a)
        return v

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.__index__(), name)

    __class__ = property(lambda self: int)


class SymRat:
    """SymInt divided by a positive constant; only comparisons."""
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def _cmp(self, op, o):
        if type(o) is SymRat:
            return lin_cmp(op, self.num * o.den - o.num * self.den)
        if isinstance(o, float):
            if o != int(o):
                return getattr(self.num.__index__() / self.den,
                               "__%s__" % op)(o)
            o = int(o)
        return lin_cmp(op, self.num - o * self.den)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __eq__(self, o):
        return self._cmp("eq", o)

    def __ne__(self, o):
        return sx_not(self._cmp("eq", o))

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self.num)

    def __float__(self):
        return self.num.__index__() / self.den

    def __int__(self):
        return int(self.num.__index__() / self.den)


def lin_cmp(op, d):
    """d <op> 0 for an int or SymInt d."""
    if type(d) is not SymInt:
        return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0,
                "eq": d == 0, "ne": d != 0}[op]
    if op in ("gt", "ge"):
        d = -d
        op = {"gt": "lt", "ge": "le"}[op]
    const = d.const
    if op == "lt":
        const += 1
        op = "le"
    terms = tuple(d.terms.values())
    if op in ("eq", "ne"):
        if len(terms) == 1 and type(terms[0][0]) is Var:
            v, c = terms[0]
            if const % c:
                cond = FALSE
            else:
                cond = CIn(v, charset.single(-const // c))
        else:
            cond = CLin("eq", const, terms)
        if op == "ne":
            cond = cond.neg()
        return mk(cond)
    return mk(CLin("le", const, terms))


# --------------------------------------------------------------------------
# one path

class Ctx:
    symbolic = True

    def __init__(self, ex, prefix, assign):
        self.ex = ex
        self.prefix = prefix
        self.assign = dict(assign)
        self.known = {}
        self.vars = {}
        self.ndec = 0
        self.decisions = []
        self.fanout = []
        self.alts = []        # open alternatives found on this path
        self.pc = []
        self.aborted = None
        self.gaps = []
        self.checks = 0
        self.failures = []
        self.obs = []
        self.covered = set()
        self.notes = {}
        self.hash_counter = 0
        self.sym_keys = False
        self.events = 0
        self.warnings = []
        self.params = {}

    # -- plumbing -------------------------------------------------------
    def abort(self, why):
        self.aborted = why
        raise PathEnd(why)

    def gap(self, what):
        self.gaps.append(what)

    def _fact(self, cond):
        """A constraint that holds from here on, not a decision."""
        self.pc.append(cond)
        if not self.ex.replaying:
            self.ex.assert_(cond)

    def var(self, name, dom, prefer=(97,)):
        v = self.vars.get(name)
        if v is not None:
            if v.dom != dom:
                raise AssertionError("variable %s redefined" % name)
            return v
        v = Var.get(name, dom, prefer)
        self.vars[name] = v
        self.known[name] = dom
        if name not in self.assign or self.assign[name] not in dom:
            self.assign[name] = v.default
        self._fact(CIn(v, dom))
        return v

    def _narrow(self, cond, val):
        t = type(cond)
        if t is CNot:
            self._narrow(cond.c, not val)
        elif t is CIn:
            n = cond.var.name
            if val:
                self.known[n] = self.known[n] & cond.cs
            else:
                self.known[n] = self.known[n] - cond.cs
        elif t is CAnd and val:
            for c in cond.cs:
                self._narrow(c, True)
        elif t is COr and not val:
            for c in cond.cs:
                self._narrow(c, False)

    def _take(self, cond):
        """Commit to cond (already counted as a decision)."""
        self.pc.append(cond)
        self._narrow(cond, True)

    def branch(self, cond):
        if self.aborted:
            raise PathEnd(self.aborted)
        d = cond.decide(self.known)
        if d is not None:
            return d
        ex = self.ex
        i = self.ndec
        if i < len(self.prefix):
            val = bool(self.prefix[i])
            c = cond if val else cond.neg()
            ex.decide(i, c)
        else:
            val = cond.ev(self.assign)
            other = cond.neg() if val else cond
            model = ex.feasible(other)
            if model:
                self.alts.append((self.decisions + [int(not val)],
                                  {**self.assign, **model}))
            elif model is None:
                self.gap("solver-unknown")
            c = cond if val else cond.neg()
            ex.decide(i, c)
        self.ndec += 1
        self.decisions.append(int(val))
        self._take(c)
        return val

    def concretize_int(self, s, limit=4096):
        """Fork over the possible values of a SymInt."""
        for _ in range(limit):
            if self.aborted:
                raise PathEnd(self.aborted)
            lo = hi = s.const
            for t, c in s.terms.values():
                a, b = t.bounds(self.known)
                if c < 0:
                    a, b = b, a
                lo += c * a
                hi += c * b
            if lo == hi:
                return lo
            i = self.ndec
            ex = self.ex
            if i < len(self.prefix):
                v, val = self.prefix[i]
                cond = as_cond(lin_cmp("eq", s - v))
            else:
                v = s.ev(self.assign)
                val = 1
                cond = as_cond(lin_cmp("eq", s - v))
                model = ex.feasible(cond.neg())
                if model:
                    self.alts.append((self.decisions + [(v, 0)],
                                      {**self.assign, **model}))
                elif model is None:
                    self.gap("solver-unknown")
            c = cond if val else cond.neg()
            ex.decide(i, c)
            self.ndec += 1
            self.decisions.append((v, val))
            self._take(c)
            if val:
                return v
        self.abort("concretisation limit")

    # -- inputs ---------------------------------------------------------
    def choose(self, name, n):
        """Fresh n-way choice, decided at once."""
        if self.aborted:
            raise PathEnd(self.aborted)
        if n == 1:
            return 0
        v = self.var("?" + name, CS(((0, n - 1),)), prefer=(0,))
        k = self.known[v.name].single()
        if k is not None:
            return k
        i = self.ndec
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            val = 0
            if v.name in self.params:
                val = self.params[v.name]
            else:
                for j in range(1, n):
                    m = dict(self.assign)
                    m[v.name] = j
                    self.alts.append((self.decisions + [j], m))
            self.assign[v.name] = val
        c = CIn(v, charset.single(val))
        self.ex.decide(i, c)
        self.ndec += 1
        self.decisions.append(val)
        self._take(c)
        return val

    def pick(self, name, seq):
        return seq[self.choose(name, len(seq))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def sbool(self, name):
        v = self.var("!" + name, CS(((0, 1),)), prefer=(0,))
        return mk(CIn(v, charset.single(1)))

    def int(self, name, lo, hi):
        v = self.var("#" + name, CS(((lo, hi),)), prefer=(lo,))
        return SymInt.of_var(v)

    def chars(self, name, n, dom=charset.ANY):
        from sx.symstr import SymChar, SymStr
        return SymStr.make([SymChar(self.var("%s.%d" % (name, i), dom), 0)
                            for i in range(n)])

    def text(self, name, maxlen, dom=charset.ANY, minlen=0):
        n = minlen + self.choose(name + "#len", maxlen - minlen + 1)
        return self.chars(name, n, dom)

    def atom(self, name, strings):
        from sx.symstr import Atom, SymStr
        strings = tuple(strings)
        v = self.var("@" + name, CS(((0, len(strings) - 1),)), prefer=(0,))
        return SymStr.make([Atom(v, strings)])

    def assume(self, cond):
        c = as_cond(cond)
        d = c.decide(self.known)
        if d is True:
            return
        if d is False:
            self.abort("assume")
        if self.ndec < len(self.prefix):
            self._fact(c)
            self._narrow(c, True)
            return
        if c.ev(self.assign):
            self._fact(c)
            self._narrow(c, True)
            return
        m = self.ex.feasible(c)
        if not m:
            self.abort("assume")
        self.assign.update(m)
        self._fact(c)
        self._narrow(c, True)

    # -- outputs --------------------------------------------------------
    def check(self, cond, label, detail=None):
        if self.aborted:
            raise PathEnd(self.aborted)
        if self.ndec < len(self.prefix):
            # checked already when the prefix was first executed
            return True
        self.checks += 1
        c = as_cond(cond)
        d = c.decide(self.known)
        ex = self.ex
        if d is True:
            ex.stats["trivial"] += 1
            return True
        if d is False:
            self.failures.append((label, dict(self.assign),
                                  self._detail(detail)))
            return False
        m = ex.feasible(c.neg(), kind="assert")
        if m is False:
            return True
        if m is None:
            self.gap("solver-unknown")
            return True
        full = dict(self.assign)
        full.update(m)
        self.failures.append((label, full, self._detail(detail)))
        return False

    def _detail(self, detail):
        try:
            return detail() if callable(detail) else detail
        except Exception as e:  # pragma: no cover
            return "detail failed: %r" % e

    def warning_texts(self):
        """What the warnings say."""
        return list(self.warnings)

    def warned(self):
        """The number of warnings issued."""
        return len(self.warnings)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, name, value):
        self.obs.append((name, value))

    def value(self, x):
        """Concrete JSON-able value of x under the current assignment."""
        return concrete(x, self.assign)


def concrete(x, assign):
    t = type(x)
    if x is None or t in (bool, int, str, float):
        return x
    if t is SymBool:
        return x.c.ev(assign)
    if t is SymInt:
        return x.ev(assign)
    if hasattr(t, "_sx_str"):
        return x.concrete(assign)
    if isinstance(x, str):
        return str(x)
    if t in (list, tuple) or isinstance(x, (list, tuple)):
        return [concrete(i, assign) for i in x]
    if isinstance(x, dict):
        return sorted([[concrete(k, assign), concrete(v, assign)]
                       for k, v in x.items()], key=repr)
    return repr(type(x).__name__)


class Explorer:
    """Depth-first exploration of one harness by re-execution."""

    def __init__(self, seed=1, timeout_ms=20000):
        self.solver = z3.SolverFor("QF_LIA")
        self.solver.set("timeout", timeout_ms)
        self.solver.set("random_seed", seed)
        self.stack = []       # decisions asserted, one solver level each
        self.synced = 0
        self.replaying = False
        self.fresh = True
        self.stats = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0,
                      "solver_s": 0.0, "asserts": 0, "assert_unsat": 0,
                      "trivial": 0, "decisions": 0, "facts": 0}

    # -- solver ---------------------------------------------------------
    def assert_(self, cond):
        self.stats["facts"] += 1
        self.solver.add(cond.zt())

    def decide(self, i, cond):
        if i < self.synced:
            return
        self.replaying = False
        self.synced = i + 1
        self.solver.push()
        self.solver.add(cond.zt())
        self.stack.append(cond)
        self.stats["decisions"] += 1

    def feasible(self, cond, kind="branch"):
        s = self.solver
        t = time.perf_counter()
        s.push()
        s.add(cond.zt())
        r = s.check()
        st = self.stats
        st["queries"] += 1
        if kind == "assert":
            st["asserts"] += 1
        if r == z3.sat:
            m = s.model()
            res = {}
            for d in m.decls():
                if d.arity() == 0:
                    val = m[d]
                    if z3.is_int_value(val):
                        res[d.name()] = val.as_long()
            st["sat"] += 1
        elif r == z3.unsat:
            res = False
            st["unsat"] += 1
            if kind == "assert":
                st["assert_unsat"] += 1
        else:
            res = None
            st["unknown"] += 1
        s.pop()
        st["solver_s"] += time.perf_counter() - t
        return res

    def sync(self, prefix, last):
        """Pop the solver back to what `prefix` shares with the last path."""
        n = 0
        while n < len(prefix) and n < len(last) and prefix[n] == last[n]:
            n += 1
        # levels 0..n survive
        while len(self.stack) > n:
            self.solver.pop()
            self.stack.pop()
        self.synced = n
        self.replaying = not self.fresh
        self.fresh = False

    def reset(self):
        while self.stack:
            self.solver.pop()
            self.stack.pop()
        self.solver.reset()
        self.synced = 0
        self.replaying = False
        self.fresh = True


def _force(self, el):
    """Fix a symbolic element to its value in the current model.

    The other values are not explored: the caller records a gap."""
    if self.aborted:
        raise PathEnd(self.aborted)
    v = el.var
    k = self.known[v.name].single()
    if k is None:
        self.gap("forced value")
        i = self.ndec
        val = self.prefix[i] if i < len(self.prefix) else self.assign[v.name]
        c = CIn(v, charset.single(val))
        self.ex.decide(i, c)
        self.ndec += 1
        self.decisions.append(val)
        self._take(c)
    return el.concrete({v.name: self.known[v.name].single()})


Ctx.force = _force
