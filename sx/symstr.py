"""Strings with symbolic parts.

A SymStr is a list of pieces: concrete runs (str), symbolic characters
(SymChar) and atoms (an unknown choice from a fixed list of strings, kept
whole as long as possible).  The number of pieces is concrete on each path.
A string without symbolic pieces is always an ordinary str.
"""
from string import Formatter

from sx import charset
from sx import core
from sx.charset import CS
from sx.core import CIn
from sx.core import CLin
from sx.core import LenOf
from sx.core import SymBool
from sx.core import SymInt
from sx.core import TRUE
from sx.core import FALSE
from sx.core import c_and
from sx.core import c_or
from sx.core import mk


class SymChar:
    __slots__ = ("var", "off")

    def __init__(self, var, off=0):
        self.var = var
        self.off = off

    def ord_(self):
        return SymInt(self.off, {self.var.name: (self.var, 1)})

    def isin(self, cs):
        """Condition: this character is in the set."""
        return CIn(self.var, cs.shift(-self.off))

    def known(self):
        return core.cur.known[self.var.name].shift(self.off)

    def concrete(self, a):
        return chr(a[self.var.name] + self.off)

    def __repr__(self):
        return "<%s%s>" % (self.var.name, "%+d" % self.off if self.off else "")


class EscChar(SymChar):
    """Source text of a character, escaped as the markup requires.

    Only appears in template source; the lexers turn it into the SymChar."""
    __slots__ = ("ctx",)

    def concrete(self, a):
        from sx.source import esc_attr
        return esc_attr(chr(a[self.var.name] + self.off), self.ctx)


class Atom:
    __slots__ = ("var", "strings", "_chars")

    def __init__(self, var, strings):
        self.var = var
        self.strings = strings
        self._chars = None

    def length(self):
        ls = tuple(map(len, self.strings))
        k = core.cur.known[self.var.name]
        pos = {ls[i] for i in k.values()}
        if len(pos) == 1:
            return pos.pop()
        t = LenOf.get(self.var, ls)
        return SymInt(0, {t.name: (t, 1)})

    def may_contain(self, sub):
        k = core.cur.known[self.var.name]
        return any(sub in self.strings[i] for i in k.values())

    def charset(self):
        k = core.cur.known[self.var.name]
        return set("".join([self.strings[i] for i in k.values()]))

    def eq_str(self, s):
        return CIn(self.var, charset.of_ints(
            [i for i, x in enumerate(self.strings) if x == s]))

    def concrete(self, a):
        return self.strings[a[self.var.name]]

    def nonempty(self):
        return all(self.strings)

    def __repr__(self):
        return "<@%s>" % self.var.name


def el_eq(a, b):
    """Condition that two one-character elements are equal."""
    if type(a) is str:
        if type(b) is str:
            return TRUE if a == b else FALSE
        a, b = b, a
    if type(b) is str:
        return CIn(a.var, charset.single(ord(b) - a.off))
    if a.var is b.var:
        return TRUE if a.off == b.off else FALSE
    return CLin("eq", a.off - b.off, ((a.var, 1), (b.var, -1)))


def el_in(a, cs):
    if type(a) is str:
        return TRUE if ord(a) in cs else FALSE
    return a.isin(cs)


def test(cond):
    return bool(mk(cond))


WS = None


def ws():
    global WS
    if WS is None:
        WS = charset.predicate("isspace")
    return WS


_case = {}


def case_changed(name):
    """(ascii set shifted by +-32, other characters the method changes)"""
    if name not in _case:
        m = getattr(str, name)
        ch = charset.of_predicate(lambda c: m(c) != c)
        asc = CS(((65, 90),)) if name in ("lower", "casefold") \
            else CS(((97, 122),))
        _case[name] = (asc, ch - asc)
    return _case[name]


class SymStr:
    __slots__ = ("p", "_hash")
    _sx_str = True

    def __init__(self, pieces):
        self.p = pieces
        self._hash = None

    # -- construction ----------------------------------------------------
    @staticmethod
    def make(pieces):
        out = []
        sym = False
        known = core.cur.known if core.cur is not None else {}
        for x in pieces:
            t = type(x)
            if t is str:
                if not x:
                    continue
            elif t is SymChar:
                k = known.get(x.var.name)
                v = k.single() if k is not None else None
                if v is None:
                    sym = True
                    out.append(x)
                    continue
                x = chr(v + x.off)
            elif t is Atom:
                k = known.get(x.var.name)
                v = k.single() if k is not None else None
                if v is None:
                    sym = True
                    out.append(x)
                    continue
                x = x.strings[v]
            else:
                sym = True
                out.append(x)
                continue
            if out and type(out[-1]) is str:
                out[-1] += x
            else:
                out.append(x)
        if not sym:
            return out[0] if out else ""
        return SymStr(out)

    @staticmethod
    def wrap(s):
        if isinstance(type(s), type) and hasattr(type(s), "_sx_str"):
            return s
        return SymStr([str(s)] if s else [])

    # -- access ----------------------------------------------------------
    def has_atoms(self):
        for x in self.p:
            if type(x) is Atom:
                return True
        return False

    def deatom(self):
        """Fork until no atom is left."""
        if not self.has_atoms():
            return self
        out = []
        for x in self.p:
            if type(x) is Atom:
                i = core.cur.concretize_int(SymInt.of_var(x.var)) \
                    if core.cur.known[x.var.name].single() is None \
                    else core.cur.known[x.var.name].single()
                x = x.strings[i]
            out.append(x)
        return SymStr.wrap(SymStr.make(out))

    def flat(self):
        s = self.deatom()
        out = []
        for x in s.p:
            if type(x) is str:
                out.extend(x)
            else:
                out.append(x)
        return out

    def concrete(self, assign):
        return "".join([x if type(x) is str else x.concrete(assign)
                        for x in self.p])

    def concretize(self):
        """Give up on symbolic reasoning: fix to the current model."""
        ctx = core.cur
        ctx.gap("concretised string")
        out = []
        for x in self.p:
            if type(x) is str:
                out.append(x)
            else:
                out.append(ctx.force(x))
        return "".join(out)

    def length(self):
        n = 0
        for x in self.p:
            t = type(x)
            if t is str:
                n += len(x)
            elif t is Atom:
                n = n + x.length()
            else:
                n += 1
        return n

    def __len__(self):
        n = self.length()
        return n if type(n) is int else n.__index__()

    def __bool__(self):
        for x in self.p:
            if type(x) is not Atom or x.nonempty():
                return True
        return len(self) > 0

    # -- python protocol ---------------------------------------------------
    __class__ = property(lambda self: str)

    def __hash__(self):
        ctx = core.cur
        ctx.sym_keys = True
        if self._hash is None:
            ctx.hash_counter += 1
            self._hash = 0x5a5a0000 + ctx.hash_counter
        return self._hash

    def __repr__(self):
        return "SymStr%r" % (self.p,)

    def __str__(self):
        return self.concretize()

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def eq_cond(self, o):
        if o is self:
            return TRUE
        if not is_str(o):
            return FALSE
        o = SymStr.wrap(o)
        if not (self.has_atoms() or o.has_atoms()):
            a, b = self.flat(), o.flat()
            if len(a) != len(b):
                return FALSE
            return c_and([el_eq(x, y) for x, y in zip(a, b)])
        # single atom against a constant
        for x, y in ((self, o), (o, self)):
            if len(x.p) == 1 and type(x.p[0]) is Atom:
                if not y.p:
                    return x.p[0].eq_str("")
                if len(y.p) == 1:
                    if type(y.p[0]) is str:
                        return x.p[0].eq_str(y.p[0])
                    if type(y.p[0]) is Atom:
                        return atom_eq(x.p[0], y.p[0])
        r = rope_eq(self.p, o.p)
        if r is not None:
            return r
        a, b = self.flat(), o.flat()
        if len(a) != len(b):
            return FALSE
        return c_and([el_eq(x, y) for x, y in zip(a, b)])

    def __eq__(self, o):
        return mk(self.eq_cond(o))

    def __ne__(self, o):
        return mk(self.eq_cond(o).neg())

    def _order(self, o, lt, end):
        if not is_str(o):
            return NotImplemented
        a, b = self.flat(), SymStr.wrap(o).flat()
        for x, y in zip(a, b):
            if test(el_eq(x, y)):
                continue
            x = ord(x) if type(x) is str else x.ord_()
            y = ord(y) if type(y) is str else y.ord_()
            return (x < y) if lt else (x > y)
        return end(len(a), len(b))

    def __lt__(self, o):
        return self._order(o, True, lambda x, y: x < y)

    def __le__(self, o):
        return self._order(o, True, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._order(o, False, lambda x, y: x > y)

    def __ge__(self, o):
        return self._order(o, False, lambda x, y: x >= y)

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return SymStr.make(self.p + (o.p if hasattr(type(o), "_sx_str")
                                     else [str(o)]))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return SymStr.make([str(o)] + self.p)

    def __mul__(self, n):
        return SymStr.make(self.p * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        if not has_percent(self):
            if args == ():
                return self
        return self.concretize() % args

    def __iter__(self):
        for x in self.flat():
            yield x if type(x) is str else SymStr.make([x])

    def __contains__(self, sub):
        return test(self.contains_cond(sub))

    def contains_cond(self, sub):
        if not is_str(sub):
            raise TypeError("'in <string>' requires string as left operand, "
                            "not %s" % type(sub).__name__)
        sub = SymStr.wrap(sub)
        if not sub.p:
            return TRUE
        if len(sub.p) == 1 and type(sub.p[0]) is str and len(sub.p[0]) == 1:
            c = sub.p[0]
            conds = []
            for x in self.p:
                if type(x) is str:
                    if c in x:
                        return TRUE
                elif type(x) is Atom:
                    conds.append(CIn(x.var, charset.of_ints(
                        [i for i, s in enumerate(x.strings) if c in s])))
                else:
                    conds.append(el_eq(x, c))
            return c_or([k for k in conds
                         if not (type(k) is CIn and not k.cs.r)])
        if sub.has_atoms() is False and self.has_atoms():
            ss = sub.p
            if len(ss) == 1 and type(ss[0]) is str and not any(
                    set(x.charset()) & set(ss[0])
                    for x in self.p if type(x) is Atom):
                # no atom can overlap an occurrence
                conds = []
                run = []
                for x in self.p + [None]:
                    if type(x) is Atom or x is None:
                        if run:
                            conds.append(as_c(SymStr.wrap(SymStr.make(run))
                                              .contains_cond(sub)))
                        run = []
                    else:
                        run.append(x)
                return c_or(conds)
        a, b = self.flat(), sub.flat()
        return c_or([c_and([el_eq(x, y) for x, y in zip(a[i:], b)])
                     for i in range(len(a) - len(b) + 1)])

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.has_atoms():
                r = self._atom_slice(k)
                if r is not None:
                    return r
            f = self.flat()
            return SymStr.make(f[_idx(k.start):_idx(k.stop):_idx(k.step)])
        f = self.flat()
        return SymStr.make([f[_idx(k)]])

    def _atom_slice(self, k):
        """Common slices next to an atom without forking over it."""
        if k.step is not None:
            return None
        a, b = k.start, k.stop
        if type(a) is SymInt or type(b) is SymInt:
            return None
        a = 0 if a is None else a
        p = list(self.p)
        if a < 0 or (b is not None and b < 0):
            return None
        out = []
        pos = 0
        for i, x in enumerate(p):
            if type(x) is Atom:
                # the atom must be entirely after the end or before nothing
                if b is None and pos >= a:
                    out.extend(p[i:])
                    return SymStr.make(out)
                if b is not None and pos >= b:
                    break
                return None
            s = x if type(x) is str else [x]
            for ch in s:
                if pos >= a and (b is None or pos < b):
                    out.append(ch)
                pos += 1
        return SymStr.make(out)

    def __reduce__(self):
        raise TypeError("cannot pickle a symbolic string")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.concretize(), name)

    # -- searching ---------------------------------------------------------
    def _range(self, n, start, end):
        start = 0 if start is None else _idx(start)
        end = n if end is None else _idx(end)
        if start < 0:
            start = max(0, start + n)
        if end < 0:
            end = max(0, end + n)
        return start, min(end, n)

    def find(self, sub, start=None, end=None):
        if start is None and end is None:
            r = self._find1(sub, False)
            if r is not None:
                return r
        f = self.flat()
        b = SymStr.wrap(sub).flat()
        start, end = self._range(len(f), start, end)
        for i in range(start, end - len(b) + 1):
            if test(c_and([el_eq(x, y) for x, y in zip(f[i:], b)])):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        if start is None and end is None:
            r = self._find1(sub, True)
            if r is not None:
                return r
        f = self.flat()
        b = SymStr.wrap(sub).flat()
        start, end = self._range(len(f), start, end)
        for i in range(end - len(b), start - 1, -1):
            if test(c_and([el_eq(x, y) for x, y in zip(f[i:], b)])):
                return i
        return -1

    def _find1(self, sub, rev):
        """find/rfind of one concrete character, keeping atoms."""
        if type(sub) is not str or len(sub) != 1:
            return None
        for x in self.p:
            if type(x) is Atom and x.may_contain(sub):
                return None
        pos = []
        n = 0
        for x in self.p:
            pos.append(n)
            t = type(x)
            n = n + (len(x) if t is str else x.length() if t is Atom else 1)
        rng = range(len(self.p))
        for i in (reversed(rng) if rev else rng):
            x = self.p[i]
            if type(x) is str:
                j = x.rfind(sub) if rev else x.find(sub)
                if j >= 0:
                    return pos[i] + j
            elif type(x) is not Atom:
                if test(el_eq(x, sub)):
                    return pos[i]
        return -1

    def index(self, *a):
        i = self.find(*a)
        if lt0(i):
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if lt0(i):
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        f = self.flat()
        b = SymStr.wrap(sub).flat()
        start, end = self._range(len(f), start, end)
        if not b:
            return max(0, end - start + 1)
        n = 0
        i = start
        while i <= end - len(b):
            if test(c_and([el_eq(x, y) for x, y in zip(f[i:], b)])):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def startswith(self, pre, start=None, end=None):
        if type(pre) is tuple:
            return any(self.startswith(x, start, end) for x in pre)
        if start is None and end is None and type(pre) is str:
            # keep atoms if the concrete head decides
            if self.p and type(self.p[0]) is str and (
                    len(self.p[0]) >= len(pre)
                    or not pre.startswith(self.p[0])):
                return self.p[0].startswith(pre)
            if self.p and type(self.p[0]) is Atom:
                a = self.p[0]
                k = core.cur.known[a.var.name]
                ss = [a.strings[i] for i in k.values()]
                if all(len(s) >= len(pre) or not pre.startswith(s)
                       for s in ss):
                    return mk(CIn(a.var, charset.of_ints(
                        [i for i, s in enumerate(a.strings)
                         if s.startswith(pre)])))
        f = self.flat()
        b = SymStr.wrap(pre).flat()
        start, end = self._range(len(f), start, end)
        f = f[start:end]
        if len(b) > len(f):
            return False
        return mk(c_and([el_eq(x, y) for x, y in zip(f, b)]))

    def endswith(self, suf, start=None, end=None):
        if type(suf) is tuple:
            return any(self.endswith(x, start, end) for x in suf)
        f = self.flat()
        b = SymStr.wrap(suf).flat()
        start, end = self._range(len(f), start, end)
        f = f[start:end]
        if len(b) > len(f):
            return False
        if not b:
            return True
        return mk(c_and([el_eq(x, y) for x, y in zip(f[-len(b):], b)]))

    def removeprefix(self, pre):
        if self.startswith(pre):
            return self[len(pre):]
        return self

    def removesuffix(self, suf):
        if suf and self.endswith(suf):
            return self[:-len(suf)]
        return self

    # -- rebuilding ----------------------------------------------------------
    def replace(self, old, new, count=-1):
        if type(old) is str and len(old) == 1 and count == -1 and not any(
                type(x) is Atom and x.may_contain(old) for x in self.p):
            out = []
            nn = SymStr.wrap(new).p
            for x in self.p:
                if type(x) is str:
                    if len(nn) == 1 and type(nn[0]) is str or not nn:
                        out.append(x.replace(old, nn[0] if nn else ""))
                    else:
                        parts = x.split(old)
                        for i, q in enumerate(parts):
                            if i:
                                out.extend(nn)
                            out.append(q)
                elif type(x) is Atom:
                    out.append(x)
                elif test(el_eq(x, old)):
                    out.extend(nn)
                else:
                    out.append(x)
            return SymStr.make(out)
        f = self.flat()
        b = SymStr.wrap(old).flat()
        nn = SymStr.wrap(new).p
        count = _idx(count)
        out = []
        i = 0
        if not b:
            for x in f:
                if count != 0:
                    out.extend(nn)
                    count -= 1
                out.append(x)
            if count != 0:
                out.extend(nn)
            return SymStr.make(out)
        while i < len(f):
            if count != 0 and i + len(b) <= len(f) and test(
                    c_and([el_eq(x, y) for x, y in zip(f[i:], b)])):
                out.extend(nn)
                i += len(b)
                count -= 1
            else:
                out.append(f[i])
                i += 1
        return SymStr.make(out)

    def split(self, sep=None, maxsplit=-1):
        if type(sep) is str and sep and self.has_atoms() and not any(
                type(x) is Atom and set(x.charset()) & set(sep)
                for x in self.p):
            out = []
            curp = []
            if len(sep) == 1:
                left = _idx(maxsplit)
                for x in self.p:
                    if type(x) is str:
                        parts = x.split(sep, left) if left != 0 else [x]
                        curp.append(parts[0])
                        for q in parts[1:]:
                            out.append(SymStr.make(curp))
                            curp = [q]
                            left -= 1
                    elif type(x) is Atom:
                        curp.append(x)
                    elif left != 0 and test(el_eq(x, sep)):
                        out.append(SymStr.make(curp))
                        curp = []
                        left -= 1
                    else:
                        curp.append(x)
                out.append(SymStr.make(curp))
                return out
        f = self.flat()
        maxsplit = _idx(maxsplit)
        out = []
        if sep is None:
            W = ws()
            i = 0
            n = len(f)
            while True:
                while i < n and test(el_in(f[i], W)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and test(el_in(f[j - 1], W)):
                        j -= 1
                    out.append(SymStr.make(f[i:j]))
                    break
                j = i
                while j < n and not test(el_in(f[j], W)):
                    j += 1
                out.append(SymStr.make(f[i:j]))
                i = j
            return out
        b = SymStr.wrap(sep).flat()
        if not b:
            raise ValueError("empty separator")
        i = st = 0
        while i <= len(f) - len(b):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if test(c_and([el_eq(x, y) for x, y in zip(f[i:], b)])):
                out.append(SymStr.make(f[st:i]))
                i += len(b)
                st = i
            else:
                i += 1
        out.append(SymStr.make(f[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = _idx(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        f = self.flat()
        out = []
        if sep is None:
            W = ws()
            i = len(f)
            while True:
                while i > 0 and test(el_in(f[i - 1], W)):
                    i -= 1
                if i <= 0:
                    break
                if len(out) >= maxsplit:
                    j = 0
                    while j < i and test(el_in(f[j], W)):
                        j += 1
                    out.append(SymStr.make(f[j:i]))
                    break
                j = i
                while j > 0 and not test(el_in(f[j - 1], W)):
                    j -= 1
                out.append(SymStr.make(f[j:i]))
                i = j
            out.reverse()
            return out
        b = SymStr.wrap(sep).flat()
        i = len(f) - len(b)
        en = len(f)
        while i >= 0 and len(out) < maxsplit:
            if test(c_and([el_eq(x, y) for x, y in zip(f[i:], b)])):
                out.append(SymStr.make(f[i + len(b):en]))
                en = i
                i -= len(b)
            else:
                i -= 1
        out.append(SymStr.make(f[:en]))
        out.reverse()
        return out

    def partition(self, sep):
        p = self.split(sep, 1)
        if len(p) == 1:
            return (p[0], "", "")
        return (p[0], sep, p[1])

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return ("", "", p[0])
        return (p[0], sep, p[1])

    def splitlines(self, keepends=False):
        f = self.flat()
        NL = charset.of_chars("\n\r\x0b\x0c\x1c\x1d\x1e\x85  ")
        out = []
        i = st = 0
        while i < len(f):
            if test(el_in(f[i], NL)):
                j = i + 1
                if j < len(f) and test(el_eq(f[i], "\r")) and \
                        test(el_eq(f[j], "\n")):
                    j += 1
                out.append(SymStr.make(f[st:j if keepends else i]))
                i = st = j
            else:
                i += 1
        if st < len(f):
            out.append(SymStr.make(f[st:]))
        return out

    def _strip(self, chars, left, right):
        if chars is None:
            W = ws()
        else:
            if hasattr(type(chars), "_sx_str"):
                chars = chars.concretize()
            W = charset.of_chars(chars)
        p = list(self.p)
        while left and p:
            x = p[0]
            if type(x) is str:
                y = x.lstrip(chars) if chars is not None else x.lstrip()
                if y:
                    p[0] = y
                    break
                del p[0]
            elif type(x) is Atom:
                if any(ord(c) in W for c in x.charset()) or \
                        not x.nonempty():
                    return SymStr.wrap(self.deatom())._strip(
                        chars, left, right)
                break
            elif test(el_in(x, W)):
                del p[0]
            else:
                break
        while right and p:
            x = p[-1]
            if type(x) is str:
                y = x.rstrip(chars) if chars is not None else x.rstrip()
                if y:
                    p[-1] = y
                    break
                del p[-1]
            elif type(x) is Atom:
                if any(ord(c) in W for c in x.charset()) or \
                        not x.nonempty():
                    return SymStr.wrap(self.deatom())._strip(
                        chars, left, right)
                break
            elif test(el_in(x, W)):
                del p[-1]
            else:
                break
        return SymStr.make(p)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _case(self, name):
        asc, other = case_changed(name)
        off = 32 if name in ("lower", "casefold") else -32
        m = getattr(str, name)
        out = []
        for x in self.p:
            t = type(x)
            if t is str:
                out.append(m(x))
            elif t is Atom:
                ss = tuple(m(s) for s in x.strings)
                out.append(x if ss == x.strings else Atom(x.var, ss))
            elif test(el_in(x, asc)):
                out.append(SymChar(x.var, x.off + off))
            elif test(el_in(x, other)):
                out.append(m(core.cur.force(x)))
            else:
                out.append(x)
        return SymStr.make(out)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        return self._case("casefold")

    def translate(self, table):
        out = []
        keys = None
        if isinstance(table, dict):
            keys = charset.of_ints([k for k in table if isinstance(k, int)])
        for x in self.flat():
            if type(x) is str:
                out.append(x.translate(table))
                continue
            if keys is None:
                out.append(core.cur.force(x).translate(table))
                continue
            if not test(el_in(x, keys)):
                out.append(x)
                continue
            for k in keys.values():
                if test(el_eq(x, chr(k))):
                    v = table[k]
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(chr(v))
                    else:
                        out.extend(SymStr.wrap(v).p)
                    break
        return SymStr.make(out)

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not is_str(x):
                raise TypeError("sequence item: expected str instance, %s "
                                "found" % type(x).__name__)
            if not first:
                out.extend(self.p)
            first = False
            out.extend(x.p if hasattr(type(x), "_sx_str") else [str(x)])
        return SymStr.make(out)

    def encode(self, *a):
        return SymBytes(self)

    def _all(self, name):
        cs = charset.predicate(name)
        p = self.p
        if not p:
            return name in ("isascii", "isprintable")
        conds = []
        for x in p:
            if type(x) is str:
                conds.append(TRUE if getattr(x, name)() else FALSE)
            elif type(x) is Atom:
                conds.append(CIn(x.var, charset.of_ints(
                    [i for i, s in enumerate(x.strings)
                     if getattr(s, name)()])))
            else:
                conds.append(el_in(x, cs))
        return mk(c_and([FALSE if type(c) is CIn and not c.cs.r else c
                         for c in conds]))

    def isspace(self):
        return self._all("isspace")

    def isalnum(self):
        return self._all("isalnum")

    def isalpha(self):
        return self._all("isalpha")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isascii(self):
        return self._all("isascii")

    def isprintable(self):
        return self._all("isprintable")

    def isupper(self):
        U = charset.predicate("isupper")
        L = charset.predicate("islower") | charset.predicate("istitle")
        f = self.flat()
        return mk(c_and([c_or([el_in(x, U) for x in f])]
                        + [el_in(x, charset.ALLCP - (L - U)) for x in f]))

    def islower(self):
        L = charset.predicate("islower")
        U = charset.predicate("isupper") | charset.predicate("istitle")
        f = self.flat()
        return mk(c_and([c_or([el_in(x, L) for x in f])]
                        + [el_in(x, charset.ALLCP - (U - L)) for x in f]))

    def isidentifier(self):
        S = charset.predicate("isidentifier")
        f = self.flat()
        if not f:
            return False
        if "cont" not in _case:
            _case["cont"] = charset.of_predicate(
                lambda c: ("a" + c).isidentifier())
        return mk(c_and([el_in(f[0], S)]
                        + [el_in(x, _case["cont"]) for x in f[1:]]))

    def ljust(self, w, fill=" "):
        n = len(self)
        return self + fill * max(0, _idx(w) - n)

    def rjust(self, w, fill=" "):
        n = len(self)
        return fill * max(0, _idx(w) - n) + self

    def expandtabs(self, tabsize=8):
        out = []
        col = 0
        for x in self.flat():
            if test(el_eq(x, "\t")):
                n = tabsize - col % tabsize if tabsize else 0
                out.append(" " * n)
                col += n
            else:
                out.append(x)
                col = 0 if test(el_in(x, charset.of_chars("\n\r"))) \
                    else col + 1
        return SymStr.make(out)

    def format(self, *a, **k):
        return self.concretize().format(*a, **k)


class SymMsg(SymStr):
    """A symbolic zope.i18nmessageid.Message."""
    __slots__ = ("domain", "default", "mapping", "msgid_plural",
                 "default_plural", "number")
    cls = str

    def __init__(self, pieces, domain=None, default=None, mapping=None):
        SymStr.__init__(self, pieces)
        self.domain = domain
        self.default = default
        self.mapping = mapping
        self.msgid_plural = self.default_plural = self.number = None

    __class__ = property(lambda self: SymMsg.cls)

    def plain(self):
        return SymStr.make(self.p)

    def __hash__(self):
        return SymStr.__hash__(self)


class SymBytes:
    """UTF-8 encoding of a symbolic string; opaque."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return self.s

    def __add__(self, o):
        if type(o) is SymBytes:
            return SymBytes(self.s + o.s)
        return SymBytes(self.s + o.decode("utf-8"))

    def __radd__(self, o):
        return SymBytes(o.decode("utf-8") + self.s)

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode("utf-8")
        return False

    def __ne__(self, o):
        return core.sx_not(self == o)

    def __hash__(self):
        return hash(self.s)

    __class__ = property(lambda self: bytes)


def as_c(x):
    return x


def is_str(x):
    return isinstance(x, str)


def is_sym(x):
    return hasattr(type(x), "_sx_str")


def lt0(i):
    return bool(i < 0)


def _idx(k):
    if k is None or type(k) is int:
        return k
    return k.__index__()


def has_percent(s):
    return test(s.contains_cond("%"))


def atom_eq(a, b):
    if a.var is b.var and a.strings == b.strings:
        return TRUE
    if a.strings == b.strings and len(set(a.strings)) == len(a.strings):
        return CLin("eq", 0, ((a.var, 1), (b.var, -1)))
    conds = []
    for i, s in enumerate(a.strings):
        js = [j for j, t in enumerate(b.strings) if t == s]
        if js:
            conds.append(c_and([CIn(a.var, charset.single(i)),
                                CIn(b.var, charset.of_ints(js))]))
    return c_or(conds)


def rope_eq(p, q):
    """Condition for aligned ropes, None if they cannot be aligned."""
    p, q = list(p), list(q)
    conds = []
    while p and q:
        a, b = p[0], q[0]
        ta, tb = type(a), type(b)
        if ta is Atom or tb is Atom:
            if ta is Atom and tb is Atom:
                if a.var is not b.var or a.strings != b.strings:
                    # equal lengths are needed to stay aligned
                    if len(set(map(len, a.strings + b.strings))) != 1:
                        return None
                conds.append(atom_eq(a, b))
                p.pop(0)
                q.pop(0)
                continue
            return None
        if ta is str and tb is str:
            n = min(len(a), len(b))
            if a[:n] != b[:n]:
                return None
            if len(a) > n:
                p[0] = a[n:]
            else:
                p.pop(0)
            if len(b) > n:
                q[0] = b[n:]
            else:
                q.pop(0)
            continue
        if ta is str:
            conds.append(el_eq(b, a[0]))
            q.pop(0)
            if len(a) > 1:
                p[0] = a[1:]
            else:
                p.pop(0)
            continue
        if tb is str:
            conds.append(el_eq(a, b[0]))
            p.pop(0)
            if len(b) > 1:
                q[0] = b[1:]
            else:
                q.pop(0)
            continue
        conds.append(el_eq(a, b))
        p.pop(0)
        q.pop(0)
    if p or q:
        return None
    return c_and(conds)


# --------------------------------------------------------------------------
# formatting

def sx_str(x):
    """str(x) that may return a SymStr."""
    t = type(x)
    if t is SymStr:
        return x
    if t is SymMsg:
        return x.plain()
    if t is str:
        return x
    if t is SymBytes:
        return SymStr.make(["b'"] + SymStr.wrap(x.s).p + ["'"])
    if t in (list, tuple, dict):
        return sx_repr(x)
    f = getattr(t, "__str__", None)
    if f is not None and not isinstance(f, _SLOT) and t.__module__ != \
            "builtins" and hasattr(f, "__code__"):
        return f(x)
    if isinstance(x, BaseException) and t.__str__ is BaseException.__str__:
        if len(x.args) == 1:
            return sx_str(x.args[0])
        if not x.args:
            return ""
        return sx_repr(x.args)
    return str(x)


_SLOT = type(object.__str__)


def sx_repr(x):
    t = type(x)
    if t is SymStr or t is SymMsg:
        # approximation: quoting and escapes are not modelled
        return SymStr.make(["'"] + x.p + ["'"])
    if t in (list, tuple):
        if not contains_sym(x):
            return repr(x)
        o, c = ("[", "]") if t is list else ("(", ")")
        parts = [o]
        for i, y in enumerate(x):
            if i:
                parts.append(", ")
            parts.extend(SymStr.wrap(sx_repr(y)).p)
        if t is tuple and len(x) == 1:
            parts.append(",")
        parts.append(c)
        return SymStr.make(parts)
    if t is dict:
        if not contains_sym(x):
            return repr(x)
        parts = ["{"]
        for i, (k, v) in enumerate(x.items()):
            if i:
                parts.append(", ")
            parts.extend(SymStr.wrap(sx_repr(k)).p)
            parts.append(": ")
            parts.extend(SymStr.wrap(sx_repr(v)).p)
        parts.append("}")
        return SymStr.make(parts)
    f = getattr(t, "__repr__", None)
    if hasattr(f, "__code__") and t is not SymInt and t is not SymBool:
        return f(x)
    if t is SymInt:
        return str(x)
    return repr(x)


def contains_sym(x, depth=4):
    t = type(x)
    if hasattr(t, "_sx_str") or t in (SymInt, SymBool, SymBytes):
        return True
    if depth and t in (list, tuple):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(contains_sym(k, depth - 1) or contains_sym(v, depth - 1)
                   for k, v in x.items())
    return False


def concretize_deep(x):
    t = type(x)
    if hasattr(t, "_sx_str"):
        return x.concretize()
    if t in (SymInt,):
        return int(x)
    if t is SymBool:
        return bool(x)
    if t is SymBytes:
        return SymStr.wrap(x.s).concretize().encode("utf-8")
    if t is list:
        return [concretize_deep(y) for y in x]
    if t is tuple:
        return tuple(concretize_deep(y) for y in x)
    if t is dict:
        return {concretize_deep(k): concretize_deep(v) for k, v in x.items()}
    return x


def percent(fmt, args):
    """fmt % args for a concrete format and possibly symbolic arguments."""
    out = []
    i = 0
    n = len(fmt)
    tup = args if type(args) is tuple else (args,)
    ai = 0
    while i < n:
        j = fmt.find("%", i)
        if j < 0:
            out.append(fmt[i:])
            break
        out.append(fmt[i:j])
        k = j + 1
        name = None
        if k < n and fmt[k] == "(":
            e = fmt.index(")", k)
            name = fmt[k + 1:e]
            k = e + 1
        m = k
        while m < n and fmt[m] in "#0- +.0123456789*":
            m += 1
        spec = fmt[k:m]
        if m >= n:
            raise ValueError("incomplete format")
        conv = fmt[m]
        i = m + 1
        if conv == "%" and not spec:
            out.append("%")
            continue
        if name is not None:
            val = args[name]
        else:
            if ai >= len(tup):
                raise TypeError("not enough arguments for format string")
            val = tup[ai]
            ai += 1
        if conv == "s" and not spec:
            out.extend(SymStr.wrap(sx_str(val)).p)
        elif conv == "r" and not spec:
            out.extend(SymStr.wrap(sx_repr(val)).p)
        else:
            out.append(("%" + spec + conv) % (concretize_deep(val),))
    if ai < len(tup) and not (ai == 0 and (
            isinstance(args, dict) or "%(" in fmt)):
        raise TypeError("not all arguments converted during string "
                        "formatting")
    return SymStr.make(out)


def fmt_value(val, conv, spec):
    if conv == "r" or conv == "a":
        val = sx_repr(val)
    elif conv == "s":
        val = sx_str(val)
    if not spec:
        if is_sym(val) or type(val) in (SymBytes,):
            return sx_str(val)
        t = type(val)
        f = getattr(t, "__format__", None)
        if f is object.__format__ or f is str.__format__:
            return sx_str(val)
        return format(val, "")
    return format(concretize_deep(val), spec)


def str_format(fmt, args, kw):
    out = []
    auto = 0
    for lit, field, spec, conv in Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        head, rest = field, None
        for c in ".[":
            if c in head:
                return fmt.format(*concretize_deep(args),
                                  **concretize_deep(kw))
        val = args[int(head)] if head.isdigit() else kw[head]
        out.extend(SymStr.wrap(fmt_value(val, conv, spec)).p)
    return SymStr.make(out)
