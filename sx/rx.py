"""Regular expressions over symbolic strings.

The pattern's own syntax tree (from the standard library's parser) is matched
by backtracking; every character test on a symbolic character forks the path.
The set of characters one node accepts is obtained by compiling just that
node with the standard library and running it over every code point.
"""
import re
import re._compiler
import re._constants as K
import re._parser as P

from sx import charset
from sx.charset import CS
from sx.core import FALSE
from sx.symstr import SymStr
from sx.symstr import el_eq
from sx.symstr import el_in
from sx.symstr import is_sym
from sx.symstr import test

_sets = {}
_trees = {}
MAXREPEAT = K.MAXREPEAT


def node_set(node, flags):
    key = (repr(node), flags)
    cs = _sets.get(key)
    if cs is None:
        st = P.State()
        st.flags = flags
        st.str = ""
        pat = re._compiler.compile(P.SubPattern(st, [node]), flags)
        cs = charset.of_ints_sorted(
            m.start() for m in pat.finditer(charset.all_string()))
        _sets[key] = cs
    return cs


def category_set(code, flags):
    return node_set((K.IN, [(K.CATEGORY, code)]), flags)


class M:
    """One matching attempt."""

    def __init__(self, text):
        self.t = text
        self.n = len(text)

    def seq(self, ops, k, pos, g, flags):
        if k == len(ops):
            yield pos, g
            return
        op, av = ops[k]
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            if pos < self.n and test(el_in(self.t[pos],
                                           node_set((op, av), flags))):
                yield from self.seq(ops, k + 1, pos + 1, g, flags)
        elif op is K.MAX_REPEAT or op is K.POSSESSIVE_REPEAT:
            lo, hi, sub = av
            if len(sub) == 1 and sub[0][0] in (
                    K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
                cs = node_set(sub[0], flags)
                e = pos
                lim = self.n if hi is MAXREPEAT else min(self.n, pos + hi)
                while e < lim and test(el_in(self.t[e], cs)):
                    e += 1
                if op is K.POSSESSIVE_REPEAT:
                    if e - pos >= lo:
                        yield from self.seq(ops, k + 1, e, g, flags)
                    return
                while e - pos >= lo:
                    yield from self.seq(ops, k + 1, e, g, flags)
                    e -= 1
            elif op is K.POSSESSIVE_REPEAT:
                for e, g2 in self.rep(sub, lo, hi, pos, g, flags, 0, True):
                    yield from self.seq(ops, k + 1, e, g2, flags)
                    return
            else:
                for e, g2 in self.rep(sub, lo, hi, pos, g, flags, 0, True):
                    yield from self.seq(ops, k + 1, e, g2, flags)
        elif op is K.MIN_REPEAT:
            lo, hi, sub = av
            for e, g2 in self.rep(sub, lo, hi, pos, g, flags, 0, False):
                yield from self.seq(ops, k + 1, e, g2, flags)
        elif op is K.SUBPATTERN:
            group, add, rem, sub = av
            f2 = (flags | add) & ~rem
            for e, g2 in self.seq(sub, 0, pos, g, f2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (pos, e)
                    g2["last"] = group
                yield from self.seq(ops, k + 1, e, g2, flags)
        elif op is K.ATOMIC_GROUP:
            for e, g2 in self.seq(av, 0, pos, g, flags):
                yield from self.seq(ops, k + 1, e, g2, flags)
                return
        elif op is K.BRANCH:
            for alt in av[1]:
                for e, g2 in self.seq(alt, 0, pos, g, flags):
                    yield from self.seq(ops, k + 1, e, g2, flags)
        elif op is K.AT:
            if self.at(av, pos, flags):
                yield from self.seq(ops, k + 1, pos, g, flags)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            ok = None
            if d > 0:
                for e, g2 in self.seq(sub, 0, pos, g, flags):
                    ok = g2
                    break
            else:
                w = sub.getwidth()[0]
                if pos - w >= 0:
                    for e, g2 in self.seq(sub, 0, pos - w, g, flags):
                        if e == pos:
                            ok = g2
                            break
            if op is K.ASSERT_NOT:
                ok = g if ok is None else None
            if ok is not None:
                yield from self.seq(ops, k + 1, pos, ok, flags)
        elif op is K.GROUPREF:
            if av in g and g[av] is not None:
                s, e = g[av]
                ln = e - s
                if pos + ln <= self.n:
                    if flags & re.I:
                        raise NotImplementedError("caseless backreference")
                    if all(test(el_eq(self.t[s + i], self.t[pos + i]))
                           for i in range(ln)):
                        yield from self.seq(ops, k + 1, pos + ln, g, flags)
        elif op is K.GROUPREF_EXISTS:
            group, yes, no = av
            sub = yes if g.get(group) is not None else no
            if sub is None:
                yield from self.seq(ops, k + 1, pos, g, flags)
            else:
                for e, g2 in self.seq(sub, 0, pos, g, flags):
                    yield from self.seq(ops, k + 1, e, g2, flags)
        elif op is K.FAILURE:
            return
        else:
            raise NotImplementedError("regex node %s" % op)

    def rep(self, sub, lo, hi, pos, g, flags, count, greedy):
        if not greedy and count >= lo:
            yield pos, g
        if hi is MAXREPEAT or count < hi:
            for e, g2 in self.seq(sub, 0, pos, g, flags):
                if e == pos and count >= lo:
                    continue
                yield from self.rep(sub, lo, hi, e, g2, flags, count + 1,
                                    greedy)
        if greedy and count >= lo:
            yield pos, g

    def at(self, code, pos, flags):
        if code is K.AT_BEGINNING_STRING:
            return pos == 0
        if code is K.AT_BEGINNING:
            if pos == 0:
                return True
            return bool(flags & re.M) and test(el_eq(self.t[pos - 1], "\n"))
        if code is K.AT_END_STRING:
            return pos == self.n
        if code is K.AT_END:
            if pos == self.n:
                return True
            if flags & re.M or pos == self.n - 1:
                return test(el_eq(self.t[pos], "\n"))
            return False
        if code in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            w = category_set(K.CATEGORY_WORD, re.A if flags & re.A else re.U)
            a = pos > 0 and test(el_in(self.t[pos - 1], w))
            b = pos < self.n and test(el_in(self.t[pos], w))
            if self.n == 0:
                return False
            return (a != b) == (code is K.AT_BOUNDARY)
        raise NotImplementedError("regex position %s" % code)


def tree(pat):
    t = _trees.get(pat)
    if t is None:
        t = _trees[pat] = P.parse(pat.pattern, pat.flags & ~re.U
                                  if False else pat.flags)
    return t


class SymMatch:
    def __init__(self, pat, string, flat, start, end, g, pos, endpos):
        self.re = pat
        self.string = string
        self._f = flat
        self._g = dict(g)
        self._g[0] = (start, end)
        self.pos = pos
        self.endpos = endpos
        self.lastindex = g.get("last")

    def _i(self, k):
        if is_sym(k):
            k = k.concretize()
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError("no such group")
        return k

    def _get(self, k, default=None):
        sp = self._g.get(self._i(k))
        if sp is None:
            return default
        return SymStr.make(self._f[sp[0]:sp[1]])

    def group(self, *ks):
        if not ks:
            ks = (0,)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    def __getitem__(self, k):
        return self._get(k)

    def groups(self, default=None):
        return tuple(self._get(i, default)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(i, default)
                for k, i in self.re.groupindex.items()}

    def span(self, k=0):
        return self._g.get(self._i(k)) or (-1, -1)

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastgroup(self):
        for k, i in self.re.groupindex.items():
            if i == self.lastindex:
                return k
        return None

    def expand(self, template):
        return expand(self.re, template, self)


def run(pat, flat, start, endpos, must_advance=False, full=False):
    t = tree(pat)
    m = M(flat[:endpos])
    ops = list(t)
    for e, g in m.seq(ops, 0, start, {}, t.state.flags):
        if full and e != endpos:
            continue
        if must_advance and e == start:
            continue
        return e, g
    return None


def flat_of(s):
    return SymStr.wrap(s).flat()


def bounds(flat, pos, endpos):
    n = len(flat)
    endpos = n if endpos is None else min(max(int(endpos), 0), n)
    pos = min(max(int(pos), 0), n)
    return pos, endpos


def match(pat, string, pos=0, endpos=None):
    f = flat_of(string)
    p, e = bounds(f, pos, endpos)
    r = run(pat, f, p, e)
    if r is None:
        return None
    return SymMatch(pat, string, f, p, r[0], r[1], p, e)


def fullmatch(pat, string, pos=0, endpos=None):
    f = flat_of(string)
    p, e = bounds(f, pos, endpos)
    r = run(pat, f, p, e, full=True)
    if r is None:
        return None
    return SymMatch(pat, string, f, p, r[0], r[1], p, e)


def _search(pat, string, f, p, e, must_advance=False):
    for i in range(p, e + 1):
        r = run(pat, f, i, e, must_advance and i == p)
        if r is not None:
            return SymMatch(pat, string, f, i, r[0], r[1], p, e)
    return None


def search(pat, string, pos=0, endpos=None):
    f = flat_of(string)
    p, e = bounds(f, pos, endpos)
    return _search(pat, string, f, p, e)


def finditer(pat, string, pos=0, endpos=None):
    f = flat_of(string)
    p, e = bounds(f, pos, endpos)
    adv = False
    while p <= e:
        m = _search(pat, string, f, p, e, adv)
        if m is None:
            return
        yield m
        adv = m.end() == m.start()
        p = m.end()


def findall(pat, string, pos=0, endpos=None):
    out = []
    for m in finditer(pat, string, pos, endpos):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m._get(1, ""))
        else:
            out.append(m.groups(""))
    return out


def expand(pat, template, m):
    parts = re._parser.parse_template(template, pat)
    out = []
    for x in parts:
        if isinstance(x, int):
            out.extend(SymStr.wrap(m._get(x, "")).p)
        elif x:
            out.append(x)
    return SymStr.make(out)


def subn(pat, repl, string, count=0):
    if not callable(repl) and not is_sym(repl):
        if "\\" in repl:
            tpl = repl

            def rfun(m):
                return expand(pat, tpl, m)
        else:
            def rfun(m):
                return repl
    elif is_sym(repl):
        if test(repl.contains_cond("\\")):
            tpl = repl.concretize()

            def rfun(m):
                return expand(pat, tpl, m)
        else:
            def rfun(m):
                return repl
    else:
        rfun = repl
    out = []
    n = 0
    last = 0
    f = flat_of(string)
    for m in finditer(pat, string):
        out.extend(f[last:m.start()])
        r = rfun(m)
        if r is not None:
            out.extend(SymStr.wrap(r).p)
        last = m.end()
        n += 1
        if count and n >= count:
            break
    out.extend(f[last:])
    return SymStr.make(out), n


def sub(pat, repl, string, count=0):
    return subn(pat, repl, string, count)[0]


def split(pat, string, maxsplit=0):
    out = []
    f = flat_of(string)
    last = 0
    n = 0
    for m in finditer(pat, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(SymStr.make(f[last:m.start()]))
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(SymStr.make(f[last:]))
    return out


METHODS = {"match": match, "fullmatch": fullmatch, "search": search,
           "finditer": finditer, "findall": findall, "sub": sub,
           "subn": subn, "split": split}


def module_fn(name):
    """Replacement for re.<name>(pattern, ...)."""
    def f(pattern, *args, **kw):
        kw = dict(kw)
        flags = kw.pop("flags", 0)
        nargs = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
        if len(args) > nargs:
            flags = args[nargs]
            args = args[:nargs]
        if is_sym(pattern):
            pattern = pattern.concretize()
        if not isinstance(pattern, re.Pattern):
            pattern = re.compile(pattern, flags)
        return METHODS[name](pattern, *args, **kw)
    return f
