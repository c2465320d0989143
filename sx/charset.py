"""Sets of integers as sorted tuples of inclusive ranges."""
import bisect


class CS:
    __slots__ = ("r", "_h")

    def __init__(self, ranges):
        self.r = ranges
        self._h = hash(ranges)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self.r == other.r

    def __bool__(self):
        return bool(self.r)

    def __contains__(self, x):
        r = self.r
        if len(r) == 1:
            return r[0][0] <= x <= r[0][1]
        i = bisect.bisect_right(r, (x, 0x7fffffff)) - 1
        return i >= 0 and r[i][0] <= x <= r[i][1]

    def __and__(self, o):
        a, b = self.r, o.r
        out = []
        i = j = 0
        while i < len(a) and j < len(b):
            lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
            hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return CS(tuple(out))

    def __sub__(self, o):
        out = []
        b = o.r
        j = 0
        for lo, hi in self.r:
            while j and b[j - 1][1] >= lo:
                j -= 1
            while j < len(b) and b[j][1] < lo:
                j += 1
            k = j
            cur = lo
            while k < len(b) and b[k][0] <= hi:
                if b[k][0] > cur:
                    out.append((cur, b[k][0] - 1))
                cur = max(cur, b[k][1] + 1)
                k += 1
            if cur <= hi:
                out.append((cur, hi))
        return CS(tuple(out))

    def __or__(self, o):
        return of_ranges(self.r + o.r)

    def shift(self, d):
        if not d:
            return self
        return CS(tuple((lo + d, hi + d) for lo, hi in self.r))

    def size(self):
        return sum(hi - lo + 1 for lo, hi in self.r)

    def first(self):
        return self.r[0][0]

    def single(self):
        r = self.r
        if len(r) == 1 and r[0][0] == r[0][1]:
            return r[0][0]
        return None

    def bounds(self):
        return self.r[0][0], self.r[-1][1]

    def values(self):
        for lo, hi in self.r:
            yield from range(lo, hi + 1)

    def __repr__(self):
        return "CS(%s)" % (self.r,)


def of_ranges(ranges):
    out = []
    for lo, hi in sorted(ranges):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return CS(tuple(out))


def of_ints(ints):
    return of_ranges([(i, i) for i in ints])


def of_chars(s):
    return of_ints([ord(c) for c in s])


_single_cache = {}


def single(i):
    c = _single_cache.get(i)
    if c is None:
        c = _single_cache[i] = CS(((i, i),))
    return c


EMPTY = CS(())
#: every code point except the surrogates
ANY = CS(((0, 0xd7ff), (0xe000, 0x10ffff)))
ALLCP = CS(((0, 0x10ffff),))
_ALL_STR = None


def all_string():
    global _ALL_STR
    if _ALL_STR is None:
        _ALL_STR = "".join(map(chr, range(0x110000)))
    return _ALL_STR


def of_predicate(pred):
    return of_ints_sorted(i for i in range(0x110000) if pred(chr(i)))


def of_ints_sorted(it):
    out = []
    lo = hi = None
    for i in it:
        if lo is None:
            lo = hi = i
        elif i == hi + 1:
            hi = i
        else:
            out.append((lo, hi))
            lo = hi = i
    if lo is not None:
        out.append((lo, hi))
    return CS(tuple(out))


_pred_cache = {}


def predicate(name):
    """Code points for which str.<name>() is true, by asking str itself."""
    c = _pred_cache.get(name)
    if c is None:
        c = _pred_cache[name] = of_predicate(
            lambda ch, m=getattr(str, name): m(ch))
    return c
