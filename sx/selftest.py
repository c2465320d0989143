"""Compare the models of str and re with Python's own.

Each case is run symbolically over all characters; for every path the model
is evaluated natively and the results are compared.  Also runs the
repository's test inputs through the instrumented modules.
"""
import os
import re
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx import charset  # noqa: E402
from sx import core  # noqa: E402
from sx import instr  # noqa: E402
from sx import paths  # noqa: E402

C = instr.sx_call
SMALL = charset.of_chars("ab;& \n<A\xa0İK")
PATTERNS = [
    (r"&(?![A-Z#])", re.I), (r"&([A-Z][A-Z0-9]*)(?![A-Z0-9;])", re.I),
    (r"\s*([^\s]+)\s+([^\s].*)\Z", re.S),
    (r"\s*(?:(a|bb)\s+)?(.*)\Z", re.S), (r"a*?b", 0), (r"(a|ab)(b?)", 0),
    (r"\A\s*\Z", 0), (r"\s+\Z", 0), (r"(?s)^(.*?)(\r?\n[ \t]*)\Z", 0),
    (r"[a-b]{1,2}", 0), (r"\b", 0), (r"a|", 0), (r"(?<=a)b", 0),
    (r"(a)\1", 0), (r"^b$", re.M), (r"[^\W\d]+", 0),
]


def norm(x):
    if isinstance(x, (re.Match,)) or type(x).__name__ == "SymMatch":
        return [x.span(), [x.span(i) for i in range(1, x.re.groups + 1)],
                list(x.groups())]
    if hasattr(x, "__next__"):
        return [norm(y) for y in x]
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    return x


def cases():
    for m, args in [
            ("find", ("a",)), ("find", ("ab",)), ("rfind", ("\n",)),
            ("rfind", ("b", 1)), ("find", ("a", 1, 2)), ("count", ("a",)),
            ("replace", ("a", "xy")), ("replace", ("ab", "z")),
            ("replace", ("", "-")), ("replace", ("a", "z", 1)),
            ("split", ()), ("split", ("a",)), ("split", (";", 1)),
            ("split", (None, 1)), ("rsplit", ("a", 1)), ("rsplit", (None, 1)),
            ("partition", (";",)), ("rpartition", ("a",)), ("strip", ()),
            ("strip", ("ab",)), ("lstrip", ()), ("rstrip", ()),
            ("lower", ()), ("upper", ()), ("startswith", ("a",)),
            ("startswith", (("a", "b;"),)), ("endswith", ("b",)),
            ("isspace", ()), ("isalnum", ()), ("isupper", ()),
            ("islower", ()), ("isidentifier", ()), ("splitlines", ()),
            ("expandtabs", ()), ("removeprefix", ("a",)),
            ("removesuffix", ("a",)), ("isdigit", ()),
            ("translate", ({97: "xx", 59: None, 38: 65},)),
            ("ljust", (4,)), ("rjust", (4, "*"))]:
        yield "str.%s%r" % (m, args), (
            lambda s, m=m, a=args: C(getattr(s, m), *a))
    for p, f in PATTERNS:
        pat = re.compile(p, f)
        for m in ("match", "search", "findall", "finditer", "split",
                  "fullmatch"):
            yield "re %s %s" % (m, p), (
                lambda s, m=m, pat=pat: C(getattr(pat, m), s))
        yield "re sub %s" % p, (
            lambda s, pat=pat: C(pat.sub, r"<\g<0>>", s))
        yield "re subf %s" % p, (
            lambda s, pat=pat: C(pat.sub, lambda m: "[" + m.group() + "]",
                                 s, 1))
    yield "eq", lambda s: s == "a;"
    yield "lt", lambda s: s < "a;"
    yield "in", lambda s: instr.sx_in("ab", s)
    yield "in2", lambda s: instr.sx_in(s, "ab;ab")
    yield "in3", lambda s: instr.sx_in(s, ["a", "ab"])
    yield "mod", lambda s: instr.sx_mod("<%s|%d|%%>", (s, 3))
    yield "fmt", lambda s: C("{}-{x}".format, s, x=s)
    yield "join", lambda s: C(s.join, ["1", "2", s])
    yield "mul", lambda s: s * 2 + "x" + s
    yield "slice", lambda s: [s[:1], s[1:], s[-1:], s[::-1]]
    yield "iter", lambda s: [c for c in s]
    yield "dict", lambda s: C({"a": 1, "b;": 2}.get, s, 0)


def explore(fn, dom, n):
    ex = core.Explorer(1)
    stack = [([], {})]
    last = []
    count = 0
    while stack:
        prefix, assign = stack.pop()
        ex.sync(prefix, last)
        ctx = core.Ctx(ex, prefix, assign)
        core.cur = ctx
        s = ctx.text("s", n, dom)
        r = norm(fn(s))
        last = ctx.decisions
        stack.extend(ctx.alts)
        count += 1
        sv = core.concrete(s, ctx.assign)
        mine = core.concrete(r, ctx.assign)
        core.cur = None
        native = core.concrete(norm(fn(sv)), {})
        yield sv, mine, native, ctx.gaps


def main():
    bad = total = ncases = 0
    for name, fn in cases():
        ncases += 1
        for dom, n in ((SMALL, 2), (charset.ANY, 3)):
            try:
                for sv, mine, native, gaps in explore(fn, dom, n):
                    total += 1
                    if mine != native:
                        bad += 1
                        if bad < 20:
                            print("DIFF", name, repr(sv), mine, native)
            except Exception as e:
                core.cur = None
                bad += 1
                print("FAIL", name, type(e), e)
    print("selftest: %d cases, %d paths, %d differences" % (
        ncases, total, bad))
    return 1 if bad else 0


def repo_tests():
    """The repository's tests behave the same on instrumented modules."""
    here = os.path.join(paths.VERIF, "sx", "repotests.py")
    env = dict(os.environ, PYTHONPATH=paths.SITE, PYTHONDONTWRITEBYTECODE="1")
    a = subprocess.run([sys.executable, here, "instrumented"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, timeout=600).stdout
    env.pop("PYTHONPATH")
    b = subprocess.run([paths.VENV, here, "plain"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, timeout=600).stdout
    if a != b or not a:
        print("instrumented:", a)
        print("plain:", b)
        return 1
    print("repository tests: same results instrumented and plain:",
          a.splitlines()[0])
    return 0


if __name__ == "__main__":
    paths.setup()
    sys.exit(main() or repo_tests())
