"""Timing templates."""
import re
import sys
import types
from io import StringIO

from harness.c27 import BODY, Folder
from harness.common import *  # noqa: F401,F403
from zope.tal import timer

ASSUMPTIONS = [
    "the clock is a stand-in that moves on by a chosen time with every call; "
    "compiling and rendering are the real ones",
    "templates and the sizes of the times are concrete"]

SOURCES = (("a.html", "<doc>" + BODY.replace("&lt;/w>", "") + "</doc>"),
           ("b.xml", "<doc%s><b tal:content='string:1'/></doc>" % NS),
           ("c.HTM", "<p>x"),
           ("d", "<doc/>"))
LINE = re.compile(r"^(\S+) *: +(\d+\.\d{3}) secs for (\d+) calls, "
                  r"i\.e\. +(\d+) msecs per call$")


class Clock(types.ModuleType):
    """Every function of it tells the time of the stand-in."""

    now = 0.0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.endswith("_ns"):
            return lambda: int(self.now * 10 ** 9)
        return lambda: self.now


class Count:
    """Counts the calls and lets time pass."""

    def __init__(self, func, clock, step):
        self.func = func
        self.__name__ = func.__name__
        self.clock = clock
        self.step = step
        self.calls = []

    def __call__(self, *args, **kw):
        self.clock.now += self.step
        result = self.func(*args, **kw)
        self.calls.append((args, result))
        return result


def command(args):
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["timer"] + list(args)
    sys.stdout, sys.stderr = out, err = StringIO(), StringIO()
    status = None
    try:
        timer.main()
    except SystemExit as e:
        status = e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return out.getvalue(), err.getvalue(), status


def timed(args, steps=None):
    """Run with stand-ins; the stand-ins used, or None."""
    if steps is None:
        return command(args) + (None,)
    names = [n for n in ("compilefile", "interpretit") if hasattr(timer, n)]
    if len(names) < 2 or not isinstance(getattr(timer, "time", None),
                                        types.ModuleType):
        return command(args) + (None,)
    clock = Clock("time")
    saved = timer.time, timer.compilefile, timer.interpretit
    funcs = [Count(f, clock, s) for f, s in zip(saved[1:], steps)]
    timer.time, timer.compilefile, timer.interpretit = [clock] + funcs
    try:
        result = command(args)
    finally:
        timer.time, timer.compilefile, timer.interpretit = saved
    if not funcs[0].calls or not funcs[1].calls:
        return result + (None,)
    return result + (funcs,)


def reports(ctx, err, files, count, steps=None):
    """One line for compiling and one for rendering each file."""
    lines = err.splitlines()
    ctx.check(len(lines) == 2 * len(files), "two reports for each file",
              lambda: err)
    for i, line in enumerate(lines):
        m = LINE.match(line)
        ctx.check(m is not None, "the report is complete", lambda: line)
        name, secs, calls, msecs = m.groups()
        ctx.check(name == ("compilefile", "interpretit")[i % 2],
                  "the step is named", lambda: line)
        ctx.check(int(calls) == count, "the number of calls is reported",
                  lambda: [line, count])
        secs, msecs = float(secs), int(msecs)
        if steps is None:
            ctx.check(abs(msecs - 1000 * secs / count) <= 1.01 + .5 / count,
                      "the times agree", lambda: line)
        else:
            step = steps[i % 2]
            ctx.check(abs(secs - step * count) < .0006, "the time of all",
                      lambda: [line, count, step])
            ctx.check(abs(msecs - 1000 * step) < .6, "the time of one",
                      lambda: [line, count, step])


def options(ctx, most, how):
    """The number of calls, and the arguments for it."""
    if how == 0:
        return 10, []
    text = ctx.text("n", 2, charset.of_chars("0123456789"), minlen=1)
    n = int(text)
    ctx.assume(0 < n)
    ctx.assume(n < most)
    if how == 1:
        return n, ["-n", text]
    if how == 2:
        return n, ["-n" + text]
    return n, ["-n", "4", "-n", text]


def runs(number):
    """Templates timed with a clock that is known."""
    def fn(ctx):
        if number == 1:
            count, args = options(ctx, 32, 1)
            some = [("e.xml", "<e/>")]
            steps = [ctx.pick("compile", (.001, .25, 12)),
                     ctx.pick("render", (0, .002, 3.5))]
        else:
            count, args = options(ctx, 4, ctx.choose("how", 4))
            some = [ctx.pick("file %d" % i, SOURCES) for i in range(number)]
            steps = [.25, 3.5]
            if ctx.flag("marked"):
                args.append("--")
        folders = [Folder(*s) for s in some]
        names = [f.file for f in folders]
        try:
            out, err, status, funcs = timed(args + names, steps)
        finally:
            for f in folders:
                f.remove()
        ctx.check(status in (None, 0), "it ends well", lambda: status)
        ctx.check(out.splitlines() == names, "the files are named",
                  lambda: [out, names])
        reports(ctx, err, names, count, steps if funcs else None)
        if funcs:
            files = [c[0][0] for c in funcs[0].calls]
            ctx.check(files == [n for n in names for i in range(count)],
                      "each is compiled as often as asked",
                      lambda: [files, count])
            ctx.check(len(funcs[1].calls) == count * len(names),
                      "each is rendered as often as asked",
                      lambda: [len(funcs[1].calls), count])
            for i, (given, result) in enumerate(funcs[1].calls):
                at = i // count * count
                ctx.check(any(given[0] is r[1]
                              for r in funcs[0].calls[at:at + count]),
                          "what was compiled is rendered", lambda: i)
        ctx.cover("runs")
    return fn


def real():
    """With the real clock; nothing of the template is shown."""
    def fn(ctx):
        count, args = options(ctx, 4, ctx.choose("how", 4))
        folder = Folder(*ctx.pick("file", SOURCES))
        try:
            out, err, status, funcs = timed(args + [folder.file])
        finally:
            folder.remove()
        ctx.check(status in (None, 0), "it ends well", lambda: status)
        ctx.check(out == folder.file + "\n", "the file is named",
                  lambda: out)
        reports(ctx, err, [folder.file], count)
        ctx.cover("real")
    return fn


def refused():
    """Wrong arguments."""
    def fn(ctx):
        folder = Folder("a.html", "<p>x")
        case = ctx.pick("case", ("option", "long", "number", "none",
                                 "missing", "value"))
        if case == "option":
            args = ["-" + ctx.pick("o", ("a", "h", "m", "N", "1")), folder.file]
        elif case == "long":
            args = ["--" + ctx.pick("o", ("n", "number=3", "help")), folder.file]
        elif case == "number":
            args = ["-n", ctx.text("o", 2, charset.CS(((33, 126),))
                                   - charset.of_chars("0123456789")),
                    folder.file]
        elif case == "none":
            args = ctx.pick("alone", ((), ("-n", "3"), ("--",)))
        elif case == "missing":
            args = [folder.file + "x"]
        else:
            args = ["-n"]
        failed = False
        try:
            out, err, status, funcs = timed(args)
        except Exception:
            failed, out = True, None
        finally:
            folder.remove()
        if case in ("option", "long", "value"):
            ctx.check(not failed and status == 2, "the status is 2",
                      lambda: args)
            ctx.check(len((out + err).strip()) > 0, "it says why",
                      lambda: args)
        else:
            ctx.check(failed or status not in (None, 0), "it is refused",
                      lambda: args)
        ctx.cover(case)
    return fn


def goals(tier):
    out = []
    if tier == "thorough":
        out.append(Goal("runs-3", runs(3), "three templates out of 4, every "
                        "number of calls up to 3 given in 4 ways", ["runs"]))
    return out + [
        Goal("times", runs(1), "every number of calls up to 31, 3 x 3 times",
             ["runs"]),
        Goal("runs-2", runs(2), "two templates out of 4, every number of "
             "calls up to 3 given in 4 ways", ["runs"]),
        Goal("real", real(), "one template out of 4, real clock", ["real"]),
        Goal("refused", refused(), "6 wrong ways to call it",
             ["option", "long", "number", "none", "missing", "value"]),
    ]
