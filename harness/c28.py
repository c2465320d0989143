"""Comparing rendered templates with what is expected."""
import os
import shutil
import sys
import tempfile
from io import StringIO

from harness.common import *  # noqa: F401,F403
from zope.tal import driver
from zope.tal import runtest

ASSUMPTIONS = [
    "in the goals verdict and several the rendering of a template and the "
    "reading of the expected text are replaced by stand-ins that give "
    "symbolic text; the goals files and all use neither",
    "differences are not shown there (their text is computed by difflib)"]

WRITTEN = charset.of_chars("ab \r\n")
EXPECTED = charset.of_chars("ab \n")

#: name of a template, whether line ends count, the options it gets
NAMES = (("d/input/t.html", True, []), ("d/input/t.xml", False, []),
         ("d/input/t_sa.html", False, ["-a"]),
         ("d/input/metal1.html", True, ["-m"]),
         ("d/input/metal_sa2.xml", False, ["-m", "-a"]),
         ("d/input/t.xml.html", True, []), ("t.html", True, []),
         ("input/d/input.html", True, []), ("metal/a.html", True, ["-m"]))


class Reader:
    """An open file."""

    def __init__(self, text):
        self.text = text

    def readlines(self):
        parts = self.text.split("\n")
        out = [p + "\n" for p in parts[:-1]]
        if parts[-1]:
            out.append(parts[-1])
        return out

    def read(self):
        return self.text

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Session:
    """One run of the program."""

    def __init__(self, written, expected):
        """written: what rendering a template gives, or an error
        expected: what the file expected holds, None if there is none
        """
        self.written = written
        self.expected = expected
        self.rendered = []
        self.opened = []
        self.values = []

    def main(self, values=None):
        args = sys.argv[1:]
        self.rendered.append(list(args))
        self.values.append(values)
        v = self.written[args[-1]]
        if isinstance(v, BaseException):
            raise v
        sys.stdout.write(v)

    def open(self, name, *args, **kw):
        self.opened.append(name)
        v = self.expected.get(os.path.normpath(str(name)))
        if v is None:
            raise FileNotFoundError(name)
        return Reader(v)

    def run(self, args):
        out = StringIO()
        saved = sys.argv, sys.stdout, sys.stderr
        sys.stderr = StringIO()
        main, driver.main = driver.main, self.main
        runtest.open = self.open
        try:
            status = runtest.main(args, out)
        except SystemExit as e:
            status = e.code
        finally:
            driver.main = main
            del runtest.open
            self.restored = sys.argv is saved[0] and sys.stdout is saved[1]
            sys.argv, sys.stdout, sys.stderr = saved
        self.out = out.getvalue()
        return status


def output_of(name):
    head, tail = os.path.split(name)
    return os.path.join(head.replace("input", "output"), tail)


def usable():
    """Whether the stand-ins are used at all."""
    s = Session({"input/p.html": "x\n"}, {"output/p.html": "x\n"})
    s.run(["-q", "input/p.html"])
    return s.rendered != [] and s.opened != []


def unused(ctx):
    """The program has other ways: real files instead."""
    ctx.cover("given")
    return files()(ctx)


def failed(status):
    return status is not None and status != 0


def folded(s):
    return s.replace("\r\n", "\n")


def verdict(n):
    """One template: every text written and every text expected."""
    def fn(ctx):
        if not usable():
            return unused(ctx)
        name, exact, given = ctx.pick("name", NAMES)
        args = ["-q"]
        mode = ctx.pick("mode", ("", "-Q", "--very-quiet"))
        if mode:
            args = ["--quiet", mode]
        fold = ctx.pick("fold", ("", "-N", "--normalize-newlines"))
        if fold:
            args.append(fold)
        a = ctx.text("written", n, WRITTEN)
        e = None
        if not ctx.flag("missing"):
            e = ctx.text("expected", n, EXPECTED)
        s = Session({name: a}, {output_of(name): e})
        status = s.run(args + [name])
        want = False
        if e is not None:
            want = a == e if exact and not fold else folded(a) == e
        text = "" if want else "\n"
        if not mode:
            text = name + " " + ("OK\n" if want else "not OK\n")
        if e is None:
            text = ("" if mode else name + " ") + \
                "(missing file " + output_of(name) + ") " + \
                ("\n" if mode else "not OK\n")
        ctx.observe("status", status)
        ctx.observe("out", s.out)
        detail = lambda: ctx.value(  # noqa: E731
            [args, name, a, e, status, s.out, s.rendered])
        ctx.check(failed(status) == (not want), "status", detail)
        ctx.check(s.out == text, "report", detail)
        ctx.check(s.rendered == [given + [name]], "rendered", detail)
        ctx.check(s.restored, "output and arguments restored", detail)
        ctx.cover("right" if want else "wrong")
    return fn


def leaving():
    """Rendering that ends the program ends it with that status."""
    def fn(ctx):
        if not usable():
            return unused(ctx)
        args = ctx.pick("mode", ([], ["-q"], ["-Q"]))
        code = ctx.int("code", 1, 9)
        s = Session({"input/a": SystemExit(code), "input/b": "x"},
                    {"output/a": "", "output/b": "x"})
        status = s.run(args + ["input/a", "input/b"])
        ctx.check(status == code, "status", lambda: ctx.value([status]))
        ctx.check(s.restored, "output and arguments restored")
        ctx.cover("given")
    return fn


class Stop(BaseException):
    """An error that is no ordinary exception."""


def several(count):
    """One that is wrong does not keep the others from being compared."""
    def fn(ctx):
        if not usable():
            return unused(ctx)
        args = ["-q"] if ctx.flag("-q") else ["-q", "-Q"]
        names = ["i/input/%d.%s" % (i, "xml" if i % 2 else "html")
                 for i in range(count)]
        written = {}
        expected = {}
        text = ""
        bad = False
        for i in range(count):
            kind = ctx.pick("kind%d" % i, ("text", "missing", "error",
                                            "stop"))
            a = ctx.chars("written%d" % i, 1, EXPECTED)
            e = ctx.chars("expected%d" % i, 1, EXPECTED)
            written[names[i]] = a
            expected[output_of(names[i])] = e
            say = "OK"
            if kind == "error":
                written[names[i]] = ValueError("x")
                say = "ValueError"
            elif kind == "stop":
                written[names[i]] = Stop("x")
                say = "Stop"
            elif kind == "missing":
                expected[output_of(names[i])] = None
                say = "(missing file " + output_of(names[i]) + ") not OK"
            elif a != e:
                say = "not OK"
            bad = bad or say != "OK"
            if "-Q" not in args:
                text = text + names[i] + " " + say + "\n"
            elif kind in ("error", "stop"):
                text = text + say + "\n"
            elif say != "OK":
                text = text + say.replace("not OK", "") + "\n"
        s = Session(written, expected)
        status = s.run(args + names)
        ctx.observe("status", status)
        ctx.observe("out", s.out)
        detail = lambda: ctx.value(  # noqa: E731
            [args, names, status, s.out, text])
        ctx.check(failed(status) == bad, "status", detail)
        ctx.check(s.out == text, "report", detail)
        ctx.check([r[-1] for r in s.rendered] == names, "all rendered",
                  detail)
        ctx.check(s.restored, "output and arguments restored", detail)
        ctx.cover("wrong" if bad else "right")
    return fn


def given():
    """Options for rendering are handed on."""
    def fn(ctx):
        if not usable():
            return unused(ctx)
        name, exact, more = ctx.pick("name", NAMES)
        on = []
        args = []
        for option, short in (("lenient", "-l"), ("macro_only", "-m"),
                              ("show_code", "-s"), ("show_tal", "-t"),
                              ("show_i18n", "-i"), ("annotate", "-a")):
            if ctx.sbool(option):
                on.append(option)
                args.append(short)
        s = Session({name: "x"}, {output_of(name): "x"})
        status = s.run(["-q"] + args + [name])
        ctx.check(not failed(status), "status")
        found = [o for o in ("lenient", "macro_only", "show_code",
                             "show_tal", "show_i18n", "annotate")
                 if getattr(s.values[0], o)]
        ctx.check(found == on, "options", lambda: ctx.value([on, found]))
        want = [o for o in more if o not in args] + [name]
        ctx.check(s.rendered == [want], "added",
                  lambda: ctx.value([args, name, s.rendered]))
        ctx.cover("given")
    return fn


#: template, what it gives
PAGES = (("a.html", '<b tal:content="string:1">x</b>\nb\n', "<b>1</b>\nb\n"),
         ("metal.html", '<b tal:content="string:1">x</b>\nb',
          '<b tal:content="string:1">x</b>\nb'),
         ("b.xml", "<b%s>1\r\n2</b>\n" % NS, "<b>1\n2</b>\n"),
         ("bad.html", '<b tal:content="">x</b>', None),
         ("no.html", "<b></i>", None))


def files():
    """Real files."""
    def fn(ctx):
        name, source, result = ctx.pick("page", PAGES)
        how = ctx.pick("how", ("same", "line", "more", "less", "missing"))
        modes = ctx.pick("modes", ([], ["-q"], ["-Q"], ["-q", "-N"]))
        expected = {"same": result, "line": (result or "") + "more\n",
                    "more": "one\n" + (result or ""),
                    "less": "".join((result or "").splitlines(True)[1:]),
                    "missing": None}[how]
        path = os.path.realpath(tempfile.mkdtemp())
        # neither name of a folder may be part of the path
        out = StringIO()
        saved = sys.argv, sys.stdout, sys.stderr
        status = None
        try:
            os.mkdir(os.path.join(path, "input"))
            os.mkdir(os.path.join(path, "output"))
            file = os.path.join(path, "input", name)
            with open(file, "w", newline="") as f:
                f.write(source)
            if expected is not None:
                with open(os.path.join(path, "output", name), "w") as f:
                    f.write(expected)
            sys.stdout, sys.stderr = StringIO(), StringIO()
            try:
                status = runtest.main(modes + [file], out)
            except SystemExit as e:
                status = e.code
            restored = sys.argv is saved[0]
            err = sys.stderr.getvalue()
        finally:
            sys.argv, sys.stdout, sys.stderr = saved
            shutil.rmtree(path)
        text = out.getvalue().replace(path, "FOLDER")
        good = result is not None and expected == result
        detail = lambda: ctx.value([name, how, modes, status, text])  # noqa
        ctx.observe("status", status)
        ctx.check(failed(status) == (not good), "status", detail)
        ctx.check(restored, "arguments restored", detail)
        lines = text.splitlines()
        if "-Q" not in modes:
            ctx.check(lines[0].startswith("FOLDER/input/" + name + " "),
                      "named", detail)
            ctx.check(lines[0].endswith(" OK") == (
                good or result is not None), "said", detail)
            ctx.check(lines[0].endswith(" not OK") == (
                result is not None and not good), "said", detail)
        elif good:
            ctx.check(text == "", "nothing said", detail)
        if result is not None and expected is not None and not good and \
                "-q" not in modes:
            got = result.splitlines()
            wanted = expected.splitlines()
            for line in wanted:
                mark = "  " if line in got else "- "
                ctx.check(mark + line in lines, "difference", detail)
            for line in got:
                mark = "  " if line in wanted else "+ "
                ctx.check(mark + line in lines, "difference", detail)
        else:
            ctx.check(len(lines) <= 1, "no difference shown", detail)
        if result is None:
            error = "TALError" if name == "bad.html" else "NestingError"
            if "-q" in modes:
                ctx.check(lines[0].endswith(" " + error), "error", detail)
            else:
                ctx.check(lines == (
                    [""] if "-Q" in modes else
                    ["FOLDER/input/" + name + " Failed:"]), "error", detail)
                ctx.check("Traceback" in err and error in err, "error",
                          lambda: ctx.value(err))
        else:
            ctx.check(err == "", "nothing on the error output",
                      lambda: ctx.value(err))
        ctx.cover("right" if good else "wrong")
    return fn


def program():
    """Run as a program."""
    with open(runtest.__file__) as f:
        code = compile(f.read(), runtest.__file__, "exec")

    def fn(ctx):
        same = ctx.flag("same")
        mode = ctx.pick("mode", ("-q", "-Q"))
        path = os.path.realpath(tempfile.mkdtemp())
        saved = sys.argv, sys.stdout, sys.stderr
        status = None
        try:
            for folder, text in (("input", "<b>1</b>"),
                                 ("output", "<b>1</b>" if same else "x")):
                os.mkdir(os.path.join(path, folder))
                with open(os.path.join(path, folder, "a.html"), "w") as f:
                    f.write(text)
            sys.argv = ["runtest.py", mode,
                        os.path.join(path, "input", "a.html")]
            sys.stdout, sys.stderr = StringIO(), StringIO()
            try:
                exec(code, {"__name__": "__main__",
                            "__file__": runtest.__file__})
            except SystemExit as e:
                status = e.code
            out = sys.stdout.getvalue().replace(path, "FOLDER")
        finally:
            sys.argv, sys.stdout, sys.stderr = saved
            shutil.rmtree(path)
        ctx.check(failed(status) != same, "status",
                  lambda: ctx.value([mode, same, status]))
        if mode == "-q":
            ctx.check(out == "FOLDER/input/a.html " + (
                "OK\n" if same else "not OK\n"), "report",
                lambda: ctx.value(out))
        elif same:
            ctx.check(out == "", "report", lambda: ctx.value(out))
        ctx.cover("run")
    return fn


def every():
    """Without names all templates of the package are compared."""
    def fn(ctx):
        modes = ctx.pick("modes", (["-Q"], ["-q"]))
        seen = []
        main = driver.main

        def record(values=None):
            seen.append(os.path.basename(sys.argv[-1]))
            return main(values)

        out = StringIO()
        saved = sys.argv, sys.stdout, sys.stderr
        sys.stdout, sys.stderr = StringIO(), StringIO()
        driver.main = record
        try:
            status = runtest.main(modes, out)
        except SystemExit as e:
            status = e.code
        finally:
            driver.main = main
            sys.argv, sys.stdout, sys.stderr = saved
        folder = os.path.join(os.path.dirname(runtest.__file__), "tests",
                              "input")
        names = [n for n in os.listdir(folder) if n.startswith("test")]
        want = sorted([n for n in names if n.endswith(".xml")]) + \
            sorted([n for n in names if n.endswith(".html")])
        text = out.getvalue()
        ctx.check(seen == want, "all", lambda: ctx.value(seen))
        ctx.check(not failed(status), "status", lambda: ctx.value(text[:500]))
        ctx.check("not OK" not in text, "report", lambda: ctx.value(text))
        ctx.cover("all")
    return fn


def goals(tier):
    t = tier == "thorough"
    n = 3 if t else 2
    return [
        Goal("verdict", verdict(n), "%d names, texts of up to %d characters "
             "written and expected" % (len(NAMES), n), ["right", "wrong"]),
        Goal("several", several(3 if t else 2), "%d templates" % (
            3 if t else 2), ["right", "wrong"]),
        Goal("given", given(), "6 options", ["given"]),
        Goal("files", files(), "%d templates" % len(PAGES),
             ["right", "wrong"]),
        Goal("leaving", leaving(), "status 1 to 9", ["given"]),
        Goal("program", program(), "", ["run"]),
        Goal("all", every(), "", ["all"]),
    ]
