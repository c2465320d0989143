"""The bundled expression engine."""
import os
import shutil
import sys
import tempfile

from harness.common import *  # noqa: F401,F403
from zope.tal.dummyengine import DummyEngine
from zope.tal.dummyengine import MultipleDomainsDummyEngine
from zope.tal.taldefs import TALExpressionError

NAME = charset.of_chars("abxy_")
OPS = ("begin", "end", "local", "global")


class Scopes:
    """Reference: variables."""

    def __init__(self):
        self.globals = {"nothing": None}
        self.stack = [[]]

    def begin(self):
        self.stack.append(list(self.stack[-1]))

    def end(self):
        self.stack.pop()

    def local(self, name, value):
        self.stack[-1].append((name, value))

    def get(self, name):
        for n, v in reversed(self.stack[-1]):
            if n == name:
                return [v]
        for n, v in reversed(list(self.globals.items())):
            if n == name:
                return [v]
        return []


def ev(engine, expr, how="evaluate"):
    try:
        return [getattr(engine, how)(engine.compile(expr))]
    except TALExpressionError:
        return []


def compare(ctx, engine, ref, name, what):
    got = ev(engine, name)
    want = ref.get(name)
    detail = lambda: ctx.value([what, name, got, want])  # noqa: E731
    ctx.observe("value", got)
    ctx.check(got == want, "variable", detail)
    ctx.check(ev(engine, "exists:" + name) == [bool(want)], "exists", detail)
    if want:
        ctx.check(ev(engine, "not:" + name) == [not want[0]], "not", detail)
        ctx.check(ev(engine, "not:not:" + name) == [bool(want[0])],
                  "not not", detail)
    else:
        ctx.check(ev(engine, "not:" + name) == [], "not", detail)
    for pre in ("var:", "path:", "local:", "global:"):
        ctx.check(ev(engine, pre + name) == want, "kind", detail)
    ctx.check(ev(engine, " " + name + " ") == want, "blanks", detail)
    ctx.cover("there" if want else "missing")


def scopes(steps, n):
    """Scopes opened and closed, variables set, in any order."""
    def fn(ctx):
        engine = DummyEngine()
        ref = Scopes()
        names = [ctx.text("name%d" % i, n, NAME, minlen=1)
                 for i in range(2)]
        what = []
        for i in range(ctx.choose("steps", steps + 1)):
            ops = OPS if len(ref.stack) > 1 else ("begin", "local", "global")
            op = ctx.pick("op%d" % i, ops)
            if op == "begin":
                engine.beginScope()
                ref.begin()
            elif op == "end":
                engine.endScope()
                ref.end()
            else:
                name = names[ctx.choose("which%d" % i, 2)]
                value = (None, 0, "s", 1, "", "t")[i]
                if op == "local":
                    engine.setLocal(name, value)
                    ref.local(name, value)
                else:
                    engine.setGlobal(name, value)
                    if ref.globals.get(name, ref) is not ref:
                        del ref.globals[name]
                    ref.globals[name] = value
            what.append(op)
        for name in names:
            compare(ctx, engine, ref, name, what)
        while len(ref.stack) > 1:
            engine.endScope()
            ref.end()
            what.append("end")
            for name in names:
                got, want = ev(engine, name), ref.get(name)
                ctx.check(got == want, "after the scope",
                          lambda: ctx.value([what, name, got, want]))
    return fn


def strings(n):
    """Text of string: expressions; unknown kinds of expressions."""
    def fn(ctx):
        t = ctx.text("t", n, ANY)
        engine = DummyEngine()
        got = ev(engine, ctx.pick("kind", ("string:", "str:")) + t)
        ctx.observe("got", got)
        ctx.check(got == [t], "string", lambda: ctx.value([t, got]))
        k = ctx.text("k", 2, charset.of_chars("abz_"), minlen=1)
        got = ev(engine, k + ":" + t)
        ctx.check(got == [], "unknown", lambda: ctx.value([k, t, got]))
        ctx.cover("string")
    return fn


def kinds():
    """What the different evaluations make of a value."""
    def fn(ctx):
        engine = DummyEngine()
        t = ctx.text("t", 2, ANY)
        i = ctx.int("i", -9, 99)
        default = engine.getDefault()
        msg = Message("id", "dom")
        value, text = ctx.pick("v", (
            (t, t), (None, None), (default, default), (msg, msg),
            (i, None), (["a"], "['a']")))
        if value is i:
            value = ctx.value(i) if not ctx.symbolic else i.__index__()
            text = str(value)
        engine.setGlobal("v", value)
        if ctx.flag("local"):
            engine.beginScope()
            engine.setLocal("v", value)
        got = ev(engine, "v", "evaluateText")
        ctx.observe("got", None if value is default else got)
        ctx.check(got == [text], "text", lambda: ctx.value([got]))
        for how in ("evaluateValue", "evaluateBoolean", "evaluateStructure"):
            ctx.check(ev(engine, "v", how)[0] is value, how)
        ctx.cover("kinds")
    return fn


def repeats(n):
    """Repeating sets the variable to each item in turn."""
    def fn(ctx):
        engine = DummyEngine()
        name = ctx.text("name", n, NAME, minlen=1)
        items = [ctx.pick("o%d" % i, (None, 0, "", False, "text"))
                 for i in range(ctx.choose("len", 4))]
        items = [ctx.text("t%d" % i, 1, ANY) if x == "text" else x
                 for i, x in enumerate(items)]
        seq = items if ctx.flag("list") else tuple(items)
        engine.setGlobal("seq", seq)
        engine.setGlobal(name, "before")
        engine.beginScope()
        it = engine.setRepeat(name, engine.compile("seq"))
        got = []
        while next(it):
            got.append(ev(engine, name)[0])
            ctx.assume(len(got) < 9)
        ctx.observe("got", got)
        ctx.check(got == items, "items", lambda: ctx.value([got, items]))
        engine.endScope()
        ctx.check(ev(engine, name) == ["before"], "afterwards",
                  lambda: ctx.value([name]))
        ctx.cover("repeat")
    return fn


LOWER = "abcdefghijklmnopqrstuvwxyz_"
DIGIT = LOWER + "0123456789-"


def expand(text, mapping, change):
    """Reference: $name and ${name} in a message."""
    out = []
    i = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == "$":
            j = i + 1
            brace = j < n and text[j] == "{"
            if brace:
                j += 1
            k = j
            while k < n and text[k] in (DIGIT if k > j else LOWER):
                k += 1
            ok = k > j and (not brace or (k < n and text[k] == "}"))
            if ok:
                name = text[j:k]
                for key, value in mapping:
                    if key == name:
                        break
                else:
                    return None
                out.append(str(value))
                i = k + 1 if brace else k
                continue
        out.append(change(c))
        i += 1
    return "".join(out)


def messages(n, again=False):
    """Parts of messages replaced by values."""
    def fn(ctx):
        text = ctx.text("t", n, charset.of_chars("ab${}-1 <"))
        value = ctx.text("v", 1, charset.of_chars("ab$&\\{"))
        if value == "\\":
            ctx.cover("backslash")
        mapping = [("a", value), ("b", "B$a"), ("ab", 7), ("ba", ""),
                   ("a-", "H"), ("b1", "")]
        how = ctx.pick("how", ("default", "lower", "message", "multiple"))
        cls = DummyEngine
        domain = "default"
        msgid = text
        table = dict(mapping)
        change = upper
        if how == "lower":
            domain = "lower"
            change = lower
        elif how == "message":
            msgid = Message(text, domain="lower", mapping=table)
            table = None
            change = lower
        elif how == "multiple":
            cls = MultipleDomainsDummyEngine
        want = expand(text, mapping, change)
        # all names are known
        ctx.assume(want is not None)
        engine = cls()
        if again:
            before = ctx.pick("before", ("upper", "message", "none"))
            if before == "upper":
                engine.translate("x$a", "upper", {"a": "c"}, default="e")
            elif before == "message":
                engine.translate(Message("x", "title", "f", {"a": "c"}),
                                 "title", {"a": "e"}, default="e")
            else:
                engine.translate("don't translate me", "swapcase", {},
                                 default="e")
            if domain == "default" and ctx.flag("no domain"):
                domain = None
        record = engine.translationDomain
        record.clearMsgids()
        got = engine.translate(msgid, domain, table, default="d")
        noted = record.getMsgids("lower" if change is lower else "default")
        ctx.check(noted == [(msgid, dict(mapping))], "record",
                  lambda: ctx.value([text, noted]))
        ctx.observe("got", got)
        ctx.check(got == want, "message",
                  lambda: ctx.value([text, got, want]))
        ctx.cover(how)
    return fn


def upper(c):
    return c.upper()


def lower(c):
    return c


def unknown(n):
    """A message without a translation gives its default."""
    def fn(ctx):
        value = ctx.text("v", 1, ANY)
        t = ctx.text("t", n, charset.of_chars("xy ."))
        default = t + ctx.pick("d", ("", "${a}", "$a", "$a ${b}"))
        values = {"a": value, "b": "B"}
        cls = ctx.pick("class", (DummyEngine, MultipleDomainsDummyEngine))
        how = ctx.pick("how", ("text", "message", "bare"))
        if how == "text":
            got = cls().translate("don't translate me", "default", values,
                                  default=default)
        elif how == "message":
            # it brings its own values and default
            got = cls().translate(
                Message("don't translate me", "lower", default, values),
                "default", {"a": "-"}, default="-")
        else:
            default = "don't translate me"
            got = cls().translate(Message(default, "lower"), "default",
                                  {"a": "-"}, default="-")
        want = expand(default, [("a", value), ("b", "B")], lower)
        ctx.observe("got", got)
        ctx.check(got == want, "default",
                  lambda: ctx.value([default, got, want]))
        ctx.cover("default")
    return fn


def templates(n):
    """The engine in a template."""
    def fn(ctx):
        def value(i):
            return ctx.pick("e%d" % i, ("string:" + "uvw"[i], "x", "y"))
        v = ctx.text("v", n, charset.of_chars("ab"))
        scope = [ctx.pick("s%d" % i, ("", "global ")) for i in range(2)]
        name = [ctx.pick("n%d" % i, "xy") for i in range(2)]
        src = ('<doc><a tal:define="%s%s %s"><b tal:define="%s%s %s">'
               '<i tal:content="x">1</i><i tal:content="y">2</i></b>'
               '<i tal:content="x">3</i></a><i tal:content="y">4</i>'
               '<i tal:condition="not:x">5</i></doc>'
               % (scope[0], name[0], value(0), scope[1], name[1], value(1)))
        engine = DummyEngine()
        engine.setGlobal("x", v)
        engine.setGlobal("y", "Y")
        program, macros = compile_("html", src, engine)
        out = run(program, macros, engine)
        ref = Scopes()
        ref.globals.update(x=v, y="Y")
        for i in range(2):
            ref.begin()
            e = ctx.pick("e%d" % i, ("string:" + "uvw"[i], "x", "y"))
            w = "uvw"[i] if e.startswith("string:") else ref.get(e)[0]
            if scope[i]:
                ref.globals[name[i]] = w
            else:
                ref.local(name[i], w)
        want = "<doc><a><b><i>%s</i><i>%s</i></b>" % (ref.get("x")[0],
                                                      ref.get("y")[0])
        ref.end()
        want += "<i>%s</i></a>" % ref.get("x")[0]
        ref.end()
        want += "<i>%s</i>" % ref.get("y")[0]
        if not ref.get("x")[0]:
            want += "<i>5</i>"
        want += "</doc>"
        ctx.observe("out", out)
        ctx.check(out == want, "output", lambda: ctx.value([src, out, want]))
        ctx.cover("template")
    return fn


def python():
    """python expressions see local and global values."""
    def fn(ctx):
        engine = DummyEngine()
        engine.setGlobal("a", 1)
        engine.setGlobal("b", "B")
        if ctx.flag("scope"):
            engine.beginScope()
        hidden = ctx.flag("local")
        if hidden:
            engine.setLocal("a", 5)
        a = 5 if hidden else 1
        expr, want = ctx.pick("expr", (
            ("a", [a]), ("a + 2", [a + 2]), ("b + ':' + b", ["B:B"]),
            (" b.lower()", ["b"]), ("[a, b][1:]", [["B"]]),
            ("not a", [False]), ("nothing", [None]), ("c", []),
            ("1 / 0", []), ("a b", []), ("b + 1", []), ("b.nope", []),
            ("", [])))
        if ctx.flag("negated"):
            got = ev(engine, "not:python:" + expr)
            want = [not w for w in want]
        else:
            got = ev(engine, "python:" + expr)
        ctx.observe("got", got)
        ctx.check(got == want, "python", lambda: [expr, got, want])
        ctx.cover("value" if want else "failure")
    return fn


def places(n, most):
    """position expressions tell where they are."""
    def fn(ctx):
        engine = DummyEngine()
        src = "<doc>%s<b tal:content='position:'>x</b>\n%s</doc>" % (
            ctx.pick("lead", ("", "\n", " \n ")),
            ctx.pick("last", ("", "<i tal:replace='position:'/>")))
        file = ctx.text("file", n, charset.of_chars("ab/."), minlen=1)
        program, macros = compile_("html", src, engine, file)
        out = run(program, macros, engine)
        want = src
        for tag in ("<b", "<i"):
            i = src.find(tag)
            if i < 0:
                continue
            line = src.count("\n", 0, i) + 1
            col = i - (src.rfind("\n", 0, i) + 1)
            place = file + " (%d,%d)" % (line, col)
            want = want.replace("<b tal:content='position:'>x</b>",
                                "<b>" + place + "</b>") if tag == "<b" \
                else want.replace("<i tal:replace='position:'/>", place)
        ctx.observe("out", out)
        ctx.check(out == want, "position",
                  lambda: ctx.value([src, out, want]))
        ctx.cover("position")
    return fn


def macro(engine, name):
    try:
        return [engine.evaluateMacro(engine.compile(name))]
    except TALExpressionError:
        return []


LIBRARY = ("<doc%s><b metal:define-macro='m'>one</b>"
           "<b metal:define-macro='n'>two</b></doc>")


def macros(n):
    """Macros of the page and of files."""
    def fn(ctx):
        names = [ctx.text("name%d" % i, n, NAME, minlen=1)
                 for i in range(2)]
        ctx.assume(names[0] != names[1])
        table = {names[0]: ["first"], names[1]: ["second"]}
        engine = DummyEngine(table)
        got = [macro(engine, name) for name in names]
        ctx.observe("got", got)
        ctx.check(got == [[["first"]], [["second"]]], "macros",
                  lambda: ctx.value([names, got]))
        ctx.check(macro(engine, "") == [], "no name")
        ctx.cover("page")
    return fn


def libraries():
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        name = ctx.pick("name", ("m", "n", "o", ""))
        engine = DummyEngine({"m": "wrong"})
        folder = tempfile.mkdtemp()
        try:
            file = os.path.join(folder, ctx.pick("file", ("a", "b.c")) +
                                "." + kind)
            with open(file, "w") as f:
                f.write(LIBRARY % (NS if kind == "xml" else ""))
            got = macro(engine, file + "/" + name)
        finally:
            shutil.rmtree(folder)
        known = name in ("m", "n")
        if not ctx.check(bool(got) == known, "found", [name, str(got)]):
            return
        ctx.cover("found" if known else "missing")
        if known:
            out = run(got[0], {}, engine)
            ctx.observe("out", out)
            ctx.check(out == "<b>%s</b>" % {"m": "one", "n": "two"}[name],
                      "macro of a file", [name, out])
    return fn


CODES = (
    ("print('x')", "x\n", {}),
    ("print('x', end='')\nprint(1 + 1)", "x2\n", {}),
    ("a = 3", "", {"a": 3}),
    ("global a\na = 5\nprint(a)", "5\n", {"a": 5}),
    ("global a\na = 5\ni = 6", "", {"a": 5, "i": 6}),
    ("  a = 3\n  print(a)", "3\n", {"a": 3}),
    ("\n\n\ta = 'q'\n\t\n\n\tprint(a)\n", "q\n", {"a": "q"}),
    ("<!-- print('c') -->", "c\n", {}),
    (" \n<!--\n  a = 1\n  print('c')\n-->\n", "c\n", {"a": 1}),
    ("for i in range(3):\n  print(i)\n\nprint('-->')",
     "0\n1\n2\n-->\n", {"i": 2}),
    ("", "", {}),
    ("<!--\nprint('a -->', '<!-- b', end='<!--')\n-->", "a --> <!-- b<!--",
     {}),
    ("a = \'\'\'<!--\n  -->\'\'\'", "", {"a": "<!--\n  -->"}),
    ("# <!--\nprint('-->')\n#-->", "-->\n", {}),
    (" \n", "", {}),
    ("print('<!--')", "<!--\n", {}),
    ("1 / 0", None, {}),
    ("print('lost')\nraise KeyError('k')", None, {}),
)


def code():
    """Code of a template."""
    def fn(ctx):
        text, want, names = ctx.pick("code", CODES)
        shared = ctx.flag("shared")
        engine = DummyEngine()
        engine.useEngineAttrDicts = shared
        engine.setGlobal("g", "G")
        if ctx.flag("again"):
            # what code set before stays
            engine.evaluateCode("text/server-python", "z = 9")
        stdout = sys.stdout
        try:
            got = engine.evaluateCode("text/server-python", text)
        except (ZeroDivisionError, KeyError):
            got = None
        ctx.check(sys.stdout is stdout, "standard output",
                  lambda: [text])
        sys.stdout = stdout
        ctx.observe("got", got)
        ctx.check(got == want, "output", lambda: [text, got, want])
        for name in ("a", "i"):
            have = ev(engine, name)
            ctx.check(have == ([names[name]] if name in names else []),
                      "variables", lambda: [text, name, have])
        ctx.check(ev(engine, "g") == ["G"], "other variables",
                  lambda: [text])
        if shared:
            got = engine.evaluateCode("text/server-python", "print(g * 2)")
            ctx.check(got == "GG\n", "variables in code",
                      lambda: [text, got])
        ctx.cover("code" if want is not None else "failure")
    return fn


def deep():
    """Scopes far inside each other."""
    def fn(ctx):
        engine = DummyEngine()
        ref = Scopes()
        size = ctx.pick("size", (3, 5, 8, 12))
        cycle = ctx.pick("cycle", (1, 2, 3, 4))
        names = ("a", "b", "c", "d")
        what = []

        def probe():
            for name in names:
                compare(ctx, engine, ref, name, what)
        for i in range(size):
            engine.beginScope()
            ref.begin()
            if i % 3 != 2:
                for j in range(1 + i % 2):
                    name = names[(i * cycle + j) % 4]
                    engine.setLocal(name, "%d.%d" % (i, j))
                    ref.local(name, "%d.%d" % (i, j))
            if ctx.flag("global") and i == 2:
                engine.setGlobal("d", "G")
                ref.globals["d"] = "G"
            what.append("begin")
            probe()
        while len(ref.stack) > 1:
            engine.endScope()
            ref.end()
            what.append("end")
            probe()
        ctx.cover("deep")
    return fn


def goals(tier):
    t = tier == "thorough"
    steps = 6 if t else 4
    n = 2 if t else 1
    return [
        Goal("scopes", scopes(steps, n), "up to %d steps, two names of up "
             "to %d characters" % (steps, n), ["there", "missing"]),
        Goal("strings", strings(n + 1), "texts of up to %d characters"
             % (n + 1), ["string"]),
        Goal("deep", deep(), "up to 12 scopes", ["deep"]),
        Goal("kinds", kinds(), "texts of up to 2 characters", ["kinds"]),
        Goal("repeats", repeats(n), "up to 3 items", ["repeat"]),
        Goal("messages", messages(5 if t else 4), "messages of up to %d "
             "characters" % (5 if t else 4),
             ["default", "lower", "message", "multiple", "backslash"]),
        Goal("messages-again", messages(3 if t else 2, True),
             "messages after another one",
             ["default", "lower", "message", "multiple"]),
        Goal("unknown", unknown(n), "defaults of up to %d characters" % n,
             ["default"]),
        Goal("python", python(), "some python expressions",
             ["value", "failure"]),
        Goal("places", places(n, 0), "file names of up to %d characters" % n,
             ["position"]),
        Goal("macros", macros(n), "two names of up to %d characters" % n,
             ["page"]),
        Goal("libraries", libraries(), "macros of files",
             ["found", "missing"]),
        Goal("code", code(), "some pieces of code", ["code", "failure"]),
        Goal("templates", templates(n), "two definitions", ["template"]),
    ]
