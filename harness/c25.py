"""What error reports say."""
import os
import shutil
import tempfile

from harness.common import *  # noqa: F401,F403
from zope.tal.dummyengine import DummyEngine
from zope.tal.htmltalparser import EmptyTagError
from zope.tal.htmltalparser import HTMLParseError
from zope.tal.htmltalparser import NestingError
from zope.tal.htmltalparser import OpenTagError
from zope.tal.taldefs import ErrorInfo
from zope.tal.taldefs import I18NError
from zope.tal.taldefs import METALError
from zope.tal.taldefs import TALError
from zope.tal.taldefs import TALExpressionError

ASSUMPTIONS = ["expressions in messages need no escapes when written as "
               "Python strings"]

CLASSES = (TALError, METALError, TALExpressionError, I18NError)


def number(ctx, name, most):
    """None or a number."""
    if ctx.flag(name + "?"):
        return ctx.int(name, 0, most)
    return None


def report(msg, line, col, file):
    out = msg
    if line is not None:
        out = out + ", at line " + str(line)
    if col is not None:
        out = out + ", column " + str(col + 1)
    if file is not None:
        out = out + ", in file " + file
    return out


def text(n, most):
    """The text of a template error."""
    def fn(ctx):
        cls = ctx.pick("class", CLASSES)
        msg = ctx.text("msg", n, ANY, minlen=1)
        line = number(ctx, "line", most)
        col = number(ctx, "col", most)
        if line is None and col is None and ctx.flag("none"):
            e = cls(msg)
        else:
            e = cls(msg, (line, col))
        file = None
        if ctx.flag("file?"):
            file = ctx.text("file", n, ANY)
            e.setFile(file)
        got = str(e)
        want = report(msg, line, col, file)
        ctx.observe("text", got)
        ctx.check(got == want, "text", lambda: ctx.value([got, want]))
        ctx.check(e.msg == msg and e.lineno == line and e.offset == col and
                  e.filename == file, "parts",
                  lambda: ctx.value([e.lineno, e.offset, e.filename]))
        ctx.check(isinstance(e, TALError), "class", "not a template error")
        ctx.cover("all" if line is not None and col is not None and
                  file is not None else "some")
    return fn


def info(most):
    """What a handler is told."""
    def fn(ctx):
        pos = (number(ctx, "line", most), number(ctx, "col", most))
        err = ctx.pick("err", (Boom("x"), Boom, TALError("m"), KeyError("k"),
                               TALError("m", (98, 97)),
                               SyntaxError("s", ("f", 96, 95, "t")),
                               ValueError, KeyboardInterrupt,
                               KeyboardInterrupt("k"), SystemExit(1)))
        inst = not isinstance(err, type)
        if ctx.flag("engine"):
            i = DummyEngine().createErrorInfo(err, pos)
        elif pos == (None, None) and ctx.flag("none"):
            i = ErrorInfo(err)
        else:
            i = ErrorInfo(err, pos)
        ctx.observe("info", [i.type.__name__, i.lineno, i.offset])
        detail = lambda: ctx.value(  # noqa: E731
            [str(i.type), str(i.value), i.lineno, i.offset])
        ctx.check(i.type is (err.__class__ if inst else err), "type", detail)
        ctx.check(i.value is (err if inst else None), "value", detail)
        ctx.check((i.lineno, i.offset) == pos, "position", detail)
        ctx.cover("instance" if inst else "class")
    return fn


#: numbers of open tags
MANY = (4, 5, 6, 7, 8, 11, 16, 21)


def nesting(n, depth):
    """HTML nesting errors name the tags (depth 0: many of them)."""
    def fn(ctx):
        t = ctx.text("t", n, charset.of_chars("a \n"))
        if depth:
            tags = ["w" + ctx.text("tag%d" % i, 1, LETTERS)
                    for i in range(ctx.choose("depth", depth + 1))]
        else:
            tags = ["w%d" % i for i in range(ctx.pick("depth", MANY))]
        kind = ctx.pick("kind", ("end", "empty", "open"))
        before = "".join(["<" + x + ">\n" for x in tags]) + t
        if kind == "end":
            name = "v" + ctx.text("name", 1, LETTERS)
            src = before + "</" + name + ">"
            cls = NestingError
            if not tags:
                msg = "No tags are open to match </" + name + ">"
            elif len(tags) == 1:
                msg = ("Open tag <" + tags[0] + "> does not match close "
                       "tag </" + name + ">")
            else:
                msg = ("Open tags <" + ">, <".join(tags) +
                       "> do not match close tag </" + name + ">")
        elif kind == "empty":
            name = ctx.pick("name", ("br", "img", "hr", "input"))
            src = before + "</" + name + ">"
            cls = EmptyTagError
            msg = "Close tag </" + name + "> should be removed"
        else:
            name = ctx.pick("name", ("div", "p", "table", "h3"))
            head = ctx.pick("head", ("h1", "h6"))
            inner = ctx.pick("inner", ("", "b", "i"))
            before = before + "<" + head + ">"
            last = head
            if inner:
                before = before + "<" + inner + "> "
                last = inner
            src = before + "<" + name + ">"
            cls = OpenTagError
            msg = "Tag <" + name + "> is not allowed in <" + last + ">"
        err = None
        try:
            compile_html(src + "..</" + name + ">")
        except HTMLParseError as exc:
            err = exc
        ctx.check(err is not None, "rejected", lambda: ctx.value(src))
        detail = lambda: ctx.value(  # noqa: E731
            [src, type(err).__name__, str(err), msg])
        ctx.check(type(err) is cls, "class", detail)
        line = before.count("\n") + 1
        col = len(before) - (before.rfind("\n") + 1)
        ctx.observe("error", str(err))
        ctx.check(str(err) == report(msg, line, col, None), "text", detail)
        ctx.check((err.lineno, err.offset) == (line, col), "position",
                  detail)
        ctx.cover(kind)
    return fn


def placeless(n, most):
    """HTML errors whose position is not known, or only in part."""
    def fn(ctx):
        tags = ["w" + ctx.text("tag%d" % i, n, LETTERS)
                for i in range(ctx.choose("depth", 3))]
        name = "v" + ctx.text("name", n, LETTERS)
        line = number(ctx, "line", most)
        col = number(ctx, "col", most)
        pos = [(line, col)]
        if line is None and col is None and ctx.flag("none"):
            pos = []
        kind = ctx.pick("kind", ("end", "empty", "open", "other"))
        if kind == "end":
            err = NestingError(tags, name, *pos)
            msg = "No tags are open to match </" + name + ">"
            if len(tags) == 1:
                msg = ("Open tag <" + tags[0] + "> does not match close "
                       "tag </" + name + ">")
            elif tags:
                msg = ("Open tags <" + ">, <".join(tags) +
                       "> do not match close tag </" + name + ">")
        elif kind == "empty":
            err = EmptyTagError(name, *pos)
            msg = "Close tag </" + name + "> should be removed"
        elif kind == "open":
            ctx.assume(tags)
            err = OpenTagError(tags, name, *pos)
            msg = "Tag <" + name + "> is not allowed in <" + tags[-1] + ">"
        else:
            err = HTMLParseError(name, *pos)
            msg = name
        got = str(err)
        want = report(msg, line, col, None)
        ctx.observe("text", got)
        ctx.check(got == want, "text", lambda: ctx.value([got, want]))
        ctx.check((err.lineno, err.offset) == (line, col), "position",
                  lambda: ctx.value([got, err.lineno, err.offset]))
        ctx.cover("placed" if line is not None else "placeless")
    return fn


FAULTY = (
    ("<p>\n <b tal:foo='x'>y</b></p>", TALError, (2, 1)),
    ("<b tal:content='a' tal:replace='b'>y</b>", TALError, (1, 0)),
    ("<p>x\n<b metal:fill-slot='x'>y</b></p>", METALError, (2, 0)),
    ("\n\n<b i18n:name='x'>y</b>", I18NError, (3, 0)),
    ("<b tal:content='no'>y</b>", TALError, (1, 0)),
)


def files():
    """Errors in templates read from a file."""
    def fn(ctx):
        src, cls, pos = ctx.pick("src", FAULTY)
        folder = tempfile.mkdtemp()
        try:
            name = os.path.join(folder, "x.pt")
            with open(name, "w") as f:
                f.write(src)
            err = None
            parser = HTMLTALParser(TALGenerator(Refusing("no"), xml=0))
            try:
                parser.parseFile(name)
            except TALError as exc:
                err = exc
        finally:
            shutil.rmtree(folder)
        ctx.check(err is not None, "rejected", src)
        ctx.check(type(err) is cls and (err.lineno, err.offset) == pos,
                  "error", lambda: [src, str(err)])
        ctx.check(err.filename == name, "file", lambda: [src, str(err)])
        ctx.check(str(err) == report(err.msg, pos[0], pos[1], name), "text",
                  lambda: [src, str(err)])
        ctx.cover(cls.__name__)
    return fn


STATEMENTS = (("tal:content", ""), ("tal:replace", "structure "),
              ("tal:define", "x "), ("tal:define", "global x "),
              ("tal:condition", ""), ("tal:repeat", "x "),
              ("tal:attributes", "k "), ("tal:on-error", ""),
              ("tal:omit-tag", ""), ("metal:use-macro", ""))


class Refusing(Engine):
    def __init__(self, message):
        Engine.__init__(self)
        self.message = message

    def compile(self, expr):
        if expr.startswith("no"):
            raise CompError(self.message)
        return CE(expr)


def expressions(kind, n):
    """An expression the engine's compiler refuses."""
    def fn(ctx):
        message = ctx.text("message", n, ANY, minlen=1)
        # repr() of a text with these characters is the text in quotes
        expr = "no" + ctx.text("expr", n, charset.of_chars("ab:$+/ "))
        ctx.assume(not expr.endswith(" "))
        name, pre = ctx.pick("statement", STATEMENTS)
        lead = ctx.pick("lead", ("", "x", "\n", "\n  "))
        head = "<doc>" if kind == "html" else "<doc" + NS + ">"
        before = head + lead
        src = before + "<w " + name + '="' + pre + expr + '">k</w></doc>'
        err = None
        try:
            compile_(kind, src, Refusing(message))
        except TALError as exc:
            err = exc
        ctx.check(err is not None, "rejected", lambda: ctx.value(src))
        line = before.count("\n") + 1
        col = len(before) - (before.rfind("\n") + 1)
        ctx.observe("error", [err.lineno, err.offset])
        detail = lambda: ctx.value([src, err.lineno, err.offset])  # noqa
        ctx.check((err.lineno, err.offset) == (line, col), "position",
                  detail)
        ctx.check(err.msg.startswith(message), "message", detail)
        ctx.check(expr in err.msg[len(message):], "expression", detail)
        ctx.cover(name)
    return fn


def goals(tier):
    t = tier == "thorough"
    n = 4 if t else 2
    out = [
        Goal("text", text(n, 30 if t else 10),
             "messages and file names of up to %d characters, lines and "
             "columns up to %d" % (n, 30 if t else 10), ["all", "some"]),
        Goal("info", info(9999), "errors and positions",
             ["instance", "class"]),
        Goal("nesting", nesting(2 if t else 1, 3 if t else 2),
             "up to %d open tags with names of up to 2 characters" % (
                 3 if t else 2), ["end", "empty", "open"]),
        Goal("nesting-many", nesting(0, 0), "4 to 21 open tags",
             ["end", "empty", "open"]),
        Goal("placeless", placeless(1, 9 if t else 3),
             "up to two open tags with names of up to 2 characters",
             ["placed", "placeless"]),
        Goal("files", files(), "faulty HTML templates in files",
             ["TALError", "METALError", "I18NError"]),
    ]
    for kind in ("html", "xml"):
        out.append(Goal("expressions-" + kind, expressions(kind, n),
                        "%s: messages and expressions of up to %d "
                        "characters" % (kind, n),
                        sorted({s for s, p in STATEMENTS})))
    return out
