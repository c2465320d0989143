"""Rendering a file from the command line."""
import ast
import os
import shutil
import sys
import tempfile
from io import StringIO

from harness.common import *  # noqa: F401,F403
from zope.tal import driver
from zope.tal.dummyengine import DummyEngine

ASSUMPTIONS = ["templates are concrete; the options are symbolic"]

#: something for every option to show in
BODY = ('<b class="c" tal:content="string:x">y</b>\n'
        '<i metal:define-macro="m">M<s metal:define-slot="s">d</s></i>\n'
        '<u metal:use-macro="m"><s metal:fill-slot="s">f</s></u>\n'
        '<q tal:content="structure string:<w>&lt;/w>">q</q>\n'
        '<em i18n:translate="">one <a i18n:name="n">two</a></em>\n'
        '<em tal:define="a string:1" tal:attributes="k a" i18n:translate=""'
        ' i18n:attributes="title" title="t">three</em>'
        '<em a="%s" b="%s" tal:attributes="k string:1">four</em>'
        % ("v" * 600, "w" * 600))
SOURCE = {
    "html": '<doc>' + BODY.replace("&lt;/w>", "") + "<br></doc>",
    "xml": '<?xml version="1.0"?>\n<doc%s>' % NS + BODY.replace(
        "string:<w>", "string:&lt;w>") + "<br/></doc>",
}
#: long and short form
OPTIONS = (("lenient", "-l", "--lenient"), ("macro", "-m", "--macro-only"),
           ("show", "-t", "--show-tal"), ("i18n", "-i", "--show-i18n"),
           ("annotate", "-a", "--annotate"))
HTML_NAMES = ("x.html", "x.htm", "x.HTML", "x.Htm", "a.xml.html",
              "test23.html", "test32.html",
              os.path.join("tests", "input", "test01.html"))
XML_NAMES = ("x.xml", "x.pt", "x", "html", "a.html.xml", "x.htmlx", "x.shtm",
             "test23.xml", os.path.join("tests", "input", "test01.xml"))


class Folder:
    """A folder with a file in it."""

    def __init__(self, name, text):
        self.path = os.path.realpath(tempfile.mkdtemp())
        self.file = os.path.join(self.path, name)
        os.makedirs(os.path.dirname(self.file), exist_ok=True)
        with open(self.file, "w") as f:
            f.write(text)

    def hide(self, text):
        return text.replace(self.path, "FOLDER")

    def remove(self):
        shutil.rmtree(self.path)


def command(*args):
    """What is written, and the status the program ends with."""
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["driver"] + list(args)
    sys.stdout, sys.stderr = out, err = StringIO(), StringIO()
    status = None
    try:
        driver.main()
    except SystemExit as e:
        status = e.code
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return out.getvalue(), err.getvalue(), status


def direct(kind, src, name, on):
    """The same without the command."""
    gen = TALGenerator(DummyEngine(), xml=int(kind == "xml"),
                       source_file=name)
    p = TALParser(gen) if kind == "xml" else HTMLTALParser(gen)
    p.parseString(src)
    program, macros = p.getCode()
    stream = StringIO()
    TALInterpreter(program, macros, DummyEngine(macros), stream, wrap=0,
                   tal=int("macro" not in on),
                   showtal=1 if "show" in on else -1,
                   strictinsert=int("lenient" not in on),
                   i18nInterpolate=int("i18n" not in on),
                   sourceAnnotations=int("annotate" in on))()
    return stream.getvalue(), (program, macros)


def options(kind):
    """The options, alone and together."""
    def fn(ctx):
        on = []
        args = []
        for name, short, long in OPTIONS:
            if ctx.sbool(name):
                on.append(name)
                args.append(short if ctx.flag("short") else long)
        order = ctx.choose("order", 3)
        mode = ctx.pick("mode", ("", "short", "long"))
        file = "x." + kind
        if mode:
            # against the extension
            file = ctx.pick("file", (file, "x.xml", "x.htm"))
            args.append({"html": ("-H", "--html"), "xml": ("-x", "--xml")}[
                kind][mode == "long"])
        src = SOURCE[kind]
        folder = Folder(file, src)
        try:
            if order == 0:
                args.append(folder.file)
            elif order == 1:
                args.insert(0, folder.file)
            else:
                args = args[::-1] + [folder.file]
            out, err, status = command(*args)
            want = direct(kind, src, folder.file, on)[0]
            out, want = folder.hide(out), folder.hide(want)
            args = folder.hide(" ".join(args))
        finally:
            folder.remove()
        ctx.observe("out", out)
        detail = lambda: [args, out, want, err, status]  # noqa: E731
        ctx.check(out == want, "output", detail)
        ctx.check(err == "" and status is None, "status", detail)
        for name in on:
            ctx.cover(name)
    return fn


def names():
    """HTML or XML by the name of the file."""
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        file = ctx.pick("name", HTML_NAMES if kind == "html" else XML_NAMES)
        on = ["macro"] if ctx.flag("macro") else []
        src = SOURCE[kind]
        folder = Folder(file, src)
        try:
            if ctx.flag("relative"):
                where = os.getcwd()
                os.chdir(folder.path)
                try:
                    out, err, status = command(*["-m"] * len(on), file)
                finally:
                    os.chdir(where)
            else:
                out, err, status = command(*["-m"] * len(on), folder.file)
            want = direct(kind, src, None, on)[0]
        finally:
            folder.remove()
        ctx.observe("out", out)
        detail = lambda: [file, out, want, err, status]  # noqa: E731
        ctx.check(out == want, "output", detail)
        ctx.check(err == "" and status is None, "status", detail)
        ctx.cover(kind)
    return fn


def code():
    """The compiled program is shown instead of rendering."""
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        args = [ctx.pick("option", ("-s", "--show-code"))]
        for name, short, long in OPTIONS:
            if ctx.sbool(name):
                args.append(short)
        src = SOURCE[kind]
        folder = Folder("x." + kind, src)
        try:
            out, err, status = command(*args, folder.file)
            want = direct(kind, src, folder.file, [])[1]
        finally:
            folder.remove()
        detail = lambda: [args, out]  # noqa: E731
        ctx.check(err == "" and status is None, "status", detail)
        try:
            got = ast.literal_eval(out)
        except SyntaxError:
            got = None
        ctx.check(got == want, "program", detail)
        ctx.cover(kind)
    return fn


def misuse():
    """No file, several, unknown options."""
    def fn(ctx):
        folder = Folder("x.html", SOURCE["html"])
        try:
            what = ctx.pick("what", ("none", "two", "unknown"))
            args = []
            for name, short, long in OPTIONS:
                if ctx.sbool(name):
                    args.append(short)
            if what == "two":
                args += [folder.file, folder.file]
            elif what == "unknown":
                args += [ctx.pick("option", ("-q", "--quiet", "--html=1")),
                         folder.file]
            out, err, status = command(*args)
        finally:
            folder.remove()
        detail = lambda: [args, out, err, status]  # noqa: E731
        ctx.check(status not in (None, 0), "status", detail)
        ctx.check("<doc" not in out, "nothing is rendered", detail)
        ctx.check("Usage" in out + err or "usage" in out + err, "help",
                  detail)
        ctx.cover(what)
    return fn


def goals(tier):
    out = []
    for kind in ("html", "xml"):
        out.append(Goal("options-" + kind, options(kind),
                        "any of five options, in three orders, the language "
                        "given or not", [n for n, s, o in OPTIONS]))
    return out + [
        Goal("names", names(), "%d names" % len(HTML_NAMES + XML_NAMES),
             ["html", "xml"]),
        Goal("code", code(), "any of five options", ["html", "xml"]),
        Goal("misuse", misuse(), "three kinds of misuse",
             ["none", "two", "unknown"]),
    ]
