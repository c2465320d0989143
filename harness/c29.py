"""A template means the same however it is read."""
import io
import os
import pathlib
import shutil
import tempfile
from xml.parsers.expat import ExpatError

from harness.common import *  # noqa: F401,F403
from zope.tal.dummyengine import DummyEngine
from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import TALError

ASSUMPTIONS = [
    "symbolic characters of a stream arrive in pieces that end between "
    "characters; pieces that divide the bytes of one are concrete",
    "the files are written with concrete text, in the default encoding for "
    "HTML"]

CHAR = XML - charset.of_chars("<&\t\n\r]>\"'")

SOURCES = (
    "<doc%s>{c}a\n  <b tal:repeat='r {c}s'>{c}</b>\n</doc>",
    "<doc%s k='{c}1'>&amp;<!-- {c} --><i tal:content='t'/> {c}</doc>",
    "<doc%s><![CDATA[x{c}]]><?pi a{c}?>\n<b tal:replace='t'/></doc>\n",
    "<doc%s><b metal:define-macro='m' i18n:domain='{c}'>{c}<i "
    "i18n:translate=''\n> x{c}</i></b></doc>",
)


def source(ctx):
    c = ctx.chars("c", 1, CHAR)
    src = ctx.pick("source", SOURCES) % NS
    parts = src.split("{c}")
    out = parts[0]
    for p in parts[1:]:
        out = out + c + p
    return out


def parser_of(kind, encoding=None):
    gen = TALGenerator(DummyEngine(), xml=kind == "xml")
    if kind == "html":
        return HTMLTALParser(gen)
    if encoding is not None:
        return TALParser(gen, encoding)
    return TALParser(gen)


def reference(kind, src):
    p = parser_of(kind)
    p.parseString(src)
    return p.getCode()


def agree(ctx, got, want, more):
    """Same program and same macros."""
    detail = lambda: ctx.value([more, got, want])  # noqa: E731
    ctx.check(got[0] == want[0], "program", detail)
    ctx.check(sorted(got[1]) == sorted(want[1]), "macros", detail)
    for name in want[1]:
        ctx.check(got[1][name] == want[1][name], "macros", detail)


def pieces():
    """Handed over piece by piece."""
    def fn(ctx):
        src = source(ctx)
        p = parser_of("xml")
        start = len("<doc" + NS) - 3
        i = ctx.choose("cut", len(src) - start) + start
        p.parseFragment(src[:i])
        j = i + ctx.pick("next", (0, 1, 3))
        p.parseFragment(src[i:j])
        if ctx.flag("end"):
            p.parseFragment(src[j:])
            p.parseFragment("", 1)
        else:
            p.parseFragment(src[j:], 1)
        agree(ctx, p.getCode(), reference("xml", src), [i, j])
        ctx.cover("pieces")
    return fn


class Stream:
    """Gives what is asked for in small parts."""

    def __init__(self, data, size, encode):
        self.data = data
        self.size = size
        self.encode = encode
        self.at = 0

    def read(self, n=-1):
        i = self.at
        size = len(self.data) - i if n is None or n < 0 else n
        self.at = min(len(self.data), i + min(size, self.size))
        part = self.data[i:self.at]
        if self.encode:
            return part.encode("utf-8") if len(part) else b""
        return part


def streams():
    """Streams that give less than is asked for."""
    def fn(ctx):
        src = source(ctx)
        p = parser_of("xml")
        size = ctx.pick("size", (1, 2, 5, 50, 10000))
        p.parseStream(Stream(src, size, True))
        agree(ctx, p.getCode(), reference("xml", src), [size])
        ctx.cover("streams")
    return fn


ENCODINGS = ("utf-8", "UTF-8", "iso-8859-1", "us-ascii", "utf-16",
             "utf-16-le", "windows-1252")
CHARS = ("a", "\x7f", "\xe9", "€", "ж", "\U00010400", "\x92")


def read(ctx, p, how, data):
    """Read bytes or text in one of the ways."""
    if how == "string":
        p.parseString(data)
        return
    if how == "pieces":
        i = ctx.choose("piece", 4)
        n = len(data) * i // 4 + i
        p.parseFragment(data[:n])
        p.parseFragment(data[n:], 1)
        return
    if how == "stream":
        p.parseStream(io.BytesIO(data))
        return
    if how == "slow":
        p.parseStream(Stream(data, ctx.pick("size", (1, 3)), False))
        return
    folder = tempfile.mkdtemp()
    try:
        name = os.path.join(folder, "x y%20.html")
        with open(name, "wb") as f:
            f.write(data)
        if how == "file":
            p.parseFile(name)
        else:
            p.parseURL(pathlib.Path(name).as_uri())
    finally:
        shutil.rmtree(folder)


WAYS = ("string", "pieces", "stream", "slow", "file", "url")


def encodings():
    """The encoding declared, given to the parser, or neither."""
    def fn(ctx):
        enc = ctx.pick("encoding", ENCODINGS)
        c = ctx.pick("char", CHARS)
        body = '<!-- p -->\n<doc%s%s><!-- %s --><b k="%s">%s</b></doc>' % (
            NS, ' tal:define="a t"', c, c, c)
        told = ctx.pick("told", ("declared", "given", "both", "wrong",
                                 "mark"))
        src = body
        name = enc[:6] if enc.startswith("utf-16") else enc
        if told in ("declared", "both"):
            src = '<?xml version="1.0" encoding="%s"?>\n' % name + body
        elif told == "wrong":
            # what is given counts
            src = '<?xml version="1.0" encoding="%s"?>\n' % (
                "utf-8" if name != "utf-8" else "iso-8859-1") + body
        given = None
        if told in ("given", "both", "wrong"):
            given = name
        try:
            data = src.encode(enc)
        except UnicodeEncodeError:
            return
        if enc == "utf-16-le" or told == "mark":
            if not enc.lower().startswith("utf-"):
                return
            if enc != "utf-16":
                data = "﻿".encode(enc) + data
        how = ctx.pick("how", WAYS)
        p = parser_of("xml", given)
        read(ctx, p, how, data)
        want = reference("xml", src)
        agree(ctx, p.getCode(), want, [enc, c, told, how])
        ctx.cover(how)
    return fn


def texts():
    """Text is text, whatever encoding it declares."""
    def fn(ctx):
        enc = ctx.pick("encoding", ENCODINGS)
        c = ctx.chars("c", 1, CHAR)
        decl = '<?xml version="1.0" encoding="%s"?>\n' % enc
        src = "<doc%s><b>" % NS + c + "</b></doc>"
        given = ctx.pick("given", (None, "utf-8", "iso-8859-1"))
        p = parser_of("xml", given)
        if ctx.flag("pieces"):
            p.parseFragment(decl)
            p.parseFragment(src, 1)
        else:
            p.parseString(decl + src)
        program, macros = p.getCode()
        out = Out()
        TALInterpreter(program, macros, Engine({}), out, wrap=0)()
        ctx.observe("out", out.text())
        ctx.check(out.text() == decl + "<doc><b>" + c + "</b></doc>",
                  "output", lambda: ctx.value(
                      [enc, given, c, out.text()]))
        ctx.cover("text")
    return fn


#: HTML
PAGES = (
    "a\n<b tal:define='a t'> &amp; {c}</b>\n",
    "<!-- {c} --><b tal:repeat='r s'\n k='{c}'>x</b>\n\n",
    "<!DOCTYPE html>\n<p>plain<p>{c}",
    "<b metal:define-macro='m'>{c}<i i18n:translate=''\n> x</i></b>",
    "",
)


def pages():
    """HTML templates in files, with any kind of line end."""
    def fn(ctx):
        src = ctx.pick("source", PAGES).replace(
            "{c}", ctx.pick("char", ("a", "\xe9", "€")))
        end = ctx.pick("end", ("\n", "\r\n", "\r"))
        folder = tempfile.mkdtemp()
        p = parser_of("html")
        try:
            name = os.path.join(folder, "x.html")
            with open(name, "w", newline=end) as f:
                f.write(src)
            p.parseFile(name)
        finally:
            shutil.rmtree(folder)
        agree(ctx, p.getCode(), reference("html", src), [src, end])
        ctx.cover("page")
    return fn


def large():
    """Templates larger than what is read at once."""
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        n = ctx.pick("n", (1, 200))
        c = ctx.pick("char", ("a", "\xe9"))
        src = "<doc%s>" % NS + (
            "<b tal:content='t'>%s</b>\n" % c) * n + "</doc>"
        p = parser_of(kind)
        if kind == "xml":
            read(ctx, p, ctx.pick("how", WAYS), src.encode("utf-8"))
        else:
            folder = tempfile.mkdtemp()
            try:
                name = os.path.join(folder, "x.html")
                with open(name, "w") as f:
                    f.write(src)
                p.parseFile(name)
            finally:
                shutil.rmtree(folder)
        got = p.getCode()
        want = reference(kind, src)
        ctx.check(got[0] == want[0], "program", lambda: [kind, n])
        ctx.cover(kind)
    return fn


#: templates refused
WRONG = ("<doc%s>\n <b></i></doc>", "<doc%s>\n\n<b tal:x=''/></doc>",
         "<doc%s>\n<b", "<doc%s><b tal:content='x' tal:replace='y'/></doc>",
         "<doc%s>\n&", "")


def failure(fn, *args):
    try:
        fn(*args)
    except ExpatError as e:
        return "not well-formed", e.lineno, e.offset, e.code
    except (TALError, HTMLParseError) as e:
        return e.__class__.__name__, e.msg, e.lineno, e.offset


def refused():
    """The same is refused in every way, with the same error."""
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        src = ctx.pick("source", WRONG)
        if kind == "xml":
            src = src % NS if src else src
            want = failure(reference, "xml", src)
            got = failure(read, ctx, parser_of("xml"),
                          ctx.pick("how", WAYS), src.encode("utf-8"))
            ctx.check(want is not None, "refused", lambda: [src])
        else:
            src = src.replace("%s", "")
            want = failure(reference, "html", src)
            folder = tempfile.mkdtemp()
            try:
                name = os.path.join(folder, "x.html")
                with open(name, "w") as f:
                    f.write(src)
                got = failure(parser_of("html").parseFile, name)
            finally:
                shutil.rmtree(folder)
        ctx.check(got == want, "error", lambda: ctx.value([src, got, want]))
        ctx.cover(kind)
    return fn


def nothing():
    """A file that is not there."""
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        folder = tempfile.mkdtemp()
        try:
            p = parser_of(kind)
            try:
                p.parseFile(os.path.join(folder, "x"))
            except OSError:
                got = True
            else:
                got = False
        finally:
            shutil.rmtree(folder)
        ctx.check(got, "missing file", lambda: [kind])
        ctx.cover("missing")
    return fn


def bare():
    """Parsers that are not given anything to work with."""
    def fn(ctx):
        kind = ctx.pick("kind", ("html", "xml"))
        c = ctx.chars("c", 1, CHAR)
        src = "<doc%s>" % (NS if kind == "xml" else "") + c + \
            "<b tal:content='string:x'>y</b></doc>"
        p = HTMLTALParser() if kind == "html" else TALParser()
        p.parseString(src)
        gen = TALGenerator(DummyEngine(), xml=kind == "xml")
        q = HTMLTALParser(gen) if kind == "html" else TALParser(gen)
        q.parseString(src)
        agree(ctx, p.getCode(), q.getCode(), [kind])
        ctx.cover(kind)
    return fn


def goals(tier):
    return [
        Goal("pieces", pieces(), "%d templates, every place" % len(SOURCES),
             ["pieces"]),
        Goal("streams", streams(), "%d templates" % len(SOURCES),
             ["streams"]),
        Goal("encodings", encodings(), "%d encodings, %d characters" % (
            len(ENCODINGS), len(CHARS)), list(WAYS)),
        Goal("texts", texts(), "%d encodings" % len(ENCODINGS), ["text"]),
        Goal("pages", pages(), "%d pages" % len(PAGES), ["page"]),
        Goal("large", large(), "up to 200 elements", ["html", "xml"]),
        Goal("refused", refused(), "%d templates" % len(WRONG),
             ["html", "xml"]),
        Goal("nothing", nothing(), "", ["missing"]),
        Goal("bare", bare(), "one character", ["html", "xml"]),
    ]
