"""Shared parts of the harnesses: an expression engine, compile and render.

Everything here is ordinary Python.  The same code runs instrumented (with
symbolic strings) and plain (with the values of a solver model).
"""
from zope.i18nmessageid import Message

from sx import charset
from sx.goal import Goal  # noqa: F401
from sx.source import attr as attr_src  # noqa: F401
from zope.tal.htmltalparser import HTMLTALParser
from zope.tal.talgenerator import TALGenerator
from zope.tal.talinterpreter import TALInterpreter
from zope.tal.talparser import TALParser

#: every character
ANY = charset.ANY
#: characters that may appear in an XML document
XML = charset.CS(((9, 10), (13, 13), (32, 0xd7ff), (0xe000, 0xfffd),
                  (0x10000, 0x10ffff)))
LETTERS = charset.CS(((97, 122),))
ASCII = charset.CS(((0, 127),))


class Boom(Exception):
    """The exception expressions of the harness raise."""


class CompError(Exception):
    pass


class Raise:
    """A value whose evaluation raises."""

    def __init__(self, exc=Boom):
        self.exc = exc


class Faulty:
    """A value whose n-th evaluation raises if the n-th flag is true."""

    def __init__(self, flags, value, exc=Boom):
        self.flags = flags
        self.value = value
        self.exc = exc

    def fails(self, n):
        return n <= len(self.flags) and bool(self.flags[n - 1])


class Default:
    def __repr__(self):
        return "<default>"


DEFAULT = Default()


class CE:
    """A compiled expression."""

    def __init__(self, text):
        self.text = text


class Iter:
    def __init__(self, engine, name, seq):
        self.engine = engine
        self.name = name
        self.seq = seq
        self.i = 0

    def __next__(self):
        if self.i >= len(self.seq):
            return 0
        item = self.seq[self.i]
        self.i += 1
        self.engine.setLocal(self.name, item)
        return 1


class Engine:
    """A recording expression compiler and engine.

    An expression is a name.  It is looked up in the local variables, the
    global variables and then the table of values given to the constructor.
    """

    def __init__(self, values=None, macros=None):
        self.values = values if values is not None else {}
        self.macros = macros
        self.log = []
        self.where = []
        self.raised = []
        self.compiled = []
        self.locals = {}
        self.stack = []
        self.globals = {}
        self.position = None
        self.source = None
        self.messages = []
        self.errors = []
        self.translation = None

    # compiler
    def getCompilerError(self):
        return CompError

    def compile(self, expr):
        self.compiled.append(expr)
        return CE(expr)

    # engine
    def getDefault(self):
        return DEFAULT

    def setPosition(self, position):
        self.position = position

    def setSourceFile(self, name):
        self.source = name

    def beginScope(self):
        self.stack.append(self.locals)
        self.locals = dict(self.locals)

    def endScope(self):
        if not self.stack:
            raise AssertionError("endScope without beginScope")
        self.locals = self.stack.pop()

    def setLocal(self, name, value):
        self.locals[name] = value

    def setGlobal(self, name, value):
        self.globals[name] = value

    def getValue(self, name, default=None):
        if name in self.locals:
            return self.locals[name]
        return self.globals.get(name, default)

    def lookup(self, text):
        if text == "err":
            return self.locals["error"].value.args[0]
        if text in self.locals:
            return self.locals[text]
        if text in self.globals:
            return self.globals[text]
        return self.values[text]

    def note(self, text):
        self.log.append(text)
        self.where.append((text, self.position, self.source))

    def settle(self, text, v):
        """The value, or the error it stands for."""
        if isinstance(v, Faulty):
            if not v.fails(self.log.count(text)):
                return v.value
            self.raised.append(v.exc(text))
            raise self.raised[-1]
        if isinstance(v, Raise):
            self.raised.append(v.exc(text))
            raise self.raised[-1]
        return v

    def evaluate(self, ce):
        self.note(ce.text)
        return self.settle(ce.text, self.lookup(ce.text))

    evaluateValue = evaluate
    evaluateStructure = evaluate

    def evaluateText(self, ce):
        v = self.evaluate(ce)
        if v is None or v is DEFAULT or isinstance(v, (str, Message)):
            return v
        return str(v)

    def evaluateBoolean(self, ce):
        v = self.evaluate(ce)
        if v is DEFAULT:
            return v
        return v

    def evaluateMacro(self, ce):
        self.note(ce.text)
        v = self.settle(ce.text, self.values.get(ce.text, self))
        if v is self:
            return self.macros[ce.text]
        return v

    def setRepeat(self, name, ce):
        return Iter(self, name, self.evaluate(ce))

    def createErrorInfo(self, exc, position):
        info = Info(exc, position)
        self.errors.append(info)
        return info

    def translate(self, msgid, domain=None, mapping=None, default=None):
        self.messages.append((msgid, domain, dict(mapping or {}), default))
        if self.translation is not None:
            return self.translation(msgid, mapping, default)
        return default if default is not None else msgid

    def evaluateCode(self, lang, code):
        return code


class Info:
    def __init__(self, exc, position):
        self.type = exc.__class__
        self.value = exc
        self.position = position
        self.lineno, self.offset = position


class Out:
    """An output stream."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)

    def text(self):
        return "".join(self.parts)


def compile_html(src, engine=None, source_file=None):
    gen = TALGenerator(engine or Engine(), xml=0, source_file=source_file)
    p = HTMLTALParser(gen)
    p.parseString(src)
    return p.getCode()


def compile_xml(src, engine=None, source_file=None):
    gen = TALGenerator(engine or Engine(), source_file=source_file)
    p = TALParser(gen)
    p.parseString(src)
    return p.getCode()


def compile_(kind, src, engine=None, source_file=None):
    if kind == "xml":
        return compile_xml(src, engine, source_file)
    return compile_html(src, engine, source_file)


def run(program, macros, engine, **options):
    """Render; returns the text written."""
    out = Out()
    TALInterpreter(program, macros, engine, out, **options)()
    return out.text()


def render(kind, src, values, engine=None, **options):
    engine = engine or Engine(values)
    program, macros = compile_(kind, src, engine)
    if engine.macros is None:
        engine.macros = macros
    return run(program, macros, engine, **options)


NS = (' xmlns:tal="http://xml.zope.org/namespaces/tal"'
      ' xmlns:metal="http://xml.zope.org/namespaces/metal"'
      ' xmlns:i18n="http://xml.zope.org/namespaces/i18n"')


def within(src, value):
    """The same in a filler, inside other elements; value is a true value"""
    return ('<w tal:condition="' + value + '"><w><w metal:define-macro="zz">'
            '(<w metal:define-slot="zz">d</w>)</w><w metal:use-macro="zz">'
            '<w tal:define="zz ' + value + '" metal:fill-slot="zz">' + src +
            "</w></w></w></w>")


def written_within(text):
    """What that gives."""
    return "<w><w><w>(<w>d</w>)</w><w>(<w>" + text + "</w>)</w></w></w>"


# the same without expressions
INSIDE = ("<w><w metal:define-macro='zz'><w metal:define-slot='zz'>"
          "<w i18n:source='en'>", "</w></w></w></w>")
WRITTEN_INSIDE = ("<w><w><w><w>", "</w></w></w></w>")


def inside(kind, src):
    return INSIDE[0] + src + INSIDE[1] if kind == "xml" else src


def written_inside(kind, text):
    return WRITTEN_INSIDE[0] + text + WRITTEN_INSIDE[1] \
        if kind == "xml" else text


def esc_text(s):
    """Reference: text in element content."""
    out = []
    for c in s:
        if c == "&":
            out.append("&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">":
            out.append("&gt;")
        else:
            out.append(c)
    return "".join(out)


def esc_attr(s):
    """Reference: text in a double-quoted attribute value."""
    out = []
    for c in s:
        if c == "&":
            out.append("&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">":
            out.append("&gt;")
        elif c == '"':
            out.append("&quot;")
        else:
            out.append(c)
    return "".join(out)
