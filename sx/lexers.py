"""Feeding symbolic template source to the real lexers.

The standard library's HTML lexer and expat see the source with every
symbolic character replaced by a private-use character; the arguments of the
handlers they call are translated back.  A symbolic character that stands in
the raw text forks on the characters that mean something to the lexer.
"""
import html.parser
import re
import xml.parsers.expat

from sx import charset
from sx import core
from sx.symstr import Atom
from sx.symstr import EscChar
from sx.symstr import SymChar
from sx.symstr import SymBytes
from sx.symstr import SymStr
from sx.symstr import el_eq
from sx.symstr import is_sym
from sx.symstr import test

BASE = 0xF0000
TOKEN = re.compile("zq([0-9]+)qz|([\U000F0000-\U000FFFFD])")
#: characters a raw symbolic character is compared with before it is hidden
SPECIAL = {"html": "<&\n", "xml": "<&\n\r>]"}


#: what may not be hidden inside a tag, outside of attribute values
MARKUP = charset.predicate("isspace") | charset.of_chars("<>/=\"'&")
ENTITY = charset.of_chars("#;") | charset.CS(((48, 57), (65, 90), (97, 122)))


class Where:
    """Where in the markup the text seen so far ends."""

    def __init__(self):
        self.state = "text"
        self.quote = None
        self.tail = ""

    def see(self, text):
        for c in text:
            st = self.state
            self.tail = (self.tail + c)[-12:]
            if st == "text":
                if c == "<":
                    self.state = "open"
            elif st == "open":
                if c == "!" or c == "?":
                    self.state = "decl"
                elif c == "/" or c.isalpha() or c in ":_":
                    self.state = "tag"
                else:
                    self.state = "text"
            elif st == "tag":
                if c in "\"'":
                    self.state, self.quote = "value", c
                elif c == ">":
                    self.state = "text"
            elif st == "value":
                if c == self.quote:
                    self.state = "tag"
            elif st == "decl":
                if c == ">":
                    self.state = "text"

    def special(self, kind):
        """The characters that mean something here."""
        st = self.state
        if st == "text":
            return SPECIAL[kind]
        if st == "value":
            return self.quote + ("&\n" if kind == "html" else "&<\n\r\t")
        if st == "decl":
            return "->?]['\"\n" + ("\r" if kind == "xml" else "")
        return ""

    def hide(self, x, kind):
        """A character other than the special ones stands here."""
        if type(x) is SymChar:
            if self.state in ("open", "tag") and (x.known() & MARKUP).r:
                core.cur.gap("symbolic character inside a tag")
            if self.state in ("text", "value"):
                i = self.tail.rfind("&")
                if i >= 0 and all(ord(c) in ENTITY
                                  for c in self.tail[i + 1:]
                                  if c != ";") and \
                        ";" not in self.tail[i:] and \
                        (x.known() & ENTITY).r:
                    core.cur.gap("symbolic character inside a reference")
        if self.state == "open":
            self.state = "tag"
        self.tail = (self.tail + "\uffff")[-12:]


class Holes:
    def __init__(self):
        self.items = []
        self.where = Where()

    def encode(self, s, kind):
        out = []
        where = self.where
        for x in s.p:
            t = type(x)
            if t is str:
                out.append(x)
                where.see(x)
            elif t is Atom:
                out.append("zq%dqz" % len(self.items))
                self.items.append(x)
                where.hide(x, kind)
            elif t is EscChar:
                out.append(chr(BASE + len(self.items)))
                self.items.append(SymChar(x.var, x.off))
                where.hide(None, kind)
            else:
                for c in where.special(kind):
                    if test(el_eq(x, c)):
                        out.append(c)
                        where.see(c)
                        break
                else:
                    out.append(chr(BASE + len(self.items)))
                    self.items.append(x)
                    where.hide(x, kind)
        return "".join(out)

    def decode(self, s):
        if type(s) is not str or not self.items:
            return s
        if TOKEN.search(s) is None:
            return s
        out = []
        last = 0
        for m in TOKEN.finditer(s):
            out.append(s[last:m.start()])
            i = int(m.group(1)) if m.group(1) else ord(m.group(2)) - BASE
            if i < len(self.items):
                out.append(self.items[i])
            else:
                out.append(m.group())
            last = m.end()
        out.append(s[last:])
        return SymStr.make(out)

    def deep(self, x):
        if type(x) is str:
            return self.decode(x)
        if type(x) is list:
            return [self.deep(y) for y in x]
        if type(x) is tuple:
            return tuple([self.deep(y) for y in x])
        if type(x) is dict:
            return {self.deep(k): self.deep(v) for k, v in x.items()}
        return x


def lower_ok(s):
    """The HTML lexer lower-cases names: symbolic parts must not care."""
    if is_sym(s):
        from sx.symstr import case_changed
        asc, other = case_changed("lower")
        for x in s.p:
            if type(x) is SymChar and (x.known() & (asc | other)).r:
                core.cur.gap("symbolic upper-case name")
            elif type(x) is Atom and any(
                    t.lower() != t for t in x.strings):
                core.cur.gap("symbolic upper-case name")


HANDLERS = ("handle_starttag", "handle_startendtag", "handle_endtag",
            "handle_data", "handle_charref", "handle_entityref",
            "handle_comment", "handle_decl", "handle_pi", "unknown_decl")

_feed = html.parser.HTMLParser.feed


def feed(self, data):
    if not is_sym(data):
        return _feed(self, data)
    holes = self.__dict__.setdefault("_sx_holes", Holes())
    text = holes.encode(data, "html")
    for name in HANDLERS:
        if name in self.__dict__:
            continue
        meth = getattr(self, name)

        def wrapper(*a, _m=meth, _h=holes, _n=name):
            a = _h.deep(a)
            if _n.endswith("tag"):
                lower_ok(a[0])
                if len(a) > 1:
                    for kk, v in a[1]:
                        lower_ok(kk)
            return _m(*a)
        self.__dict__[name] = wrapper
    return _feed(self, text)


class ParserProxy:
    def __init__(self, real):
        self.__dict__["_p"] = real
        self.__dict__["_holes"] = Holes()

    def __getattr__(self, name):
        return getattr(self._p, name)

    def __setattr__(self, name, value):
        if name.endswith("Handler") or name == "DefaultHandlerExpand":
            if value is None:
                setattr(self._p, name, None)
                return
            holes = self._holes

            def wrapper(*a):
                return value(*holes.deep(list(a)))
            setattr(self._p, name, wrapper)
        else:
            setattr(self._p, name, value)

    def Parse(self, data, final=0):
        if type(data) is SymBytes:
            data = self._holes.encode(data.s, "xml").encode("utf-8")
        elif is_sym(data):
            data = self._holes.encode(data, "xml")
        elif type(data) is str:
            self._holes.where.see(data)
        elif type(data) is bytes:
            self._holes.where.see(data.decode("utf-8", "replace"))
        return self._p.Parse(data, final)

    def ParseFile(self, file):
        while True:
            data = file.read(2048)
            if type(data) is not SymBytes and not data:
                return self._p.Parse(b"", 1)
            self.Parse(data)


_create = xml.parsers.expat.ParserCreate


def parser_create(*a, **k):
    return ParserProxy(_create(*a, **k))


def install():
    from sx import instr
    html.parser.HTMLParser.feed = feed
    xml.parsers.expat.ParserCreate = parser_create
    instr.TABLE[_create] = parser_create
