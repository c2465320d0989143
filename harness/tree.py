"""Template trees: their source text and a reference renderer.

A tree is a list of strings (markup copied to source and output as it is) and
E objects.  The reference renderer works on the tree, by plain recursion; it
shares no code and no data structure with the code under test.
"""
from harness.common import DEFAULT
from harness.common import Faulty
from harness.common import Message
from harness.common import Raise
from harness.common import attr_src
from harness.common import esc_attr
from harness.common import esc_text

METAL = ("define-macro", "extend-macro", "use-macro", "define-slot",
         "fill-slot")
I18N = ("translate", "name", "domain", "attributes", "data", "source",
        "target")
BOOLEAN = ("compact", "nowrap", "ismap", "declare", "noshade", "checked",
           "disabled", "readonly", "multiple", "selected", "noresize",
           "defer")
VOID = ("img", "input", "hr", "br")


class Bare(str):
    """The empty value of a statement that is written without one."""


#: <b tal:omit-tag>, in HTML
BARE = Bare()

#: the ways an empty value is written
EMPTY = {"html": ("", BARE), "xml": ("",)}


def shorten(ctx, kind, st):
    """Write statements with empty values in any of the ways there are."""
    for n in ("omit", "translate", "ignore"):
        if st.get(n) == "":
            st[n] = ctx.pick("short-" + n, EMPTY[kind])


class E:
    """An element.

    attrs: literal attributes, (name, value) pairs; value None: no value
    statements: define=[(scope, name, expr)], condition=expr,
    repeat=(name, expr), content=(key, expr), replace=(key, expr),
    attributes=[(name, expr)], omit=expr, on_error=(key, expr),
    translate=msgid, name=.., domain=.., i18n_attributes=[(name, msgid)],
    data=.., script=language, define_macro=.., use_macro=.., extend_macro=..,
    define_slot=.., fill_slot=..
    pos: where literal attributes go: "first", "last"
    order: statement names in source order
    ns: the tag is of the TAL namespace
    empty: written without end tag, "void": as an empty HTML element
    """

    def __init__(self, tag, kids=(), attrs=(), order=None, literal="first",
                 empty=False, **st):
        self.tag = tag
        self.kids = list(kids)
        self.attrs = list(attrs)
        self.st = {k: v for k, v in st.items() if v is not None}
        self.order = order
        self.literal = literal
        self.empty = empty
        self.lex = None
        self.inner = 0
        self.length = 0
        self.pos = None
        self.end = None
        self.file = None
        self.white = ""

    @property
    def ns(self):
        return ":" in self.tag

    def statements(self):
        """(attribute name, argument) in source order."""
        out = []
        names = list(self.st)
        if self.order is not None:
            names = [n for n in self.order if n in self.st] + \
                [n for n in names if n not in self.order]
        for n in names:
            v = self.st[n]
            if n == "define":
                out.append(("tal:define", "; ".join(
                    [(sc + " " if sc else "") + nm + " " + ex
                     for sc, nm, ex in v])))
            elif n == "attributes":
                out.append(("tal:attributes", "; ".join(
                    [nm + " " + ex for nm, ex in v])))
            elif n == "repeat":
                out.append(("tal:repeat", v[0] + " " + v[1]))
            elif n in ("content", "replace", "on_error"):
                arg = v[1] if not v[0] else v[0] + " " + v[1]
                out.append(("tal:" + n.replace("_", "-"), arg))
            elif n == "omit":
                out.append(("tal:omit-tag", v))
            elif n in ("condition", "script"):
                out.append(("tal:" + n, v))
            elif n == "i18n_attributes":
                out.append(("i18n:attributes", "; ".join(
                    [nm + (" " + ms if ms is not None else "")
                     for nm, ms in v])))
            elif n in ("translate", "name", "domain", "data", "source",
                       "target", "ignore", "ignore-attributes"):
                out.append(("i18n:" + n, v))
            else:
                out.append(("metal:" + n.replace("_", "-"), v))
        return [(n, None if isinstance(v, Bare) else v) for n, v in out]

    def all_attrs(self):
        if self.literal == "last":
            return self.statements() + self.attrs
        return self.attrs + self.statements()


def layout(nodes, kind, head="", tail="", file=None):
    """The source, noting where in it each element starts."""
    text = head + source(nodes, kind) + tail

    def note(nodes, base):
        for n in nodes:
            if isinstance(n, E):
                start = base
                before = text[:start]
                n.pos = (before.count("\n") + 1,
                         start - (before.rfind("\n") + 1))
                n.file = file
                n.end = text[:start + n.length].count("\n") + 1
                note(n.kids, start + n.inner)
                base = start + n.length
                continue
            base += len(n)

    note(nodes, len(head))
    return text


def source(nodes, kind):
    out = []
    for n in nodes:
        if isinstance(n, E):
            text, n.inner = element_source(n, kind)
            n.length = len(text)
            out.append(text)
        else:
            out.append(n)
    return "".join(out)


def element_source(n, kind):
    out = []
    out.append("<" + n.tag)
    for k, v in n.all_attrs():
        if v is None:
            out.append(" " + k)
        else:
            out.append(" " + k + "=" + '"' + attr_src(v, kind) + '"')
    if n.empty:
        out.append(">" if n.empty == "void" else "/>")
        return "".join(out), 0
    out.append(">")
    head = "".join(out)
    return head + source(n.kids, kind) + "</" + n.tag + ">", len(head)


def resolve(nodes, domain=None):
    """Note the domain declared at each element."""
    for n in nodes:
        if isinstance(n, E):
            n.lex = n.st.get("domain", domain) or domain
            resolve(n.kids, n.lex)


def find_macros(nodes, out=None):
    out = {} if out is None else out
    for n in nodes:
        if isinstance(n, E):
            if "define_macro" in n.st:
                out[n.st["define_macro"]] = n
            find_macros(n.kids, out)
    return out


def find_fillers(nodes, out):
    for n in nodes:
        if isinstance(n, E):
            if "fill_slot" in n.st:
                out[n.st["fill_slot"]] = n
            else:
                find_fillers(n.kids, out)
    return out


def own_line(text):
    """Split off the line end and the blanks before a repeated element."""
    i = len(text)
    while i > 0 and text[i - 1] in " \t":
        i -= 1
    if i == 0 or text[i - 1] != "\n":
        return text, ""
    i -= 1
    if i > 0 and text[i - 1] == "\r":
        i -= 1
    return text[:i], text[i:]


class Frame:
    def __init__(self, fillers, parent, extending):
        self.fillers = fillers
        self.parent = parent
        self.extending = extending


def fold(text):
    """Runs of white space become one blank; none at the ends."""
    out = []
    gap = False
    for c in text:
        if c.isspace():
            gap = True
            continue
        if gap and out:
            out.append(" ")
        gap = False
        out.append(c)
    return "".join(out)


class Ref:
    """Renders a tree the way the language is defined."""

    def __init__(self, kind, values, macros=None):
        self.kind = kind
        self.values = values
        self.macros = macros if macros is not None else {}
        self.locals = {}
        self.globals = {}
        self.log = []
        self.where = []
        self.messages = []
        self.errors = []
        self.frame = None
        self.domain = "default"
        self.units = []
        self.translation = None

    # expressions
    def lookup(self, expr):
        if expr == "err":
            return self.locals["error"].args[0]
        if expr in self.locals:
            return self.locals[expr]
        if expr in self.globals:
            return self.globals[expr]
        return self.values[expr]

    def note(self, expr, e):
        self.log.append(expr)
        self.where.append((expr, e.pos, e.file))

    def settle(self, expr, v):
        if isinstance(v, Faulty):
            if not v.fails(self.log.count(expr)):
                return v.value
            raise v.exc(expr)
        if isinstance(v, Raise):
            raise v.exc(expr)
        return v

    def eval(self, expr, e):
        self.note(expr, e)
        return self.settle(expr, self.lookup(expr))

    def translate(self, msgid, mapping, default, e):
        self.messages.append((msgid, self.domain, dict(mapping), default))
        if self.translation is not None:
            return self.translation(msgid, mapping, default)
        return default if default is not None else msgid

    # rendering
    def render(self, nodes):
        out = []
        text = ""
        for n in nodes:
            if isinstance(n, E):
                n.white = ""
                if "repeat" in n.st:
                    text, n.white = own_line(text)
                out.append(text)
                out.append(self.elem(n))
                text = ""
            else:
                text = text + n
        out.append(text)
        return "".join(out)

    def elem(self, e, used=False):
        st = e.st
        expr = st.get("use_macro") or st.get("extend_macro")
        if expr is not None:
            return self.use(e, expr, used and "extend_macro" in st)
        if "define_slot" in st:
            f = self.frame
            while f is not None:
                filler = f.fillers.get(st["define_slot"])
                if filler is not None:
                    saved = self.frame
                    self.frame = f.parent
                    try:
                        return self.body(filler)
                    finally:
                        self.frame = saved
                f = f.parent if f.extending else None
        return self.body(e)

    def use(self, e, expr, extending):
        self.note(expr, e)
        v = self.settle(expr, self.values.get(expr, self))
        fillers = find_fillers(e.kids, {})
        saved = self.frame
        self.frame = Frame(fillers, saved, extending)
        outer = self.locals
        self.locals = dict(outer, macroname=expr.rsplit("/", 1)[-1])
        try:
            if v is DEFAULT:
                out = self.body(e)
            else:
                out = self.elem(self.macros[expr], True)
        finally:
            self.frame = saved
        self.locals = outer
        outer.setdefault("macroname", None)
        return out

    def body(self, e):
        st = e.st
        i18n = [k for k in ("translate", "name", "domain", "i18n_attributes",
                            "data", "source", "target", "ignore",
                            "ignore-attributes") if k in st]
        tal = [k for k in ("define", "condition", "repeat", "content",
                           "replace", "attributes", "omit", "on_error",
                           "script")
               if k in st] or e.ns or self.language(e) is not None
        domain = self.domain
        if st.get("domain"):
            self.domain = st["domain"]
        elif (i18n or "define_slot" in st) and e.lex is not None:
            if e.lex != "default":
                self.domain = e.lex
        outer = self.locals
        if tal or i18n:
            self.locals = dict(outer)
            self.locals["attrs"] = dict(e.all_attrs())
        try:
            if "on_error" in st:
                return self.guarded(e)
            return self.defined(e)
        finally:
            self.locals = outer
            self.domain = domain

    def guarded(self, e):
        key, expr = e.st["on_error"]
        here = self.locals
        domain = self.domain
        units = len(self.units)
        frame = self.frame
        try:
            return self.defined(e)
        except Exception as exc:
            self.locals = dict(here)
            self.domain = domain
            del self.units[units:]
            self.frame = frame
            self.errors.append((exc.args[0], e.pos))
            self.locals["error"] = exc
            v = self.eval(expr, e)
            self.locals = here
            if v is None or v is DEFAULT:
                text = ""
            elif key == "structure":
                text = self.string(v)
            else:
                text = esc_text(self.string(v))
            if e.ns:
                return text
            return self.tag(e, e.attrs, False) + text + "</" + e.tag + ">"

    def string(self, v):
        if isinstance(v, str):
            return v
        return str(v)

    def defined(self, e):
        st = e.st
        for scope, name, expr in st.get("define", ()):
            v = self.eval(expr, e)
            if scope == "global":
                self.globals[name] = v
            else:
                self.locals[name] = v
        if "condition" in st:
            if not self.eval(st["condition"], e):
                return ""
        if "repeat" in st:
            name, expr = st["repeat"]
            out = []
            for item in self.eval(expr, e):
                self.locals[name] = item
                out.append(e.white + self.named(e))
            return "".join(out)
        return self.named(e)

    def named(self, e):
        if "name" not in e.st:
            return self.element(e)
        here = self.locals
        domain = self.domain
        try:
            value = fold(self.element(e))
        finally:
            self.locals = here
            self.domain = domain
        name = e.st["name"]
        self.units[-1][name] = value
        return "${" + name + "}"

    def element(self, e):
        st = e.st
        replace = "replace" in st
        key, expr = st.get("replace") or st.get("content") or (None, None)
        bare = replace and "omit" not in st
        if not bare and "omit" in st:
            bare = st["omit"] == "" or bool(self.eval(st["omit"], e))
        if e.ns or self.language(e) != st.get("script"):
            bare = True
        # attributes are evaluated also when the tag is left out
        attrs = e.attrs if replace else self.attributes(e)
        minimal = not [k for k in e.kids if isinstance(k, E) or k != ""] \
            and key is None and "translate" not in st \
            and "script" not in st and "name" not in st
        if e.empty == "void":
            closed = False
        elif e.empty and self.kind == "html":
            # an empty element has no content to be translated
            closed = key is None and (
                e.tag in VOID or not ("translate" in st or "script" in st))
        else:
            closed = self.kind == "xml" and minimal
        start = "" if bare else self.tag(e, attrs, closed)
        inner = ""
        if expr is not None:
            inner = self.substitute(e, key, expr, "translate" in st)
        elif "translate" in st:
            inner = self.unit(e)
        else:
            inner = self.inside(e)
        if bare:
            return inner
        if closed or e.empty == "void":
            return start + inner
        return start + inner + "</" + e.tag + ">"

    def language(self, e):
        """The language of the code in the element."""
        if self.kind == "html" and e.tag == "script":
            t = [v for n, v in e.attrs if n == "type" and v is not None]
            if t and t[0].startswith("text/server-"):
                return t[0]
        return e.st.get("script")

    def inside(self, e):
        """The content, or what its code gives."""
        text = self.render(e.kids)
        lang = self.language(e)
        if lang is None:
            return text
        return self.code(lang, text, e)

    def code(self, lang, text, e):
        return text

    def substitute(self, e, key, expr, translate):
        v = self.eval(expr, e)
        if v is None:
            return ""
        if v is DEFAULT:
            return self.inside(e)
        if isinstance(v, Message):
            v = self.translate(v, {}, v.default, e)
        else:
            v = self.string(v)
            if translate:
                v = self.translate(v, {}, v, e)
        if key == "structure":
            return v
        return esc_text(v)

    def unit(self, e):
        msgid = e.st["translate"]
        mapping = {}
        self.units.append(mapping)
        n = len(self.units)
        try:
            default = self.inside(e)
        finally:
            del self.units[n - 1:]
        if not msgid:
            msgid = fold(default)
            if e.tag == "pre" and self.kind == "html":
                msgid = default
        if "data" in e.st:
            mapping.update(self.eval(e.st["data"], e))
        return self.translate(msgid, mapping, default, e)

    def attributes(self, e):
        comp = dict(e.st.get("attributes", ()))
        xlat = dict(e.st.get("i18n_attributes", ()))
        out = []
        lower = self.kind == "html"
        if lower:
            comp = {k.lower(): v for k, v in comp.items()}
            xlat = {k.lower(): v for k, v in xlat.items()}
        todo = []
        for name, value in e.attrs:
            todo.append((name, value, True))
        have = [n for n, v in e.attrs]
        for name in sorted(set(comp) | set(xlat)):
            if name not in have:
                todo.append((name, None, False))
        for name, value, there in todo:
            if name not in comp and name not in xlat:
                out.append((name, value))
                continue
            if name in comp:
                v = self.eval(comp[name], e)
                if lower and name in BOOLEAN:
                    if v is DEFAULT:
                        if not there:
                            continue
                        v = value if value is not None else name
                    elif v:
                        v = name
                    else:
                        continue
                elif v is DEFAULT:
                    if not there:
                        continue
                    v = value
                elif v is None:
                    continue
                else:
                    v = self.string(v)
            else:
                v = value
            answer = None
            if name in xlat:
                answer = self.translate(xlat[name] or v, {}, v, e)
            elif isinstance(v, Message):
                answer = self.translate(v, {}, v.default, e)
            if answer is not None:
                v = answer
            if v is None:
                v = name
            out.append((name, Value(v)))
        return out

    def tag(self, e, attrs, closed):
        out = ["<", e.tag]
        for name, value in attrs:
            if value is None:
                out.append(" " + name)
            elif isinstance(value, Value):
                out.append(" " + name + '="' + esc_attr(value.text) + '"')
            else:
                out.append(" " + name + '="' + esc_attr(value) + '"')
        if closed:
            out.append(" />" if self.kind == "html" else "/>")
        else:
            out.append(">")
        return "".join(out)


class Value:
    """A computed attribute value."""

    def __init__(self, text):
        self.text = text
