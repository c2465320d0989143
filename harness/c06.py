"""An error is contained by the innermost enclosing handler."""
from harness.c05 import FORMS
from harness.c05 import compare
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.scale import big
from harness.tree import E
from zope.tal.taldefs import TALError

#: names of expressions that may fail
HANDLERS = (("", "err"), ("text", "h"), ("structure", "h"), ("", "hn"))


def body(ctx, which):
    """Children of the guarded element; f is the expression that fails."""
    if which == "content":
        return ["1", E("i", content=("", "f")), "2"]
    if which == "replace":
        return ["1", E("i", replace=("structure", "f")), "2"]
    if which == "attribute":
        return ["1", E("i", ["x"], [("u", "1")],
                       attributes=[("u", "z"), ("v", "f")])]
    if which == "define":
        return [E("i", ["x", E("s", content=("", "f"))],
                  define=[("", "a", "z"), ("global", "g", "z")]), "2"]
    if which == "late-define":
        return [E("i", ["x"], define=[("", "a", "z"), ("", "b", "f")])]
    if which == "condition":
        return [E("i", ["x"], condition="f")]
    if which == "omit":
        return [E("i", ["x"], omit="f")]
    if which == "omitted":
        return [E("i", ["x", E("s", content=("", "f"))], omit="")]
    if which == "omitted-attribute":
        return [E("i", ["x"], omit="", attributes=[("v", "f")])]
    if which == "tag":
        return [E("tal:x", ["x", E("s", content=("", "f"))],
                  define=[("", "a", "z")])]
    if which == "loop":
        return [E("i", ["x", E("s", content=("", "f"))],
                  repeat=("a", "s"))]
    if which == "loops":
        return [E("i", [E("s", content=("", "f"), repeat=("b", "s"))],
                  repeat=("a", "s"))]
    if which == "sequence":
        return [E("i", ["x"], repeat=("a", "fs"))]
    if which == "unit":
        return [E("i", ["t ", E("s", ["n"], name="n"), " ",
                        E("s", content=("", "f"), name="m")],
                  translate="")]
    if which == "units":
        return [E("i", ["t ", E("s", [E("u", [E("u", content=("", "f"),
                                                name="k")],
                                        translate="")], name="m")],
                  translate="", domain="dom")]
    if which == "code":
        return [E("i", ["c", E("s", content=("", "f"))],
                  script="text/server-x")]
    if which == "data":
        return [E("i", ["t"], translate="id", data="fd")]
    if which == "domain":
        return [E("i", [E("s", [E("u", content=("", "f"))],
                          translate="")], domain="dom")]
    if which == "i18n-attribute":
        return [E("i", ["x"], [("u", "1")], domain="dom",
                  i18n_attributes=[("u", None)], attributes=[("v", "f")])]
    if which == "macro":
        return ["1", E("i", use_macro="m"), "2"]
    if which == "filler":
        return [E("i", [E("s", [E("u", content=("", "f"))], fill_slot="s1")],
                  use_macro="n")]
    if which == "default-slot":
        return [E("i", use_macro="d")]
    if which == "evaluating-macro":
        return [E("i", use_macro="fm")]
    if which == "macro-in-filler":
        return [E("i", [E("s", [E("u", use_macro="m")], fill_slot="s1")],
                  use_macro="n")]
    if which == "extended":
        return [E("i", [E("s", [E("u", content=("", "f"))], fill_slot="s1")],
                  use_macro="x")]
    if which == "nested":
        return [E("i", ["x", E("s", content=("", "f"))], on_error=("", "h")),
                E("s", content=("", "f2"))]
    if which == "failing-handler":
        return [E("i", [E("s", content=("", "f"))], on_error=("", "f2"))]
    raise AssertionError(which)


BODIES = ("code", "content", "replace", "attribute", "define", "late-define",
          "condition", "omit", "omitted", "omitted-attribute", "tag", "loop",
          "loops", "sequence", "unit", "units", "data", "domain",
          "i18n-attribute", "macro", "filler", "default-slot",
          "evaluating-macro", "macro-in-filler", "extended", "nested",
          "failing-handler")

#: statements of the guarded element itself, the last one failing
OWN = ({"define": [("", "a", "z"), ("global", "g", "z"), ("", "b", "f")]},
       {"condition": "f"}, {"repeat": ("a", "fs")},
       {"repeat": ("a", "s"), "content": ("", "f")},
       {"content": ("", "f")}, {"content": ("structure", "f")},
       {"replace": ("", "f")}, {"omit": "f"}, {"omit": "", "content":
                                               ("", "f")},
       {"attributes": [("k", "f")]}, {"attributes": [("j", "z"),
                                                     ("l", "f")]},
       {"translate": "", "attributes": [("j", "f")]},
       {"content": ("", "f"), "translate": ""},
       # nothing is written
       {"condition": "no"}, {"repeat": ("a", "empty")},
       {"replace": ("", "hn")}, {"omit": "", "content": ("", "hn")},
       {"condition": "no", "repeat": ("a", "fs")})

NOTHING = "nothing"


def macros():
    """Macros for the bodies and what follows, never rendered in place."""
    return E("div", [
        E("m", ["(", E("u", content=("", "f")), ")"], define_macro="m"),
        E("n", ["(", E("o", ["slot"], define_slot="s1"), ")"],
          define_macro="n"),
        E("d", ["(", E("o", ["slot", E("u", content=("", "f"))],
                       define_slot="s1"), ")"], define_macro="d"),
        E("x", [E("q", ["Q"], fill_slot="s9")], extend_macro="n",
          define_macro="x"),
        E("k", ["(", E("o", ["slot"], define_slot="s1"),
                E("o", ["slot"], define_slot="s2"), ")"],
          define_macro="k")], condition="no")


def after():
    """What follows the guarded element and must not notice."""
    return [E("u", ["x"], attributes=[("w", "a"), ("v", "b")]),
            E("u", content=("", "g")),
            E("u", ["t ", E("s", ["y"], name="p")], translate=""),
            E("u", [E("s", ["F"], fill_slot="s2")], use_macro="k")]


def values_for(ctx, n):
    flags = [ctx.sbool("f%d" % i) for i in range(n)]
    one = [ctx.sbool("g%d" % i) for i in range(n)]
    return {"f": Faulty(flags, ctx.chars("v", 1, LETTERS)),
            "f2": Faulty(one, "V2"),
            "fs": Faulty(flags, ["i1", "i2"]),
            "fd": Faulty(flags, {"k": "v"}),
            "fm": Faulty(flags, DEFAULT),
            "z": ctx.chars("z", 1, LETTERS), "s": ["i", "j"], "no": False,
            "a": "A0", "b": "B0", "g": "G0", "h": "H", "hn": None,
            "empty": []}


def context(ctx, where, guarded):
    if where == "plain":
        return ["A"] + guarded + after()
    if where == "loop":
        return [E("p", ["A"] + guarded + after(), repeat=("r", "s"))]
    if where == "unit":
        return [E("p", ["A ", E("q", guarded, name="w"), " B"],
                  translate="")] + after()
    if where == "in-unit":
        return [E("p", ["A ", E("q", ["o"], name="o")] + guarded +
                  [E("q", ["w"], name="w"), " B"], translate="",
                  domain="outer")] + after()
    if where == "domain":
        return [E("p", guarded + after() + [
            E("u", ["t"], translate="")], domain="outer")] + [
                E("u", ["t"], translate="")]
    if where == "macro":
        return [E("div", [E("w", ["<"[:0]] + guarded + [
            E("o", ["slot"], define_slot="s1"),
            E("o", ["slot"], define_slot="s2")], define_macro="w")],
            condition="no"),
            E("p", [E("q", ["W"], fill_slot="s2")], use_macro="w")] + after()
    if where == "filler":
        return [E("p", [E("q", guarded + after(), fill_slot="s1"),
                        E("q", ["W"], fill_slot="s2")],
                  use_macro="k")] + after()
    if where == "handler":
        return [E("p", guarded + after(), on_error=("", "err"))] + after()
    raise AssertionError(where)


CONTEXTS = ("plain", "loop", "unit", "in-unit", "domain", "macro", "filler",
            "handler")


def contained(kind, contexts, bodies, handlers, n):
    def fn(ctx):
        values = values_for(ctx, n)
        which = ctx.pick("body", bodies)
        handler = HANDLERS[ctx.choose("handler", handlers)]
        where = ctx.pick("where", contexts)
        if which in ("unit", "units") and where in ("unit", "in-unit"):
            ctx.cover("units")
        g = E("b", body(ctx, which), literal(kind), on_error=handler)
        finish(ctx, kind, values, where, g)
    return fn


def literal(kind):
    """Literal attributes of the guarded element."""
    out = [("k", "lit"), ("e", ""), ("q", '<"&;')]
    if kind == "html":
        out.append(("checked", None))
    return out


def finish(ctx, kind, values, where, g):
    nodes = context(ctx, where, [g]) + [macros()]
    engine, ref = compare(ctx, kind, nodes, values)
    got = [(i.value.args[0], i.position) for i in engine.errors]
    ctx.check(got == ref.errors, "errors",
              lambda: ctx.value([got, ref.errors]))
    if ref.errors:
        ctx.cover("handled")
    else:
        ctx.cover("fine")


def own(kind, contexts, handlers, n):
    """The failing statement is on the guarded element."""
    def fn(ctx):
        values = values_for(ctx, n)
        st = ctx.pick("own", OWN)
        where = ctx.pick("where", contexts)
        tag = ctx.pick("tag", ("b", "tal:b"))
        attrs = literal(kind)
        if tag == "tal:b":
            if "omit" in st or "replace" in st or "attributes" in st:
                tag = "b"
            else:
                attrs = []
        handler = HANDLERS[ctx.choose("handler", handlers)]
        g = E(tag, ["x"], attrs, on_error=handler, **st)
        finish(ctx, kind, values, where, g)
    return fn


def without(kind, n):
    """The element that fails, or is guarded, has no content."""
    def fn(ctx):
        values = values_for(ctx, n)
        st = ctx.pick("own", [x for x in OWN if "content" not in x
                              and "translate" not in x])
        where = ctx.pick("where", ("plain", "loop", "in-unit", "macro"))
        tag, empty = ctx.pick("form", FORMS[kind])
        handler = HANDLERS[ctx.choose("handler", 2)]
        if ctx.flag("around") or empty == "void" or tag == "img":
            g = E("b", ["1", E(tag, [], literal(kind), empty=empty, **st),
                        "2"], literal(kind), on_error=handler)
        else:
            g = E(tag, [], literal(kind), empty=empty, on_error=handler,
                  **st)
        finish(ctx, kind, values, where, g)
    return fn


def handlers(kind, t):
    """What the handler says, on elements of several kinds."""
    def fn(ctx):
        values = {"f": Raise(), "z": "Z", "err": "E", "s": ["1", "2"],
                  "a": "A0", "b": "B0", "g": "G0", "no": False,
                  "h": ctx.pick("h", ("", "H", "<u>x</u>", "&amp;", None,
                                      DEFAULT))}
        key = ctx.pick("key", ("", "text", "structure"))
        tag = ctx.pick("tag", ("b", "tal:b") + ("metal:b", "i18n:b") * t)
        st = dict(ctx.pick("st", ({}, {"omit": ""}, {"omit": "no"},
                                  {"define": [("", "a", "z")]},
                                  {"repeat": ("r", "s")},
                                  {"translate": "", "domain": "d"})))
        if ctx.flag("own"):
            if "translate" not in st:
                st["content"] = ctx.pick("how", (("", "f"),
                                                 ("structure", "f")))
            else:
                st["condition"] = "f"
            kids = ["x"]
        else:
            kids = ["x", E("i", content=("", "f"))]
        attrs = literal(kind) if tag == "b" else []
        g = E(tag, kids, attrs, on_error=(key, "h"), **st)
        where = ctx.pick("where", ("plain",) + ("in-unit",) * t)
        finish(ctx, kind, values, where, g)
    return fn


def unhandled(kind, bodies):
    """No handler around the failure."""
    def fn(ctx):
        values = values_for(ctx, 2)
        which = ctx.pick("body", bodies)
        nodes = [E("b", ["x"], on_error=("", "h"))] + body(ctx, which) + \
            [E("b", ["x"], on_error=("", "h"))]
        exc = ctx.pick("exc", (Boom, Boom2))
        for v in values.values():
            if isinstance(v, Faulty):
                v.exc = exc
        engine, ref = compare(ctx, kind, nodes + [macros()], values)
        ctx.cover("raised" if engine.raised else "fine")
    return fn


class Boom2(Boom):
    pass


def structure(kind):
    """Markup that is rejected when inserted is an error like others."""
    def fn(ctx):
        good = ctx.flag("good")
        values = {"v": "<u>x</u>" if good else "<u>x</i>",
                  "h": "H", "a": "A0"}
        key = ctx.pick("how", ("content", "replace"))
        loop = ctx.flag("loop")
        src = "<doc" + (NS if kind == "xml" else "") + ">"
        if loop:
            src += '<p tal:repeat="r s">'
            values["s"] = ["1", "2"]
        src += ('<b k="lit" tal:on-error="h">1<i tal:define="a h" tal:%s='
                '"structure v">y</i></b><u tal:content="a">z</u>' % key)
        if loop:
            src += "</p>"
        src += "</doc>"
        engine = Engine(values)
        out = render(kind, src, values, engine, strictinsert=1)
        ctx.observe("out", out)
        inner = "1<u>x</u>" if key == "replace" else "1<i><u>x</u></i>"
        if not good:
            inner = "H"
        one = '<b k="lit">' + inner + '</b><u>A0</u>'
        if loop:
            one = "<p>" + one + "</p><p>" + one + "</p>"
        ctx.check(out == "<doc>" + one + "</doc>", "output",
                  lambda: ctx.value([src, out]))
        ctx.check(engine.stack == [], "scopes")
        ctx.cover("good" if good else "bad")
    return fn


def kinds_():
    """Errors of many kinds: created, not raised."""
    def caused():
        e = Boom("caused")
        e.__cause__ = ValueError("the cause")
        return e

    def during():
        e = Boom("during")
        e.__context__ = ValueError("the context")
        return e

    return {"caused": caused, "during": during,
            "key": lambda: KeyError("key"),
            "index": lambda: IndexError("index"),
            "type": lambda: TypeError("type"),
            "attribute": lambda: AttributeError("attribute"),
            "name": lambda: NameError("name"),
            "value": lambda: ValueError("value"),
            "stop": lambda: StopIteration("stop"),
            "tal": lambda: TALError("tal"),
            "unicode": lambda: UnicodeError("unicode"),
            "bare": lambda: Boom(),
            "equal": lambda: Alike("equal"),
            "base": lambda: Halt("base"),
            "exit": lambda: SystemExit("exit")}


class Halt(BaseException):
    """A failure that is not an ordinary exception."""


class Alike(Boom):
    """An error that claims to be equal to others and to be false."""

    def __eq__(self, other):
        return True

    __hash__ = Boom.__hash__

    def __bool__(self):
        return False


class Odd(Engine):
    """An engine that fails with one given error at one given moment."""

    error = None

    def evaluate(self, ce):
        self.note(ce.text)
        if ce.text == "fail":
            raise self.error
        return self.lookup(ce.text)

    evaluateValue = evaluate
    evaluateStructure = evaluate

    def evaluateMacro(self, ce):
        return self.evaluate(ce)

    def setRepeat(self, name, ce):
        it = Iter(self, name, self.evaluate(ce))
        if ce.text == "seq":
            return Ending(it, self.error)
        return it

    def translate(self, msgid, domain=None, mapping=None, default=None):
        if msgid == "boom":
            raise self.error
        return default


class Ending:
    """An iteration that fails when it is asked for a third item."""

    def __init__(self, it, error):
        self.it = it
        self.error = error

    def __next__(self):
        if self.it.i == 2:
            raise self.error
        return next(self.it)


class Shown:
    """A value that cannot be converted to text."""

    def __init__(self, error):
        self.error = error

    def __str__(self):
        raise self.error


SITES = {
    "content": '<i tal:content="fail">y</i>',
    "structure": '<i tal:content="structure fail">y</i>',
    "str": '<i tal:content="structure shown">y</i>',
    "replace": '<i tal:replace="fail">y</i>',
    "condition": '<i tal:condition="fail">y</i>',
    "omit": '<i tal:omit-tag="fail">y</i>',
    "define": '<i tal:define="a fail">y</i>',
    "global": '<i tal:define="global g fail">y</i>',
    "attributes": '<i k="l" tal:attributes="k fail">y</i>',
    "repeat": '<i tal:repeat="r fail">y</i>',
    "next": '<i tal:repeat="r seq">y<u tal:content="r">q</u></i>',
    "macro": '<i metal:use-macro="fail">y</i>',
    "translate": '<i i18n:translate="">boom</i>',
    "attribute": '<i i18n:attributes="k" k="boom">y</i>',
}


def sorts(kind):
    """The handler is given the very error, whatever kind it is of."""
    def fn(ctx):
        makers = kinds_()
        error = makers[ctx.pick("kind", tuple(makers))]()
        site = ctx.pick("site", tuple(SITES))
        how = ctx.pick("how", ("inner", "outer", "none"))
        again = how != "none" and ctx.flag("again")
        ns = NS if kind == "xml" else ""
        src = SITES[site]
        if again:
            # a handler that fails is an error for the next handler
            src = '<s tal:on-error="fail">%s</s>' % src
        if how == "outer":
            src = '<div><em tal:define="x a">%s</em></div>' % src
        if how != "none":
            src = '<b k="lit" tal:on-error="h">1%s2</b>' % src
        src = '<doc%s>%s<u tal:content="a">z</u></doc>' % (ns, src)
        values = {"a": "A0", "h": "H", "seq": ["1", "2", "3"],
                  "shown": Shown(error)}
        engine = Odd(values)
        engine.error = error
        got = out = None
        try:
            out = render(kind, src, values, engine)
        except (Exception, Halt, SystemExit) as e:
            got = e
        if how == "none":
            ctx.check(got is error, "the error is passed on",
                      lambda: ctx.value([src, repr(got)]))
            ctx.cover("passed on")
            return
        ctx.check(got is None, "contained",
                  lambda: ctx.value([src, repr(got)]))
        ctx.check(out == '<doc><b k="lit">H</b><u>A0</u></doc>', "output",
                  lambda: ctx.value([src, out]))
        ctx.check([i.value is error for i in engine.errors]
                  == [True] * (2 if again else 1), "the error given",
                  lambda: ctx.value([src, repr(engine.errors)]))
        ctx.check(engine.stack == [], "scopes")
        ctx.cover("handled")
    return fn


#: elements for large templates, some of them with handlers
MANY = (
    lambda i, k: E("b", k, [("k", "l"), ("j", "m")], on_error=("", "h")),
    lambda i, k: E("b", k, define=[("", "a", "z"), ("global", "g", "z")]),
    lambda i, k: E("b", k, repeat=("a", "s" if i < 2 else "one")),
    lambda i, k: E("b", ["t "] + k, translate="", domain="d%d" % i),
    lambda i, k: E("b", ["u ", E("i", k, name="n%d" % i)], translate=""),
    lambda i, k: E("b", [E("q", k, fill_slot="s1")], use_macro="n"),
    lambda i, k: E("b", k, omit="", on_error=("structure", "h")),
    lambda i, k: E("tal:b", k, define=[("", "b", "a")]),
)


def many(ctx):
    values = values_for(ctx, 3)
    values["one"] = ["1"]
    values["each"] = "E0"
    return values


def goals(tier):
    t = tier == "thorough"
    out = []
    both = ["handled", "fine"]
    for kind in ("html", "xml"):
        out.append(Goal("contained-" + kind, contained(
            kind, CONTEXTS, BODIES, 4 if t else 2, 4 if t else 3),
            "%d bodies in %d places, any of the first evaluations failing"
            % (len(BODIES), len(CONTEXTS)), both))
        out.append(Goal("own-" + kind, own(
            kind, CONTEXTS, 4 if t else 2, 2),
            "the guarded element's own statements fail", both))
        out.append(Goal("without-" + kind, without(kind, 2),
                        "the same on elements without content", both))
        out.append(Goal("handlers-" + kind, handlers(kind, t),
                        "6 values of the handler as text and markup on %d "
                        "kinds of elements" % (4 if t else 2), ["handled"]))
        out.append(Goal("many-" + kind, big(
            kind, MANY, many, (3, 5, 7) if not t else (3, 4, 5, 7, 9),
            lambda ctx: ["x", E("i", content=("", "f"))],
            around=lambda nodes: nodes + after() + [macros()]),
            "up to %d levels, elements or iterations" % (9 if t else 7),
            ["deep", "wide", "loop"]))
        out.append(Goal("unhandled-" + kind, unhandled(kind, BODIES),
                        "%d bodies without a handler" % len(BODIES),
                        ["raised", "fine"]))
        out.append(Goal("structure-" + kind, structure(kind),
                        "rejected markup", ["good", "bad"]))
        out.append(Goal("sorts-" + kind, sorts(kind),
                        "%d kinds of errors at %d places"
                        % (len(kinds_()), len(SITES)),
                        ["handled", "passed on"]))
    return out + more("C06", t)
