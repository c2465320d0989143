"""Translation units send the right message and insert its translation."""
from harness.c05 import FORMS
from harness.c05 import compare
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.scale import big
from harness.tree import E
from harness.tree import EMPTY

TEXT = charset.ANY - charset.of_chars("<&\r]")
WHITE = charset.of_chars("ab \n\t\xa0 ")


def answer(msgid, mapping, default):
    """A translation that shows what it was made of."""
    parts = "".join([k + "=" + str(mapping[k]) + ";"
                     for k in sorted(mapping)])
    return "[" + msgid + "|" + parts + "]"


def text(ctx, kind, name, n, dom, minlen=0):
    return ctx.text(name, n, dom & XML if kind == "xml" else dom,
                    minlen=minlen)


def ids(kind, n, dom, tags):
    """Message ids and defaults."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, dom)
        msgid = ctx.pick("id", EMPTY[kind] + ("msg", " a  b "))
        tag = ctx.pick("tag", tags)
        st = ctx.pick("st", ({}, {"attributes": [("k", "v")]},
                             {"omit": EMPTY[kind][-1]}, {"repeat": ("r", "s")},
                             {"condition": "c"}, {"domain": "dom"},
                             {"define": [("", "a", "v")]},
                             {"on_error": ("", "v")}))
        if tag == "tal:x":
            ctx.assume("omit" not in st)
        e = E(tag, ["x", t, "<b>.", t, "</b>y"] if ctx.flag("markup")
              else [t], [("j", "1")] if tag != "tal:x" else [],
              translate=msgid, **st)
        values = {"v": "V", "s": ["1", "2"], "c": ctx.sbool("c")}
        compare(ctx, kind, ["A", e, "B"], values,
                translation=answer if ctx.flag("answer") else None)
        ctx.cover("explicit" if msgid else "implicit")
    return fn


#: markup in units that comes out as it is written
MARKUP = ("&#160;", "&#xa0;x", "&lt;b", "&amp;amp;", "<!-- - -->",
          "<!--\xa0 -->", "<?p q?>")


def marked(kind):
    """References and other markup at the ends of units and parts."""
    def fn(ctx):
        more = ("&nbsp;", "<br>") if kind == "html" else (
            "<![CDATA[ <&]]>", "<b>\n<!--x--></b>", "<br/>")
        m = ctx.pick("markup", MARKUP + more)
        t = text(ctx, kind, "t", 1, charset.of_chars("a \n\xa0"))
        kids = {"first": [m, t, "x"], "last": ["x", t, m], "only": [m],
                "middle": ["x", t, m, t, "y"]}[ctx.pick("at", (
                    "first", "last", "middle", "only"))]
        where = ctx.pick("where", ("unit", "part", "both"))
        e = E("p", ["x ", E("i", kids if where != "unit" else ["p"],
                            name="n")] +
              (kids if where != "part" else []),
              translate=ctx.pick("id", ("", "msg")))
        compare(ctx, kind, ["A", e, "B"], {}, translation=answer)
        ctx.cover(where)
    return fn


PARTS = (
    lambda v, n: E("i", ["p ", "\n q"], name=n),
    lambda v, n: E("i", ["p"], name=n, content=("", v)),
    lambda v, n: E("i", ["p"], name=n, replace=("", v)),
    lambda v, n: E("i", ["p"], name=n, replace=("structure", v)),
    lambda v, n: E("i", ["p "], name=n, omit=""),
    lambda v, n: E("i", ["p"], name=n, condition="c"),
    lambda v, n: E("i", ["p"], name=n, repeat=("r", "s"),
                   content=("", "r")),
    lambda v, n: E("i", ["p ", E("u", ["x"], content=("", v))], name=n,
                   translate=""),
    lambda v, n: E("i", ["p"], name=n, translate="", content=("", v)),
    lambda v, n: E("tal:i", [" p"], name=n, define=[("", "a", "v")]),
    lambda v, n: E("i", ["p", E("u", ["y"], name="in")], name=n,
                   translate=""),
    lambda v, n: E("i", ["p", E("u", ["y"], name="in")], name=n),
    lambda v, n: E("i", ["p"], name=n, on_error=("", "v"),
                   content=("", "bad")),
    lambda v, n: E("u", ["p", E("i", ["y"], name=n)], translate=""),
    lambda v, n: E("i", ["p", E("u", [" w "], [("t", "z")],
                                i18n_attributes=[("t", None)])], name=n),
    lambda v, n: E("i", ["p"], name=n, attributes=[("k", v)]),
    lambda v, n: E("i", ["p"], attributes=[("k", v)], domain="d2",
                   translate=""),
)


def named(kind, count, which, n):
    """Named parts in a unit."""
    def fn(ctx):
        v = text(ctx, kind, "v", n, charset.of_chars("x \n"))
        values = {"v": v, "c": ctx.sbool("c"),
                  "s": ["1", "2"][:1 + ctx.choose("s#", 2)],
                  "bad": Raise(), "w": "W"}
        kids = ["a "]
        for i in range(count):
            part = ctx.pick("p%d" % i, which)
            kids.append(PARTS[part]("v" if i == 0 else "w", "n%d" % i))
            kids.append(" b\n")
        unit = ctx.pick("unit", ({"translate": ""}, {"translate": "msg"},
                                 {"translate": "", "domain": "dom"}))
        nodes = ["A", E("p", kids, **unit), "B",
                 E("s", ["last"], translate="")]
        if ctx.flag("loop"):
            nodes = [E("w", nodes, repeat=("q", "s"))]
        compare(ctx, kind, nodes, values,
                translation=answer if ctx.flag("answer") else None)
        ctx.cover("named")
    return fn


def without(kind):
    """Parts and units that are elements without content."""
    def fn(ctx):
        tag, empty = ctx.pick("form", FORMS[kind])
        st = dict(ctx.pick("st", (
            {}, {"attributes": [("k", "v")]}, {"replace": ("", "v")},
            {"condition": "c"}, {"omit": EMPTY[kind][-1]}, {"repeat": ("r", "s")},
            {"i18n_attributes": [("k", None)]}, {"domain": "d"},
            {"define": [("", "a", "v")]})))
        how = ctx.pick("how", ("part", "unit", "both"))
        if how != "part":
            st["translate"] = ctx.pick("id", EMPTY[kind] + ("msg",))
            if "replace" in st and st["translate"]:
                return
        if how != "unit":
            st["name"] = "n"
        kids = ["a ", E(tag, [], [("k", "1")], empty=empty, **st), " b"]
        values = {"v": ctx.chars("v", 1, charset.of_chars("ab<")),
                  "c": ctx.sbool("c"), "s": ["1", "2"]}
        compare(ctx, kind, ["A", E("p", kids, translate=""), "B"], values,
                translation=answer)
        ctx.cover(how)
    return fn


def nested(kind, n):
    """Units in units, three levels."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, WHITE)
        name = ctx.pick("name", ("n", "m"))
        deep = E("i", ["d", t], name="n")
        inner = E("u", ["x ", deep] if ctx.flag("deep") else ["x ", t],
                  translate=ctx.pick("inner", ("", "in")))
        if ctx.flag("named"):
            inner.st["name"] = name
        if ctx.flag("attribute"):
            inner.attrs.append(("t", "title"))
            inner.st["i18n_attributes"] = [("t", None)]
        mid = [inner]
        box = ctx.pick("box", ("none", "element", "omitted", "loop",
                               "handler"))
        if box == "element":
            mid = [E("b", mid, attributes=[("k", "v")])]
        elif box == "omitted":
            mid = [E("b", mid, omit="")]
        elif box == "loop":
            mid = [E("b", mid, repeat=("r", "s"))]
        elif box == "handler":
            mid = [E("b", mid + [E("q", content=("", "bad"))],
                     on_error=("", "v"))]
        outer = E("p", ["a ", *mid, " ", E("s", [" z"], name="n"), t],
                  translate=ctx.pick("outer", ("", "out")))
        values = {"v": "V", "s": ["1", "2"], "bad": Raise()}
        compare(ctx, kind, ["A", outer, "B"], values,
                translation=answer if ctx.flag("answer") else None)
        ctx.cover("nested")
    return fn


def computed(kind, n):
    """Content that an expression supplies."""
    def fn(ctx):
        what = ctx.pick("what", ("text", "none", "default", "number"))
        v = {"none": None, "default": DEFAULT, "number": 5}.get(what)
        if what == "text":
            v = text(ctx, kind, "v", n, TEXT | charset.of_chars("<&"))
        how = ctx.pick("how", ("content", "replace"))
        key = ctx.pick("key", ("", "structure"))
        st = {how: (key, "v"), "translate": ""}
        if ctx.flag("domain"):
            st["domain"] = "dom"
        if key == "" or how == "content":
            if ctx.flag("attributes"):
                st["attributes"] = [("k", "one")]
        e = E("i", ["x ", E("u", ["y"], condition="one")], **st)
        nodes = ["A", e, "B"]
        outer = ctx.pick("outer", ("none", "unit", "part"))
        if outer != "none":
            if outer == "part":
                e.st["name"] = "n"
            nodes = [E("p", nodes, translate="")]
        compare(ctx, kind, nodes, {"v": v, "one": "1"},
                translation=answer if ctx.flag("answer") else None)
        ctx.cover(what)
    return fn


def data(kind, n):
    """Values supplied by an expression."""
    def fn(ctx):
        v = text(ctx, kind, "v", n, WHITE)
        d = ctx.pick("data", ("none", "other", "same", "empty"))
        kids = ["x ", E("u", ["y"], name="n")]
        st = {"translate": "msg"}
        values = {"d": {"other": {"k": v}, "same": {"n": v}}.get(d, {})}
        if d != "none":
            st["data"] = "d"
        compare(ctx, kind, [E("i", kids, **st)], values, translation=answer)
        ctx.cover(d)
    return fn


def failing(kind):
    """A failure in a unit leaves later units as they are."""
    def fn(ctx):
        flags = [ctx.sbool("f%d" % i) for i in range(3)]
        values = {"bad": Faulty(flags, "B"), "h": "H", "s": ["1", "2"]}
        part = E("i", [E("u", content=("", "bad"))], name="n")
        how = ctx.pick("how", ("part", "around", "unit", "inside"))
        kids = ["a ", part, " b"]
        unit = E("p", kids, translate="")
        nodes = [unit]
        if how == "part":
            part.st["on_error"] = ("", "h")
        elif how == "around":
            nodes = [E("g", [unit], on_error=("", "h"))]
        elif how == "unit":
            unit.st["on_error"] = ("", "h")
        else:
            unit.kids[1] = E("g", ["z", part], on_error=("", "h"))
        nodes = nodes + ["B", E("s", ["t ", E("v", ["w"], name="n")],
                                translate="")]
        outer = ctx.pick("outer", ("none", "unit", "name"))
        if outer == "name":
            nodes = [E("o", nodes, name="m")]
        if outer != "none":
            nodes = [E("o", nodes + [" c ", E("x", ["y"], name="k")],
                       translate="")]
        if ctx.flag("loop"):
            nodes = [E("w", nodes, repeat=("r", "s"))]
        compare(ctx, kind, nodes, values, translation=answer)
        ctx.cover(how)
    return fn


def default_parts(kind):
    """The default value, where the template's text has named parts."""
    def fn(ctx):
        e = E("p", ["x ", E("b", ["y"], name="n")], content=("", "d"),
              translate="")
        error = None
        try:
            compare(ctx, kind, [e], {"d": DEFAULT})
        except IndexError as err:
            error = err
        ctx.check(error is None, "named parts in default content")
    return fn


#: parts and units inside each other
DEEP = (
    lambda i, k: E("i", ["p ", E("u", ["\n q"] + k, name="n%d" % i)],
                   translate=""),
    lambda i, k: E("i", ["p"] + k, translate="m%d" % i, domain="d%d" % i),
    lambda i, k: E("i", ["p ", E("u", k, name="n"),
                         E("u", ["w"], name="l", omit="")], translate=""),
    lambda i, k: E("i", k, repeat=("r", "s"), attributes=[("k", "r")]),
    lambda i, k: E("i", ["p ", E("u", k, name="n", condition="c"), " ."],
                   translate=""),
    lambda i, k: E("i", k, on_error=("", "v")),
    lambda i, k: E("i", ["p ", E("u", [E("w", k, translate="")],
                                 name="n", replace=("", "dflt"))],
                   translate="m"),
)


def deep_values(ctx):
    return {"v": "V", "s": ["1"], "c": ctx.sbool("c"), "dflt": DEFAULT}


def crowd(kind):
    """A unit with many named parts."""
    def fn(ctx):
        size = ctx.pick("size", (3, 4, 6, 9))
        first = ctx.choose("first", len(PARTS))
        step = ctx.pick("step", (1, 2, 3, 5))
        kids = []
        for i in range(size):
            part = PARTS[(first + i * step) % len(PARTS)]
            kids += [" t%d " % i, part("v", "n%d" % i)]
        e = E("p", kids, translate=ctx.pick("id", ("", "m")))
        values = {"v": ctx.chars("v", 1, LETTERS), "c": ctx.sbool("c"),
                  "s": ["1", "2"], "bad": Raise()}
        compare(ctx, kind, ["A", e, "B"], values, translation=answer)
        ctx.cover("crowd")
    return fn


def preformatted(kind, n):
    """White space is kept in preformatted units only, whatever is inside."""
    def fn(ctx):
        space = [ctx.text("s%d" % i, n, charset.of_chars("x \n"))
                 for i in range(2)]
        st = {}
        how = ctx.pick("how", ("computed", "named", "unit", "loop", "plain"))
        if how in ("computed", "named"):
            st["attributes"] = [("k", "v")]
        if how == "named":
            st["name"] = "n"
        elif how == "unit":
            st["translate"] = ""
        elif how == "loop":
            st["repeat"] = ("y", "s")
        attrs = []
        if kind == "html" and ctx.flag("literal"):
            attrs.append(("l", "1"))
        inner = E(ctx.pick("inner", ("w", "pre")), ["i"], attrs, **st)
        outer = {"translate": ""}
        if kind == "html" and ctx.flag("omitted"):
            outer["omit"] = ""
        e = E(ctx.pick("outer", ("w", "pre")),
              [" a" + space[0], inner, space[1] + "b "], **outer)
        compare(ctx, kind, ["A", e, E("w", ["  x "], translate="")],
                {"v": "V", "s": ["1", "2"]}, translation=answer)
        ctx.cover(how)
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        tags = ("p", "pre", "tal:x")
        out += [
            Goal("ids-" + kind, ids(kind, 2 if t else 1, TEXT, tags),
                 "text of up to %d characters" % (2 if t else 1),
                 ["explicit", "implicit"]),
            Goal("marked-" + kind, marked(kind), "one unit with one part",
                 ["unit", "part", "both"]),
            Goal("many-" + kind, big(
                kind, DEEP, deep_values, translation=answer,
                last=lambda ctx: [E("w", ["x"], content=("", "v"))]),
                 "up to 9 levels, units or iterations",
                 ["deep", "wide", "loop"]),
            Goal("preformatted-" + kind, preformatted(kind, 2 if t else 1),
                 "white space of up to %d characters" % (2 if t else 1),
                 ["computed", "named", "unit", "loop", "plain"]),
            Goal("crowd-" + kind, crowd(kind), "up to 9 named parts",
                 ["crowd"]),
            Goal("without-" + kind, without(kind),
                 "elements without content", ["part", "unit", "both"]),
            Goal("folding-" + kind, nested(kind, 3 if t else 1),
                 "units three deep, white space of up to %d characters"
                 % (3 if t else 1), ["nested"]),
            Goal("named-" + kind, named(kind, 1, list(range(len(PARTS))),
                                        2 if t else 1),
                 "one named part", ["named"]),
            Goal("pairs-" + kind, named(
                kind, 2, list(range(len(PARTS))) if t else
                [0, 1, 2, 6, 7, 10, 11, 12, 13], 0),
                 "two named parts", ["named"]),
            Goal("computed-" + kind, computed(kind, 2 if t else 1),
                 "text of up to %d characters" % (2 if t else 1),
                 ["text", "none", "default", "number"]),
            Goal("data-" + kind, data(kind, 2), "values of up to 2 "
                 "characters", ["none", "other", "same", "empty"]),
            Goal("failing-" + kind, failing(kind), "three failures",
                 ["part", "around", "unit", "inside"]),
            Goal("default-parts-" + kind, default_parts(kind), "one unit",
                 []),
        ]
    return out + more("C14", t)
