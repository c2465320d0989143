"""Positions and file names reported are those of the source element."""
from harness.c05 import FORMS
from harness.c05 import compare
from harness.c05 import head_of
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import TALError

LINES = charset.of_chars("x \n\t") | charset.CS(((0x4e00, 0x4e01),
                                                 (0x10400, 0x10401)))
# a lone carriage return ends a line for expat but not for the HTML lexer
TEXT = charset.ANY - charset.of_chars("<&\r")

ASSUMPTIONS = ["the text before a tag has no carriage returns"]

STATEMENTS = (
    {"content": ("", "v")},
    {"replace": ("structure", "v")},
    {"condition": "v"},
    {"define": [("", "a", "v"), ("global", "b", "v")]},
    {"repeat": ("r", "s"), "attributes": [("k", "v")], "omit": "no"},
    {"repeat": ("r", "s"), "content": ("", "dflt")},
    {"attributes": [("k", "v"), ("j", "v")]},
    {"define": [("", "a", "v")], "condition": "v", "repeat": ("r", "s"),
     "attributes": [("k", "r")]},
    {"omit": "no"},
    {"on_error": ("", "v")},
    {"on_error": ("", "v"), "attributes": [("k", "bad")]},
    {"translate": "", "attributes": [("k", "v")]},
    {"domain": "dom", "condition": "v"},
    {"define_macro": "m", "content": ("", "dflt")},
)
VALUES = {"v": "V", "s": ["1", "2"], "no": False, "bad": Raise(),
          "dflt": DEFAULT}


def text(ctx, kind, name, n, dom):
    if kind == "xml":
        dom = dom & XML - charset.of_chars("]>")
    return ctx.text(name, n, dom)


def places(ctx, kind, nodes, values=None, others=(), files=None, deep=None):
    engine, ref = compare(ctx, kind, nodes, values or VALUES,
                          others=others, files=files, deep=deep)
    detail = lambda: ctx.value([engine.where, ref.where])  # noqa: E731
    ctx.check(engine.where == ref.where, "places", detail)
    errors = [(i.value.args[0], i.position) for i in engine.errors]
    ctx.check(errors == ref.errors, "handled errors",
              lambda: ctx.value([errors, ref.errors]))
    return engine


def page(kind, n, dom, fills):
    """Two elements with statements one inside the other."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, dom)
        fill = ctx.pick("fill", fills)
        where = ctx.pick("where", ("before", "in", "late", "after"))
        p = dict.fromkeys(("before", "in", "late", "after"), fill)
        p[where] = t
        outer = ctx.pick("outer", STATEMENTS)
        inner = ctx.pick("inner", STATEMENTS[:7])
        tag = ctx.pick("tag", ("b", "tal:b"))
        nodes = [p["before"],
                 E(tag, [p["in"], E("i", [p["late"]], **inner)], **outer),
                 p["after"], E("u", content=("", "v"))]
        places(ctx, kind, nodes, files=[ctx.pick("file", (None, "page"))],
               deep=kind == "xml" and fill == fills[0])
        ctx.cover(where)
    return fn


def without(kind, n, dom):
    """Elements without content."""
    def fn(ctx):
        tag, empty = ctx.pick("form", FORMS[kind])
        st = ctx.pick("st", [x for x in STATEMENTS if "content" not in x
                             and "bad" not in str(x)])
        lead = text(ctx, kind, "t", n, dom)
        nodes = [lead, E(tag, [], [("z", "1")], empty=empty, **st), "\n ",
                 E("b", [E(tag, [], empty=empty, **st),
                         E("i", content=("", "v"))], condition="v"),
                 E("u", content=("", "v"))]
        if "define_macro" in st:
            return
        places(ctx, kind, nodes, files=[ctx.pick("file", (None, "page"))])
        ctx.cover("end")
    return fn


def macros(kind, n):
    """A macro of another file and a filler of this one."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, charset.of_chars("x\n"))
        where = ctx.pick("where", ("page", "macro", "filler", "slot"))
        p = dict.fromkeys(("page", "macro", "filler", "slot"), "")
        p[where] = t
        mst = ctx.pick("mst", ({}, {"define": [("", "a", "v")]},
                               {"repeat": ("r", "s")}))
        fst = ctx.pick("fst", ({}, {"content": ("", "v")},
                               {"repeat": ("r", "s")}))
        inner = ctx.pick("inner", ("element", "use", "nothing"))
        slot = E("s", [p["slot"], E("i", content=("", "v"))],
                 define_slot="x")
        macro = E("m", [p["macro"], E("i", content=("", "v")), slot,
                        p["macro"], E("j", condition="v")],
                  define_macro="m", **mst)
        small = E("n", [E("i", condition="v")], define_macro="n",
                  define=[("", "a", "v")])
        kids = [p["filler"]]
        if inner == "element":
            kids.append(E("i", condition="v"))
        elif inner == "use":
            kids.append(E("use", ["z"], use_macro="n"))
            kids.append(E("i", condition="v"))
        filler = E("f", kids, fill_slot="x", **fst)
        use = E("b", ["z"] + ([filler] if ctx.flag("filled") else []),
                use_macro="m")
        nodes = [p["page"], use, E("u", content=("", "v")), p["page"],
                 E("u", condition="v")]
        if ctx.flag("loop"):
            nodes = [E("w", nodes, repeat=("q", "s"))]
        fn_ = ctx.pick("files", (("page", "lib1", "lib2"),
                                 ("page", "lib1", "lib1")))
        places(ctx, kind, nodes, others=[[macro], [small]], files=list(fn_))
        ctx.cover(where)
    return fn


def between(kind):
    """Macros that use the macros of other files and fill their slots."""
    def fn(ctx):
        how = ctx.pick("how", ("use", "extend"))
        fst = ctx.pick("fst", ({}, {"content": ("", "v")},
                               {"repeat": ("r", "s")},
                               {"define": [("", "a", "v")]}))
        inner = ctx.pick("inner", ("fill", "slot", "nothing"))
        kids = ["z", E("i", condition="v")]
        if inner == "slot":
            kids = ["z", E("k", ["y", E("i", condition="v")],
                           define_slot="y"), E("i", condition="v")]
        filler = E("f", kids, fill_slot="x", **fst)
        if "content" in fst and inner == "slot":
            ctx.assume(False)
        first = E("m", ["1", E("i", condition="v"),
                        E("s", ["d", E("i", condition="v")],
                          define_slot="x"), E("j", condition="v")],
                  define_macro="m")
        body = ["\n" * ctx.choose("lines", 2) + "."]
        if inner != "nothing":
            body.append(filler)
        if how == "use":
            second = E("n", ["2", E("u", body, use_macro="m"),
                             E("j", condition="v")], define_macro="n")
        else:
            second = E("n", body, define_macro="n", extend_macro="m")
        slot = ctx.pick("slot", ("", "x", "y"))
        page = [E("b", ["z"] + ([E("g", ["g", E("i", condition="v")],
                                   fill_slot=slot)] if slot else []),
                  use_macro="n"), E("u", content=("", "v"))]
        files = ctx.pick("files", (["page", "lib1", "lib2"],
                                   ["page", "lib1", "lib1"],
                                   ["page", "lib1", "page"]))
        places(ctx, kind, page, others=[[first], [second]], files=files)
        ctx.cover(how)
    return fn


def handler(kind, n):
    """The handler reports its own element, later ones theirs."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, charset.of_chars("x\n"))
        flags = [ctx.sbool("f%d" % i) for i in range(2)]
        values = dict(VALUES)
        values["bad"] = Faulty(flags, "B")
        fail = ctx.pick("fail", ({"content": ("", "bad")},
                                 {"condition": "bad"},
                                 {"repeat": ("q", "bad")},
                                 {"define": [("", "a", "bad")]},
                                 {"attributes": [("k", "bad")]}))
        deep = E("i", ["y"], **fail)
        guard = {"on_error": ("", "v")}
        how = ctx.pick("how", ("plain", "loop", "unit", "two"))
        if how == "loop":
            guard["repeat"] = ("r", "s")
        elif how == "unit":
            guard["translate"] = ""
        kids = ["\n", E("p", [t, deep])]
        if how == "two":
            kids = [E("n", kids, on_error=("", "v"))]
        nodes = [t, E("g", kids, **guard), t, E("u", content=("", "v"))]
        if ctx.flag("again"):
            nodes = [E("w", nodes, repeat=("q", "s"))]
        places(ctx, kind, nodes, values, files=["page"])
        ctx.cover(how)
    return fn


def handler_files(kind):
    """Failures in macros and fillers of other files than the handler's."""
    def fn(ctx):
        values = dict(VALUES)
        values["bad"] = Faulty([ctx.sbool("f%d" % i) for i in range(2)], "B")
        guard = {"on_error": ("", "v")}
        bad = {"content": ("", "bad")}
        where = ctx.pick("fail", ("macro", "filler", "inner", "slot"))
        slot = E("s", ["d", E("i", **(bad if where == "slot" else {}))],
                 define_slot="x")
        if ctx.flag("mguard"):
            slot = E("h", [slot, E("i", condition="v")], **guard)
        macro = E("m", ["\n", E("i", **(bad if where == "macro" else {})),
                        slot, E("j", condition="v")], define_macro="m")
        small = E("n", ["\n", E("i", **(bad if where == "inner" else {})),
                        E("i", condition="v")], define_macro="n")
        kids = ["f"]
        if where == "filler":
            kids.append(E("i", **bad))
        elif where == "inner":
            kids.append(E("use", ["z"], use_macro="n"))
        if ctx.flag("fguard"):
            kids = [E("h", kids, **guard)]
        kids.append(E("i", condition="v"))
        use = E("b", ["z"] + ([] if where == "slot" else [
            E("f", kids, fill_slot="x")]), use_macro="m")
        nodes = [E("g", ["\n", use, E("u", condition="v")], **guard),
                 E("u", content=("", "v"))]
        if ctx.flag("loop"):
            nodes = [E("w", nodes, repeat=("q", "s"))]
        fn_ = ctx.pick("files", (("page", "lib1", "lib2"),
                                 ("page", "lib1", "lib1")))
        places(ctx, kind, nodes, values, others=[[macro], [small]],
               files=list(fn_))
        ctx.cover(where)
    return fn


def nameless(kind):
    """A page without a name that uses macros of files."""
    def fn(ctx):
        values = dict(VALUES)
        values["bad"] = Faulty([ctx.sbool("f%d" % i) for i in range(2)], "B")
        guard = {"on_error": ("", "v")}
        where = ctx.pick("where", ("macro", "inner", "page"))

        def leaf(here):
            if where == here:
                return E("i", content=("", "bad"))
            return E("i", condition="v")

        kids = ["\n", leaf("macro"), E("j", condition="v")]
        if ctx.flag("uses"):
            kids.insert(1, E("use", ["z"], use_macro="n"))
        macro = E("m", kids, define_macro="m")
        small = E("n", ["\n", leaf("inner"), E("i", condition="v")],
                  define_macro="n")
        name = ctx.pick("name", "mn")
        nodes = [E("b", ["z"], use_macro=name), E("u", condition="v")]
        how = ctx.pick("how", ("handler", "own", "loop"))
        if how == "own":
            nodes = [E("g", nodes[:1], **guard)] + nodes[1:]
        nodes.append(leaf("page"))
        if how == "loop":
            nodes = [E("w", nodes, repeat=("q", "s"))]
        nodes = [E("g", nodes, **guard), "\n", E("u", content=("", "v"))]
        places(ctx, kind, nodes, values, others=[[macro], [small]],
               files=[None, "lib1", "lib2"])
        ctx.cover(how)
    return fn


# templates with an error; the offending tag follows the bar
WRONG = (
    '|<b tal:foo="x">x</b>', '|<b tal:content="a" tal:replace="c">x</b>',
    '|<b tal:define="">x</b>', '|<b metal:fill-slot="s">x</b>',
    '|<b metal:define-slot="s">x</b>', '|<b i18n:name="n">x</b>',
    '|<b tal:repeat="bad">\nx</b>', '|<b tal:define="x">x</b>',
    '|<b metal:define-macro="1bad">\nx</b>', '|<b tal:attributes="a">x</b>',
    '|<b tal:attributes="a b; a c">x</b>',
    '|<b i18n:attributes="a b c">x</b>',
    '|<b i18n:attributes="a b; a c">x</b>', '|<b i18n:foo="a">x</b>',
    '|<b metal:foo="a">x</b>',
    '|<b i18n:translate="a" tal:content="c">x</b>',
    '|<b metal:extend-macro="a">x</b>',
    '|<b metal:define-macro="a" metal:use-macro="c">x</b>',
    '|<b metal:define-macro="a" metal:define-slot="c">x</b>',
    '|<b i18n:data="a">x</b>',
    '<b i18n:translate="">\n |<i i18n:name="1 x">\nx</i>\n</b>',
    '<b metal:use-macro="m"><i metal:fill-slot="a"/>\n'
    ' |<i metal:fill-slot="a"/>\n</b>',
    '<b metal:define-macro="m"/>\n|<b metal:define-macro="m">\n</b>',
    '|<b tal:on-error="">x</b>', '|<b tal:condition="bad!">\n<i/>x</b>',
    '<b metal:define-macro="m">\n|<i metal:define-slot="1 2">\nx</i></b>',
    '<b metal:use-macro="m">\n|<i metal:fill-slot="1 2">\nx</i></b>',
    '|<b tal:attributes="a b" i18n:attributes="a m">x</b>',
    '|<b tal:omit-tag="bad!">\n<i tal:content="x"/></b>',
    '|<b tal:on-error="bad!">\n<i tal:content="x"/></b>',
    '|<b tal:attributes="a bad!">x</b>', '|<b tal:define="a bad!">x</b>',
    '|<b tal:repeat="a bad!">\n<i tal:content="x"/></b>',
    '|<b tal:content="bad!">\n<i tal:content="x"/></b>',
    '|<b tal:replace="structure bad!">\n<i tal:content="x"/></b>',
    '|<b metal:use-macro="bad!">\n<i tal:content="x"/></b>',
    '|<b i18n:translate="m" i18n:data="bad!">\n<i tal:content="x"/></b>',
    '<b tal:content="x"/>\n|<b tal:content="bad!">\nx</b>',
)
WRONG_HTML = (
    '|<b tal:content="a" tal:content="a">x</b>',
    '|<b i18n:translate="" i18n:translate="x">x</b>',
    '|<img tal:content="a">', '<b>\n|</i></b>', '\n|</img>',
    '|<p tal:content="a">', '<h1>\n|<p>', '|<li tal:condition="x">\n<li>',
    '<b>\n|<i metal:define-macro="m">\n</b>',
)


class Picky(Engine):
    def compile(self, expr):
        if "!" in expr:
            raise CompError("bad")
        return CE(expr)


def wrong(kind, n, dom):
    """Errors found while compiling."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, dom)
        bad = ctx.pick("bad", WRONG + (WRONG_HTML if kind == "html" else ()))
        i = bad.index("|")
        before = head_of(kind) + t + bad[:i]
        line = before.count("\n") + 1
        col = len(before) - (before.rfind("\n") + 1)
        src = before + bad[i + 1:] + "</doc>"
        got = None
        try:
            compile_(kind, src, Picky())
        except (TALError, HTMLParseError) as e:
            got = (e.lineno, e.offset)
        ctx.observe("got", got)
        ctx.check(got == (line, col), "error position",
                  lambda: ctx.value([src, got, line, col]))
        ctx.cover("error")
    return fn


#: markup that is inserted
STRUCTURES = ("<i>y</i>", "x\n\n<i>y</i>", "\n<!-- c --><i/>\n<b/>", "y", "")


def inserted(kind, n):
    """Computed attributes of an element replaced by markup."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, charset.of_chars("x\n"))
        s = ctx.pick("s", STRUCTURES)
        has = "<i" in s
        flags = [ctx.sbool("f%d" % i) for i in range(2)]
        how = ctx.pick("how", ("plain", "handler", "own handler", "loop",
                               "unit", "macro"))
        before, after = {
            "handler": ('<g tal:on-error="v">\n', "</g>"),
            "loop": ('<g tal:repeat="r q">\n', "</g>"),
            "unit": ('<g i18n:translate="">\n', "</g>"),
            "macro": ('<g metal:define-macro="m">\n', "</g>"),
        }.get(how, ("", ""))
        own = ' tal:on-error="v"' if how == "own handler" else ""
        src = head_of(kind) + t + before
        first = src
        src += ('<b tal:replace="structure s" tal:attributes="k w; l z"%s>'
                'x</b>' % own + after)
        last = src
        src += '<u tal:content="v">x</u></doc>'
        values = {"s": s, "v": "V", "z": "Z", "q": ["1", "2"],
                  "w": Faulty(flags, "W")}
        engine = Engine(values, {})
        program, macros = compile_(kind, src, engine, "page")
        failed = None
        try:
            run(program, macros, engine)
        except Boom as e:
            failed = e
        here = place(first)
        want = []
        if how == "loop":
            want.append(("q", place(head_of(kind) + t), "page"))
        handled = None
        for i in range(2 if how == "loop" else 1):
            want.append(("s", here, "page"))
            if has:
                want.append(("w", here, "page"))
                if flags[i]:
                    handled = {"handler": place(head_of(kind) + t),
                               "own handler": here}.get(how)
                    break
                want.append(("z", here, "page"))
        if handled:
            want.append(("v", handled, "page"))
        # a failure no handler deals with ends the rendering
        if handled or want[-1][0] != "w":
            ctx.check(failed is None, "rendered")
            want.append(("v", place(last), "page"))
        detail = lambda: ctx.value([src, engine.where, want])  # noqa: E731
        ctx.observe("where", engine.where)
        ctx.check(engine.where == want, "places", detail)
        ctx.check([i.position for i in engine.errors]
                  == ([handled] if handled else []), "handled errors",
                  detail)
        ctx.cover(how)
    return fn


def place(before):
    """The position after a text."""
    return before.count("\n") + 1, len(before) - (before.rfind("\n") + 1)


def far(kind, most):
    """Far down and far to the right."""
    def fn(ctx):
        lines = ctx.pick("lines", (0, 9, 99, 255, most))
        columns = ctx.pick("columns", (0, 79, 254, most))
        t = text(ctx, kind, "t", 1, charset.of_chars("x\n"))
        lead = "\n" * lines + "y" * columns + t
        outer = ctx.pick("outer", STATEMENTS[:4])
        nodes = [lead, E("b", ["z", E("i", condition="v")], **outer), lead,
                 E("u", content=("", "v"))]
        places(ctx, kind, nodes, files=["page"])
        ctx.cover("far")
    return fn


def rows(kind):
    """Many elements, some of them in loops."""
    def fn(ctx):
        size = ctx.pick("size", (5, 9, 20))
        first = ctx.choose("first", len(STATEMENTS) - 1)
        step = ctx.pick("step", (1, 2, 5))
        gap = ctx.pick("gap", ("", "\n", "\n  ", "x"))
        inside = ctx.flag("inside")
        nodes = []
        for i in range(size):
            st = STATEMENTS[(first + i * step) % (len(STATEMENTS) - 1)]
            kids = ["k"]
            if inside and i < 6:
                kids = nodes + ["k"]
                nodes = []
            nodes = nodes + [E("b", kids, **st), gap]
        places(ctx, kind, nodes + [E("u", content=("", "v"))],
               files=["page"])
        ctx.cover("rows")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    ws = ["before", "in", "late", "after"]
    for kind in ("html", "xml"):
        out += [
            Goal("page-" + kind, page(kind, 2 if t else 1, LINES,
                                      ("", "\n ")),
                 "text of up to %d characters" % (2 if t else 1), ws),
            Goal("without-" + kind, without(kind, 2 if t else 1, LINES),
                 "elements without content", ["end"]),
            Goal("macros-" + kind, macros(kind, 2 if t else 1),
                 "text of up to %d characters" % (2 if t else 1),
                 ["page", "macro", "filler", "slot"]),
            Goal("between-" + kind, between(kind),
                 "macros of two files that use one another",
                 ["use", "extend"]),
            Goal("handler-" + kind, handler(kind, 2 if t else 1),
                 "text of up to %d characters, two failures"
                 % (2 if t else 1), ["plain", "loop", "unit", "two"]),
            Goal("handler-files-" + kind, handler_files(kind),
                 "three files, two failures, handlers in each",
                 ["macro", "filler", "inner", "slot"]),
            Goal("far-" + kind, far(kind, 9999 if t else 1100),
                 "%d lines, %d columns" % ((9999,) * 2 if t
                                           else (1100,) * 2), ["far"]),
            Goal("rows-" + kind, rows(kind), "up to 20 elements", ["rows"]),
            Goal("nameless-" + kind, nameless(kind),
                 "a page without a name, two files, two failures",
                 ["handler", "own", "loop"]),
            Goal("inserted-" + kind, inserted(kind, 2 if t else 1),
                 "text of up to %d characters, two failures"
                 % (2 if t else 1),
                 ["plain", "handler", "own handler", "loop", "unit",
                  "macro"]),
            Goal("wrong-" + kind, wrong(kind, 3 if t else 2, TEXT),
                 "any text of up to %d characters before the tag"
                 % (3 if t else 2), ["error"]),
        ]
    return out
