"""Rendering leaves the compiled template as it was."""
from harness.common import *  # noqa: F401,F403
from harness.common import CE

TEXT = charset.of_chars("ab<&; \n${")

#: what a template may be made of
BODIES = {
    "define": '<b tal:define="x v; global y w" tal:content="x">d</b>'
              '<b tal:replace="y"/>',
    "condition": '<b tal:condition="c" tal:omit-tag="d">k</b>',
    "repeat": '<b k="1" tal:repeat="x q" tal:attributes="k x; m v"'
              ' tal:content="x">d</b>',
    "nested": '<b tal:repeat="x q"><i tal:repeat="z q"'
              ' tal:attributes="k z">d</i></b>',
    "attributes": '<b k="1" m="2" tal:attributes="m v; n w; k u">d</b>',
    "boolean": '<b checked="checked" tal:attributes="checked c;'
               ' disabled d">k</b>',
    "structure": '<b tal:replace="structure s" tal:attributes="k v">d</b>',
    "structure2": '<b tal:content="structure s">d</b>',
    "structure3": '<b tal:replace="structure s" tal:attributes="k v; n w"'
                  ' i18n:attributes="k; n">d</b>',
    "structure4": '<b tal:content="structure s" i18n:translate="">d</b>',
    "onerror": '<b k="1" tal:on-error="w" tal:define="x v">'
               '<i tal:content="u">d</i></b>',
    "unit": '<b i18n:domain="dom" i18n:translate="" k="t"'
            ' i18n:attributes="k">one <i i18n:name="n" tal:content="v">'
            'd</i> two <i i18n:name="l" tal:attributes="k w">e</i></b>',
    "data": '<b i18n:translate="m-id" i18n:data="map">'
            '<i i18n:name="n">x</i></b>',
    "message": '<b tal:content="msg" tal:attributes="k msg">d</b>'
               '<b tal:content="v" i18n:translate="">d</b>',
    "macro": '<b metal:define-macro="in"><i tal:content="v">d</i>'
             '<i metal:define-slot="s" tal:attributes="k w">e</i></b>'
             '<b metal:use-macro="in"><i metal:fill-slot="s"'
             ' tal:content="u">f</i></b><b metal:use-macro="in"/>',
    "library": '<b metal:use-macro="lib"><i metal:fill-slot="s" k="1"'
               ' tal:attributes="k v" tal:content="u">f</i></b>',
    "extend": '<b metal:define-macro="ext" metal:extend-macro="lib">'
              '<i metal:fill-slot="s">f<i metal:define-slot="t">g</i></i>'
              '</b><b metal:use-macro="ext"><i metal:fill-slot="t"'
              ' tal:content="v">h</i></b>',
    "default": '<b metal:use-macro="dm"><i metal:fill-slot="s"'
               ' tal:content="v">f</i></b>',
    "tal": '<tal:block tal:condition="c">k<i tal:replace="v"/>'
           '</tal:block>',
}
LIBRARY = ('<doc%s><m metal:define-macro="lib" i18n:domain="ldom" k="1"'
           ' tal:attributes="k w">l<i metal:define-slot="s"'
           ' tal:content="v">d</i><i i18n:translate="">t</i>'
           '<i tal:replace="structure s" tal:attributes="k v"/></m></doc>')

#: for the rendering of several templates
OTHERS = ("attributes", "library", "structure", "structure2", "structure3",
          "tal", "unit")

OPTIONS = ({}, dict(tal=0), dict(metal=0), dict(tal=0, metal=0),
           dict(showtal=1), dict(strictinsert=0), dict(wrap=3),
           dict(i18nInterpolate=0), dict(sourceAnnotations=1))


def freeze(x):
    """The compiled template, to compare later."""
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(y) for y in x]
    if isinstance(x, dict):
        return [type(x).__name__] + [(freeze(k), freeze(v))
                                     for k, v in x.items()]
    if isinstance(x, CE):
        return ["expression", x.text]
    return x


class Values(dict):
    """Values made up when first used."""

    def __init__(self, ctx, name, n, failing):
        self.ctx = ctx
        self.name = name
        self.n = n
        self.failing = failing

    def __contains__(self, key):
        return key in ("v", "u", "w", "c", "d", "q", "s", "m", "map", "msg",
                       "dm")

    def get(self, key, default=None):
        return self[key] if key in self else default

    def __missing__(self, key):
        ctx = self.ctx
        name = self.name + key
        if key == "v":
            v = ctx.text(name, self.n, TEXT, minlen=self.n)
        elif key in "cd":
            v = ctx.sbool(name)
        elif key == "q":
            v = ["1", "2"][:ctx.choose(name, 3)]
        elif key == "map":
            v = {"x": "X"}
        elif key == "dm":
            v = DEFAULT
        elif key == "msg":
            v = Message("m-id", "mdom", "Dflt")
        else:
            v = {"u": "U<", "w": "W", "s": '<a k="x">t</a>', "m": "M"}[key]
        if self.failing and key in ("v", "u", "s", "q", "c"):
            v = Faulty([ctx.sbool(name + "f0"), ctx.sbool(name + "f1")], v)
        self[key] = v
        return v


class Twice:
    """An engine for one rendering."""

    def __init__(self, ctx, name, n, failing, macros):
        self.values = Values(ctx, name, n, failing)
        self.macros = macros

    def render(self, program, macros, options, engine=None):
        if engine is None:
            engine = Engine(self.values, self.macros)
        out = Out()
        err = None
        try:
            TALInterpreter(program, macros, engine, out, **options)()
        except Exception as e:
            err = (e.__class__.__name__, getattr(e, "args", None)[:1]
                   if isinstance(e, Boom) else None)
        return [out.text(), err, list(engine.log), engine.where,
                [(str(m[0]),) + m[1:] for m in engine.messages]]


def build(kind, names):
    head = NS if kind == "xml" else ""
    engine = Engine({}, {})
    lib = compile_(kind, LIBRARY % head, engine, "L")
    src = "<doc%s>\n%s</doc>" % (head, "".join([BODIES[n] for n in names]))
    program, macros = compile_(kind, src, engine, "P")
    table = dict(lib[1])
    table.update(macros)
    return src, program, macros, table, lib


def again(kind, bodies, n, failing):
    """The same rendering before and after another one."""
    def fn(ctx):
        names = [ctx.pick("body", bodies)]
        if ctx.flag("two"):
            names.append(ctx.pick("second", ("library", "structure")))
        src, program, macros, table, lib = build(kind, names)
        ctx.observe("src", src)
        before = freeze([program, macros, lib[0], lib[1]])
        a = Twice(ctx, "a", n, False, table)
        b = Twice(ctx, "b", 0, failing, table)
        opts = ctx.pick("opts", OPTIONS)
        first = a.render(program, macros, {})
        b.render(program, macros, opts)
        second = a.render(program, macros, {})
        ctx.observe("out", first)
        ctx.check(first == second, "rendered again",
                  lambda: ctx.value([src, first, second]))
        after = freeze([program, macros, lib[0], lib[1]])
        ctx.check(before == after, "compiled template",
                  lambda: ctx.value([src]))
        for name in names:
            ctx.cover(name)
    return fn


def options(kind, bodies, n):
    """Rendering with options, before and after a plain one."""
    def fn(ctx):
        names = [ctx.pick("body", bodies)]
        src, program, macros, table, lib = build(kind, names)
        before = freeze([program, macros, lib[0], lib[1]])
        a = Twice(ctx, "a", n, True, table)
        opts = ctx.pick("opts", OPTIONS)
        first = a.render(program, macros, opts)
        Twice(ctx, "b", 0, False, table).render(program, macros, {})
        second = a.render(program, macros, opts)
        ctx.observe("out", first)
        ctx.check(first == second, "rendered again",
                  lambda: ctx.value([src, first, second]))
        ctx.check(before == freeze([program, macros, lib[0], lib[1]]),
                  "compiled template", lambda: ctx.value([src]))
        ctx.cover(names[0])
    return fn


def macro(kind, n):
    """A macro in a page, after its use in another page."""
    def fn(ctx):
        src, program, macros, table, lib = build(kind, ["library"])
        head = NS if kind == "xml" else ""
        other = ctx.pick("other", (
            '<b metal:use-macro="lib"/>',
            '<b metal:use-macro="lib"><i metal:fill-slot="s"'
            ' tal:content="u"/></b>',
            '<b tal:on-error="u"><b metal:use-macro="lib"/></b>',
            '<b tal:repeat="x q" metal:use-macro="lib"/>',
            '<b metal:define-macro="z" metal:extend-macro="lib"/>',
            '<b i18n:domain="o" i18n:translate="">'
            '<b metal:use-macro="lib"/></b>'))
        page, own = compile_(kind, "<doc%s>%s</doc>" % (head, other),
                             Engine({}, {}), "O")
        before = freeze([page, own, lib[1]])
        a = Twice(ctx, "a", n, False, table)
        b = Twice(ctx, "b", 0, True, table)
        opts = ctx.pick("opts", OPTIONS)
        first = a.render(program, macros, {})
        x = b.render(page, own, opts)
        second = a.render(program, macros, {})
        y = b.render(page, own, opts)
        ctx.observe("out", [first, x])
        ctx.check(first == second, "used again",
                  lambda: ctx.value([other, first, second]))
        ctx.check(x == y, "other page",
                  lambda: ctx.value([other, x, y]))
        ctx.check(before == freeze([page, own, lib[1]]),
                  "compiled template", lambda: ctx.value([other]))
        ctx.cover("macro")
    return fn


def other(kind, bodies, n):
    """Another template rendered in between."""
    def fn(ctx):
        name = ctx.pick("body", bodies)
        src, program, macros, table, lib = build(kind, [name])
        kind2 = ctx.pick("kind", ("html", "xml"))
        name2 = ctx.pick("other", bodies)
        src2, program2, macros2, table2, lib2 = build(kind2, [name2])
        a = Twice(ctx, "a", n, False, table)
        b = Twice(ctx, "b", 0, True, table2)
        first = a.render(program, macros, {})
        b.render(program2, macros2, {})
        second = a.render(program, macros, {})
        ctx.observe("out", first)
        ctx.check(first == second, "rendered again",
                  lambda: ctx.value([src, src2, first, second]))
        # compiled only now, the same again
        src, program, macros, table, lib = build(kind, [name])
        a.macros = table
        third = a.render(program, macros, {})
        ctx.check(first == third, "compiled and rendered again",
                  lambda: ctx.value([src, src2, first, third]))
        ctx.cover(name)
    return fn


class Within(Engine):
    """Does something during one of the evaluations."""

    def arrange(self, at, action):
        self.at = at
        self.action = action
        self.result = None

    def note(self, text):
        Engine.note(self, text)
        if len(self.log) == self.at:
            self.result = self.action()


def within(kind, bodies, inner, n, choice):
    """A template rendered while another, or the same, is rendered."""
    def fn(ctx):
        name = ctx.pick("body", bodies)
        src, program, macros, table, lib = build(kind, [name])
        what = ctx.pick("inner", ("same",) + inner)
        if what == "same":
            page = program, macros
        else:
            src2, program2, macros2, table2, lib2 = build(kind, [what])
            page = program2, macros2
        opts = ctx.pick("opts", choice)
        a = Twice(ctx, "a", n, False, table)
        b = Twice(ctx, "b", 0, False, table)
        first = a.render(program, macros, opts)
        alone = b.render(page[0], page[1], {})
        steps = len(first[2])
        ctx.assume(steps > 0)
        engine = Within(a.values, a.macros)
        engine.arrange(1 + ctx.choose("at", steps),
                       lambda: b.render(page[0], page[1], {}))
        second = a.render(program, macros, opts, engine)
        ctx.observe("out", [first, alone])
        detail = lambda: ctx.value(  # noqa: E731
            [src, what, first, second, alone, engine.result])
        ctx.check(first == second, "outer page", detail)
        ctx.check(engine.result == alone, "inner page", detail)
        ctx.cover(name)
    return fn


BAD = ("<b tal:bad=''>", "<b tal:content='a' tal:replace='b'></b>",
       "<b metal:fill-slot='s'></b>", "<b tal:repeat='a'></b>", "<b",
       "<b i18n:domain='x' i18n:translate=''><i tal:define='z'></i></b>")


def compiled(kind, bodies, n):
    """Compiling again, with others compiled in between."""
    def fn(ctx):
        name = ctx.pick("body", bodies)
        t = ctx.text("t", n, charset.of_chars("ab \n;$"))
        src = "<doc%s>%s<b k='%s'>%s</b></doc>" % (
            NS if kind == "xml" else "", BODIES[name], t, t)
        first = compile_(kind, src, Engine({}, {}), "P")
        one = freeze(first)
        how = ctx.pick("between", ("nothing", "bad", "other kind", "same",
                                   "file", "render"))
        if how == "bad":
            bad = ctx.pick("bad", BAD)
            try:
                compile_(kind, "<doc%s>%s</doc>" % (NS, bad),
                         Engine({}, {}), "Q")
            except Exception:
                ctx.cover("bad")
        elif how == "other kind":
            compile_("html" if kind == "xml" else "xml",
                     "<doc%s>%s</doc>" % (NS, BODIES["unit"]),
                     Engine({}, {}), "Q")
        elif how == "same":
            compile_(kind, "<doc%s>%s</doc>" % (NS, BODIES[name]),
                     Engine({}, {}), "P")
        elif how == "file":
            compile_(kind, src, Engine({}, {}), "Q")
        elif how == "render":
            engine = Engine({"map": {}}, first[1])
            run(first[0], first[1], engine, tal=0, metal=0)
        two = freeze(compile_(kind, src, Engine({}, {}), "P"))
        ctx.observe("src", src)
        ctx.check(one == two, "compiled again",
                  lambda: ctx.value([src, one, two]))
        ctx.cover(name)
    return fn


def often(kind, bodies):
    """Many renderings, the last like the first."""
    def fn(ctx):
        names = [ctx.pick("body", bodies)]
        src, program, macros, table, lib = build(kind, names)
        before = freeze([program, macros, lib[0], lib[1]])
        a = Twice(ctx, "a", 1, False, table)
        b = Twice(ctx, "b", 0, True, table)
        times = ctx.pick("times", (4, 9, 12))
        first = a.render(program, macros, {})
        for i in range(times):
            x = b.render(program, macros, OPTIONS[i % len(OPTIONS)])
            if i == 0:
                other = x
        again = b.render(program, macros, {})
        last = a.render(program, macros, {})
        ctx.observe("out", first)
        ctx.check(first == last, "rendered again",
                  lambda: ctx.value([src, first, last]))
        ctx.check(other == again, "rendered often",
                  lambda: ctx.value([src, other, again]))
        ctx.check(before == freeze([program, macros, lib[0], lib[1]]),
                  "compiled template", lambda: ctx.value([src]))
        ctx.cover(names[0])
    return fn


def goals(tier):
    t = tier == "thorough"
    names = tuple(sorted(BODIES))
    out = []
    for kind in ("html", "xml"):
        n = 1
        out += [
            Goal("again-" + kind, again(kind, names, n, t),
                 "one or two constructs", list(names)),
            Goal("failed-" + kind, options(kind, names, n),
                 "one construct, two failures", list(names)),
            Goal("often-" + kind, often(kind, names),
                 "up to 14 renderings", names),
            Goal("macro-" + kind, macro(kind, n), "two pages", ["macro"]),
            Goal("other-" + kind, other(kind, names if t else OTHERS, n),
                 "two templates", list(names if t else OTHERS)),
            Goal("within-" + kind, within(
                kind, names, names if t else ("library", "unit"), n,
                OPTIONS[:1] + OPTIONS[2:] if t else OPTIONS[:1]),
                 "one construct, another rendered during each evaluation",
                 list(names)),
            Goal("compiled-" + kind, compiled(kind, names, n),
                 "one construct", list(names) + ["bad"]),
        ]
    return out
