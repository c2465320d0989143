"""Macros that do not fit are refused, and so is nesting without end."""
from harness.common import *  # noqa: F401,F403
from zope.tal.taldefs import METALError
from zope.tal.taldefs import TAL_VERSION

SMALL = charset.of_chars("01.6 x") | charset.CS(((0x660, 0x669),))

#: where a macro is used: source with the use left open, text written before
PLACES = {
    "plain": ("%s", "", ""),
    "loop": ('<b tal:repeat="r q">%s</b>', "<b>", "</b>"),
    "scope": ('<b tal:define="x v" k="1">\n%s</b>', '<b k="1">\n', "</b>"),
    "omit": ('<b tal:omit-tag="">%s</b>', "", ""),
    "macro": None,
    "filler": None,
    "slot": None,
    # a macro of another template that extends it
    "extended": None,
}
USES = {
    "use": '<u metal:use-macro="mac1">d</u>',
    "fill": '<u metal:use-macro="mac1"><f metal:fill-slot="s">f</f></u>',
    "extend": '<u metal:define-macro="own1" metal:extend-macro="mac1">d</u>',
    "tal": '<tal:block metal:use-macro="mac1">d</tal:block>',
}
MACRO = '<m metal:define-macro="mac1">M<s metal:define-slot="s">S</s></m>'
GOOD = '<m metal:define-macro="good">G<s metal:define-slot="s">S</s></m>'


def head(kind):
    return NS if kind == "xml" else ""


def library(kind, text):
    return compile_(kind, "<doc%s>%s</doc>" % (head(kind), text),
                    Engine({}, {}))[1]


def at(src, use):
    i = src.index(use)
    before = src[:i]
    return before.count("\n") + 1, i - (before.rfind("\n") + 1)


def page(kind, place, use):
    """A page using the macro: source, other source, before, inside, after."""
    start = "<doc%s>A\n" % head(kind)
    other = ""
    if place in ("macro", "slot"):
        inner = use if place == "macro" else \
            '<s metal:define-slot="t">%s</s>' % use
        other = '<n metal:define-macro="outer">\nO %s P</n>' % inner
        src = start + ' <u metal:use-macro="outer"/>B</doc>'
        before, after = "A\n <n>\nO ", " P</n>B"
        if place == "slot":
            before, after = before + "<s>", "</s>" + after
    elif place == "extended":
        other = use
        src = start + ' <u metal:use-macro="own1"/>B</doc>'
        before, after = "A\n ", "B"
    elif place == "filler":
        src = start + (' <u metal:use-macro="good"><f metal:fill-slot="s">'
                       '\n%s</f></u>B</doc>' % use)
        before, after = "A\n <m>G<f>\n", "</f></m>B"
    else:
        wrap, before, after = PLACES[place]
        src = start + wrap % use + "B</doc>"
        before, after = "A\n" + before, after + "B"
    return src, other, "<doc>" + before, after + "</doc>"


def check_use(ctx, kind, place, how, macro, fits, handled, options=None):
    ctx.assume(place != "extended" or how == "extend")
    use = USES[how]
    src, other, before, after = page(kind, place, use)
    if handled:
        src = src.replace("A\n", 'A\n<g tal:on-error="v">', 1)
        src = src.replace("B</doc>", 'B</g><u metal:use-macro="good"/></doc>',
                          1)
    engine = Engine({"v": "V", "q": ["1"]}, {})
    program, own = compile_(kind, src, engine)
    engine.macros.update(library(kind, GOOD))
    where = src
    if other:
        where = "<doc%s>%s</doc>" % (head(kind), other)
        engine.macros.update(compile_(kind, where, engine, "other")[1])
    engine.macros["mac1"] = macro
    out = Out()
    err = None
    try:
        TALInterpreter(program, own, engine, out, **(options or {}))()
    except METALError as e:
        err = e
    text = out.text()
    ctx.observe("out", text)
    f = "<f>f</f>" if how == "fill" else "<s>S</s>"
    inner = "<m>M" + f + "</m>"
    detail = lambda: ctx.value([src, text, str(err)])  # noqa: E731
    if handled:
        good = before.replace("A\n", "A\n<g>", 1) + inner + \
            after.replace("B</doc>", "B</g>")
        bad = "<doc>A\n<g>V</g>"
        rest = "<m>G<s>S</s></m></doc>"
        ctx.check(err is None, "handled", detail)
        ctx.check(text == (good if fits else bad) + rest, "output", detail)
        ctx.check(engine.stack == [], "scopes", detail)
        if not fits:
            ctx.check(len(engine.errors) == 1 and isinstance(
                engine.errors[0].value, METALError), "error", detail)
            err = engine.errors[0].value
    elif fits:
        ctx.check(err is None, "accepted", detail)
        ctx.check(text == before + inner + after, "output", detail)
    else:
        ctx.check(err is not None, "refused", detail)
        ctx.check(text == before, "nothing rendered", detail)
    if not fits:
        ctx.check("mac1" in err.msg and
                  (err.lineno, err.offset) == at(where, use),
                  "name and position", detail)
    ctx.cover("fits" if fits else "refused")


def version(kind, n, places, hows):
    """Macros for any version of the language."""
    def fn(ctx):
        v = ctx.text("version", n, SMALL)
        macro = library(kind, MACRO)["mac1"]
        assert macro[0] == ("version", TAL_VERSION), macro
        macro = [("version", v)] + list(macro[1:])
        check_use(ctx, kind, ctx.pick("place", places),
                  ctx.pick("how", hows), macro,
                  bool(v == TAL_VERSION), ctx.flag("handled"))
    return fn


def mode(kind, n, places, hows):
    """Macros for any type of document."""
    def fn(ctx):
        how = ctx.pick("mode", ("other", "same", "any", "none", "empty",
                                "bare"))
        fits = how == "same"
        if how in ("other", "same"):
            k = kind if how == "same" else \
                {"html": "xml", "xml": "html"}[kind]
            macro = library(k, MACRO)["mac1"]
        else:
            macro = library(kind, MACRO)["mac1"]
            assert macro[1] == ("mode", kind), macro
            if how == "any":
                m = ctx.text("name", n, charset.of_chars("htmlxHX "))
                fits = bool(m == kind)
                macro = [macro[0], ("mode", m)] + list(macro[2:])
            elif how == "none":
                macro = [macro[0]] + list(macro[2:])
            elif how == "bare":
                macro = list(macro[2:])
            else:
                macro = []
        check_use(ctx, kind, ctx.pick("place", places),
                  ctx.pick("how", hows), macro, fits, ctx.flag("handled"))
    return fn


class Count:
    """True the first n times in a rendering."""

    def __init__(self, n):
        self.n = n


class DeepEngine(Engine):
    def evaluateBoolean(self, ce):
        v = self.evaluate(ce)
        if isinstance(v, Count):
            return self.log.count(ce.text) <= v.n
        return v


def nesting(kind, most):
    """Recursion as deep as wanted, with any limit."""
    def fn(ctx):
        depth = ctx.int("depth", 0, most)
        limit = ctx.int("limit", 1, most)
        how = ctx.pick("how", ("direct", "two", "slot", "extend"))
        again = ('<c tal:condition="more"%s><u metal:use-macro="mac1"/></c>'
                 % ctx.pick("more", (
                     "", ' i18n:translate=""', ' i18n:domain="d"',
                     ' tal:define="x v"', ' tal:repeat="x one"')))
        if how == "direct":
            text = '<m metal:define-macro="mac1">%s</m>' % again
            per = 1
        elif how == "two":
            text = ('<m metal:define-macro="mac1"><u metal:use-macro="mac2"/>'
                    '</m><m metal:define-macro="mac2">%s</m>' % again)
            per = 2
        elif how == "slot":
            text = ('<m metal:define-macro="mac1"><s metal:define-slot="s">'
                    '%s</s></m>' % again)
            per = 1
        else:
            text = ('<m metal:define-macro="mac1" metal:extend-macro="mac2"/>'
                    '<m metal:define-macro="mac2">%s</m>' % again)
            per = 2
        src = ('<doc%s>A<u metal:use-macro="mac1"/>B</doc>' % head(kind))
        handled = ctx.flag("handled")
        if handled:
            src = src.replace("A", 'A<g tal:on-error="v">')
            src = src.replace("B", 'B</g><u metal:use-macro="mac3"/>')
        engine = DeepEngine({"more": Count(depth), "v": "V", "one": ["1"]},
                            {})
        program, own = compile_(kind, src, engine)
        engine.macros.update(library(
            kind, text + '<m metal:define-macro="mac3">C</m>'))
        out = Out()
        err = None
        try:
            TALInterpreter(program, own, engine, out, stackLimit=limit)()
        except METALError as e:
            err = e
        text = out.text()
        ctx.observe("out", text)
        detail = lambda: ctx.value([src, text, depth, limit])  # noqa: E731
        levels = (depth + 1) * per
        if levels <= limit:
            one = ctx.value(engine.log.count("more"))
            ctx.check(one == depth + 1, "levels", detail)
            ctx.check(err is None, "accepted", detail)
            ctx.check(engine.errors == [], "no error", detail)
            tail = "</doc>" if not handled else "</g><m>C</m></doc>"
            ctx.check(text.endswith("B" + tail), "goes on", detail)
            ctx.cover("fits")
        else:
            # the limit is reached, not passed
            n = engine.log.count("mac1") + engine.log.count("mac2")
            ctx.check(n == limit + 1, "levels", detail)
            if handled:
                ctx.check(text == "<doc>A<g>V</g><m>C</m></doc>",
                          "goes on", detail)
                ctx.check(err is None and len(engine.errors) == 1
                          and isinstance(engine.errors[0].value, METALError),
                          "refused", detail)
                err = engine.errors[0].value
            else:
                ctx.check(err is not None and "B" not in text, "refused",
                          detail)
            ctx.check("mac" in err.msg, "name", detail)
            ctx.cover("refused")
    return fn


def documented(kind):
    """The limit is 100 if none is given."""
    def fn(ctx):
        depth = ctx.int("depth", 98, 101)
        text = ('<m metal:define-macro="mac1"><c tal:condition="more">'
                '<u metal:use-macro="mac1"/></c></m>')
        engine = DeepEngine({"more": Count(depth)}, library(kind, text))
        src = '<doc%s><u metal:use-macro="mac1"/></doc>' % head(kind)
        program, own = compile_(kind, src, engine)
        ok = True
        try:
            run(program, own, engine)
        except METALError:
            ok = False
        ctx.observe("ok", ok)
        ctx.check(ok == (depth + 1 <= 100), "limit",
                  lambda: ctx.value([depth, ok]))
        ctx.cover("fits" if ok else "refused")
    return fn


def side(kind, most):
    """Uses one after the other and inside fillers do not nest."""
    def fn(ctx):
        limit = ctx.int("limit", 1, most)
        n = ctx.choose("n", most + 2)
        how = ctx.pick("how", ("row", "loop", "filler", "failing"))
        text = ('<m metal:define-macro="mac1">M<s metal:define-slot="s">d'
                '</s></m><m metal:define-macro="bad">'
                '<i tal:content="fail"/></m>')
        want = "<m>M<s>d</s></m>"
        if how == "row":
            body = '<u metal:use-macro="mac1"/>' * n
            want = want * n
        elif how == "loop":
            body = ('<tal:block tal:repeat="r q"><u metal:use-macro="mac1"/>'
                    '</tal:block>')
            want = want * n
        elif how == "failing":
            # failed uses are over as well
            body = ('<g tal:on-error="v"><u metal:use-macro="bad"/></g>' * n
                    + '<u metal:use-macro="mac1"/>')
            want = "<g>V</g>" * n + want
        else:
            body = '<u metal:use-macro="mac1"/>'
            for i in range(n):
                body = ('<u metal:use-macro="mac1"><f metal:fill-slot="s">'
                        '%s</f></u>' % body)
                want = "<m>M<f>" + want + "</f></m>"
        src = "<doc%s>%s.</doc>" % (head(kind), body)
        engine = Engine({"q": list("123456")[:n], "v": "V",
                         "fail": Raise()}, library(kind, text))
        program, own = compile_(kind, src, engine)
        out = run(program, own, engine, stackLimit=limit)
        ctx.observe("out", out)
        ctx.check(out == "<doc>" + want + ".</doc>", "output",
                  lambda: ctx.value([src, out, limit]))
        ctx.cover(how)
    return fn


def unused(kind, n):
    """Macros that are not used are not looked at."""
    def fn(ctx):
        v = ctx.text("version", n, SMALL)
        macro = [("version", v)] + list(library(kind, MACRO)["mac1"][1:])
        how = ctx.pick("how", ("condition", "loop", "metal", "default"))
        use = '<u metal:use-macro="mac1">d</u>'
        if how == "default":
            use = '<u metal:use-macro="dflt">d</u>'
        body = use
        if how == "condition":
            body = '<b tal:condition="no">%s</b>' % use
        elif how == "loop":
            body = '<b tal:repeat="r none">%s</b>' % use
        src = "<doc%s>A%sB</doc>" % (head(kind), body)
        engine = Engine({"no": 0, "none": [], "dflt": DEFAULT},
                        {"mac1": macro})
        program, own = compile_(kind, src, engine)
        out = run(program, own, engine, metal=0 if how == "metal" else 1)
        ctx.observe("out", out)
        want = "<u>d</u>" if how in ("metal", "default") else ""
        ctx.check(out == "<doc>A" + want + "B</doc>", "output",
                  lambda: ctx.value([src, out]))
        ctx.cover(how)
    return fn


def goals(tier):
    t = tier == "thorough"
    places = tuple(sorted(PLACES))
    hows = tuple(sorted(USES))
    out = []
    for kind in ("html", "xml"):
        most = 6 if t else 4
        n = 5 if t else 4
        out += [
            Goal("version-" + kind, version(kind, n, places, hows),
                 "versions of up to %d characters" % n, ["fits", "refused"]),
            Goal("mode-" + kind, mode(kind, n, places, hows),
                 "names of up to %d characters" % n, ["fits", "refused"]),
            Goal("nesting-" + kind, nesting(kind, most),
                 "depth and limit up to %d" % most, ["fits", "refused"]),
            Goal("documented-" + kind, documented(kind),
                 "depths 98 to 101", ["fits", "refused"]),
            Goal("side-" + kind, side(kind, 3), "limit up to 3",
                 ["row", "loop", "filler", "failing"]),
            Goal("unused-" + kind, unused(kind, n), "versions of up to %d "
                 "characters" % n, ["condition", "loop", "metal",
                                    "default"]),
        ]
    return out
