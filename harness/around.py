"""The same piece of a template in all kinds of surroundings.

What it writes, evaluates and has translated does not depend on the loops,
translation units, macros, slots, handlers and scripts it is in.
"""
from harness.common import *  # noqa: F401,F403
from zope.tal.taldefs import TALError

#: surroundings: source, and a macro it needs
AROUND = {
    "unit": ('<w i18n:translate="zz">(<w>%s</w>)</w>', None),
    "named": ('<w i18n:translate="zz">(<w i18n:name="zn">%s</w>)</w>', None),
    "macro": ('<w metal:use-macro="zm#"></w>',
              '<w metal:define-macro="zm#">(<w>%s</w>)</w>'),
    "slot": ('<w metal:use-macro="zm#"></w>', '<w metal:define-macro="zm#">('
             '<w metal:define-slot="zs">%s</w>)</w>'),
    "filler": ('<w metal:use-macro="zm#"><w metal:fill-slot="zs">%s</w></w>',
               '<w metal:define-macro="zm#">(<w metal:define-slot="zs">'
               '</w>)</w>'),
    "handler": ('<w tal:on-error="zone">%s</w>', None),
    "loop": ('<w tal:repeat="zr zseq">%s</w>', None),
    "scope": ('<w tal:define="zv zone" tal:condition="zone">%s</w>', None),
    "script": ('<w tal:script="zl">%s</w>', None),
}
NAMES = ("none",) + tuple(sorted(AROUND))
FEW = ("filler", "macro", "none", "unit")


#: variables looked at after the surroundings
AFTER = ["g", "d", "r"]


def put(names, src):
    """The source in these surroundings, outermost last; and macros."""
    lib = []
    for i, name in enumerate(names):
        if name == "none":
            continue
        page, macro = [s and s.replace("#", str(i)) for s in AROUND[name]]
        if macro is not None:
            a, _, b = macro.partition("%s")
            if _:
                lib.append(a + src + b)
            else:
                lib.append(macro)
        a, _, b = page.partition("%s")
        src = a + src + b if _ else page
    return src, "".join(lib)


def translation(msgid, mapping, default):
    if msgid == "zz":
        if "zn" in mapping:
            return default.replace("${zn}", mapping["zn"])
        return default
    return "T" + str(default)


def rendered(kind, names, src, values, options, tail=""):
    """Output, evaluations and messages."""
    ns = NS if kind == "xml" else ""
    engine = Engine(dict(values, zone="1", zseq=["a", "b"]))
    engine.translation = translation
    src, lib = put(names, src)
    src = src + tail
    engine.macros = {}
    if lib:
        engine.macros.update(compile_(
            kind, "<doc" + ns + ">" + lib + "</doc>", engine)[1])
    program, macros = compile_(kind, "<doc" + ns + ">" + src + "</doc>",
                               engine)
    engine.macros.update(macros)
    out = run(program, macros, engine, **options)
    return (out, [e for e in engine.log if e[:1] != "z"],
            [m for m in engine.messages if m[0] != "zz"])


def around(fragment, kind, outer=FEW, options=({},)):
    """fragment: gives source and values for a context and a kind, what
    follows the surroundings and what that gives
    """
    def fn(ctx):
        names = [ctx.pick("inner", NAMES), ctx.pick("outer", outer)]
        opts = dict(options[ctx.choose("opts", len(options))], wrap=0)
        if not opts.get("i18nInterpolate", 1):
            # a unit around it would write its id
            ctx.assume("unit" not in names and "named" not in names)
        src, values, tail, after = fragment(ctx, kind)
        out, log, messages = rendered(kind, ["none"], src, values, opts)
        frame = rendered(kind, ["none"], "|", {}, opts)[0]
        a, b = frame.split("|")
        text = out[len(a):len(out) - len(b)]
        parts = rendered(kind, names, "|", {}, opts)[0].split("|")
        want = parts[0]
        for part in parts[1:]:
            want = want + text + part
        n = len(parts) - 1
        got = rendered(kind, names, src, values, opts, tail)
        want = want[:-len("</doc>")] + after + "</doc>"
        ctx.observe("out", got[0])
        detail = lambda: ctx.value(  # noqa: E731
            [names, src, got, want, log, messages])
        ctx.check(got[0] == want, "output around", detail)
        ctx.check(got[1] == log * n + (AFTER if tail else []),
                  "evaluations around", detail)
        ctx.check(got[2] == messages * n, "messages around", detail)
        ctx.cover(names[0])
    return fn


def around_goals(fragment, kinds=("html", "xml"), outer=FEW, options=({},)):
    return [Goal("around-" + kind, around(fragment, kind, outer, options),
                 "%d surroundings" % (len(NAMES) * len(outer)), NAMES)
            for kind in kinds]


# -- pieces, for each property ----------------------------------------------

MESSAGE = Message("m<", "own", "de<f")
TEXT = charset.of_chars('ab<>&";')
KINDS = ("text", "none", "default", "number", "message")
ATTRIBUTES = (
    '<b k="1" tal:attributes="k v">x</b>',
    '<b checked="checked" tal:attributes="checked v; selected v">x</b>',
    '<b k="1" j="2" tal:attributes="l v; j two">x</b>',
)
#: sources and kinds of values
PIECES = {
    "C01": (('<b tal:content="v">x</b>', '<b tal:replace="v">x</b>',
             '<b tal:on-error="v" tal:content="bad">x</b>',
             '<b i18n:translate="" tal:content="v">x</b>'), KINDS),
    "C02": (ATTRIBUTES, KINDS),
    "C03": (('<b k="a&amp;b">x</b>', '<b k="" j="&lt;" tal:content="v">x</b>',
             '<b k="&#65;">x<i j="1&quot;"/></b>'), ("text",)),
    "C05": (('<b tal:define="d v" tal:condition="v" tal:repeat="r seq"'
             ' tal:omit-tag="o" tal:attributes="k v" tal:content="r">x</b>',
             '<b tal:repeat="r seq" tal:replace="v">x</b>',
             '<b tal:condition="o" tal:content="v">x</b>',
             '<b tal:omit-tag="" tal:attributes="k v">x</b>'), KINDS[:4]),
    "C06": (('<b tal:on-error="err"><i tal:content="bad"/></b>',
             '<b k="1" tal:on-error="v" tal:attributes="k bad">x</b>',
             '<b tal:on-error="v"><i i18n:translate="">q'
             '<u i18n:name="n" tal:content="bad"/></i></b>',
             '<b tal:on-error="v"><i tal:repeat="r seq">'
             '<i tal:on-error="structure v" tal:condition="bad"/>'
             '<i tal:define="d bad"/></i></b>'), ("text", "none")),
    "C07": (('<b tal:define="d v; global g v"><i tal:content="d"/></b>'
             '<b tal:content="g"/>',
             '<b tal:define="d v"><i tal:define="d two; e d">'
             '<u tal:content="e"/></i><u tal:content="d"/></b>',
             '<b tal:repeat="r seq"><i tal:content="r"/></b>'
             '<b tal:content="r"/>'), ("text",)),
    "C08": (('<b metal:define-macro="mm">(<i metal:define-slot="s">x'
             '<u tal:content="v"/></i>)</b><b metal:use-macro="mm">'
             '<i metal:fill-slot="s">f<u tal:content="v"/></i></b>',
             '<b metal:define-macro="mm">(<i metal:define-slot="s">x</i>)'
             '</b><b metal:define-macro="ee" metal:extend-macro="mm"><i metal:fill-slot="s">f'
             '<i metal:define-slot="t">y</i></i></b><b metal:use-macro="ee">'
             '<i metal:fill-slot="t" tal:content="v">g</i></b>',
             '<b metal:use-macro="dm" tal:content="v"><i'
             ' metal:fill-slot="s"/></b>',
             '<b metal:define-macro="mm" tal:repeat="r seq">'
             '<i metal:define-slot="s">x</i></b><b metal:use-macro="mm">'
             '<i metal:fill-slot="s" tal:content="r">f</i></b>'), ("text",)),
    "C10": (("<ul><li>a<li>b</ul>", "<p>a<p>b", "<h1>a</h1><div><p>b</div>",
             "<table><tr><td>a<th>b<tr><td>c<br>d</table>",
             "<dl><dt>a<dd>b<dt>c</dl><hr>", "<p><i>a<p tal:content='v'></p>"),
            ("text",)),
    "C16": (('<b xmlns:q="http://xml.zope.org/namespaces/tal"'
             ' q:content="v">x</b>',
             '<b xmlns:o="urn:o" o:k="1"><o:i o:j="2"/></b>',
             '<tal:b content="v"/><metal:b define-macro="mm">x</metal:b>',
             '<b xmlns:tal="urn:o" tal:content="v">x</b>'
             '<b tal:content="v"/>'), ("text",)),
    "C14": (('<b i18n:translate="">q <u i18n:name="n" tal:content="v"/></b>',
             '<b i18n:translate="" i18n:domain="d">q</b>',
             '<b i18n:translate="id" i18n:data="map">q</b>',
             '<b i18n:translate="" tal:content="v">q</b>'), KINDS),
    "C15": (('<b k="1" i18n:attributes="k" i18n:domain="d">x</b>',
             '<b k="1" i18n:attributes="k id">x</b>',
             '<b k="1" i18n:attributes="k" tal:attributes="k v">x</b>')
            + ATTRIBUTES[:1], KINDS),
    "C17": (('<b tal:on-error="two"><i tal:content="structure v"/></b>',
             '<b tal:on-error="two"><i tal:replace="structure v"'
             ' tal:attributes="k two"/></b>'), ("markup", "none", "message")),
    "C26": (('<b k="1" tal:attributes="k v">x</b>',
             '<b tal:condition="o" tal:content="v">x<i k="1"/></b>',
             '<tal:b replace="v">x</tal:b><i i18n:domain="d"/>',
             '<b i18n:translate="">q <u i18n:name="n" tal:content="v"/></b>',
             '<b k="q" i18n:attributes="k">x</b>'), ("text",)),
    "C24": (('<b tal:script="l">a<i tal:content="v"/></b>',
             '<b tal:script="l" tal:repeat="r seq">a</b>'), ("text",)),
}
MARKUP = ("<u>x</u>", "<u>x", "x</u>", '<u tal:content="bad">x</u>',
          '<u i18n:translate="">x</u><u j="1"/>', "<u", "&", "")


def piece(prop):
    sources, kinds = PIECES[prop]

    def fragment(ctx, kind):
        what = ctx.pick("value", kinds)
        src = ctx.pick("piece", sources)
        v = {"none": None, "default": DEFAULT, "number": 7,
             "message": MESSAGE}.get(what)
        if what == "text":
            v = ctx.text("v", 1, TEXT)
        elif what == "markup":
            v = ctx.pick("markup", MARKUP)
        if kind == "html" and prop == "C03":
            src = src.replace("<b", "<b h")
        values = {"v": v, "bad": Raise(), "two": "2", "o": ctx.sbool("o"),
                  "seq": ["p", "q"], "map": {"y": "Y"}, "r": "R", "g": "G",
                  "d": "D", "dm": DEFAULT, "macroname": "M"}
        if prop != "C07":
            return src, values, "", ""
        after = [esc_text(v) if "global g" in src else "G", "D", "R"]
        return (src, values,
                "".join(['<b tal:content="%s"/>' % name for name in AFTER]),
                "".join(["<b>" + text + "</b>" for text in after]))
    return fragment


#: refused wherever they are; the fault is in the first element
BAD = {
    "C04": ('<b tal:define="d"/>', '<b tal:define="1 d"/>',
            '<b tal:repeat="r"/>', '<b tal:attributes="k v;k v"/>',
            '<b tal:attributes="k"/>', '<b tal:define="a v; d"/>'),
    "C18": ('<b tal:foo="v"/>', '<b tal:content=""/>', '<b metal:foo="v"/>',
            '<b tal:content="v" tal:replace="v"/>', '<b i18n:foo="v"/>',
            '<b tal:content="v" i18n:translate="id"/>',
            '<b tal:attributes="k v" i18n:attributes="k id"/>',
            '<b metal:define-macro="mm" metal:define-slot="s"/>',
            '<b metal:extend-macro="mm"/>', '<b metal:define-macro="m m"/>',
            '<b metal:use-macro="mm" metal:fill-slot="s"/>',
            '<b i18n:attributes="k id x"/>', '<b i18n:data="map"/>'),
}


def refused(prop, kind):
    """Pieces that are refused in all surroundings."""
    def fn(ctx):
        names = [ctx.pick("inner", NAMES), ctx.pick("outer", NAMES)]
        bad = ctx.pick("piece", BAD[prop])
        if ctx.flag("open"):
            bad = bad[:-2] + ">x</b>"
        src, lib = put(names, bad)
        src = "<doc" + (NS if kind == "xml" else "") + ">" + \
            (lib if bad in lib else src) + "</doc>"
        got = None
        try:
            compile_(kind, src)
        except TALError as e:
            got = e.lineno, e.offset
        ctx.check(got == (1, src.index(bad)), "refused around",
                  lambda: repr((src, got)))
        ctx.cover(names[0])
    return fn


def bad(prop, kinds=("html", "xml")):
    return [Goal("refused-around-" + kind, refused(prop, kind),
                 "%d surroundings" % len(NAMES) ** 2, NAMES)
            for kind in kinds]


OPTIONS = (dict(showtal=1), dict(tal=0), dict(tal=0, showtal=0),
           dict(metal=0), dict(tal=0, metal=0), dict(i18nInterpolate=0))


def more(prop, deep=False, **kw):
    few = FEW if "options" not in kw else FEW[1:]
    return around_goals(piece(prop), outer=NAMES if deep else few, **kw)
