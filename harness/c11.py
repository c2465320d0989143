"""Markup without statements passes through unchanged."""
from harness.c05 import compare
from harness.common import *  # noqa: F401,F403
from harness.tree import E

TEXT = charset.ANY - charset.of_chars("<&")
WHITE = charset.of_chars("x \t\n\r\x0b\xa0")

# what surrounds the text: statements of an element
DYNAMIC = (
    {"condition": "c"}, {"define": [("", "a", "t")]},
    {"repeat": ("r", "s")}, {"omit": "c"}, {"omit": ""},
    {"attributes": [("k", "t")]}, {"on_error": ("", "t")},
    {"domain": "dom"}, {"define_macro": "m"}, {"content": ("", "dflt")},
    {"repeat": ("r", "s"), "condition": "c"},
    {"repeat": ("r", "s"), "define": [("", "a", "t")]},
    {"repeat": ("r", "s"), "on_error": ("", "t")},
    {"condition": "c", "define": [("global", "a", "t")]})

LINES = [d for d in DYNAMIC if "repeat" in d or d in DYNAMIC[:2]]


def values(ctx):
    return {"c": ctx.sbool("c"), "t": "t", "dflt": DEFAULT,
            "s": ["1"] * ctx.choose("s#", 3)}


def around(kind, n, dom, dynamic, tags=("i", "tal:x"),
           others=("", "\n ", "<b>\n</b> ")):
    """Text before, in and after an element with statements."""
    def fn(ctx):
        dom2 = dom & XML if kind == "xml" else dom
        t = ctx.text("t", n, dom2)
        st = ctx.pick("st", dynamic)
        place = ctx.pick("place", ("before", "in", "after", "deep"))
        other = ctx.pick("other", others)
        p = dict.fromkeys(("before", "in", "after", "deep"), other)
        p[place] = t
        if "]" in t and kind == "xml":
            ctx.assume("]]>" not in t)
        e = E(ctx.pick("tag", tags),
              [p["in"], "<b>.", p["deep"], "</b>"], **st)
        compare(ctx, kind, [p["before"], e, p["after"]], values(ctx),
                deep=kind == "xml" and other == others[0])
        ctx.cover(place)
    return fn


def two(kind, n, dom):
    """Two elements with statements, text between and around them."""
    def fn(ctx):
        dom2 = dom & XML if kind == "xml" else dom
        t = ctx.text("t", n, dom2)
        names = (0, 1, 2, 5, 7)
        one = DYNAMIC[ctx.pick("one", names)]
        other = DYNAMIC[ctx.pick("other", names)]
        form = ctx.pick("form", ("beside", "inside", "inside-late"))
        fill = ctx.pick("fill", ("", "\n\t"))
        if form == "beside":
            nodes = [fill, E("i", ["1"], **one), t, E("u", ["2"], **other),
                     fill]
        elif form == "inside":
            nodes = [fill, E("i", [t, E("u", ["2"], **other)], **one), fill]
        else:
            nodes = [fill, E("i", [E("u", ["2"], **other), t], **one), fill]
        compare(ctx, kind, nodes, values(ctx),
                deep=kind == "xml" and fill != "" and form != "beside")
        ctx.cover(form)
    return fn


def piece(ctx, name, kind, n):
    """A piece of markup: (source, output)"""
    k = ctx.pick(name, PIECES[kind])
    dom = XML if kind == "xml" else ANY
    if k == "text":
        s = ctx.text(name + "t", n, dom - charset.of_chars("<&]"))
        return s, s
    if k == "comment":
        s = ctx.text(name + "t", n, dom - charset.of_chars("->!?"))
        return "<!--" + s + "-->", "<!--" + s + "-->"
    if k == "pi":
        s = ctx.text(name + "t", n, dom - charset.of_chars(">?"))
        end = "?>"
        if kind == "html":
            end = ctx.pick(name + "end", ("?>", ">"))
        s = "<?pi " + s + end
        return s, s
    if k == "section":
        s = ctx.text(name + "t", n, dom - charset.of_chars("]>[-'\""))
        s = "<![CDATA[" + s + "]]>"
        return s, s
    if k == "entity":
        s = "&" + ctx.pick(name + "e", REFERENCES[kind]) + ";"
        return s, s
    if k == "script":
        tag = ctx.pick(name + "tag", ("script", "style"))
        s = ctx.text(name + "t", n, dom - charset.of_chars("<&>/"))
        s = "<" + tag + ">" + s + "a < b && <i>" + s + "</" + tag + ">"
        return s, s
    return MARKUP[k][kind]


def same(s):
    return {"html": (s, s), "xml": (s, s)}


MARKUP = {
    "element": same('<b k="v" j="w">x</b>'),
    "single": same("<b k='v'>x</b>"),
    "multiline": same('<b\n  k="v"\n>x</b>'),
    "void": {"html": ("<br>", "<br>"), "xml": ("<br/>", "<br/>")},
    "selfclosed": {"html": ('<br k="1"/>', '<br k="1" />'),
                   "xml": ('<br k="1" />', '<br k="1"/>')},
    "nothing": {"html": ("<b></b>", "<b></b>"), "xml": ("<b></b>", "<b/>")},
    "upper": {"html": ("<B Class=X CHECKED>x</b>",
                       '<b class="X" checked>x</b>'),
              "xml": ('<B Class="X">x</B>', '<B Class="X">x</B>')},
    "doctype": same('<!DOCTYPE html PUBLIC "-//W3C//DTD X//EN" "u">'),
    "loose-doctype": same("<!doctype  HTML\n>"),
    "quote-free": {"html": ("<b k=v>x</b>", '<b k="v">x</b>')},
    "conditional": same("<![if x]>"),
    "ampersand": same(" & "),
}
MARKUP["single"] = {k: ("<b k='v'>x</b>", '<b k="v">x</b>')
                    for k in ("html", "xml")}
MARKUP["multiline"] = {k: ('<b\n  k="v"\n>x</b>', '<b k="v">x</b>')
                       for k in ("html", "xml")}
PIECES = {
    "html": ("text", "comment", "pi", "section", "entity", "script",
             "element", "single", "multiline", "void", "selfclosed",
             "nothing", "upper", "doctype", "loose-doctype", "quote-free", "conditional", "ampersand"),
    "xml": ("text", "comment", "pi", "section", "entity", "element",
            "single", "multiline", "void", "selfclosed", "nothing", "upper"),
}
REFERENCES = {
    "html": ("amp", "quot", "Eacute", "AMP", "sup2", "#65", "#0065", "#x41",
             "#xAb", "#X4a"),
    "xml": ("amp", "lt", "quot", "#65", "#0065", "#x41", "#xAb"),
}


def pieces(kind, count, n):
    """Pieces of markup in a row, some of them in an element that is
    repeated or has a scope of its own."""
    def fn(ctx):
        src, want = [], []
        for i in range(count):
            s, w = piece(ctx, "p%d" % i, kind, n)
            src.append(s)
            want.append(w)
        where = ctx.pick("where", ("plain", "loop", "scope", "last"))
        head = "<doc%s>" % (NS if kind == "xml" else "")
        # never an empty element
        src1 = "".join(src) + "."
        want1 = "".join(want) + "."
        if where == "loop":
            src1 = '<u tal:repeat="r s">' + src1 + "</u>."
            want1 = 2 * ("<u>" + want1 + "</u>") + "."
        elif where == "scope":
            src1 = '-<u tal:define="a t"><q>' + src1 + "</q></u>"
            want1 = "-<u><q>" + want1 + "</q></u>"
        elif where == "last":
            src1 = src1 + '<u tal:condition="t">x</u>' + src[-1]
            want1 = want1 + "<u>x</u>" + want[-1]
        out = render(kind, head + src1 + "</doc>", {"t": "t", "s": [1, 2]})
        want1 = "<doc>" + want1 + "</doc>"
        ctx.observe("out", out)
        ctx.check(out == want1, "output",
                  lambda: ctx.value([head + src1, out, want1]))
        ctx.cover(where)
    return fn


def outside(n):
    """Before and after the root element of an XML template."""
    def fn(ctx):
        before, after = [], []
        if ctx.flag("declaration"):
            before.append(ctx.pick("decl", (
                '<?xml version="1.0"?>',
                "<?xml version='1.0' encoding='utf-8'?>",
                '<?xml version="1.0" standalone="yes" ?>')))
        w1 = ctx.pick("w1", ("\n", "", " \r\n\t"))
        before.append(w1)
        before.append(ctx.pick("doctype", (
            "", "<!DOCTYPE doc>", '<!DOCTYPE doc SYSTEM "a&b">',
            '<!DOCTYPE doc [\n<!ENTITY a "b">\n<!ELEMENT doc ANY>\n]>')))
        c = ctx.text("c", n, XML - charset.of_chars("->!?"))
        where = ctx.pick("where", ("before", "after"))
        extra = ctx.pick("extra", ("comment", "pi"))
        extra = "<!--" + c + "-->" if extra == "comment" \
            else "<?pi " + c + "?>"
        (before if where == "before" else after).append(extra)
        after.append(w1)
        st = ctx.pick("st", ("", ' tal:define="a t"', ' tal:condition="t"'))
        src = "".join(before) + "<doc" + NS + st + ">x</doc>" + "".join(after)
        want = "".join(before) + "<doc>x</doc>" + "".join(after)
        out = render("xml", src, {"t": "t"})
        ctx.observe("out", out)
        ctx.check(out == want, "output", lambda: ctx.value([src, out, want]))
        ctx.cover(where)
    return fn


ENDINGS = ("", "&", "x &", "&amp;", "&#65;", "x <", "< ", "a & b", "\n",
           "&\n", "<br>", "<!-- c -->", "&lt;x")


def endings(n):
    """What an HTML template ends with."""
    def fn(ctx):
        t = ctx.text("t", n, ANY - charset.of_chars("<&"))
        end = ctx.pick("end", ENDINGS)
        st = ctx.pick("st", ("", " tal:define='a t'", " tal:condition='t'"))
        where = ctx.pick("where", ("bare", "after", "open"))
        if where == "bare":
            src = want = t + end
        elif where == "after":
            src = "<b" + st + ">x</b>" + t + end
            want = "<b>x</b>" + t + end
        else:
            ctx.assume(not st)
            src = "<b>" + t + end
            # the end tag goes before white space at the end
            want = None
        out = render("html", src, {"t": "t"})
        ctx.observe("out", out)
        if want is None:
            ctx.check(out.startswith("<b>" + (t + end).rstrip()),
                      "output", lambda: ctx.value([src, out]))
            ctx.check(out.replace("</b>", "") == src, "characters",
                      lambda: ctx.value([src, out]))
        else:
            ctx.check(out == want, "output",
                      lambda: ctx.value([src, out, want]))
        ctx.cover(where)
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    places = ["before", "in", "after", "deep"]
    for kind in ("html", "xml"):
        out += [
            Goal("around-" + kind, around(kind, 2 if t else 1, TEXT, DYNAMIC),
                 "texts of up to %d characters" % (2 if t else 1), places),
            Goal("white-" + kind, around(
                kind, 4 if t else 3, WHITE, DYNAMIC if t else LINES, ("i",),
                ("",)),
                 "white space of up to %d characters" % (4 if t else 3),
                 places),
            Goal("two-" + kind, two(kind, 2 if t else 1, TEXT),
                 "texts of up to %d characters" % (2 if t else 1),
                 ["beside", "inside", "inside-late"]),
            Goal("pieces-" + kind, pieces(kind, 2, 3 if t else 1),
                 "two pieces, texts of up to %d characters"
                 % (3 if t else 1), ["plain", "loop", "scope", "last"]),
        ]
        if t:
            out.append(Goal("row-" + kind, pieces(kind, 3, 1),
                            "three pieces", ["plain", "loop"]))
    out.append(Goal("outside", outside(2 if t else 1),
                    "texts of up to %d characters" % (2 if t else 1),
                    ["before", "after"]))
    out.append(Goal("endings", endings(3 if t else 2),
                    "texts of up to %d characters" % (3 if t else 2),
                    ["bare", "after", "open"]))
    return out
