"""Extraction of messages from templates."""
from harness.c05 import FORMS
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import Ref
from harness.tree import fold
from harness.tree import layout
from harness.tree import resolve
from zope.tal.talgettext import POEngine
from zope.tal.talgettext import POTALInterpreter

MARK = "${DYNAMIC_CONTENT}"
TEXT = charset.of_chars("ab \n\t\xa0　\xe9")


class Extract(Ref):
    """Visits everything once."""

    def __init__(self, kind):
        Ref.__init__(self, kind, {})
        self.catalog = {}
        self.warned = 0

    def eval(self, expr, e):
        return {} if expr == "map" else MARK

    def elem(self, e, used=False):
        return self.body(e)

    def defined(self, e):
        if "repeat" in e.st:
            return e.white + self.named(e)
        return self.named(e)

    def translate(self, msgid, mapping, default, e):
        default = fold(default) if default is not None else None
        if default == msgid:
            default = None
        table = self.catalog.setdefault(self.domain, [])
        for entry in table:
            if entry[0] == msgid:
                if entry[1] != default:
                    self.warned += 1
                entry[2].append((e.file, e.pos))
                return "x"
        table.append((msgid, default, [(e.file, e.pos)]))
        return "x"


def extract(ctx, kind, pages, files=("P", "Q"), **options):
    engine = POEngine()
    ref = Extract(kind)
    srcs = []
    out = []
    for nodes, file in zip(pages, files):
        resolve(nodes)
        src = layout(nodes, kind, "<doc%s>\n" % (NS if kind == "xml"
                                                 else ""), "</doc>", file)
        srcs.append(src)
        engine.file = file
        program, macros = compile_(kind, src, engine)
        stream = Out()
        POTALInterpreter(program, macros, engine, stream, metal=0,
                         **options)()
        out.append(stream.text())
        ref.render(nodes)
    got = {}
    for domain, table in engine.catalog.items():
        got[domain] = [(str(m), m.default, table[m]) for m in table]
    ctx.observe("src", srcs)
    # domains and ids in whatever order
    ctx.observe("catalog", sorted(got.items(), key=lambda x: x[0])
                if all(type(d) is str for d in got) else None)
    detail = lambda: ctx.value([srcs, list(got.items()),  # noqa: E731
                                list(ref.catalog.items())])
    ctx.check(len(got) == len(ref.catalog), "domains", detail)
    for domain, table in ref.catalog.items():
        have = got.get(domain)
        if not ctx.check(have is not None, "domain", detail):
            continue
        ctx.check(len(have) == len(table), "messages", detail)
        for msgid, default, places in table:
            found = [x for x in have if x[0] == msgid]
            if not ctx.check(len(found) == 1, "message id", detail):
                continue
            ctx.check(found[0][1] == default, "default", detail)
            ctx.check(list(found[0][2]) == places, "places", detail)
    ctx.check(ctx.warned() == ref.warned, "warnings",
              lambda: ctx.value([srcs, ctx.warned(), ref.warned]))
    if ref.warned:
        ctx.cover("warned")
    return ref


def wrap(ctx, nodes, wraps=None):
    """Constructs that do not matter for extraction."""
    how = ctx.pick("wrap", wraps or WRAPS)
    if how == "condition":
        return [E("w", nodes, condition="no")]
    if how == "loop":
        return ["\n", E("w", ["\n"] + nodes, repeat=("r", "none"))]
    if how == "define":
        return [E("w", nodes, define=[("", "x", "y"), ("global", "z", "y")])]
    if how == "omit":
        return [E("w", nodes, omit="x", attributes=[("k", "v")])]
    if how == "error":
        return [E("w", nodes, on_error=("", "v"))]
    if how == "macro":
        return [E("w", nodes, define_macro="m")]
    if how == "slot":
        return [E("w", [E("v", nodes, define_slot="s")], define_macro="m")]
    if how == "filler":
        return ["\n", E("w", [E("v", nodes, fill_slot="s")],
                        use_macro="other")]
    if how == "extend":
        return [E("w", [E("v", nodes, fill_slot="s")], define_macro="m",
                  extend_macro="other")]
    if how == "tal":
        return [E("tal:block", nodes, condition="no")]
    return nodes


WRAPS = ("none", "condition", "loop", "define", "omit", "error", "macro",
         "slot", "filler", "extend", "tal")


def units(kind, n, m, wraps=None):
    """One unit of any content, anywhere."""
    def fn(ctx):
        t = ctx.text("t", n, TEXT)
        u = ctx.text("u", m, TEXT, minlen=m)
        kids = ctx.pick("kids", (
            lambda: [t],
            lambda: [t, E("i", [u], name="nm"), "c"],
            lambda: [t, E("i", ["e"], name="nm", content=("", "v")), u],
            lambda: [t, E("i", [u], condition="no"), "d"],
            lambda: [t, "\n", E("i", [u], attributes=[("k", "v")])],
            lambda: [t, E("tal:block", [], replace=("", "v"), name="nm")],
            lambda: [t, E("i", [E("j", [u], translate="")], name="nm")],
            lambda: ["<i>", t, ".</i>", u],
            lambda: [E("i", [t], repeat=("r", "none")), u],
        ))()
        msgid = ctx.pick("id", ("", "m-id", "a b"))
        st = {"translate": msgid}
        if msgid and ctx.flag("data"):
            st["data"] = "map"
        tag = ctx.pick("tag", ("g", "pre"))
        extract(ctx, kind, [wrap(ctx, ["x", E(tag, kids, **st), "y"],
                                wraps)])
        ctx.cover("unit")
    return fn


def attributes(kind, n):
    """Translated attributes."""
    def fn(ctx):
        t = ctx.text("t", n, TEXT)
        attrs = [("k", t), ("m", "M")]
        xlat = [("k", ctx.pick("kid", (None, "k-id")))]
        st = {"i18n_attributes": xlat}
        if ctx.flag("two"):
            xlat.append(("m", ctx.pick("mid", (None, "k-id", "M"))))
        if xlat[0][1] is None and ctx.flag("computed"):
            st["attributes"] = [("k", "v")]
        if ctx.flag("unit"):
            st["translate"] = ""
        if ctx.flag("domain"):
            st["domain"] = "dom"
        e = E("g", ["t", E("i", [], empty=kind == "xml")]
              if kind == "xml" else ["t"], attrs, **st)
        extract(ctx, kind, [wrap(ctx, [e])])
        ctx.cover("attribute")
    return fn


def forms(kind):
    """Elements without content, and with computed content."""
    def fn(ctx):
        t = ctx.chars("t", 1, charset.of_chars("ab \xa0\xe9"))
        st = dict(ctx.pick("st", (
            {}, {"condition": "no"}, {"repeat": ("r", "none")},
            {"replace": ("", "v")}, {"omit": ""}, {"omit": "x"},
            {"define": [("", "x", "y")]}, {"on_error": ("", "v")},
            {"attributes": [("m", "v")]}, {"define_macro": "m"},
            {"use_macro": "m"}, {"domain": "d"})))
        st["i18n_attributes"] = [("k", ctx.pick("id", (None, "k-id")))]
        tag, empty = ctx.pick("form", FORMS[kind] + (
            ("w", "content"), ("w", "structure"), ("w", "translate"),
            ("tal:w", "translate")))
        attrs = [("k", t), ("m", "M")]
        if tag[3:]:
            attrs = []
            del st["i18n_attributes"]
            st.pop("attributes", None)
        if empty in ("content", "structure", "translate"):
            if "replace" in st:
                return
            key = "structure" if empty == "structure" else ""
            st["content"] = (key, "v")
            if empty == "translate":
                st["translate"] = ""
            e = E(tag, ["(", E("i", ["e"], translate=""), ")"], attrs, **st)
        else:
            e = E(tag, [], attrs, empty=empty, **st)
        extract(ctx, kind, [["x", e, "y", E("w", ["z"], translate="")]])
        ctx.cover("form")
    return fn


def domains(kind, n):
    """Domains, own and inherited."""
    def fn(ctx):
        def unit(i):
            d = ctx.pick("d%d" % i, (None, "", "one", "default"))
            return E("g", ["t%d" % i], translate="", domain=d)
        dom = ctx.text("dom", n, charset.of_chars("ab.-"), minlen=1)
        inner = E("h", [unit(0)], domain=ctx.pick("in", (None, "one", dom)))
        outer = E("w", [inner, unit(1), E("g", ["a"], [("k", "v")],
                                          i18n_attributes=[("k", None)])],
                  domain=ctx.pick("out", (None, "one", dom)))
        if ctx.flag("macro"):
            outer.st["define_macro"] = "m"
        extract(ctx, kind, [[outer, unit(2)]])
        ctx.cover("domain")
    return fn


def several(kind, n):
    """The same message more than once, in one file or two."""
    def fn(ctx):
        def unit(i):
            t = ctx.text("t%d" % i, n, charset.of_chars("ab "))
            return E("g", [t], domain=ctx.pick("d%d" % i, (None, "one")),
                     translate=ctx.pick("id%d" % i, ("", "a")))
        one = [unit(0), "\n", unit(1)]
        two = [E("g", ["z"], [("k", "b")],
                 i18n_attributes=[("k", "a")])] if ctx.flag("attr") \
            else [unit(2)]
        if ctx.flag("files"):
            extract(ctx, kind, [one, two])
        else:
            extract(ctx, kind, [one + ["\n"] + two])
        ctx.cover("several")
    return fn


def told(kind):
    """What the warning about another default says."""
    def fn(ctx):
        texts = ("one", "two", "idx")
        old, new = ctx.pick("old", texts), ctx.pick("new", texts)
        ctx.assume(old != new)
        lead = ctx.pick("lead", ("", "\n", "..."))
        first = [lead, E("g", [old], translate="idx")]
        if ctx.flag("again"):
            first += [".", E("h", [old], translate="idx")]
        if ctx.flag("attribute"):
            last = E("g", ["z"], [("k", new)],
                     i18n_attributes=[("k", "idx")])
        else:
            last = E("g", [new], translate="idx")
        if ctx.flag("files"):
            pages = [first, ["..\n.", last]]
        else:
            pages = [first + ["\n.", last]]
        # the names of the files and positions occur nowhere else
        files = ("/file/P.pt", "/file/Q.pt")
        ref = extract(ctx, kind, pages, files)
        told = ctx.warning_texts()
        ctx.check(len(told) == 1, "one warning", told)
        for word in ("idx", old, new):
            ctx.check(word in told[0], "warning", [word, told])
        for file, pos in ref.catalog["default"][0][2]:
            ctx.check(file in told[0] and str(tuple(pos)) in told[0],
                      "places in the warning", [file, str(pos), told])
        ctx.cover("told")
    return fn


def ids(kind, n):
    """Any message id."""
    def fn(ctx):
        msgid = ctx.text("id", n, XML - charset.of_chars("\r\n\t"),
                         minlen=1)
        kids = [E("i", ["c"], name="nm"), "d"] if ctx.flag("name") else ["d"]
        extract(ctx, kind, [[E("g", kids, translate=msgid),
                             E("g", ["e"], translate="d")]])
        ctx.cover("id")
    return fn


def many(kind):
    """Many messages of many domains in three files."""
    def fn(ctx):
        size = ctx.pick("size", (4, 7, 12))
        cycle = ctx.pick("cycle", (1, 2, 3, 5))
        t = ctx.chars("t", 1, charset.of_chars("ab "))
        at = ctx.choose("at", 4)
        pages = [[], [], []]
        for i in range(size):
            st = {"translate": "" if i % 2 else "id%d" % (i % cycle)}
            if i % cycle:
                st["domain"] = "d%d" % (i % cycle)
            e = E("g", ["w%d" % (i // cycle), t if i == at else ""],
                  [("k", "w%d" % (i % cycle))],
                  i18n_attributes=[("k", None)], **st)
            pages[i % 3] += ["\n" * (i % 2), e]
        inside = ctx.flag("inside")
        if inside:
            pages = [[E("w", p, domain="outer")] for p in pages]
        extract(ctx, kind, pages, ("P", "Q", "R"))
        ctx.cover("many")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        n = 3 if t else 2
        out += [
            Goal("units-" + kind, units(kind, n - 1, n - 2),
                 "texts of up to %d characters" % (n - 1), ["unit"]),
            Goal("folded-" + kind, units(kind, n, 1, ("none", "loop")),
                 "texts of up to %d characters" % n, ["unit"]),
            Goal("attributes-" + kind, attributes(kind, n - 1),
                 "values of up to %d characters" % (n - 1), ["attribute"]),
            Goal("forms-" + kind, forms(kind), "values of one character",
                 ["form"]),
            Goal("domains-" + kind, domains(kind, n - 1),
                 "three units, names of up to %d characters" % (n - 1),
                 ["domain"]),
            Goal("several-" + kind, several(kind, n - 1),
                 "three messages", ["several", "warned"]),
            Goal("many-" + kind, many(kind), "up to 12 units", ["many"]),
            Goal("told-" + kind, told(kind), "two defaults",
                 ["told", "warned"]),
            Goal("ids-" + kind, ids(kind, n),
                 "ids of up to %d characters" % n, ["id"]),
        ]
    return out
