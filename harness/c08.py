"""Macros expand with the caller's slots and the macro's defaults."""
from harness.c05 import FORMS
from harness.c05 import compare
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import E

ASSUMPTIONS = ["a use whose macro is the default value has no filler that "
               "opens the slot it fills"]


def slot(name, n=""):
    return E("o", ["D" + name + n, E("u", content=("", "x"))],
             define_slot=name)


def macro(name, kids, **st):
    return E(name, kids, [("n", name)], define_macro=name, **st)


def simple():
    """m0, a macro to use inside fillers."""
    return macro("m0", ["{", slot("s1", "0"), slot("s2", "0"), "}"])


PAGE = (None, "plain", "tal", "use", "use-fill", "use-other", "deep",
        "replaced", "use-slotless")
MACRO = PAGE + ("reopen", "reopen-twice", "reopen-other", "reopen-in-use",
                "use-reopen")


def filler(kind, s, mark):
    """An element that fills slot s."""
    other = "s2" if s == "s1" else "s1"
    if kind == "plain":
        return E("f", ["F" + mark], [("k", mark)], fill_slot=s)
    if kind == "tal":
        return E("f", ["F" + mark, E("u", content=("", "y"))], fill_slot=s,
                 attributes=[("k", "x")], repeat=("y", "seq"))
    if kind == "replaced":
        return E("f", ["F" + mark], fill_slot=s, replace=("", "x"))
    if kind == "use":
        return E("f", ["F" + mark, E("q", use_macro="m0")], fill_slot=s)
    if kind == "use-slotless":
        return E("f", ["F" + mark, E("q", [E("w", ["W"], fill_slot="zz")],
                                     use_macro="m0")], fill_slot=s)
    if kind == "use-fill":
        return E("f", ["F" + mark, E("q", [E("w", ["W" + mark],
                                             fill_slot=s)],
                                     use_macro="m0")], fill_slot=s)
    if kind == "use-other":
        return E("f", ["F" + mark, E("q", [
            E("w", ["W", E("z", [E("w", ["V" + mark], fill_slot="s1")],
                           use_macro="m0")], fill_slot=other)],
            use_macro="m0")], fill_slot=s)
    if kind == "deep":
        return E("h", ["gone", E("f", ["F" + mark], fill_slot=s), "gone"],
                 condition="bad")
    if kind == "reopen":
        return E("f", ["F" + mark, slot(s, mark)], fill_slot=s)
    if kind == "reopen-twice":
        return E("f", [slot(s, mark), "F" + mark, slot(s, mark + "b")],
                 fill_slot=s)
    if kind == "reopen-other":
        return E("f", ["F" + mark, slot(other, mark)], fill_slot=s)
    if kind == "reopen-in-use":
        return E("f", ["F" + mark, E("q", [
            E("w", ["W", slot(s, mark)], fill_slot=s)], use_macro="m0"),
            slot(other, mark)], fill_slot=s)
    if kind == "use-reopen":
        return E("f", ["F" + mark, E("q", use_macro="m0"), slot(s, mark)],
                 fill_slot=s)
    raise AssertionError(kind)


def fillers(ctx, mark, kinds1, kinds2):
    out = ["gone"]
    for s, kinds in (("s1", kinds1), ("s2", kinds2)):
        k = ctx.pick(mark + s, kinds)
        if k is not None:
            out.append(filler(k, s, mark))
            out.append("gone")
    return out


def values_for(ctx):
    return {"x": ctx.chars("x", 1, LETTERS), "seq": ["1", "2"], "no": False,
            "bad": Raise(), "y": "Y"}


def finish(ctx, kind, nodes, values, place):
    if place == "loop":
        nodes = [E("l", nodes, repeat=("r", "seq"))]
    elif place == "scope":
        nodes = [E("l", nodes, define=[("", "x", "y")])]
    compare(ctx, kind, ["A"] + nodes + ["B"], values, wrap=0)


def use(kind, k1, k2, places):
    """A page that uses a macro."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", E("v", [slot("s2")]), "]"],
                   **ctx.pick("st", ({}, {"attributes": [("n", "x")]},
                                     {"repeat": ("y", "seq")})))
        page = E("p", fillers(ctx, "p", k1, k2), [("k", "gone")],
                 use_macro="m1")
        lib = E("div", [m1, simple()], condition="no")
        nodes = [page, lib]
        if ctx.flag("before"):
            nodes = [lib, page]
        finish(ctx, kind, nodes, values, ctx.pick("place", places))
        ctx.cover("use")
    return fn


def extend(kind, mk1, mk2, pk1, pk2):
    """A macro that extends another, and a page that uses it."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        m2 = macro("m2", fillers(ctx, "m", mk1, mk2), extend_macro="m1")
        how = ctx.pick("how", ("use", "in place"))
        lib = [m1, simple()]
        if how == "use":
            lib.append(m2)
            nodes = [E("p", fillers(ctx, "p", pk1, pk2), use_macro="m2")]
        else:
            nodes = [m2]
        nodes.append(E("div", lib, condition="no"))
        finish(ctx, kind, nodes, values, "plain")
        ctx.cover(how)
    return fn


def chain(kind, mk, pk):
    """Three levels of extension."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        m2 = macro("m2", fillers(ctx, "m", mk, (None, "plain")),
                   extend_macro="m1")
        m3 = macro("m3", fillers(ctx, "n", mk, (None, "reopen")),
                   extend_macro="m2")
        nodes = [E("p", fillers(ctx, "p", pk, (None, "plain")),
                   use_macro="m3"),
                 E("div", [m1, m2, m3, simple()], condition="no")]
        finish(ctx, kind, nodes, values, "plain")
        ctx.cover("chain")
    return fn


def failing(kind):
    """Fillers and macros that fail, with handlers around the slots."""
    def fn(ctx):
        values = values_for(ctx)
        values["fail"] = Faulty([ctx.sbool("f%d" % i) for i in range(2)],
                                "B")
        values["h"] = "H"
        guard = {"on_error": ("", "h")}
        bad = E("i", content=("", "fail"))
        m0 = simple()
        where = ctx.pick("where", ("filler", "slot", "inner"))
        s1 = slot("s1")
        if where == "slot":
            s1.kids.append(bad)
        elif where == "inner":
            m0.kids.append(bad)
        m1 = macro("m1", ["[", E("g", [s1, "."], **guard), "|", slot("s2"),
                          E("g", [slot("s1", "b")], **guard), "]"])
        how = ctx.pick("page", ("plain", "use", "use-fill"))
        f = filler(how, "s1", "p")
        if where == "filler":
            f.kids.append(bad)
        page = E("p", ([f] if where != "slot" else [])
                 + [filler("use", "s2", "p")], use_macro="m1")
        lib = [m0, m1]
        if ctx.flag("extended"):
            kids = []
            if ctx.flag("reopened"):
                kids.append(filler("reopen", "s1", "m"))
            lib.append(macro("m2", kids, extend_macro="m1"))
            page.st["use_macro"] = "m2"
        nodes = [E("g", [page], **guard), E("g", [page], **guard),
                 E("div", lib, condition="no")]
        finish(ctx, kind, nodes, values, "plain")
        ctx.cover(where)
    return fn


def inside(kind, kinds):
    """A macro that uses another macro and passes its slots on."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        inner = fillers(ctx, "m", kinds, (None, "reopen", "reopen-other"))
        kids = ["(", E("g", inner, use_macro="m1"), ")"]
        where = ctx.pick("own", ("none", "before", "after"))
        if where == "before":
            kids.insert(0, slot("s1", "own"))
        elif where == "after":
            kids.append(slot("s1", "own"))
        m2 = macro("m2", kids)
        nodes = [E("p", fillers(ctx, "p", (None, "plain", "use-fill"),
                                (None, "plain")),
                   use_macro=ctx.pick("which", ("m1", "m2")))]
        nodes.append(E("div", [m1, m2, simple()], condition="no"))
        finish(ctx, kind, nodes, values, "plain")
        ctx.cover("inside")
    return fn


def names(kind, n):
    """The names of slots and fillers are unknown."""
    def fn(ctx):
        values = values_for(ctx)
        dom = charset.CS(((65, 90), (95, 95), (97, 122)))
        slots = [ctx.chars("s%d" % i, n, dom) for i in range(3)]
        own = [ctx.chars("m%d" % i, n, dom) for i in range(1)]
        given = [ctx.chars("f%d" % i, n, dom) for i in range(2)]
        ctx.assume(given[0] != given[1])
        m1 = macro("m1", ["[", slot(slots[0]), "|", slot(slots[1]), "]"])
        m2 = macro("m2", ["gone", E("f", ["FM", slot(slots[2], "M")],
                                    fill_slot=own[0])], extend_macro="m1")
        page = E("p", [E("f", ["F%d" % i, E("u", content=("", "x"))],
                         fill_slot=given[i]) for i in range(2)],
                 use_macro=ctx.pick("which", ("m1", "m2")))
        compare(ctx, kind, [page, E("div", [m1, m2], condition="no")],
                values)
        ctx.cover("names")
    return fn


def default(kind):
    """The macro expression gives the default value."""
    def fn(ctx):
        values = values_for(ctx)
        values["dm"] = DEFAULT
        st = ctx.pick("st", ({}, {"attributes": [("k", "x")]},
                             {"content": ("", "x")},
                             {"repeat": ("y", "seq")}))
        kids = ["keep"]
        f = ctx.pick("fill", (None, "plain", "tal", "use", "use-fill"))
        if f:
            kids.append(filler(f, "s1", "p"))
        e = E("p", kids, [("k", "lit")], use_macro="dm", **st)
        lib = [simple()]
        where = ctx.pick("where", ("page", "filler", "macro", "extend"))
        if where == "page":
            nodes = [e]
        elif where == "filler":
            nodes = [E("q", [E("f", [e], fill_slot="s1")], use_macro="m0")]
        elif where == "extend":
            e.st["extend_macro"] = e.st.pop("use_macro")
            e.st["define_macro"] = "m5"
            nodes = [e]
        else:
            lib.append(macro("m5", ["(", e, slot("s2"), ")"]))
            nodes = [E("q", [E("f", ["F"], fill_slot="s2")],
                       use_macro="m5")]
        compare(ctx, kind, nodes + [E("div", lib, condition="no")], values)
        ctx.cover("default")
    return fn


def in_place(kind):
    """A definition and its slots render where they stand."""
    def fn(ctx):
        values = values_for(ctx)
        st = ctx.pick("st", ({}, {"content": ("", "x")}, {"replace":
                                                          ("", "x")},
                             {"repeat": ("y", "seq")}, {"omit": ""}))
        m = macro("m1", ["[", slot("s1"), E("v", [slot("s2")],
                                            condition="y"), "]"], **st)
        nodes = [m]
        if ctx.flag("also"):
            nodes.append(E("p", [filler("plain", "s1", "p")],
                           use_macro="m1"))
        if ctx.flag("nested"):
            nodes = [macro("m2", ["<"[:0]] + nodes + [slot("s1", "m2")])]
            nodes.append(E("p", [filler("plain", "s1", "q")],
                           use_macro="m2"))
        compare(ctx, kind, nodes, values)
        ctx.cover("in place")
    return fn


def nested(kind):
    """A definition that extends a macro, inside another macro."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        m3 = macro("m3", fillers(ctx, "m", (
            None, "plain", "reopen", "reopen-other", "use", "use-reopen"),
            (None, "reopen")), extend_macro="m1")
        inner = m3
        where = ctx.pick("where", ("plain", "slot", "filler", "deep"))
        if where == "slot":
            inner = E("o", ["D", m3], define_slot="s3")
        elif where == "filler":
            inner = E("q", [E("f", [m3], fill_slot="s1")], use_macro="m1")
        elif where == "deep":
            inner = macro("m5", ["<"[:0], m3, slot("s1", "deep")])
        m4 = macro("m4", ["(", inner, slot("s2", "own"), ")"])
        used = ctx.pick("used", ("m3", "m4"))
        nodes = [E("p", fillers(ctx, "p", (None, "plain", "use-fill"),
                                (None, "plain")), use_macro=used)]
        lib = [m1, simple(), m4]
        if ctx.flag("other"):
            compare(ctx, kind, nodes, values, others=[lib])
        else:
            finish(ctx, kind, nodes + [E("div", lib, condition="no")],
                   values, "plain")
        ctx.cover(used)
    return fn


def called(kind):
    """What the macro is called, as the templates see it."""
    def fn(ctx):
        values = values_for(ctx)
        path = ctx.pick("path", ("z", "a/x", "/x", "a/b/x", "a/", "a.b/x-y",
                                 "a b/c d", "//", "a/x.y"))

        def show():
            return E("u", content=("", "macroname"))
        m1 = macro("m1", ["[", show(), E("o", [show()], define_slot="s1"),
                          "|", slot("s2"), "]"])
        m2 = macro("m2", ["(", show(), E("q", [E("f", ["F", show()],
                                                 fill_slot="s1")],
                                         use_macro="m1"), show(), ")"])
        m3 = macro("m3", [E("f", [show()], fill_slot="s1")]
                   if ctx.flag("inner") else [], extend_macro="m1")
        used = E("p", [E("f", ["G", show()], fill_slot="s1")]
                 if ctx.flag("fill") else ["."], use_macro=path)
        outer = ctx.pick("outer", ("macro", "variable", "none"))
        after = [E("w", ["B", show()])]
        if ctx.flag("fails"):
            m1.kids.append(E("u", content=("", "bad")))
            if outer == "none":
                used = E("w", [used], on_error=("", "x"))
                after = []
            else:
                used = E("w", [used], on_error=("", "macroname"))
        nodes = [used] + after
        if outer == "macro":
            nodes = [E("div", [E("f", nodes, fill_slot="s0")],
                       use_macro="m4")]
        elif outer == "variable":
            nodes = [E("w", nodes, define=[("", "macroname", "y")])]
        m4 = macro("m4", ["<"[:0], E("o", [], define_slot="s0"), show()])
        compare(ctx, kind, nodes, values, others=[[m1, m2, m3, m4]],
                aliases={path: ctx.pick("which", ("m1", "m2", "m3"))})
        ctx.cover(outer)
    return fn


def elsewhere(kind):
    """Macros of another template."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"],
                   **ctx.pick("st", ({}, {"define": [("", "x", "y")]})))
        other = [m1, simple()]
        page = [E("p", fillers(ctx, "p", PAGE, (None, "plain")),
                  use_macro="m1")]
        if ctx.flag("again"):
            page.append(E("p", [filler("tal", "s2", "r")], use_macro="m1"))
        compare(ctx, kind, page, values, others=[other])
        ctx.cover("elsewhere")
    return fn


def bare(ctx, kind):
    """Macros, slots, fillers and uses that are elements without content."""
    tag, empty = ctx.pick("form", FORMS[kind])

    def e(**st):
        return E(tag, [], [("n", "1")], empty=empty, **st)
    more = dict(ctx.pick("more", (
        {}, {"attributes": [("n", "x")]}, {"repeat": ("y", "seq")},
        {"condition": "no"}, {"define": [("", "y", "x")]})))
    root = ctx.flag("root")
    if root:
        m1 = e(define_macro="m1", **more)
    else:
        s1 = e(define_slot="s1", **more) if ctx.flag("slot") else \
            E("o", ["D"], define_slot="s1", **more)
        m1 = E("m", ["[", s1, "]"], define_macro="m1")
    kids = []
    if ctx.flag("use"):
        page = e(use_macro="m1")
    else:
        kids = ctx.pick("fill", (
            lambda: [], lambda: [e(fill_slot="s1")],
            lambda: [e(fill_slot="s1", attributes=[("n", "x")])],
            lambda: [E("f", ["F", E("u", content=("", "x"))],
                       fill_slot="s1")]))()
        page = E("q", ["gone"] + kids, use_macro="m1")
    return m1, page


def without(kind):
    def fn(ctx):
        values = values_for(ctx)
        m1, page = bare(ctx, kind)
        nodes = [page, "|", m1] if ctx.flag("first") else [m1, "|", page]
        compare(ctx, kind, nodes, values)
        ctx.cover("end")
    return fn


def many(kind):
    """Long chains of extensions, macros deep inside each other, and macros
    with many slots."""
    def fn(ctx):
        values = values_for(ctx)
        size = ctx.pick("size", (3, 4, 6))
        form = ctx.pick("form", ("chain", "inside", "slots", "fillers",
                                 "loop"))
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        lib = [m1, simple()]
        if form in ("chain", "inside"):
            kinds = (("reopen", "reopen-other", "reopen-twice")
                     if form == "chain" else
                     ("reopen", "use-reopen", "reopen-other"))
            first = ctx.choose("first", 3)
            step = ctx.choose("step", 3)
            for i in range(2, size + 1):
                k = kinds[(first + i * step) % 3]
                s = "s1" if k != "reopen" or i % 2 else "s2"
                fill = [filler(k, s, "abcdefg"[i])]
                if form == "chain":
                    m = macro("m%d" % i, fill,
                              extend_macro="m%d" % (i - 1))
                else:
                    m = macro("m%d" % i, ["(", E("g", fill, use_macro="m%d"
                                                 % (i - 1)), ")"])
                lib.append(m)
            page = E("p", fillers(ctx, "p", (None, "plain", "use-fill"),
                                  (None, "plain")), use_macro="m%d" % size)
        elif form == "slots":
            lib.append(macro("w", ["["] + [slot("t%d" % i)
                                           for i in range(size)] + ["]"]))
            page = E("p", [filler("plain", "t%d" % i, str(i))
                           for i in range(size) if ctx.flag("f%d" % i)],
                     use_macro="w")
        elif form == "fillers":
            kids = ["V"]
            for i in range(size):
                s = "s1" if i % 2 or ctx.flag("same") else "s2"
                kids = ["F%d" % i, E("q", [E("w", kids, fill_slot=s)],
                                     use_macro="m0")]
            page = E("p", [E("f", kids, fill_slot="s1")], use_macro="m1")
        else:
            values["seq"] = [str(i) for i in range(size)]
            page = E("l", [E("p", fillers(ctx, "p", (None, "tal", "use"),
                                          (None, "plain")),
                             use_macro="m1")], repeat=("r", "seq"))
        nodes = [page, E("div", lib, condition="no"), page]
        finish(ctx, kind, nodes, values, "plain")
        ctx.cover(form)
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        places = ("plain", "loop", "scope")
        if not t:
            places = ("plain", "loop") if kind == "html" else ("plain",)
        out.append(Goal("use-" + kind, use(
            kind, PAGE, PAGE if t else (None, "plain", "use", "use-other"), places),
            "a macro with two slots", ["use"]))
        out.append(Goal("extend-" + kind, extend(
            kind, MACRO, (None, "plain", "reopen", "reopen-other"),
            (None, "plain", "tal", "use", "use-fill") if t else
            (None, "plain", "use-fill"), (None, "plain", "use")),
            "one extension, two slots", ["use", "in place"]))
        if t or kind == "html":
            out.append(Goal("chain-" + kind, chain(
                kind, (None, "plain", "reopen", "reopen-other", "use-fill",
                       "reopen-in-use"), (None, "plain", "use-fill")),
                "two extensions, two slots", ["chain"]))
        out.append(Goal("inside-" + kind, inside(kind, MACRO),
                        "a macro using a macro", ["inside"]))
        out.append(Goal("failing-" + kind, failing(kind), "two failures",
                        ["filler", "slot", "inner"]))
        out.append(Goal("many-" + kind, many(kind),
                        "up to 6 macros, slots or iterations",
                        ["chain", "inside", "slots", "fillers", "loop"]))
        out.append(Goal("without-" + kind, without(kind),
                        "elements without content", ["end"]))
        out.append(Goal("names-" + kind, names(kind, 2 if t else 1),
                        "three slots and three fillers, any names of "
                        "length %d" % (2 if t else 1),
                        ["names"]))
        out.append(Goal("default-" + kind, default(kind),
                        "the default value", ["default"]))
        out.append(Goal("in-place-" + kind, in_place(kind), "definitions",
                        ["in place"]))
        out.append(Goal("nested-" + kind, nested(kind),
                        "an extension inside a macro", ["m3", "m4"]))
        out.append(Goal("called-" + kind, called(kind), "four macros, nine "
                        "names", ["macro", "variable", "none"]))
        out.append(Goal("elsewhere-" + kind, elsewhere(kind),
                        "macros of another template", ["elsewhere"]))
    return out + more("C08", t)
