"""Variables are visible exactly within their scope."""
from harness.c05 import FORMS
from harness.c05 import compare
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.scale import big
from harness.tree import E

LEVELS = (
    {"define": [("", "a", "x")]},
    {"define": [("local", "a", "x"), ("", "b", "a"), ("", "a", "y")]},
    {"define": [("global", "g", "x"), ("", "b", "g")]},
    {"define": [("global", "a", "x")]},
    {"define": [("", "g", "y"), ("global", "g", "x"), ("", "b", "g")]},
    {"repeat": ("a", "s")},
    {"define": [("", "a", "x")], "repeat": ("a", "s")},
    {"define": [("", "a", "x")], "repeat": ("b", "s")},
    {"define": [("", "a", "x")], "condition": "c"},
    {"define": [("", "a", "x"), ("global", "g", "a")], "omit": "c"},
    {"define": [("", "a", "x")], "content": ("", "a")},
    {"define": [("", "a", "x")], "replace": ("", "v")},
    {"define": [("", "a", "x")], "attributes": [("k", "a")]},
    {"define": [("", "a", "x")], "on_error": ("", "a")},
    {"define": [("", "a", "x"), ("", "b", "f")], "on_error": ("", "a")},
    {"repeat": ("a", "s"), "on_error": ("", "a")},
    {"translate": "", "define": [("", "a", "x")]},
    {"domain": "d"},
    {"condition": "c"},
    {},
)


def probe(*names):
    return E("u", ["."], attributes=[(n, n) for n in names])


ALL = ("a", "b", "g")


def a_level(ctx, i, kids, levels):
    st = ctx.pick("level%d" % i, levels)
    tag = "b"
    attrs = [("k", "lit%d" % i)]
    if i == 0 and "define" in st and not ("attributes" in st or "omit" in st
                                          or "replace" in st):
        tag = ctx.pick("tag", ("b", "tal:b"))
        if tag != "b":
            attrs = []
    return E(tag, kids, attrs, **st)


def values_for(ctx):
    seq = [ctx.chars("s%d" % i, 1, LETTERS)
           for i in range(ctx.choose("s#", 3))]
    return {"x": ctx.chars("x", 1, LETTERS), "y": ctx.chars("y", 1, LETTERS),
            "a": "A0", "b": "B0", "g": "G0", "v": DEFAULT, "s": seq,
            "c": ctx.sbool("c"), "f": Faulty([ctx.sbool("f0"),
                                              ctx.sbool("f1")], "F")}


def nested(kind, depth, levels):
    def fn(ctx):
        values = values_for(ctx)
        kids = [probe(*ALL), E("i", content=("", "f"))]
        for i in range(depth):
            e = a_level(ctx, i, kids, levels)
            kids = [e, probe(*ALL)]
        kids = [probe(*ALL)] + kids
        compare(ctx, kind, kids, values)
        ctx.cover("nested")
    return fn


def handlers(kind, depth):
    """Handlers that fail themselves."""
    def fn(ctx):
        values = values_for(ctx)
        kids = [probe(*ALL), E("i", content=("", "f"))]
        for i in range(depth):
            values["h%d" % i] = Faulty([ctx.sbool("h%d0" % i),
                                        ctx.sbool("h%d1" % i)], "H")
            st = {"on_error": ("", "h%d" % i)}
            if ctx.flag("define%d" % i):
                st["define"] = [("", "ab"[i % 2], "x")]
            kids = [E("b", kids, **st), probe(*ALL)]
        nodes = [E("div", [E("div", kids, repeat=("r", "s")), probe(*ALL)],
                   on_error=("", "a")), probe(*ALL)]
        compare(ctx, kind, nodes, values)
        ctx.cover("handlers")
    return fn


def siblings(kind, levels):
    """Elements next to each other share nothing but globals."""
    def fn(ctx):
        values = values_for(ctx)
        nodes = []
        for i in range(2):
            nodes.append(a_level(ctx, i, [probe("b", "a")], levels))
            nodes.append(ctx.pick("apart", ("", " \n")))
        nodes.append(E("u", content=("", "a")))
        nodes.append(probe(*ALL))
        inside = ctx.flag("inside")
        if inside:
            nodes = [E("div", nodes, define=[("", "b", "y")]), probe(*ALL)]
        compare(ctx, kind, nodes, values, deep=None if inside else False)
        ctx.cover("siblings")
    return fn


def without(kind, levels):
    """Elements without content."""
    def fn(ctx):
        values = values_for(ctx)
        tag, empty = ctx.pick("form", FORMS[kind])
        st = dict(ctx.pick("level", [x for x in levels if "content" not in x
                                     and "translate" not in x]))
        if tag == "img":
            # what a handler writes in an empty element is left open
            values["f"] = "F"
        st.setdefault("attributes", [("k", "attrs")])
        e = E(tag, [], [("z", "1")], empty=empty, **st)
        nodes = [e, E("div", [e, probe(*ALL)], define=[("", "b", "y")],
                      omit="c"), probe(*ALL)]
        compare(ctx, kind, nodes, values)
        ctx.cover("without")
    return fn


def inserted(kind):
    """What computed attributes of an element replaced by markup see."""
    def fn(ctx):
        k = ctx.chars("k", 1, LETTERS)
        y = ctx.chars("y", 1, LETTERS)
        how = ctx.pick("how", ("attrs", "k", "x", "r", "error"))
        own = {"x": ' tal:define="x y"', "r": ' tal:repeat="r q"',
               "error": ' tal:on-error="x"'}.get(how, "")
        # the markup has attributes of its own
        s = ctx.pick("s", ('<i k="in" n="2">t</i>', '<i><b k="in"/></i>'))
        expr = {"k": "attrs", "error": "attrs"}.get(how, how)
        src = ('<doc%s><b k="%s" l="1"%s tal:replace="structure s"'
               ' tal:attributes="m %s">d</b><u j="3" tal:content="attrs">d'
               '</u></doc>' % (NS if kind == "xml" else "", k, own, expr))
        engine = Engine({"s": s, "y": y, "x": "X", "q": [y]})
        seen = []
        engine.evaluateText = lambda ce: seen.append(
            engine.evaluate(ce)) or "V"
        program, macros = compile_(kind, src, engine, "page")
        run(program, macros, engine)
        detail = lambda: ctx.value([src, s, seen])  # noqa: E731
        ctx.check(len(seen) == 2, "evaluations", detail)
        if expr == "attrs":
            ctx.check(seen[0].get("k") == k and seen[0].get("l") == "1",
                      "attributes of the element", detail)
        else:
            ctx.check(seen[0] == y, "variables of the element", detail)
        ctx.check(seen[1].get("j") == "3" and "k" not in seen[1],
                  "attributes of the next element", detail)
        ctx.check(engine.stack == [], "scopes", detail)
        ctx.cover(how)
    return fn


def attrs(kind):
    """The attributes of the element being rendered."""
    def fn(ctx):
        values = values_for(ctx)
        outer = ctx.pick("outer", ({}, {"condition": "x"},
                                   {"repeat": ("a", "s")}, {"omit": ""},
                                   {"domain": "d"}, {"translate": ""}))
        inner = ctx.pick("inner", ({}, {"condition": "x"},
                                   {"define": [("", "b", "attrs")]},
                                   {"define": [("", "attrs", "x")]},
                                   {"domain": "e"}, {"repeat": ("b", "s")}))
        see = E("tal:s", replace=("", "attrs"))
        here = E("i", content=("", "attrs"))
        e = E("b", [here, E("q", [E("u", [see], [("m", "m")])],
                            [("j", "in"), ("k", "in")], **inner),
                    E("i", [], [("n", "n"), ("e", "")]
                      + ([("checked", None)] if kind == "html" else
                         [("N", "up"), ("xml:lang", "x"), ("aB", "1")]),
                      content=("", "attrs")),
                    E("i", ["t"], [("o", "o")], translate="msg",
                      data="attrs")],
              [("k", ctx.chars("k", 1, LETTERS)), ("l", "<\"&"), ("e", "")]
              + [("n", None)] * (kind == "html"), **outer)
        compare(ctx, kind, [e], values)
        ctx.cover("attrs")
    return fn


def substituted(kind, levels):
    """Macros and slots."""
    def fn(ctx):
        values = values_for(ctx)
        values["no"] = False
        slot = E("o", [probe(*ALL)], define_slot="s1",
                 **ctx.pick("slot", levels))
        macro = E("m", [probe(*ALL), slot, probe(*ALL)], define_macro="m",
                  **ctx.pick("macro", levels))
        kids = []
        if ctx.flag("fill"):
            kids = ["-", E("r", [probe(*ALL)], fill_slot="s1",
                           **ctx.pick("filler", levels))]
        use = E("p", kids, use_macro="m")
        nodes = [E("q", [use, probe(*ALL)], define=[("", "b", "y")]),
                 probe(*ALL), E("div", [macro], condition="no")]
        compare(ctx, kind, nodes, values)
        ctx.cover("filled" if kids else "default")
    return fn


def names(kind, n):
    """The names of the variables are unknown."""
    def fn(ctx):
        v = [ctx.chars("n%d" % i, 1, NAMES) for i in range(n)]
        seen = [ctx.chars("q%d" % i, 1, NAMES) for i in range(n - 2)]
        values = AnyValue()
        look = [E("u", content=("", q)) for q in seen]
        scope = ctx.pick("scope", ("", "global", "local"))
        inner = E("b", look, define=[(scope, v[0], "x1"), ("", v[1], "x2")])
        how = ctx.pick("how", ("define", "repeat", "both"))
        if how == "define":
            mid = E("b", look + [inner] + look, define=[("", v[2], "x3")])
        elif how == "repeat":
            mid = E("b", look + [inner] + look, repeat=(v[2], "seq"))
        else:
            mid = E("b", [inner] + look, define=[("", v[2], "x3")],
                    repeat=(v[-1], "seq"))
        compare(ctx, kind, [mid] + look, values, deep=False)
        ctx.cover("names")
    return fn


NAMES = charset.CS(((65, 90), (95, 95), (97, 122)))


class AnyValue:
    """Every name has a value."""

    def __getitem__(self, name):
        if name == "seq":
            return ["1", "2"]
        return "(" + name + ")"

    def get(self, name, default):
        return default


def many(kind, sizes, steps):
    def level(st):
        return lambda i, kids: E(
            "b", [probe(*ALL)] + kids + [probe(*ALL)], [("k", "l%d" % i)],
            **st)

    def values(ctx):
        out = values_for(ctx)
        out["s"] = ["1"]
        out["each"] = "E0"
        return out
    return big(kind, [level(st) for st in LEVELS], values, sizes,
               steps=steps,
               around=lambda nodes: nodes + [probe(*ALL)],
               last=lambda ctx: [probe(*ALL)])


def goals(tier):
    t = tier == "thorough"
    out = []
    some = LEVELS if t else LEVELS[::2] + LEVELS[13:16:2]
    few = tuple(LEVELS[i] for i in (
        range(len(LEVELS)) if t else (0, 2, 5, 8, 14, 17, 19)))
    for kind in ("html", "xml"):
        out.append(Goal("nested-" + kind, nested(kind, 2, LEVELS),
                        "two levels, sequences up to 2, %d kinds of element"
                        % len(LEVELS), ["nested"]))
        if t:
            out.append(Goal("deep-" + kind, nested(kind, 3, few),
                            "three levels", ["nested"]))
        sizes = (3, 5, 7, 9) if t else (6,)
        out.append(Goal("many-" + kind, many(kind, sizes, (1, 3)),
                        "up to %d levels, elements or iterations"
                        % sizes[-1],
                        ["deep", "wide", "loop"]))
        n = 3 if t else 2
        out.append(Goal("handlers-" + kind, handlers(kind, n),
                        "%d handlers that may fail" % n, ["handlers"]))
        out.append(Goal("siblings-" + kind, siblings(
            kind, some), "two siblings, %d kinds" % len(some),
            ["siblings"]))
        out.append(Goal("names-" + kind, names(kind, 4 if t else 3),
                        "%d definitions, any names of length 1"
                        % (4 if t else 3), ["names"]))
        out.append(Goal("without-" + kind, without(kind, LEVELS),
                        "elements without content", ["without"]))
        out.append(Goal("inserted-" + kind, inserted(kind), "one element",
                        ["attrs", "k", "x", "r", "error"]))
        out.append(Goal("attrs-" + kind, attrs(kind), "two levels",
                        ["attrs"]))
        out.append(Goal("substituted-" + kind, substituted(kind, few),
                        "a macro with one slot, %d kinds" % len(few),
                        ["filled", "default"]))
    return out + more("C07", t)
