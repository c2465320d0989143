"""Statements on an element take effect in the documented order."""
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import EMPTY
from harness.tree import Ref
from harness.tree import find_macros
from harness.tree import layout
from harness.tree import resolve

ORDERS = [
    None,
    ("omit", "attributes", "content", "replace", "repeat", "condition",
     "define"),
    ("condition", "content", "replace", "define", "omit", "repeat",
     "attributes"),
]


def head_of(kind):
    return "<doc%s>" % (NS if kind == "xml" else "")


def deeper(nodes):
    """The same deep inside other elements with statements."""
    nodes = [E("deep", nodes, [("deep", "1")],
               define=[("", "deep1", "deep")])]
    nodes = [E("tal:deep", nodes, condition="deep")]
    nodes = [E("deep", ["(", E("deep", ["D"], define_slot="deep"), ")"],
               define_macro="deep0"),
             E("deep", [E("deep", nodes, fill_slot="deep")],
               use_macro="deep0")]
    return [E("deep", [E("deep", nodes, repeat=("deep2", "deeps"))],
              [("deep", "2")])]


def compare(ctx, kind, nodes, values, label="output", others=(), files=None,
            translation=None, aliases=None, deep=None, **options):
    """Render with the real code and with the reference, and compare.

    The template of the XML goals is deep inside other elements, that of the
    HTML goals is not, unless ``deep`` is given.

    others: further templates, whose macros can be used
    files: names of the template and the further ones
    translation: what the translation service answers
    aliases: other names of macros
    """
    files = files or [None] * (1 + len(others))
    if kind == "xml" if deep is None else deep:
        nodes = deeper(nodes)
        values = dict(values, deep=True, deeps=["1"])
    resolve(nodes)
    src = layout(nodes, kind, head_of(kind), "</doc>", files[0])
    macros = find_macros(nodes)
    engine = Engine(values, {})
    engine.translation = translation
    for other, name in zip(others, files[1:]):
        resolve(other)
        text = layout(other, kind, head_of(kind), "</doc>", name)
        engine.macros.update(compile_(kind, text, engine, name)[1])
        find_macros(other, macros)
    for alias, name in (aliases or {}).items():
        macros[alias] = macros[name]
        engine.macros[alias] = engine.macros[name]
    ref = Ref(kind, values, macros)
    ref.translation = translation
    want = caught = got = None
    try:
        want = "<doc>" + ref.render(nodes) + "</doc>"
    except Boom as e:
        caught = e
    ctx.observe("src", src)
    out = None
    try:
        program, own = compile_(kind, src, engine, files[0])
        engine.macros.update(own)
        out = run(program, own, engine, strictinsert=0, **options)
    except Boom as e:
        got = e
    ctx.observe("out", out)
    ctx.observe("log", engine.log)
    detail = lambda: ctx.value([src, out, want, engine.log, ref.log,  # noqa
                                engine.messages, ref.messages])
    ctx.check(out == want, label, detail)
    ctx.check(engine.log == ref.log, "evaluations", detail)
    ctx.check(engine.messages == ref.messages, "messages", detail)
    if caught is None:
        ctx.check(got is None and engine.stack == [], "scopes", detail)
    else:
        ctx.check(got is not None and got is engine.raised[-1]
                  and got.args == caught.args, "the error itself", detail)
    return engine, ref


def a_value(ctx, name, kinds=("text", "none", "default")):
    k = ctx.pick(name + ":kind", kinds)
    if k == "text":
        return ctx.chars(name, 1, LETTERS)
    if k == "none":
        return None
    return DEFAULT


def a_seq(ctx, name, n=2):
    m = ctx.choose(name + "#", n + 1)
    return [ctx.chars("%s%d" % (name, i), 1, LETTERS) for i in range(m)]


def single(kind, orders):
    def fn(ctx):
        st = {}
        values = {}
        if ctx.flag("define"):
            st["define"] = [("", "a", "d1"), ("local", "b", "a")]
            values["d1"] = ctx.chars("d1", 1, LETTERS)
        cond = ctx.pick("condition", (None, "c1", "r"))
        if cond is not None:
            st["condition"] = cond
            values[cond] = ctx.sbool("c1")
        if ctx.flag("repeat"):
            st["repeat"] = ("r", "s1")
            values["s1"] = a_seq(ctx, "s1")
        elif cond == "r":
            return
        om = ctx.pick("omit", (None, "", "o1") + EMPTY[kind][1:])
        if om is not None:
            st["omit"] = om
            values["o1"] = ctx.sbool("o1")
        if ctx.flag("attributes"):
            st["attributes"] = [("k", "k1"), ("j", "j1")]
            values["k1"] = a_value(ctx, "k1")
            values["j1"] = ctx.chars("j1", 1, LETTERS)
        how = ctx.pick("how", (None, "content", "replace"))
        if how:
            key = ctx.pick("key", ("", "structure"))
            expr = "v1"
            if "repeat" in st:
                expr = "r"
            elif "define" in st:
                expr = "b"
            if expr == "v1":
                values["v1"] = a_value(ctx, "v1")
            if how == "replace" and key == "structure":
                st.pop("attributes", None)
            st[how] = (key, expr)
        if not st:
            st["condition"] = "c1"
            values["c1"] = ctx.sbool("c1")
        kid = E("i", ["x"], condition="in")
        values["in"] = True
        e = E("b", ["(", kid, ")"], [("k", "lit")],
              order=ORDERS[ctx.choose("order", orders)], **st)
        compare(ctx, kind, ["A", e, "B"], values)
        ctx.cover("single")
    return fn


FORMS = {
    "html": (("img", "void"), ("img", True), ("w", True),
             ("w", False)),
    "xml": (("w", True), ("w", False)),
}


def without(kind):
    """Elements that have no content."""
    def fn(ctx):
        tag, empty = ctx.pick("form", FORMS[kind])
        t = ctx.chars("t", 1, LETTERS)
        values = {"v": t, "a": t, "c": ctx.sbool("c"), "o": ctx.sbool("o")}
        st = {}
        if ctx.flag("define"):
            st["define"] = [("", "v", "a")]
        if ctx.flag("condition"):
            st["condition"] = "c"
        if ctx.flag("repeat"):
            st["repeat"] = ("r", "s")
            values["s"] = a_seq(ctx, "s")
        if ctx.flag("attributes"):
            st["attributes"] = [("k", "k"), ("j", "v")]
            values["k"] = a_value(ctx, "k")
        how = ctx.pick("how", (None, "replace", "omit", "bare", "domain",
                               "handler", "unit"))
        if how == "replace":
            st["replace"] = ("", "v")
        elif how == "omit":
            st["omit"] = "o"
        elif how == "bare":
            st["omit"] = ctx.pick("bare", EMPTY[kind])
        elif how == "domain":
            st["domain"] = "d"
            st["i18n_attributes"] = [("l", ctx.pick("id", (None, "m")))]
        elif how == "handler":
            st["on_error"] = ("", "v")
        elif how == "unit" and tag != "img":
            st["translate"] = ctx.pick("unit", EMPTY[kind] + ("m",))
            if ctx.flag("omit"):
                st["omit"] = "o"
        if not st:
            return
        e = E(tag, [], [("k", "lit"), ("l", "L")], empty=empty, **st)
        compare(ctx, kind, ["A", ctx.pick("gap", ("", "\n ")), e, "B"],
                values)
        ctx.cover("without")
    return fn


def nested(kind):
    """An outer element around an inner one that uses its variables."""
    def fn(ctx):
        values = {"o": ctx.sbool("o"), "c": ctx.sbool("c"),
                  "z": ctx.chars("z", 1, LETTERS), "g": "G0"}
        outer = {}
        if ctx.flag("define"):
            outer["define"] = [("", "a", "z"),
                               (ctx.pick("scope", ("", "global")), "g", "a")]
        else:
            values["a"] = "A0"
        rep = ctx.flag("repeat")
        if rep:
            outer["repeat"] = ("r", "s1")
            values["s1"] = a_seq(ctx, "s1")
        else:
            values["r"] = "R0"
        if ctx.flag("condition"):
            outer["condition"] = "c"
        om = ctx.pick("omit", (None, "", "o"))
        if om is not None:
            outer["omit"] = om
        inner = {}
        which = ctx.pick("inner", ("content", "replace", "condition",
                                   "repeat", "attributes", "define"))
        if which in ("content", "replace"):
            inner[which] = ("", ctx.pick("var", ("r", "a", "g")))
        elif which == "condition":
            inner["condition"] = "ic"
            values["ic"] = ctx.sbool("ic")
        elif which == "repeat":
            inner["repeat"] = ("r2", "s2")
            inner["content"] = ("", ctx.pick("var", ("r", "r2")))
            values["s2"] = a_seq(ctx, "s2")
        elif which == "attributes":
            inner["attributes"] = [("w", "r"), ("v", "a")]
        else:
            inner["define"] = [("", "a", "r"), ("global", "g", "a")]
            inner["content"] = ("", "a")
        tail = E("u", content=("", "g")) if "define" in outer else "."
        kids = ["(", E("i", ["x"], [("w", "1")], **inner),
                E("s", content=("", "a")), ")"]
        e = E(ctx.pick("tag", ("b", "tal:x")), kids, **outer)
        compare(ctx, kind, ["A", e, tail], values)
        ctx.cover("nested")
    return fn


def replaced(kind):
    """Statements in replaced content are not evaluated."""
    def fn(ctx):
        values = {"v": a_value(ctx, "v"), "t": ctx.chars("t", 1, LETTERS),
                  "bad": Raise(), "s": ["1", "2"]}
        live = values["v"] is DEFAULT
        kid = ctx.pick("kid", ({"content": ("", "t")},
                               {"replace": ("", "t")},
                               {"define": [("global", "g", "t")]},
                               {"repeat": ("r", "s"), "content": ("", "r")},
                               {"attributes": [("a", "t")]},
                               {"condition": "t", "omit": ""}))
        how = ctx.pick("how", ("content", "replace"))
        key = ctx.pick("key", ("", "text", "structure"))
        e = E("b", ["(", E("i", ["x"], **kid), ")"], [], **{how: (key, "v")})
        compare(ctx, kind, [e], values)
        ctx.cover("default" if live else "replaced")
    return fn


def order_only(kind):
    """Any order of the attributes in the source."""
    def fn(ctx):
        names = ["define", "condition", "repeat", "attributes", "content",
                 "omit"]
        order = []
        left = list(names)
        for i in range(len(names) - 1):
            order.append(left.pop(ctx.choose("p%d" % i, len(left))))
        order += left
        values = {"d": ctx.chars("d", 1, LETTERS), "s": ["1", "2"],
                  "o": ctx.sbool("o")}
        e = E("b", ["x"], [("k", "lit")], order=order,
              literal=ctx.pick("literal", ("first", "last")),
              define=[("", "a", "d"), ("", "s2", "s")], condition="a",
              repeat=("r", "s2"), attributes=[("k", "r"), ("j", "a")],
              content=("", "r"), omit="o")
        compare(ctx, kind, ["A", e, "B"], values)
        ctx.cover("order")
    return fn


#: elements for large templates
MANY = (
    lambda i, k: E("b", k, define=[("", "a", "v%d" % i), ("", "b", "a")]),
    lambda i, k: E("b", k, [("k", "l"), ("m", "n")],
                   attributes=[("k", "a"), ("j", "each")]),
    lambda i, k: E("b", k, condition="c"),
    lambda i, k: E("b", k, repeat=("r%d" % i, "two" if i < 2 else "one"),
                   attributes=[("k", "r%d" % i)]),
    lambda i, k: E("b", k, omit="o"),
    lambda i, k: E("tal:b", k, define=[("global", "a", "v%d" % i)]),
    lambda i, k: E("b", k, content=("", "dflt")),
    lambda i, k: E("b", k, on_error=("", "a")),
    lambda i, k: E("b", k + [E("u", ["y"], replace=("", "b"))]),
    lambda i, k: E("b", k, define=[("", "b", "v%d" % i)], condition="b",
                   repeat=("a", "one"), omit="o"),
    lambda i, k: E("b", k, replace=("", "dflt"), condition="yes"),
)


def many(ctx):
    values = {"v%d" % i: "V%d" % i for i in range(12)}
    values.update(c=ctx.sbool("c"), o=ctx.sbool("o"), dflt=DEFAULT,
                  yes=True, one=["1"], two=["1", "2"], each="E0",
                  a=ctx.chars("a", 1, LETTERS), b="B0")
    return values


def goals(tier):
    from harness.scale import big
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        out.append(Goal(
            "single-" + kind, single(kind, 3 if t else 2),
            "one element, every combination of statements, sequences up to 2",
            ["single"]))
        out.append(Goal("nested-" + kind, nested(kind),
                        "two levels, sequences up to 2", ["nested"]))
        out.append(Goal("without-" + kind, without(kind),
                        "one element, sequences up to 2", ["without"]))
        out.append(Goal("many-" + kind, big(kind, MANY, many),
                        "up to 9 levels, elements or iterations",
                        ["deep", "wide", "loop"]))
        out.append(Goal("replaced-" + kind, replaced(kind), "two levels",
                        ["default", "replaced"]))
    out.append(Goal("order-html", order_only("html"),
                    "all 720 attribute orders", ["order"]))
    if t:
        out.append(Goal("order-xml", order_only("xml"),
                        "all 720 attribute orders", ["order"]))
    return out + more("C05", t)
