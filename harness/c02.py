"""Computed attributes are quoted, placed, dropped or defaulted correctly."""
from harness.c05 import compare
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import BOOLEAN
from harness.tree import E


def quoting(n, kind):
    """Any text as a value; the attribute is in the template or not."""
    def fn(ctx):
        s = ctx.chars("s", n)
        how = ctx.pick("how", ("new", "literal", "bare"))
        if how == "bare" and kind == "xml":
            return
        lit = {"new": [], "literal": [("k", "x")], "bare": [("k", None)]}[how]
        place = ctx.pick("place", ("content", "omit", "repeat", "empty"))
        st = {"attributes": [("k", "v")]}
        values = {"v": s, "s": ["1"], "one": "1", "zero": ""}
        e = E("b", ["x"], lit, **st)
        if place == "content":
            e.st["content"] = ("", "one")
        elif place == "omit":
            e.st["omit"] = "zero"
        elif place == "repeat":
            e.st["repeat"] = ("r", "s")
        else:
            e = E("img", [], lit, empty="void" if kind == "html" and
                  ctx.flag("void") else True, **st)
        compare(ctx, kind, ["A", e, "B"], values)
        ctx.cover(how if kind == "html" or how != "bare" else "new")
    return fn


def padded(kind):
    def fn(ctx):
        k = ctx.pick("size", (8, 70, 400))
        pad = ctx.pick("pad", ("a", "&", "<", 'a"', " \n", ">"))
        s = pad * k + ctx.chars("s", 1)
        if ctx.flag("both"):
            s = s + pad * k
        e = E("b", ["x"], [("k", "lit")] * ctx.choose("lit", 2),
              attributes=[("k", "v")])
        compare(ctx, kind, ["A", e, "B"], {"v": s}, wrap=0)
        ctx.cover("padded")
    return fn


def value(ctx, name):
    k = ctx.pick(name + ":kind", ("text", "none", "default", "int"))
    if k == "text":
        return ctx.text(name, 1, LETTERS)
    if k == "none":
        return None
    if k == "int":
        return 7
    return DEFAULT


LITERALS = (
    [],
    [("a", "1")],
    [("c", "3"), ("a", "1")],
    [("b", "2"), ("a", "1"), ("c", "3")],
    [("z", "9"), ("b", "2")],
    [("c", ""), ("b", "x y")],
)
COMPUTED = (
    ["b"],
    ["c", "a"],
    ["b", "a", "c"],
    ["a", "z"],
    ["c", "b", "a"],
)


def mixed(kind):
    """Literal and computed attributes in any mix."""
    def fn(ctx):
        lit = ctx.pick("literal", LITERALS)
        comp = ctx.pick("computed", COMPUTED)
        values = {"v" + n: value(ctx, n) for n in comp}
        e = E("p", ["x"], lit, attributes=[(n, "v" + n) for n in comp],
              literal=ctx.pick("where", ("first", "last")))
        compare(ctx, kind, ["A", e, "B"], values)
        ctx.cover("mixed")
    return fn


def both(kind):
    """Computed attributes that are translated as well."""
    def fn(ctx):
        lit = ctx.pick("literal", LITERALS)
        comp = ctx.pick("computed", (["a"], ["c", "b"]))
        values = {"v" + n: value(ctx, n) for n in comp}
        e = E("p", ["x"], lit, attributes=[(n, "v" + n) for n in comp],
              i18n_attributes=[(n, None) for n in ctx.pick(
                  "translated", (comp, ["b", "a"]))
                  if n in comp or n in [m for m, x in lit]])
        compare(ctx, kind, ["A", e, "B"], values)
        ctx.cover("both")
    return fn


def bool_value(ctx):
    k = ctx.pick("value", ("symbolic", "default", "none", "text", "empty",
                           "one", "zero"))
    return {"symbolic": ctx.sbool("v"), "default": DEFAULT, "none": None,
            "text": "<x>", "empty": "", "one": 1, "zero": 0}[k]


def boolean(kind, all_cases):
    """Boolean attributes of HTML; in XML they are like any other."""
    def fn(ctx):
        name = ctx.pick("name", BOOLEAN)
        v = bool_value(ctx)
        lits = [[], [(name, "foo")], [("a", "1"), (name, name)]]
        if kind == "html":
            lits.append([(name, None), ("zz", "1")])
        lit = ctx.pick("literal", lits)
        stmt = name
        if kind == "html" and all_cases:
            stmt = ctx.pick("case", (name, name.upper(), name.title()))
        form = ctx.pick("form", (True, "void")) if kind == "html" else True
        comp = [(stmt, "v")]
        values = {"v": v, "w": "W"}
        if ctx.flag("more"):
            comp.append(("a", "w"))
        e = E("input", [], lit, attributes=comp, empty=form)
        compare(ctx, kind, [e], values)
        ctx.cover("boolean")
    return fn


def names(kind):
    """Only the boolean attributes are treated specially."""
    others = ("href", "class", "checke", "xchecked", "checkeda", "value",
              "async", "hidden", "selecte", "id", "type", "src", "defe",
              "no-wrap", "style", "title", "data-checked", "autofocus")

    def fn(ctx):
        name = ctx.pick("name", others)
        v = ctx.pick("value", ("", "x", None, DEFAULT, 0, 1, False, True))
        lit = ctx.pick("literal", ([], [(name, "l")]))
        e = E("p", ["x"], lit, attributes=[(name, "v")])
        compare(ctx, kind, [e], {"v": v})
        ctx.cover("other")
    return fn


def any_name(kind, lo, hi):
    """The name of the attribute is arbitrary."""
    def fn(ctx):
        name = ctx.text("n", hi, charset.of_chars(
            "abcdefghijklmnopqrstuvwxyzACDIMNRSP"), minlen=lo)
        v = ctx.pick("value", ("", "x", None, DEFAULT))
        src = '<p%s><a tal:attributes="' % (NS if kind == "xml" else "") + \
            name + ' v">t</a></p>'
        out = render(kind, src, {"v": v})
        if kind == "html":
            name = name.lower()
        if v is None or v is DEFAULT:
            want = None
        else:
            want = v
            if kind == "html":
                for b in BOOLEAN:
                    if name == b:
                        want = b if v else None
                        ctx.cover("boolean")
                        break
        attr = "" if want is None else " " + name + '="' + want + '"'
        ctx.observe("out", out)
        ctx.check(out == "<p><a" + attr + ">t</a></p>", "name",
                  lambda: ctx.value([src, out, attr]))
        ctx.cover("any")
    return fn


def case(kind):
    """HTML attribute names are not case-sensitive, XML ones are."""
    def fn(ctx):
        stmt = ctx.pick("stmt", ("href", "HREF", "hReF"))
        lit = ctx.pick("literal", ("href", "HREF", "Href"))
        v = ctx.chars("v", 1, LETTERS)
        other = ctx.flag("other")
        extra = ' id="i"' if other else ""
        src = '<p%s><a%s %s="x" tal:attributes="%s v">t</a></p>' % (
            NS if kind == "xml" else "", extra, lit, stmt)
        out = render(kind, src, {"v": v})
        if kind == "html":
            want = '<p><a%s href="' % extra + v + '">t</a></p>'
        elif stmt == lit:
            want = '<p><a%s %s="' % (extra, lit) + v + '">t</a></p>'
        else:
            want = '<p><a%s %s="x" %s="' % (extra, lit, stmt) + v + \
                '">t</a></p>'
        ctx.observe("out", out)
        ctx.check(out == want, "case", lambda: ctx.value([src, out, want]))
        ctx.cover("case")
    return fn


def order(kind, n):
    """New attributes come in the order of their names."""
    def fn(ctx):
        dom = charset.CS(((65, 90), (95, 95), (97, 122)))
        names = [ctx.text("n%d" % i, n, dom, minlen=1) for i in range(3)]
        v = ctx.chars("v", 1, LETTERS)
        fold = [a.lower() for a in names] if kind == "html" else names
        ctx.assume(fold[0] != fold[1] and fold[1] != fold[2]
                   and fold[0] != fold[2])
        for a in names:
            ctx.assume(not a.lower().startswith("xml"))
        src = "<p" + (NS if kind == "xml" else "") + ' tal:attributes="' + \
            "; ".join([a + " v" for a in names]) + '">x</p>'
        out = render(kind, src, {"v": v})
        rest = list(fold)
        want = "<p"
        while rest:
            least = rest[0]
            for a in rest[1:]:
                if a < least:
                    least = a
            rest.remove(least)
            want = want + " " + least + '="' + v + '"'
        want = want + ">x</p>"
        ctx.observe("out", out)
        ctx.check(out == want, "order", lambda: ctx.value([src, out, want]))
        ctx.cover("order")
    return fn


def prefixed(kind):
    """Names with prefixes and other punctuation, in any case."""
    def fn(ctx):
        name = ctx.pick("name", ("xml:lang", "data-x", "v:on.click", "_x",
                                 "a1", "xlink:href", "x-y:z"))
        spell = (lambda s: s, str.upper, str.title)
        stmt = spell[ctx.choose("stmt", 3)](name)
        lit = ctx.pick("literal", (None, 0, 1, 2))
        v = ctx.pick("value", ("text", None, DEFAULT))
        if v == "text":
            v = ctx.chars("v", 1)
        src = "<p"
        if kind == "xml":
            src += NS + ' xmlns:xlink="x" xmlns:v="v" xmlns:x-y="w"'
        src += '><a'
        attrs = []
        if lit is not None:
            lit = spell[lit](name)
            if kind == "xml" and ":" in lit:
                lit = lit.split(":")[0].lower() + ":" + lit.split(":")[1]
            src += ' b="2" %s="l" c="3"' % lit
            attrs = [("b", '"2"'), (lit, '"l"'), ("c", '"3"')]
        src += ' tal:attributes="%s v">t</a></p>' % stmt
        out = render(kind, src, {"v": v})
        if kind == "html":
            stmt = stmt.lower()
            attrs = [(n.lower(), x) for n, x in attrs]
        if v is not DEFAULT:
            if v is not None:
                v = '"' + esc_attr(v) + '"'
            if stmt in [n for n, x in attrs]:
                attrs = [(n, v if n == stmt else x) for n, x in attrs]
            else:
                attrs.append((stmt, v))
        want = "<p"
        if kind == "xml":
            want += ' xmlns:xlink="x" xmlns:v="v" xmlns:x-y="w"'
        want += "><a"
        for n, x in attrs:
            if x is not None:
                want = want + " " + n + "=" + x
        ctx.observe("out", out)
        ctx.check(out == want + ">t</a></p>", "prefixed",
                  lambda: ctx.value([src, out, want]))
        ctx.cover("prefixed")
    return fn


def again(kind):
    """The values of each iteration are used."""
    def fn(ctx):
        a, b = (value(ctx, "a"), value(ctx, "b"))
        lit = ctx.pick("literal", ([], [("k", "l")]))
        e = E("p", ["x"], lit, repeat=("r", "s"), attributes=[("k", "r")])
        compare(ctx, kind, [e], {"s": [a, b]})
        ctx.cover("again")
    return fn


def many(kind):
    """Many attributes."""
    def fn(ctx):
        size = ctx.pick("size", (4, 6, 9, 14))
        there = ctx.pick("there", ("none", "some", "all", "others"))
        names = ["k%02d" % i for i in range(size)]
        order = ctx.pick("order", (1, -1))
        which = ctx.choose("which", size)
        v = ctx.text("v", 1, LETTERS)
        other = ctx.pick("other", ("text", "none", "default"))
        values = {"v": v, "o": {"text": "O", "none": None,
                                "default": DEFAULT}[other]}
        lit = []
        for i, n in enumerate(names[::order]):
            if there == "all" or (there == "some" and i % 3 == 0):
                lit.append((n, "l%d" % i))
            elif there == "others":
                lit.append(("z%d" % i, "l%d" % i))
        e = E("b", ["x"], lit, attributes=[
            (n, "v" if i == which else "o") for i, n in enumerate(names)])
        compare(ctx, kind, ["A", e, "B"], values, wrap=0)
        ctx.cover("many")
    return fn


def goals(tier):
    t = tier == "thorough"
    n = 4 if t else 3
    out = []
    for kind in ("html", "xml"):
        out.append(Goal("quoting-" + kind, quoting(n, kind),
                        "values of %d characters" % n, ("new", "literal")))
        out.append(Goal("padded-" + kind, padded(kind),
                        "values up to 801 characters, one arbitrary",
                        ("padded",)))
        out.append(Goal("mixed-" + kind, mixed(kind),
                        "up to 3 literal and 3 computed attributes",
                        ("mixed",)))
        out.append(Goal("both-" + kind, both(kind),
                        "%s: the same, some translated" % kind, ("both",)))
        out.append(Goal("boolean-" + kind, boolean(kind, t or True), "",
                        ("boolean",)))
        out.append(Goal("names-" + kind, names(kind), "", ("other",)))
        out.append(Goal("anyname-" + kind, any_name(kind, 1, 8),
                        "attribute names of 1 to 8 letters",
                        ("any", "boolean") if kind == "html" else ("any",)))
        out.append(Goal("case-" + kind, case(kind), "", ("case",)))
        out.append(Goal("order-" + kind, order(kind, 2 if t else 1),
                        "three names of up to %d letters"
                        % (2 if t else 1), ("order",)))
        out.append(Goal("many-" + kind, many(kind),
                        "up to 14 computed attributes", ("many",)))
        out.append(Goal("prefixed-" + kind, prefixed(kind), "7 names",
                        ("prefixed",)))
        out.append(Goal("again-" + kind, again(kind), "2 iterations",
                        ("again",)))
    return out + more("C02", t)
