"""Statements are recognised by namespace and never leak into the output."""
from harness import c05
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import shorten
from zope.tal.taldefs import I18NError
from zope.tal.taldefs import METALError
from zope.tal.taldefs import TALError

URIS = ("http://xml.zope.org/namespaces/tal",
        "http://xml.zope.org/namespaces/metal",
        "http://xml.zope.org/namespaces/i18n")
FAMILIES = ("tal", "metal", "i18n")
PREFIX = LETTERS | charset.of_chars("18")


def family_of(uri):
    for u, f in zip(URIS, FAMILIES):
        if uri == u:
            return f
    return None


class N:
    """An element: attributes are (prefix, name, value) triples.

    prefix "xmlns": a declaration; prefix None: a name without prefix
    """

    def __init__(self, prefix, name, attrs, kids, close=True):
        self.prefix = prefix
        self.name = name
        self.attrs = attrs
        self.kids = kids
        self.close = close


def full(prefix, name):
    return name if prefix is None else prefix + ":" + name


def source(n):
    if not isinstance(n, N):
        return n
    tag = full(n.prefix, n.name)
    out = "<" + tag
    for p, k, v in n.attrs:
        out = out + " " + full(p, k) + '="' + v + '"'
    out = out + ">"
    for kid in n.kids:
        out = out + source(kid)
    if n.close:
        out = out + "</" + tag + ">"
    return out


class Ref:
    def __init__(self, kind, values):
        self.kind = kind
        self.values = values
        self.log = []
        self.messages = []

    def bound(self, env, prefix):
        """The statement family of a prefix."""
        for p, uri in env:
            if p == prefix:
                return family_of(uri)
        return None

    def render(self, n, env):
        if not isinstance(n, N):
            return n
        xml = self.kind == "xml"
        new = []
        for p, k, v in n.attrs:
            if p == "xmlns":
                new.append((k, v))
            elif xml and p is None and k == "xmlns":
                new.append((None, v))
        env = new + env
        own = self.bound(env, n.prefix) if n.prefix or xml else None
        st = {}
        first = []
        rest = []
        for p, k, v in n.attrs:
            text = " " + full(p, k) + '="' + v + '"'
            if p == "xmlns" or (xml and p is None and k == "xmlns"):
                if family_of(v) is None:
                    (first if xml else rest).append(text)
                continue
            f = own if p is None else self.bound(env, p)
            if f is None:
                rest.append(text)
            else:
                st[f + ":" + k] = v
        inner = None
        expr = st.get("tal:content")
        if expr is not None:
            self.log.append(expr)
            inner = esc_text(self.values[expr])
        if inner is None:
            inner = ""
            for kid in n.kids:
                inner = inner + self.render(kid, env)
        if "i18n:translate" in st:
            self.messages.append((inner, "default", {}, inner))
        if own is not None or "tal:omit-tag" in st:
            return inner
        tag = full(n.prefix, n.name)
        if not n.kids and n.name == "hr":
            return "<" + tag + "".join(first + rest) + ">"
        return "<" + tag + "".join(first + rest) + ">" + inner + \
            "</" + tag + ">"


def compare(ctx, kind, node, after=()):
    """after: elements next to the first (HTML)"""
    values = {"v": "V&", "w": "W"}
    ref = Ref(kind, values)
    env = [] if kind == "xml" else list(zip(FAMILIES, URIS))
    src = source(node)
    want = ref.render(node, env)
    for n in after:
        src = src + source(n)
        want = want + ref.render(n, env)
    engine = Engine(values)
    ctx.observe("src", src)
    out = render(kind, src, values, engine)
    ctx.observe("out", out)
    detail = lambda: ctx.value([src, out, want, engine.log, ref.log,  # noqa
                                engine.messages, ref.messages])
    ctx.check(out == want, "output", detail)
    ctx.check(engine.log == ref.log, "evaluations", detail)
    ctx.check(engine.messages == ref.messages, "messages", detail)


STATEMENTS = {"tal": ("content", "v"), "metal": ("define-macro", "m"),
              "i18n": ("translate", "")}


def prefixes(n):
    """Declared and used prefixes, any names (HTML)."""
    def fn(ctx):
        # a tag begins with a letter
        p = ctx.pick("p1", "tmix") + ctx.text("p", n - 1, PREFIX)
        q = ctx.pick("q1", "tmix") + ctx.text("q", n - 1, PREFIX)
        ctx.assume(p != "xmlns" and q != "xmlns" and q != "xml")
        uri = ctx.pick("uri", URIS + ("http://xml.zope.org/namespaces/",))
        f = ctx.pick("family", FAMILIES)
        env = [(p, uri)] + list(zip(FAMILIES, URIS))
        got = Ref("html", {}).bound(env, q)
        ctx.assume(got is None or got == f)
        name, value = STATEMENTS[f]
        if ctx.flag("element"):
            e = N(q, "b", [(None, name, value), (None, "k", "j")][:1],
                  ["x"])
        else:
            e = N(None, "b", [(None, "k", "j"), (q, name, value)], ["x"])
        where = ctx.pick("where", ("outside", "same", "sibling"))
        d = ("xmlns", p, uri)
        if where == "outside":
            a = N(None, "a", [d], [e])
        elif where == "same":
            e.attrs.append(d)
            a = N(None, "a", [], [e])
        else:
            other = Ref("html", {}).bound(env[1:], q)
            ctx.assume(other is None or other == f)
            a = N(None, "a", [], [N(None, "i", [d], ["z"]), e])
        compare(ctx, "html", a)
        ctx.cover("statement" if got is not None else "plain")
    return fn


def uris(kind, n):
    """URIs that are, or nearly are, the statement namespaces."""
    def fn(ctx):
        base = ctx.pick("base", URIS)
        cut = ctx.pick("cut", (0, 4, len(base) - 1, len(base)))
        uri = base[:cut] + ctx.text("u", n, LETTERS) + base[cut + 1:]
        if uri == "":
            ctx.assume(False)
        f = family_of(uri) or "tal"
        name, value = STATEMENTS[f]
        e = N(None, "b", [("p", name, value)], ["x"])
        kids = [e]
        if ctx.flag("element"):
            kids.append(N("p", "e", [], ["y"]))
        a = N(None, "a", [("xmlns", "p", uri)], kids)
        compare(ctx, kind, a)
        ctx.cover("statement" if family_of(uri) else "other")
    return fn


def nesting(kind, levels, small):
    """Bindings in bindings: which holds where."""
    names = ("p", "tal")
    def fn(ctx):  # noqa: E306
        targets = (URIS[0], "u:other") if small else \
            (URIS[0], URIS[1], URIS[2], "u:other")

        def decls(key, where):
            out = []
            for p in names:
                u = ctx.choose("d%s%s" % (key, p), len(targets) + 1)
                if u:
                    out.append(("xmlns", p, targets[u - 1]))
            if kind == "xml" and where == 0:
                # XML has no bindings to begin with
                for p in names:
                    if p not in [x[1] for x in out]:
                        out.append(("xmlns", p, "u:first"))
            return out

        def leaf(key, env):
            p = names[ctx.choose("use" + key, len(names))]
            f = Ref(kind, {}).bound(env, p) or "tal"
            name, value = STATEMENTS[f]
            if f == "metal":
                value = value + key
            return N(None, "b", [(p, name, value)], ["x"])

        env = [] if kind == "xml" else list(zip(FAMILIES, URIS))
        build = []
        for i in range(levels):
            d = decls(str(i), i)
            env = [(p, u) for _, p, u in d] + env
            build.append((d, env))
        kids = [leaf("in", env)]
        for i in range(levels - 1, -1, -1):
            d, env = build[i]
            kids = [N(None, "n", d, kids)]
            if i:
                kids.append(leaf("after%d" % i, build[i - 1][1]))
        compare(ctx, kind, kids[0])
        ctx.cover("nested")
    return fn


def element(kind):
    """Elements of the statement namespaces and what is in them."""
    def fn(ctx):
        f = ctx.pick("family", FAMILIES)
        decl = [("xmlns", q, u) for q, u in zip("tmi", URIS)]
        decl.append(("xmlns", "o", "u:o"))
        p = {"tal": "t", "metal": "m", "i18n": "i"}[f]
        attrs = []
        have = []
        for k in ctx.pick("attrs", ((), ("tal",), ("metal",), ("i18n",),
                                    ("tal", "metal"), ("i18n", "metal"),
                                    ("metal", "tal", "i18n"))):
            if k == "i18n" and "tal" in have:
                continue
            have.append(k)
            name, value = STATEMENTS[k]
            q = {"tal": "t", "metal": "m", "i18n": "i"}[k]
            if k == f and ctx.flag("bare"):
                q = None
            attrs.append((q, name, value))
        if ctx.flag("moved") and not attrs:
            # the declaration stands on the element itself
            attrs = [d for d in decl if d[1] == p]
            decl = [d for d in decl if d[1] != p]
        foreign = ctx.pick("foreign", ((), ("o", "content", "1"),
                                       ("xml", "lang", "en"),
                                       ("xmlns", "z", "u:z")))
        if foreign:
            attrs.append(foreign)
        kids = ["y"]
        if ctx.flag("inner"):
            kids = [N("o", "k", [("o", "z", "1"), (None, "l", "2")], ["x"])]
        e = N(p, "block", attrs, kids)
        for i in range(ctx.pick("depth", (0, 3))):
            e = N(None, "d", [], [e, "."])
        a = N(None, "a", decl, ["A", e, "B"])
        compare(ctx, kind, a)
        ctx.cover(f)
    return fn


def keep(kind):
    """What belongs to other namespaces stays, in order."""
    def fn(ctx):
        decl = [("xmlns", "t", URIS[0]), ("xmlns", "o", "u:o"),
                ("xmlns", "r", "u:o"), ("xmlns", "tall", "u:t")]
        some = (("o", "content", "1"), (None, "content", "2"),
                ("t", "content", "v"), ("r", "define", "3"),
                ("tall", "content", "w"), ("xml", "lang", "en"),
                ("xmlns", "n", URIS[1]), ("xmlns", "s", "u:s"))
        attrs = []
        for i in range(3):
            k = ctx.choose("a%d" % i, len(some) + 1)
            if k:
                ctx.assume(some[k - 1] not in attrs)
                attrs.append(some[k - 1])
        tag = ctx.pick("tag", ((None, "b"), ("o", "b"), ("tall", "b"),
                               ("r", "tal")))
        e = N(tag[0], tag[1], attrs, ["x"])
        a = N(None, "a", decl, [e, N("o", "c", [("o", "k", "2")], ["."])])
        compare(ctx, kind, a)
        ctx.cover("kept")
    return fn


def default(ctx):
    """The default namespace (XML)."""
    uri = ctx.pick("uri", URIS + ("u:o",))
    inner = ctx.pick("inner", (None, "u:o", "", URIS[0]))
    f = family_of(uri)
    b = [(None, "xmlns", inner)] if inner is not None else []
    now = f if inner is None else family_of(inner)
    if now == "tal":
        if ctx.flag("content"):
            b.append((None, "content", "v"))
    elif now is None:
        b.append((None, "content", "v"))
    kids = [N(None, "b", b, [N(None, "c", [], ["x"])]),
            N(None, "d", [], ["y"])]
    e = N(None, "e", [(None, "xmlns", uri)], kids)
    if ctx.flag("prefix"):
        # an element of another namespace
        e.prefix = "o"
        e.attrs.insert(ctx.choose("first", 2), ("xmlns", "o", "u:p"))
    compare(ctx, "xml", N(None, "a", [], ["A", e, "B"]))
    ctx.cover("statement" if f else "other")


def implied(ctx):
    """A binding ends with its element, also where no end tag is (HTML)."""
    outer = ctx.pick("outer", ("ul", "div", "dl", "table"))
    tag = {"ul": "li", "div": "p", "dl": "dd", "table": "tr"}[outer]
    d = [("xmlns", "p", ctx.pick("uri", (URIS[0], "u:o")))]
    use = [("p", "content", "v")]
    # statements need an end tag
    first = N(None, tag, list(d), ["x"], False)
    one = ctx.pick("one", ("declares", "inside", "deep"))
    if one == "inside":
        first.kids = [N(None, "b", list(use), ["x"])]
    elif one == "deep":
        first.kids = [N(None, "b", list(d), ["x"], False)]
    hr = N(None, "hr", list(d), [], False)
    second = N(None, tag, list(use), ["y"])
    kids = [first, second]
    if ctx.flag("empty"):
        kids = [hr, second]
    last = N(None, "i", list(use), ["z"])
    compare(ctx, "html", N(None, "a", [], [N(None, outer, [], kids), last]))
    ctx.cover("implied")


def roots(ctx):
    """Several elements, none of them in another (HTML)."""
    uri = ctx.pick("uri", URIS + ("u:o",))
    p = ctx.pick("prefix", (ctx.chars("c", 1, charset.CS(((97, 122),))),
                            "tal", "i18n"))
    d = [("xmlns", p, uri)]
    how = ctx.pick("how", ("pair", "hr", "open"))
    use = ctx.pick("use", (("p", "content", "v"), ("tal", "content", "v"),
                           ("i18n", "translate", "")))
    if how == "hr":
        first = N(None, "hr", d, [], False)
    elif how == "open":
        first = N(None, "p", d, ["x"], False)
    else:
        first = N(None, "b", d, ["x", N(None, "hr", [], [], False)])
    kids = [N(None, "div", [use], ["y"]), N(None, "u", [use], ["z"])]
    if ctx.flag("again"):
        kids.insert(1, N(None, "i", [("xmlns", p, "u:q")], ["w"]))
    compare(ctx, "html", first, kids)
    ctx.cover(how)


def upper(ctx):
    """Names of HTML are not case sensitive."""
    p = ctx.pick("p", ("P", "TAL", "Q"))
    q = ctx.pick("q", ("p", "P", "tal", "TAL", "Tal"))
    uri = ctx.pick("uri", URIS[:1] + ("u:o",))
    src = '<a xmlns:%s="%s"><b %s:CONTENT="v">x</b></a>' % (p, uri, q)
    bound = "tal" if q.lower() == "tal" else None
    if p.lower() == q.lower():
        bound = family_of(uri)
    engine = Engine({"v": "V"})
    out = render("html", src, {}, engine)
    want = "<a" + ("" if family_of(uri) else
                   ' xmlns:%s="%s"' % (p.lower(), uri)) + "><b"
    want += ">V" if bound else ' %s:content="v">x' % q.lower()
    ctx.check(out == want + "</b></a>", "case",
              lambda: ctx.value([src, out, want]))
    ctx.cover("case")


STATE = (
    {}, {"define": [("", "d", "v")]}, {"condition": "v"},
    {"repeat": ("r", "s")}, {"content": ("", "v")},
    {"content": ("", "none")}, {"content": ("structure", "v")},
    {"content": ("", "dflt")}, {"content": ("", "bad")},
    {"replace": ("", "v")}, {"replace": ("", "dflt")},
    {"attributes": [("k", "v"), ("j", "v")]},
    {"attributes": [("k", "none")]}, {"attributes": [("k", "dflt")]},
    {"omit": ""}, {"omit": "v"}, {"omit": "none"},
    {"translate": ""}, {"translate": "id"}, {"domain": "dom"},
    {"i18n_attributes": [("k", None)]}, {"i18n_attributes": [("k", "m")]},
    {"source": "en"}, {"target": "de"}, {"ignore": ""},
    {"ignore-attributes": "k"},
)


ODD = ("x:y:z", "x:tal:content", ":y", "y:", ":tal", "::", "@click",
       "v-on:click.x", "tal", "xmlns", "x-tal:content", "tal-x:content",
       "xtal:content", "tal.x", "content", "[a]", "#a")


def odd(ctx):
    """HTML names that only look like statements."""
    name = ctx.pick("name", ODD)
    st = ctx.pick("st", ("", " tal:condition='t'", " tal:attributes='k t'",
                         " i18n:domain='d'", " xmlns:q='u'"))
    attr = " " + name + '="t"'
    src = "<doc><b" + (attr + st if ctx.flag("first") else st + attr) + \
        ">x</b></doc>"
    new = ' k="t"' if "attributes" in st else ""
    if "xmlns:" in st:
        new = ' xmlns:q="u"'
    out = render("html", src, {"t": "t"})
    ctx.observe("out", out)
    ctx.check(out in ("<doc><b" + attr + new + ">x</b></doc>",
                      "<doc><b" + new + attr + ">x</b></doc>"),
              "output", [src, out])
    ctx.cover("odd")


def colons(ctx):
    """HTML names with several colons belong to their first part."""
    prefix, error = ctx.pick("prefix", (("tal", TALError),
                                        ("metal", METALError),
                                        ("i18n", I18NError), ("q", None),
                                        ("xmlns", None)))
    rest = ctx.pick("rest", ("a:b", "content:x", "x:content", "a:", ":a",
                             "tal:content", "a:b:c"))
    where = ctx.pick("where", ("attribute", "element"))
    name = prefix + ":" + rest
    out = None
    got = None
    if where == "element":
        src = '<doc><%s tal:condition="t">x</%s></doc>' % (name, name)
        if prefix == "xmlns":
            return
        want = "<doc>x</doc>" if error else \
            "<doc><%s>x</%s></doc>" % (name, name)
        error = None
    else:
        src = '<doc><b k="1" tal:condition="t" %s="t">x</b></doc>' % name
        want = '<doc><b k="1" %s="t">x</b></doc>' % name
    try:
        out = render("html", src, {"t": "t"})
    except TALError as e:
        got = type(e)
    ctx.observe("out", out)
    if error is not None:
        ctx.check(got is error, "rejected", [src, out])
        ctx.cover("rejected")
    else:
        ctx.check(out == want, "output", [src, out, want])
        ctx.cover("accepted")


def leaks(kind, pairs):
    """No statement is seen in the output, whatever way it is rendered."""
    def fn(ctx):
        st = dict(ctx.pick("st", STATE))
        more = ctx.pick("more", STATE if pairs else STATE[:1])
        for k in more:
            ctx.assume(k not in st)
            ctx.assume(k not in ("content", "replace") or
                       ("content" not in st and "replace" not in st
                        and st.get("translate", "") == ""))
        st.update(more)
        ctx.assume(not ("translate" in st and st["translate"] and
                        ("content" in st or "replace" in st)))
        ctx.assume(not ("attributes" in st and
                        st.get("i18n_attributes") == [("k", "m")]))
        if ctx.flag("handler"):
            st["on_error"] = ("", "v")
        else:
            ctx.assume(st.get("content") != ("", "bad"))
        shorten(ctx, kind, st)
        e = E("b", ["x"], [("k", ctx.chars("k", 1, LETTERS))], **st)
        ctx.assume("replace" not in st or
                   not ("attributes" in st or "omit" in st))
        where = ctx.pick("where", ("page", "macro", "slot", "filler",
                                   "extended", "element", "part", "method"))
        nodes = [e]
        others = []
        if where == "macro":
            e.st["define_macro"] = "m"
            others = [[e]]
            nodes = [E("u", use_macro="m")]
        elif where == "slot":
            e.st["define_slot"] = "s"
            others = [[E("m", [e], define_macro="m")]]
            nodes = [E("u", use_macro="m")]
        elif where in ("filler", "extended"):
            e.st["fill_slot"] = "s"
            others = [[E("m", [E("s", define_slot="s")], define_macro="m"),
                       E("x", [e] if where == "extended" else [],
                         define_macro="x", extend_macro="m")]]
            if where == "extended":
                nodes = [E("u", use_macro="x")]
            else:
                nodes = [E("u", [e], use_macro="m")]
        elif where == "element":
            ctx.assume("omit" not in st and "i18n_attributes" not in st)
            e.tag = "tal:b"
            e.attrs = []
        elif where == "part":
            e.st["name"] = "n"
            nodes = [E("p", ["a ", e], translate="")]
        elif where == "method":
            e.st["define_macro"] = "m"
        values = {"v": "V", "s": ["1", "2"], "none": None, "dflt": DEFAULT,
                  "bad": Raise()}
        c05.compare(ctx, kind, nodes, values, others=others,
                    deep=kind == "xml" and where in ("page", "filler"))
        ctx.cover(where)
    return fn


def deep(kind):
    """Bindings changed again and again, far inside each other."""
    def fn(ctx):
        size = ctx.pick("size", (4, 6, 9))
        step = ctx.pick("step", (1, 2, 3))
        first = ctx.choose("first", 4)
        targets = URIS + ("u:other",)
        env = [] if kind == "xml" else list(zip(FAMILIES, URIS))
        build = []
        for i in range(size):
            p = ("p", "tal", "q", "i18n")[(first + i * step) % 4]
            d = [("xmlns", p, targets[(i + first) % 4])]
            if kind == "xml" and i == 0:
                d += [("xmlns", x, "u:first")
                      for x in ("p", "tal", "q", "i18n") if x != p]
            env = [(x, u) for _, x, u in d] + env
            build.append((d, env))

        def leaf(env, p):
            f = Ref(kind, {}).bound(env, p) or "tal"
            name, value = STATEMENTS[f]
            if f == "metal":
                value = value + str(len(env))
            return N(None, "b", [(p, name, value)], ["x"])

        names = ("p", "tal", "i18n") if kind == "html" else (
            "p", "tal", "q", "i18n")
        use = ctx.pick("use", names)
        kids = [leaf(env, use)]
        for i in range(size - 1, -1, -1):
            d, env = build[i]
            kids = [N(None, "n", d, kids)]
            if i:
                kids.append(leaf(build[i - 1][1], use))
        compare(ctx, kind, kids[0])
        ctx.cover("deep")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = [
        Goal("prefixes", prefixes(5), "two prefixes of up to 5 letters or "
             "digits", ["statement", "plain"]),
        Goal("default", default, "one default namespace in another",
             ["statement", "other"]),
        Goal("implied", implied, "one element without end tag", ["implied"]),
        Goal("roots", roots, "up to 4 elements next to each other",
             ["pair", "hr", "open"]),
        Goal("colons", colons, "names with several colons",
             ["rejected", "accepted"]),
        Goal("odd", odd, "names that look like statements", ["odd"]),
        Goal("upper", upper, "upper and lower case", ["case"]),
    ]
    for kind in ("html", "xml"):
        out += [
            Goal("uris-" + kind, uris(kind, 2), "URIs that differ in up to "
                 "2 characters", ["statement", "other"]),
            Goal("nesting-" + kind, nesting(kind, 3 if t else 2, not t),
                 "%d levels" % (3 if t else 2), ["nested"]),
            Goal("targets-" + kind, nesting(kind, 1 if not t else 2, False),
                 "one level, all namespaces", ["nested"]),
            Goal("deep-" + kind, deep(kind), "up to 9 levels", ["deep"]),
            Goal("element-" + kind, element(kind), "one element",
                 list(FAMILIES)),
            Goal("leaks-" + kind, leaks(kind, True),
                 "two statements on an element of every sort",
                 ["page", "macro", "slot", "filler", "extended", "element",
                  "part", "method"]),
            Goal("keep-" + kind, keep(kind), "three attributes", ["kept"]),
        ]
    return out + more("C16", t)
