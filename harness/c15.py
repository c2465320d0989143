"""Attribute translation and domains follow the nearest declaration."""
from harness.c05 import FORMS
from harness.c05 import compare
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.scale import big
from harness.tree import E

VALUE = charset.ANY - charset.of_chars("\r\n\t\0")
WORD = ANY - charset.predicate("isspace") - charset.of_chars(";\0")


def answer(msgid, mapping, default):
    return "<" + msgid + '"&' + str(default) + ">"


def nothing(msgid, mapping, default):
    return None


def blank(msgid, mapping, default):
    return ""


ANSWERS = (answer, nothing, None)
MESSAGES = (Message("m1", "own"), Message("m2", "own", "de<f"))


def text(ctx, kind, name, n, dom, minlen=0):
    return ctx.text(name, n, dom & XML if kind == "xml" else dom,
                    minlen=minlen)


def put(ctx, e, name, listed, computed, literal, there):
    if there:
        e.attrs.append((name, literal))
    if computed:
        e.st.setdefault("attributes", []).append((name, computed))
    if listed is not None:
        e.st.setdefault("i18n_attributes", []).append(
            (name, listed or None))


def values(kind, n, others):
    """An attribute, its value and its message id."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, VALUE)
        listed = ctx.pick("listed", (None, "", "id.k"))
        what = ctx.pick("what", ("literal", "text", "none", "default",
                                 "number", "message", "message2"))
        v = {"none": None, "default": DEFAULT, "number": 7,
             "message": MESSAGES[0], "message2": MESSAGES[1]}.get(what, t)
        there = what in ("literal", "default") or ctx.flag("there")
        # the compiler rejects a message id for a computed value
        ctx.assume(not (listed and what != "literal"))
        tag, empty = ctx.pick("form", FORMS[kind][::2] + (("a", False),))
        e = E(tag, [] if tag != "a" else ["x"], empty=empty)
        put(ctx, e, "alt", listed, "v" if what != "literal" else None,
            t if what != "text" else "old", there)
        other = ctx.pick("other", others)
        if other == "literal":
            put(ctx, e, "src", None, None, "u&", True)
        elif other == "listed":
            put(ctx, e, "src", "", None, "u ", True)
        elif other == "computed":
            put(ctx, e, "src", None, "w", "", False)
        elif other == "both":
            put(ctx, e, "src", "", "w", "u", True)
        elif other == "first":
            e.attrs.insert(0, ("a", "b"))
            e.st["i18n_attributes"] = [("a", "id.a")] + \
                e.st.get("i18n_attributes", [])
        if ctx.flag("domain"):
            e.st["domain"] = "dom"
        answers = ANSWERS
        if other == others[0]:
            answers += (blank,)
        compare(ctx, kind, ["A", e, "B"], {"v": v, "w": "W"},
                translation=ctx.pick("answer", answers),
                deep=kind == "xml" and other == others[0])
        ctx.cover(what)
    return fn


def lacking(kind, n):
    """Attributes without value, missing ones and boolean ones."""
    def fn(ctx):
        name = ctx.pick("name", ("alt", "checked"))
        have = ctx.pick("have", ("value", "bare", "missing")
                        if kind == "html" else ("value", "missing"))
        v = None
        attr = ""
        if have == "value":
            v = text(ctx, kind, "v", n, VALUE)
            attr = " " + name + '="' + attr_src(v, kind) + '"'
        elif have == "bare":
            attr = " " + name
        msgid = text(ctx, kind, "m", n, WORD, 1) if ctx.flag("id") else None
        listed = name if msgid is None else name + " " + msgid
        computed = msgid is None and name == "alt" and ctx.flag("default")
        head = NS if kind == "xml" else ""
        src = "<doc%s>A<b%s%s i18n:attributes=\"%s\" z=\"1\">x</b></doc>" % (
            head, attr, ' tal:attributes="alt dflt"' if computed else "",
            attr_src(listed, kind))
        engine = Engine({"dflt": DEFAULT})
        engine.translation = answer
        out = render(kind, src, None, engine)
        sent = v if msgid is None else msgid
        first = last = ""
        want = []
        if sent is not None:
            default = v if v is not None else sent
            want = [(sent, "default", {}, default)]
            first = " " + name + '="' + esc_attr(
                answer(sent, {}, default)) + '"'
        elif have == "bare":
            first = " " + name + '="' + name + '"'
        if have == "missing":
            first, last = last, first
        want_out = '<doc>A<b%s z="1"%s>x</b></doc>' % (first, last)
        ctx.observe("out", out)
        detail = lambda: ctx.value(  # noqa: E731
            [src, out, want_out, engine.messages, want])
        ctx.check(out == want_out, "output", detail)
        ctx.check(engine.messages == want, "messages", detail)
        ctx.cover(have)
    return fn


def names(kind, n):
    """Which attributes are listed, and the message ids given."""
    def fn(ctx):
        have = ("k", "kk", "j")
        lower = kind == "html"
        listed = []
        seen = []
        for i in range(2):
            if i and not ctx.flag("second"):
                break
            name = ctx.text("n%d" % i, 2, charset.of_chars("kjKJ"), minlen=1)
            low = name.lower() if lower else name
            ctx.assume(low in have and low not in seen)
            seen.append(low)
            msgid = None
            if ctx.flag("id%d" % i):
                msgid = text(ctx, kind, "m%d" % i, n, WORD, 1)
            listed.append((name, msgid))
        e = E("div", ["."], [(k, "v" + k) for k in have],
              i18n_attributes=listed)
        if ctx.flag("computed"):
            e.st["attributes"] = [("x", "w")]
        compare(ctx, kind, ["A", e, "B"], {"w": "W"}, translation=answer)
        ctx.cover("names")
    return fn


def content(kind, n):
    """Message objects as content."""
    def fn(ctx):
        m = ctx.pick("message", MESSAGES)
        how = ctx.pick("how", ("content", "replace"))
        key = ctx.pick("key", ("", "structure"))
        st = {how: (key, "m")}
        if ctx.flag("unit"):
            st["translate"] = ""
        if ctx.flag("domain"):
            st["domain"] = text(ctx, kind, "d", n, LETTERS, 1)
        e = E("i", ["x ", E("u", ["y"])], **st)
        nodes = ["A", e, "B"]
        outer = ctx.pick("outer", ("none", "unit", "part", "domain"))
        if outer == "domain":
            nodes = [E("p", nodes, domain="out")]
        elif outer != "none":
            if outer == "part":
                e.st["name"] = "n"
            nodes = [E("p", nodes, translate="", domain="out")]
        compare(ctx, kind, nodes, {"m": m},
                translation=ctx.pick("answer", (answer, None)))
        ctx.cover(how)
    return fn


DOMAINS = ("none", "empty", "default", "named")


def declare(ctx, kind, e, key, domains=DOMAINS, n=1):
    """Give the element a domain."""
    d = ctx.pick("d" + key, domains)
    if d == "empty":
        e.st["domain"] = ""
    elif d == "default":
        e.st["domain"] = "default"
    elif d == "named":
        e.st["domain"] = text(ctx, kind, "dom" + key, n, LETTERS, 1)
    return e


def leaf(ctx, key, many=True):
    """Something to translate."""
    what = ctx.pick("leaf" + key, ("unit", "attribute", "computed",
                                   "message") if many else ("unit",))
    if what == "unit":
        return E("b", ["u" + key], translate="")
    if what == "attribute":
        return E("b", ["."], [("t", "a" + key)],
                 i18n_attributes=[("t", None)])
    if what == "computed":
        return E("b", ["."], attributes=[("t", "v")],
                 i18n_attributes=[("t", None)])
    return E("b", ["."], content=("", "m"))


def box(ctx, e, boxes):
    """Let the element do something else as well."""
    how = ctx.pick("box", boxes)
    if how == "loop":
        e.st["repeat"] = ("r", "s")
    elif how == "handler":
        e.st["on_error"] = ("", "v")
        e.kids.append(E("q", content=("", "bad")))
    elif how == "maybe":
        e.st["on_error"] = ("", "v")
        e.kids.append(E("q", content=("", "faulty")))
    elif how == "omit":
        e.st["omit"] = ""
    elif how == "unit":
        e.st["translate"] = ""
    elif how == "named":
        e.st["name"] = "n"
    elif how == "condition":
        e.st["condition"] = "c"
    return how


def nesting(kind, levels, boxes):
    """Declarations in declarations, with uses in and after each."""
    def fn(ctx):
        values = {"v": "V", "m": MESSAGES[0], "s": ["1", "2"],
                  "bad": Raise(), "c": ctx.sbool("c"),
                  "faulty": Faulty([ctx.sbool("f")], "F")}
        e = leaf(ctx, "0")
        if e.st.get("content") is None:
            declare(ctx, kind, e, "0")
        nodes = [e]
        named = False
        for i in range(levels):
            e = E("div", [".", *nodes, "."])
            declare(ctx, kind, e, str(i + 1))
            if i == 0:
                named = box(ctx, e, boxes) == "named"
            nodes = [e, leaf(ctx, "x%d" % i, False)]
        if named:
            nodes = [E("w", nodes, translate="")]
        compare(ctx, kind, nodes, values)
        ctx.cover("nesting")
    return fn


LANGUAGES = ({}, {"source": "en"}, {"target": "de"},
             {"source": "en", "target": "de"})


def languages(kind, inside):
    """Elements that say which language they are in."""
    def fn(ctx):
        values = {"v": "V", "m": MESSAGES[0], "s": ["1", "2"],
                  "bad": Raise(), "c": True}
        inner = leaf(ctx, "0")
        if inner.st.get("content") is None:
            inner.st.update(ctx.pick("l0", LANGUAGES[::inside]))
        e = E("div", [".", inner, "."])
        e.st.update(ctx.pick("l1", LANGUAGES))
        declare(ctx, kind, e, "1", ("none", "named"))
        box(ctx, e, ("none", "unit", "loop", "handler"))
        outer = E("div", [e, leaf(ctx, "x", False)])
        language = ctx.pick("l2", LANGUAGES)
        outer.st.update(language)
        declare(ctx, kind, outer, "2", ("none", "default", "named"))
        compare(ctx, kind, [outer, leaf(ctx, "y", False)], values,
                deep=kind == "xml" and not language)
        ctx.cover("languages")
    return fn


def spoken(kind, inherited):
    """Such an element in a macro, which may use the domain of the page."""
    def fn(ctx):
        e = E("div", [leaf(ctx, "0", False)])
        e.st.update(ctx.pick("language", LANGUAGES[1:]))
        m = E("m", [E("b", ["m"], translate=""), e], define_macro="m")
        page = E("p", [E("u", [], use_macro="m")], domain="page")
        if not inherited:
            own = ctx.pick("own", ("element", "macro", "none"))
            if own == "none":
                page.st["domain"] = ctx.pick("page", ("", "default"))
            else:
                (e if own == "element" else m).st["domain"] = "own"
            ctx.cover(own)
        compare(ctx, kind, [page], {}, others=[[m]])
    return fn


def macros(kind, other, domains):
    """Macros, slots and their fillers."""
    def fn(ctx):
        slot = E("s", ["d", E("b", ["e"], translate=""),
                       E("b", content=("", "msg"))], define_slot="s")
        declare(ctx, kind, slot, "slot", domains)
        if ctx.flag("unit"):
            slot.st["translate"] = ""
        box_ = E("o", ["<o>.</o>", slot, E("b", ["after"], translate="")])
        if ctx.flag("box"):
            box_.st["domain"] = "box"
        m = E("m", [E("b", ["m"], translate=""), box_,
                    E("b", ["."], [("t", "a")],
                      i18n_attributes=[("t", None)])],
              define_macro="m")
        declare(ctx, kind, m, "macro", domains)
        library = [E("l", [m])]
        if ctx.flag("library"):
            library[0].st["domain"] = "lib"
        kids = []
        if ctx.flag("filled"):
            f = E("f", ["f", E("b", ["g"], translate="")], fill_slot="s")
            declare(ctx, kind, f, "fill", domains)
            kids = [f]
        use = E("u", kids, use_macro="m")
        page = E("p", [use, E("b", ["z"], translate="")])
        declare(ctx, kind, page, "page", domains)
        nodes = [page, E("b", ["end"], translate="")]
        if other:
            compare(ctx, kind, nodes, {"msg": MESSAGES[0]}, others=[library])
        else:
            compare(ctx, kind, library + nodes, {"msg": MESSAGES[0]})
        ctx.cover("macros")
    return fn


def extended(kind):
    """A macro that extends another and fills or offers its slots."""
    def fn(ctx):
        slot = E("s", [E("b", ["d"], translate="")], define_slot="s",
                 domain=ctx.pick("slot", (None, "slot")))
        base = E("m", [E("b", ["m"], translate=""), slot,
                       E("b", ["n"], translate="")], define_macro="m",
                 domain=ctx.pick("base", (None, "base")))
        f = E("f", [E("b", ["f"], translate=""),
                    E("g", [E("b", ["h"], translate="")],
                      define_slot="t")], fill_slot="s",
              domain=ctx.pick("fill", (None, "fill")))
        ext = E("x", [f], define_macro="x", extend_macro="m")
        library = [E("l", [base, E("k", [ext],
                                   domain=ctx.pick("ext", (None, "ext")))])]
        kids = []
        filled = ctx.pick("filled", ("none", "s", "t"))
        if filled != "none":
            kids = [E("f", [E("b", ["p"], translate="")], fill_slot=filled)]
        page = E("p", [E("u", kids, use_macro="x"),
                       E("b", ["z"], translate="")],
                 domain=ctx.pick("page", (None, "page")))
        compare(ctx, kind, [page, E("b", ["end"], translate="")], {},
                others=[library])
        ctx.cover(filled)
    return fn


def passed(kind):
    """A macro that passes its slots on to another macro."""
    def fn(ctx):
        def unit(text):
            return E("b", [text], translate="")

        def place(tag, key, kids, **st):
            return E(tag, kids, domain=ctx.pick(key, (None, key)), **st)
        inner = E("m", [unit("m"), place("s", "slot", [unit("d")],
                                         define_slot="s"), unit("n")],
                  define_macro="m", domain=ctx.pick("inner",
                                                    (None, "inner")))
        f = place("f", "fill", [unit("f"), place(
            "g", "offer", [unit("h")], define_slot="t"), unit("i")],
            fill_slot="s")
        outer = E("o", [place("w", "around", [
            E("u", [f], use_macro="m"), unit("j")]), unit("k")],
            define_macro="o", domain=ctx.pick("outer", (None, "outer")))
        kids = []
        filled = ctx.pick("filled", ("none", "s", "t"))
        if filled != "none":
            kids = [place("f", "caller", [unit("p")], fill_slot=filled)]
        page = place("p", "page", [E("u", kids, use_macro="o"), unit("z")])
        compare(ctx, kind, [page, unit("end")], {},
                others=[[E("l", [inner, outer])]])
        ctx.cover(filled)
    return fn


def carried(kind, filler):
    """Message objects in a macro or a filler, far from its domain."""
    def fn(ctx):
        b = '<b tal:content="msg"/>' if ctx.flag("content") else \
            '<b tal:attributes="t msg"/>'
        ns = NS if kind == "xml" else ""
        engine = Engine({"msg": MESSAGES[0]})
        _, engine.macros = compile_(kind, "<doc%s>%s</doc>" % (ns, (
            '<m metal:define-macro="mac" i18n:domain="macro">'
            '<s metal:define-slot="s"/></m>' if filler else
            '<l i18n:domain="lib"><m metal:define-macro="mac">%s</m></l>' % b)
        ), engine)
        fill = '<f metal:fill-slot="s">%s</f>' % b if filler else ""
        render(kind, '<doc%s><p i18n:domain="page"><u metal:use-macro="mac">'
               '%s</u></p></doc>' % (ns, fill), None, engine)
        want = ["page" if filler else "lib"]
        got = [m[1] for m in engine.messages]
        ctx.check(len(got) == 1, "one message", lambda: repr(got))
        ctx.check(got == want, "messages", lambda: repr((got, want)))
    return fn


#: domains inside each other
DEEP = (
    lambda i, k: E("i", k, [("t", "w %d" % i)], domain="d%d" % i,
                   i18n_attributes=[("t", None)]),
    lambda i, k: E("i", k, translate="m%d" % i, domain="e"),
    lambda i, k: E("i", k, [("t", "w")], i18n_attributes=[("t", "id")],
                   repeat=("r", "s")),
    lambda i, k: E("i", ["p ", E("u", k, name="n%d" % i, domain="f")],
                   translate=""),
    lambda i, k: E("i", k, content=("", "dflt"), domain="default"),
    lambda i, k: E("i", k, on_error=("", "v"), domain="h%d" % i),
    lambda i, k: E("i", k, [("t", "w"), ("q", "y")],
                   attributes=[("t", "v"), ("q", "dflt")],
                   i18n_attributes=[("t", None), ("q", None)]),
)


def deep_values(ctx):
    return {"v": ctx.chars("v", 1, LETTERS), "s": ["1"], "dflt": DEFAULT}


def crowd(kind):
    """Many attributes to translate."""
    def fn(ctx):
        size = ctx.pick("size", (4, 6, 9))
        which = ctx.choose("which", size)
        v = ctx.chars("v", 1, LETTERS)
        attrs = [("k%d" % i, "w%d" % i) for i in range(size)]
        attrs[which] = ("k%d" % which, v)
        listed = [("k%d" % i, None if ctx.flag("odd") == i % 2 else
                   "id%d" % i) for i in range(size)]
        if ctx.flag("backwards"):
            listed.reverse()
        st = {}
        if ctx.flag("computed"):
            st["attributes"] = [(n, "v") for n, m in listed if m is None]
        e = E("b", ["x"], attrs, i18n_attributes=listed, **st)
        compare(ctx, kind, ["A", e, "B"], {"v": v}, translation=answer,
                wrap=0)
        ctx.cover("crowd")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    boxes = ("none", "loop", "handler", "maybe", "omit", "unit", "named",
             "condition")
    for kind in ("html", "xml"):
        n = 2 if t else 1
        out += [
            Goal("values-" + kind,
                 values(kind, n, ("none", "literal", "listed", "computed",
                                  "both", "first")),
                 "values of up to %d characters" % n,
                 ["literal", "text", "none", "default", "number", "message",
                  "message2"]),
            Goal("lacking-" + kind, lacking(kind, n),
                 "values and message ids of up to %d characters" % n,
                 ["value", "missing"] + ["bare"] * (kind == "html")),
            Goal("many-" + kind, big(
                kind, DEEP, deep_values,
                last=lambda ctx: [E("w", ["x"], translate=""),
                                  E("w", ["x"], [("t", "z")],
                                    i18n_attributes=[("t", None)])],
                around=lambda nodes: nodes + [E("w", ["x"], translate="")]),
                 "up to 9 levels, elements or iterations",
                 ["deep", "wide", "loop"]),
            Goal("crowd-" + kind, crowd(kind), "up to 9 attributes",
                 ["crowd"]),
            Goal("names-" + kind, names(kind, n),
                 "two listed attributes, message ids of up to %d characters"
                 % n, ["names"]),
            Goal("content-" + kind, content(kind, 2), "message objects",
                 ["content", "replace"]),
            Goal("nesting-" + kind, nesting(kind, 3 if t else 2,
                                            boxes),
                 "%d levels" % (3 if t else 2), ["nesting"]),
            Goal("macros-" + kind,
                 macros(kind, True, DOMAINS if t else
                        ("none", "default", "named")),
                 "one macro, one slot", ["macros"]),
            Goal("own-macros-" + kind,
                 macros(kind, False, DOMAINS if t else ("none", "named")),
                 "one macro, one slot", ["macros"]),
            Goal("languages-" + kind, languages(kind, 1 if t else 3),
                 "three levels", ["languages"]),
            Goal("macro-language-" + kind, spoken(kind, False), "one macro",
                 ["element", "macro", "none"]),
            Goal("inherited-language-" + kind, spoken(kind, True),
                 "one macro", []),
            Goal("passed-" + kind, passed(kind), "a macro using a macro",
                 ["none", "s", "t"]),
            Goal("message-macro-" + kind, carried(kind, False), "one macro",
                 []),
            Goal("message-filler-" + kind, carried(kind, True), "one filler",
                 []),
            Goal("extended-" + kind, extended(kind), "one extension",
                 ["none", "s", "t"]),
        ]
    return out + more("C15", t)
