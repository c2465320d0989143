"""Server-side code in templates."""
from harness.c05 import head_of
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import Ref
from harness.tree import find_macros
from harness.tree import layout

ASSUMPTIONS = ["a script element of a server-side type has no on-error "
               "statement and no computed or translated type"]

LANG = charset.of_chars("abXY-/. ")
TEXT = charset.of_chars("ab;'\"=> \n$")
ANSWER = charset.of_chars("a<&>\"\n${")


class CodeEngine(Engine):
    """Notes the code it is given among the expressions evaluated."""

    def __init__(self, values, answer, fails):
        Engine.__init__(self, values)
        self.answer = answer
        self.fails = fails
        self.codes = []

    def evaluateCode(self, lang, code):
        self.codes.append((lang, code))
        self.note(("code", lang, code))
        if len(self.codes) <= len(self.fails) and \
                self.fails[len(self.codes) - 1]:
            self.raised.append(Boom("code"))
            raise self.raised[-1]
        return self.answer + str(len(self.codes))


class CodeRef(Ref):
    def __init__(self, kind, values, macros, answer, fails):
        Ref.__init__(self, kind, values, macros)
        self.answer = answer
        self.fails = fails
        self.codes = []

    def code(self, lang, text, e):
        self.codes.append((lang, text))
        self.log.append(("code", lang, text))
        if len(self.codes) <= len(self.fails) and \
                self.fails[len(self.codes) - 1]:
            raise Boom("code")
        return self.answer + str(len(self.codes))


def compare(ctx, kind, nodes, values, answer, fails=(), **options):
    src = layout(nodes, kind, head_of(kind), "</doc>")
    macros = find_macros(nodes)
    ref = CodeRef(kind, values, macros, answer, fails)
    try:
        want = ref.render(nodes)
    except Boom as exc:
        want = exc.args[0]
        failed = True
    else:
        failed = False
    engine = CodeEngine(values, answer, fails)
    program, own = compile_(kind, src, engine)
    engine.macros = own
    out = Out()
    err = None
    try:
        TALInterpreter(program, own, engine, out, wrap=10000,
                       **options)()
    except Boom as exc:
        err = exc
    detail = lambda: ctx.value(  # noqa: E731
        [src, out.text(), want, engine.codes, ref.codes])
    ctx.observe("out", [out.text(), engine.codes])
    ctx.check(engine.codes == ref.codes, "code handed over", detail)
    ctx.check(engine.log == ref.log, "evaluations", detail)
    ctx.check((err is not None) == failed, "error", detail)
    if failed:
        ctx.check(err is engine.raised[-1], "same error", detail)
        ctx.cover("failure reaches the caller")
        return engine
    if kind == "html":
        want = head_of(kind) + want + "</doc>"
    else:
        want = "<doc>" + want + "</doc>"
    ctx.check(out.text() == want, "output", detail)
    return engine


def statement(kind, lang_n, text_n):
    """Elements with a script statement, and other statements."""
    def fn(ctx):
        lang = ctx.text("lang", lang_n, LANG - charset.of_chars(" "),
                        minlen=1)
        text = ctx.text("text", text_n, TEXT)
        answer = ctx.chars("answer", 1, ANSWER)
        how = ctx.pick("how", ("kids", "default", "content", "replace",
                               "unit", "explicit", "name"))
        st = {}
        if how == "default":
            st["content"] = (ctx.pick("key", ("", "structure")), "dflt")
        elif how in ("content", "replace"):
            st[how] = ("", ctx.pick("v", ("v", "none")))
        elif how == "unit":
            st["translate"] = ""
        elif how == "explicit":
            st["translate"] = "m-id"
        elif how == "name":
            st["name"] = "nm"
        rest = ctx.pick("rest", ("", "define", "condition", "repeat",
                                 "attributes", "omit", "omitted"))
        if rest == "define":
            st["define"] = [("", "x", "v")]
        elif rest == "condition":
            st["condition"] = "c"
        elif rest == "repeat":
            st["repeat"] = ("x", "q")
        elif rest == "attributes":
            st["attributes"] = [("k", "v"), ("n", "u")]
        elif rest == "omit":
            st["omit"] = "c"
        elif rest == "omitted":
            st["omit"] = ""
        tag = ctx.pick("tag", ("w", "tal:block"))
        if tag != "w" and rest == "attributes":
            tag = "w"
        kid = ctx.pick("kid", ("none", "content", "code", "loop"))
        kids = [text]
        if kid == "content":
            kids.append(E("i", ["d"], content=("", "v")))
        elif kid == "code":
            kids.append(E("i", ["in"], script="b"))
        elif kid == "loop":
            kids.append(E("i", ["in"], script="b", repeat=("y", "q")))
        e = E(tag, kids, [("k", "1")] if tag == "w" else [], script=lang,
              **st)
        nodes = ["A", e, "B", E("u", ["d"], content=("", "v"))]
        if how == "name":
            nodes = [E("t", ["A", e, "B"], translate="")]
        values = {"v": "V<", "u": "U", "none": None, "dflt": DEFAULT,
                  "q": ["1", "2"]}
        if rest in ("condition", "omit"):
            values["c"] = ctx.sbool("c")
        if rest == "repeat" or kid == "loop":
            values["q"] = ["1", "2"][:ctx.choose("q", 3)]
        engine = compare(ctx, kind, nodes, values, answer)
        n = len(engine.codes)
        ctx.cover("no code" if n == 0 else "code" if n == 1 else "codes")
    return fn


def without(kind):
    """Script statements on elements without content."""
    def fn(ctx):
        lang = ctx.text("lang", 1, LANG - charset.of_chars(" "), minlen=1)
        answer = ctx.chars("answer", 1, ANSWER)
        st = dict(ctx.pick("st", (
            {}, {"omit": "c"}, {"omit": ""}, {"condition": "c"},
            {"repeat": ("x", "q")}, {"attributes": [("k", "v")]},
            {"define": [("", "x", "v")]}, {"translate": "m"})))
        tag = ctx.pick("tag", ("w", "tal:w"))
        if tag != "w" and "attributes" in st:
            return
        e = E(tag, [], [("k", "1")] if tag == "w" else [], script=lang,
              empty=ctx.flag("empty"), **st)
        nodes = ["A", e, "B"]
        if ctx.flag("unit"):
            nodes = [E("t", [E("x", nodes)], translate="")]
        compare(ctx, kind, nodes, {"v": "V<", "q": ["1", "2"],
                                   "c": ctx.sbool("c")}, answer)
        ctx.cover("end")
    return fn


def failing(kind):
    def fn(ctx):
        fails = [ctx.sbool("f%d" % i) for i in range(4)]
        text = ctx.chars("text", 1, TEXT)
        inner = E("i", ["in", E("s", [text], script="b")])
        if ctx.flag("handler2"):
            inner.st["on_error"] = ("", "h2")
        mid = E("w", ["a", inner, "b"], [("k", "1")], script="a")
        if ctx.flag("unit"):
            mid.st["translate"] = ""
        if ctx.flag("own"):
            mid.st["on_error"] = ("", "h3")
        if ctx.flag("loop"):
            mid.st["repeat"] = ("x", "q")
        outer = E("o", ["(", mid, ")"])
        if ctx.flag("handler1"):
            outer.st["on_error"] = ("structure", "h1")
        nodes = ["A", outer, "B", E("u", ["d"], content=("", "v")),
                 E("z", ["last"], script="c")]
        values = {"h1": "<h>1</h>", "h2": "h<2", "h3": "h3", "v": "V",
                  "q": ["1", "2"]}
        engine = compare(ctx, kind, nodes, values, "[<", fails)
        if engine.errors:
            ctx.cover("handled")
        elif not engine.raised:
            ctx.cover("no failure")
    return fn


#: content of script elements that is not markup there
RAW = ("", "<b>", "</i>", "&lt;", "&", "<!-- c -->", "<?p i?>",
       '<b tal:content="v">x</b>', "a < b", "\n ", "<![CDATA[x]]>",
       "${n}")


def element(lang_n, text_n):
    """HTML script elements of a server-side type."""
    def fn(ctx):
        lang = "text/server-" + ctx.text("lang", lang_n, LANG)
        raw = ctx.text("text", text_n, TEXT) + ctx.pick("raw", RAW)
        answer = ctx.chars("answer", 1, ANSWER)
        st = {}
        rest = ctx.pick("rest", ("", "define", "condition", "repeat",
                                 "attributes", "omit", "content", "default",
                                 "replace", "unit"))
        if rest == "define":
            st["define"] = [("", "x", "v")]
        elif rest == "condition":
            st["condition"] = "c"
        elif rest == "repeat":
            st["repeat"] = ("x", "q")
        elif rest == "attributes":
            st["attributes"] = [("n", "u")]
        elif rest == "omit":
            st["omit"] = ""
        elif rest in ("content", "replace"):
            st[rest] = ("", "v")
        elif rest == "default":
            st["content"] = ("", "dflt")
        elif rest == "unit":
            st["translate"] = ""
        attrs = [("type", lang)]
        more = ctx.choose("more", 3)
        if more == 1:
            attrs.append(("k", None))
        elif more == 2:
            attrs.insert(0, ("k", "1"))
        e = E("script", [raw], attrs, **st)
        around = ctx.pick("around", ("", "loop", "unit"))
        if around == "loop":
            nodes = [E("w", ["a", e, "b"], repeat=("y", "two"))]
        elif around == "unit":
            nodes = [E("w", ["a", E("x", [e]), "b"], translate="")]
        else:
            nodes = ["a", e, "b"]
        nodes.append(E("u", ["d"], content=("", "v")))
        values = {"v": "V<", "u": "U", "dflt": DEFAULT, "two": [1, 2]}
        if rest == "condition":
            values["c"] = ctx.sbool("c")
        if rest == "repeat":
            values["q"] = ["1", "2"][:ctx.choose("q", 3)]
        engine = compare(ctx, "html", nodes, values, answer)
        n = len(engine.codes)
        ctx.cover("no code" if n == 0 else "code" if n == 1 else "codes")
    return fn


def attrs(ctx):
    """What the statements of a script element know of its attributes."""
    v = ctx.chars("v", 1, LETTERS)
    have = [("id", "1" + v), ("k", None), ("src", "")]
    n = ctx.choose("have", 4)
    have = have[:n]
    st = ctx.pick("st", (("tal:define", "global x attrs"),
                         ("tal:repeat", "x both"),
                         ("tal:condition", "both"),
                         ("tal:attributes", "z both")))
    lang = ctx.pick("lang", ("text/server-x", "text/x"))
    attrs = list(have)
    attrs.insert(ctx.choose("at", n + 1), ("type", lang))
    attrs.insert(ctx.choose("st at", n + 2), st)
    src = "<doc><script"
    for name, value in attrs:
        src = src + " " + name
        if value is not None:
            src = src + '="' + value + '"'
    src = src + ">c</script></doc>"
    seen = []

    class Look(CodeEngine):
        def evaluate(self, ce):
            seen.append(dict(self.locals["attrs"]))
            return self.locals["attrs"] if ce.text == "attrs" else ["a"]

        evaluateBoolean = evaluateValue = evaluate

        def evaluateText(self, ce):
            self.evaluate(ce)
            return "a"
    engine = Look({}, "R", ())
    program, macros = compile_html(src, engine)
    out = run(program, macros, engine)
    ctx.observe("out", out)
    server = lang != "text/x"
    want = dict([a for a in attrs if not (server and a[0] == "type")])
    ctx.check(seen == [want], "attributes",
              lambda: ctx.value([src, seen, want]))
    ctx.check(engine.codes == ([("text/server-x", "c")] if server else []),
              "code", lambda: ctx.value([src, engine.codes]))
    ctx.cover("server" if server else "other")


def macros(kind):
    """Such elements in and as macros, slots and fillers."""
    def fn(ctx):
        text = ctx.text("text", 1, TEXT)
        lang = ctx.chars("lang", 1, LETTERS)
        answer = ctx.chars("answer", 1, ANSWER)

        def code(tag, what, **st):
            if kind == "html" and ctx.flag("element" + what):
                return E("script", [text, what],
                         [("type", "text/server-" + lang)], **st)
            return E(tag, [text, what], script=lang, **st)
        role = ctx.pick("role", ("macro", "slot", "filler", "use",
                                 "in macro", "in slot", "in filler",
                                 "extend"))
        slot = E("s", ["d"], define_slot="s")
        m = E("m", ["(", slot, ")"], define_macro="m")
        kids = [".", E("f", ["F"], fill_slot="s")] \
            if role in ("filler", "in filler") or ctx.flag("fill") else ["."]
        use = E("u", kids, use_macro=ctx.pick("which", ("m", "dflt")))
        kids = use.kids
        if role == "macro":
            m = code("m", "1", define_macro="m")
        elif role == "slot":
            m.kids[1] = code("s", "1", define_slot="s")
        elif role == "filler":
            kids[1] = code("f", "1", fill_slot="s")
        elif role == "use":
            use = code("u", "1", use_macro=use.st["use_macro"])
        elif role == "in macro":
            m.kids.append(code("i", "1"))
        elif role == "in slot":
            slot.kids.append(code("i", "1"))
        elif role == "in filler":
            kids[1].kids.append(code("i", "1"))
        else:
            m = E("n", ["[", slot, code("i", "2"), "]"], define_macro="n")
            m = E("w", [m, E("m", [E("f", [code("j", "1")], fill_slot="s")]
                             if ctx.flag("inner") else [],
                             define_macro="m", extend_macro="n")])
        if role in ("macro", "slot", "filler") and ctx.flag("loop"):
            e = {"macro": m, "slot": m.kids[-2], "filler": kids[-1]}[role]
            e.st["repeat"] = ("x", "q")
        nodes = [m, "A", use, "B", code("z", "3")]
        if ctx.flag("off"):
            nodes = [E("w", [m], condition="no")] + nodes[1:]
        engine = compare(ctx, kind, nodes, {
            "dflt": DEFAULT, "no": False, "q": ["1", "2"]}, answer)
        ctx.cover(role if len(engine.codes) > 1 else "one")
    return fn


NEAR = charset.of_chars("text/srvTE- ")
STARTS = ("", "text", "text/serve", "Text/server-", "text/server",
          " text/server-", "text/javascript", "application/text/server-")


def ordinary(kind, n):
    """Script elements of other types, and other elements with such types."""
    def fn(ctx):
        tag = ctx.pick("tag", ("script", "style", "w", "scripts"))
        rest = ctx.text("rest", n, NEAR)
        if tag == "script" and kind == "html":
            value = ctx.pick("start", STARTS) + rest
            ctx.assume(not value.startswith("text/server-"))
        else:
            value = ctx.pick("start", STARTS + ("text/server-python",)) + rest
        attrs = [("type", value)]
        if tag != "script" or kind == "xml" or ctx.flag("name"):
            attrs.append(("k", "text/server-python"))
        if tag == "script" and ctx.flag("missing"):
            attrs = attrs[1:]
            if kind == "html" and ctx.flag("bare"):
                attrs.append(("type", None))
        st = ctx.pick("st", ({}, {"condition": "c"}, {"content": ("", "v")},
                             {"attributes": [("type", "t"), ("k", "v")]}))
        e = E(tag, ["x;"], attrs, **st)
        values = {"v": "V", "t": "text/server-python"}
        if "condition" in st:
            values["c"] = ctx.sbool("c")
        nodes = ["a", e, "b"]
        if ctx.flag("deep"):
            nodes = [E("w", ["c", E("x", nodes)])]
        engine = compare(ctx, kind, nodes, values, "[")
        ctx.check(engine.codes == [], "no code",
                  lambda: ctx.value([value, engine.codes]))
        ctx.cover(tag)
    return fn


def names(ctx):
    """Case of HTML names; other attributes; several elements."""
    tag = ctx.pick("tag", ("script", "SCRIPT", "Script"))
    end = ctx.pick("end", ("script", "SCRIPT"))
    attr = ctx.pick("attr", ("type", "TYPE", "Type"))
    before = ctx.pick("before", ("", "a ", "a b='' ", "a='1' b='2' c='3' "))
    x = ctx.chars("x", 1, TEXT)
    text = ctx.pick("other", ("<b>", "</b>", "&lt;", "x"))
    src = ("<doc><%s %s%s='text/server-a'>%s%s</%s>|<%s %s=\"text/server-b\">"
           "</%s >|</doc>" % (tag, before, attr, x, text, end, end, attr,
                              tag))
    engine = CodeEngine({}, "<", [])
    out = render("html", src, {}, engine)
    ctx.observe("out", [out, engine.codes])
    detail = lambda: ctx.value([src, out, engine.codes])  # noqa: E731
    ctx.check(engine.codes == [("text/server-a", x + text),
                               ("text/server-b", "")], "codes", detail)
    ctx.check(out == "<doc><1|<2|</doc>", "output", detail)
    ctx.cover("end")


def off(kind):
    """With statements not carried out no code is run."""
    def fn(ctx):
        x = ctx.chars("x", 1, TEXT)
        lang = ctx.text("lang", 2, LANG, minlen=1)
        inner = E("i", [x], [("k", "1")], script=lang)
        extra = ctx.pick("extra", ({}, {"repeat": ("x", "q")},
                                   {"condition": "c"}, {"omit": ""},
                                   {"attributes": [("k", "v")]}))
        e = E(ctx.pick("tag", ("w", "tal:block")), ["a", inner, "b"], [],
              script="py", **extra)
        src = layout(["A", e, "B"], kind, head_of(kind), "</doc>")
        engine = CodeEngine({}, "[", [])
        out = render(kind, src, {}, engine, tal=0, metal=ctx.choose(
            "metal", 2))
        ctx.observe("out", out)
        detail = lambda: ctx.value([src, out, engine.codes])  # noqa: E731
        ctx.check(engine.codes == [], "no code is run", detail)
        ctx.check(out == src, "text kept", detail)
        ctx.cover("end")
    return fn


def off_element(ctx):
    """The same for HTML script elements."""
    x = ctx.chars("x", 1, TEXT)
    lang = "text/server-" + ctx.chars("lang", 1, LETTERS)
    src = '<doc><script type="%s">%s</script></doc>' % (lang, x)
    engine = CodeEngine({}, "[", [])
    out = render("html", src, {}, engine, tal=0)
    ctx.observe("out", out)
    detail = lambda: ctx.value([src, out, engine.codes])  # noqa: E731
    ctx.check(engine.codes == [], "no code is run", detail)
    if out != src:
        ctx.check(out == "<doc><script>%s</script></doc>" % x,
                  "text kept", detail)
    ctx.check(out == src, "type kept", detail)


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        out += [
            Goal("statement-" + kind, statement(kind, 2 if t else 1,
                                                3 if t else 1),
                 "%s: one element with a script statement, language up to "
                 "%d characters, text up to %d of %d kinds, with each other "
                 "statement, around nothing, an element with content, "
                 "another such element or a loop of them" % (
                     kind, 2 if t else 1, 3 if t else 1, 11),
                 ["no code", "code", "codes"]),
            Goal("without-" + kind, without(kind),
                 "elements without content", ["end"]),
            Goal("failing-" + kind, failing(kind),
                 "%s: three nested elements, up to four runs of code each "
                 "failing or not, with and without handlers, unit, loop" %
                 kind, ["handled", "no failure",
                        "failure reaches the caller"]),
            Goal("ordinary-" + kind, ordinary(kind, 4 if t else 2),
                 "%s: types of %d beginnings and up to %d characters" % (
                     kind, len(STARTS), 4 if t else 2),
                 ["script", "style", "w", "scripts"]),
            Goal("macros-" + kind, macros(kind),
                 "%s: one macro, up to one slot and filler" % kind,
                 ["macro", "slot", "filler", "use", "in macro", "in slot",
                  "in filler", "extend", "one"]),
            Goal("off-" + kind, off(kind),
                 "%s: two nested elements with script statements" % kind,
                 ["end"]),
        ]
    out += [
        Goal("element", element(2 if t else 1, 2 if t else 1),
             "HTML script elements with %d kinds of content, up to %d "
             "characters of type and content, each other statement" % (
                 len(RAW), 2 if t else 1), ["no code", "code", "codes"]),
        Goal("attrs", attrs, "up to three other attributes",
             ["server", "other"]),
        Goal("names", names, "case of names, two elements", ["end"]),
        Goal("off-element", off_element, "one script element", []),
    ]
    return out + more("C24", t)
