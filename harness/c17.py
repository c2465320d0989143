"""Inserted structure is never executed and always well nested."""
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import Ref

FAMILY = ("tal:", "metal:", "i18n:")
PLAIN = charset.ANY - charset.of_chars("<&\r")


class Rec(Engine):
    """Notes also the code it is given to carry out."""

    def evaluateCode(self, lang, code):
        self.log.append("code")
        return "CODE"


class F:
    """An element of inserted markup."""

    def __init__(self, tag, attrs=(), kids=(), form="pair"):
        self.tag = tag
        self.attrs = list(attrs)
        self.kids = list(kids)
        self.form = form


def src_of(n, kind):
    if not isinstance(n, F):
        return n
    out = "<" + n.tag
    for k, v in n.attrs:
        out = out + " " + k + "=" + "'" + v + "'"
    if n.form == "self":
        return out + "/>"
    out = out + ">"
    for kid in n.kids:
        out = out + src_of(kid, kind)
    if n.form == "void":
        return out
    return out + "</" + n.tag + ">"


def is_statement(tag, name):
    return name.startswith(FAMILY) or \
        (name.startswith("xmlns:") and name[6:] + ":" in FAMILY) or \
        (tag.startswith(FAMILY) and ":" not in name)


class Writer:
    """What comes out: the markup, without any statement attributes."""

    def __init__(self, ref, kind, comp, xlat):
        self.ref = ref
        self.kind = kind
        self.todo = (comp, xlat) if comp or xlat else None

    def write(self, n):
        if not isinstance(n, F):
            return n
        attrs = [(k, v) for k, v in n.attrs if not is_statement(n.tag, k)]
        if self.todo:
            comp, xlat = self.todo
            self.todo = None
            attrs = self.ref.attributes(
                E(n.tag, attrs=attrs, attributes=comp,
                  i18n_attributes=xlat))
        e = E(n.tag)
        closed = n.form == "self" or (self.kind == "xml" and not n.kids)
        out = self.ref.tag(e, attrs, closed)
        if closed or n.form == "void":
            return out
        for kid in n.kids:
            out = out + self.write(kid)
        return out + "</" + n.tag + ">"


DECL = [("xmlns:" + f, "http://xml.zope.org/namespaces/" + f)
        for f in ("tal", "metal", "i18n")]

STATEMENTS = (
    [("tal:content", "w")], [("tal:replace", "w")],
    [("tal:condition", "no")], [("tal:repeat", "r w")],
    [("tal:define", "v w"), ("k", "1")], [("tal:omit-tag", "")],
    [("tal:attributes", "k w; j w"), ("k", "1")],
    [("tal:on-error", "w"), ("tal:content", "bad")],
    [("metal:use-macro", "m")], [("metal:define-macro", "z")],
    [("metal:define-slot", "s")], [("metal:fill-slot", "s")],
    [("metal:extend-macro", "m")],
    [("i18n:translate", "")], [("i18n:name", "n")],
    [("i18n:domain", "d")], [("k", "1"), ("i18n:attributes", "k")],
    [("tal:unknown", "w")], [("tal:content", "")],
)


def frame(ctx, kind, how, strict, twice, value, comp, xlat, frag, error):
    """Insert the text, and compare with what is expected.

    frag: the fragment as a list of nodes, None if it must be rejected;
    error: whether it is rejected
    """
    w = "W<"
    values = {"v": value, "w": w, "s": ["1", "2"], "h": "H", "no": "",
              "bad": Raise(), "ok": "ok"}
    e = {"content": "<b tal:content='structure v'>x</b>",
         "replace": "<b tal:replace='structure v'>x</b>",
         "unit": "<b i18n:translate='' tal:content='structure v'>x</b>",
         "handler": "<b tal:on-error='structure v' tal:content='bad'>"
                    "x</b>"}[how]
    if comp or xlat:
        a = ""
        if comp:
            a = " tal:attributes='" + "; ".join(
                [n + " " + x for n, x in comp]) + "'"
        if xlat:
            a = a + " i18n:attributes='" + "; ".join(
                [n for n, m in xlat]) + "'"
        e = "<b" + a + e[2:]
    if error:
        e = "<g tal:on-error='h'>[" + e + "]</g>"
    if twice:
        e = "<tal:x repeat='r s'>" + e + "</tal:x>"
    doc = "<doc%s>" % (NS if kind == "xml" else "")
    src = doc + inside(kind, e) + "<z tal:content='w'>.</z></doc>"
    engine = Rec(values)
    program, macros = compile_(
        kind, doc + "<m metal:define-macro='m'>MACRO</m></doc>", engine)
    engine.macros = macros
    program, own = compile_(kind, src, engine)
    ctx.observe("src", src)
    for again in range(2):
        engine.log = []
        engine.messages = []
        ref = Ref(kind, values)
        out = run(program, own, engine, strictinsert=strict)
        ctx.observe("out%d" % again, out)
        one = ""
        for i in range(2 if twice else 1):
            if how == "handler":
                ref.log.append("bad")
            ref.log.append("v")
            if how == "unit":
                ref.messages.append((value, "default", {}, value))
            if error:
                ref.log.append("h")
                one = one + "<g>H</g>"
                continue
            if strict or comp or xlat:
                writer = Writer(ref, kind, comp, xlat)
                text = ""
                for n in frag:
                    text = text + writer.write(n)
            else:
                text = value
            if how != "replace":
                text = "<b>" + text + "</b>"
            one = one + text
        want = "<doc>" + written_inside(kind, one) + "<z>W&lt;</z></doc>"
        log = [x for x in ref.log]
        log.append("w")
        if twice:
            log.insert(0, "s")
        detail = lambda: ctx.value([src, value, out, want,  # noqa
                                    engine.log, log, engine.messages])
        ctx.check(out == want, "output", detail)
        ctx.check(engine.log == log, "evaluations", detail)
        ctx.check(engine.messages == ref.messages, "messages", detail)
        ctx.check(engine.stack == [], "scopes", detail)


def text(ctx, kind, name, n, dom):
    return ctx.text(name, n, dom & XML if kind == "xml" else dom)


HOW = ("content", "replace", "handler", "unit")


def exact(kind, n):
    """Without strict insertion: the text as it is."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, ANY)
        v = ctx.pick("around", ("", "<i>", "</i>", "<b tal:content='w'>",
                                "<script type='text/server-x'>")) + t
        frame(ctx, kind, ctx.pick("how", HOW), 0, ctx.flag("twice"), v,
              [], [], [], False)
        ctx.cover("exact")
    return fn


def statements(kind, n):
    """Statements in the inserted markup."""
    def fn(ctx):
        t = text(ctx, kind, "t", n, PLAIN - charset.of_chars("]"))
        where = ctx.pick("where", ("first", "second", "inside", "element"))
        st = list(ctx.pick("st", STATEMENTS))
        e = F("i", st, ["x", t], "pair")
        if where == "element":
            fam, name = st[0][0].split(":") if ":" in st[0][0] else \
                ("tal", "content")
            e = F(fam + ":block", [(name, "w")], ["x", t])
        if where == "second":
            frag = [F("u", [], ["y"]), t, e]
        elif where == "inside":
            frag = [F("u", [("l", "1")], ["y", e, "z"])]
        else:
            frag = [e, F("u", [], ["y"])]
        how = ctx.pick("how", HOW + ("attributes",))
        comp = []
        if how == "attributes":
            # computed for the replaced element
            how = "replace"
            comp = [("q", "w")]
        if kind == "xml":
            if comp and where == "first":
                e.attrs = DECL + st
            else:
                frag = [F("c", DECL, frag)]
        value = "".join([src_of(x, kind) for x in frag])
        strict = ctx.pick("strict", (1, 0))
        frame(ctx, kind, how, strict, False, value, comp, [], frag, False)
        ctx.cover(where)
    return fn


def server_code(ctx):
    """Server-side code in the inserted markup (HTML)."""
    lang = ctx.pick("lang", ("text/server-python", "text/server-x",
                             "text/javascript", "text/server"))
    code = ctx.text("code", 1, LETTERS)
    value = '<script type="%s">' % lang + code + "</script>"
    inside = ctx.flag("inside")
    if inside:
        value = "<i>" + value + "</i>"
    engine = Rec({"v": value})
    src = "<a><b tal:content='structure v'>x</b></a>"
    strict = ctx.pick("strict", (1, 0))
    program, own = compile_html(src, engine)
    out = run(program, own, engine, strictinsert=strict)
    want = value
    if strict and lang.startswith("text/server-"):
        # the type is left out, so that nothing takes it for a script to
        # be carried out
        want = want.replace(' type="%s"' % lang, "")
    want = "<a><b>" + want + "</b></a>"
    detail = lambda: ctx.value([value, out, want, engine.log])  # noqa: E731
    ctx.check(engine.log == ["v"], "code carried out", detail)
    ctx.check(out == want, "output", detail)
    ctx.cover("server" if lang.startswith("text/server-") else "other")


def first(kind, n, many):
    """Attributes of the replaced element go to the first element."""
    def fn(ctx):
        comp = ctx.pick("comp", ([("k", "w")], [("z", "w"), ("a", "w")],
                                 [("k", "none")], [("k", "dflt")],
                                 [("q", "dflt"), ("k", "t")], []))
        xlat = ctx.pick("xlat", ([], [("k", None)]))
        ctx.assume(comp or xlat)
        t = text(ctx, kind, "t", n, ANY - charset.of_chars("\r\n\t\0"))
        # translating an attribute that is not there is another matter
        have = [("j", "1"), ("k", "2")] if xlat else \
            ctx.pick("have", ([], [("k", "2")], [("j", "1"), ("k", "2")],
                              [("tal:condition", "no"), ("k", "2")]
                              if kind == "html" else [("z", "9")]))
        form = ctx.pick("form", ("pair", "self", "void") if kind == "html"
                        else ("pair", "self"))
        tag = "hr" if form == "void" else "i"
        kids = [] if form != "pair" else \
            ctx.pick("kids", (["x"], [F("u", [("k", "3")], ["y"])]))
        frag = ctx.pick("before", ([], ["t "])) + [F(tag, have, kids, form)]
        frag += ctx.pick("after", ([], ["s"], [F("i", [("k", "4")], ["."])]))
        value = "".join([src_of(x, kind) for x in frag])
        strict = ctx.pick("strict", (1, 0))
        unit = ctx.flag("unit")
        twice = not unit and ctx.flag("twice")
        w = {"w": "W", "none": None, "dflt": DEFAULT, "t": t}
        frame2(ctx, kind, strict, twice, value, comp, xlat, frag, w, unit)
        ctx.cover("comp" if comp else "xlat")
    return fn


def frame2(ctx, kind, strict, twice, value, comp, xlat, frag, values,
           unit=False):
    """Replace an element that has attributes."""
    values = dict(values, v=value, s=["1", "2"])
    a = ""
    if comp:
        a = " tal:attributes='" + "; ".join(
            [n + " " + x for n, x in comp]) + "'"
    if xlat:
        a = a + " i18n:attributes='" + "; ".join([n for n, m in xlat]) + "'"
    doc = "<doc%s>" % (NS if kind == "xml" else "")
    e = "<b" + a + " tal:replace='structure v'>x</b>"
    if unit:
        e = "<b i18n:translate=''" + e[2:]
    if twice:
        e = "<tal:x repeat='r s'>" + e + "</tal:x>"
    src = doc + inside(kind, e) + "</doc>"
    engine = Rec(values)
    program, own = compile_(kind, src, engine)
    ctx.observe("src", src)
    for again in range(2):
        engine.log = []
        engine.messages = []
        ref = Ref(kind, values)
        out = run(program, own, engine, strictinsert=strict)
        ctx.observe("out%d" % again, out)
        if twice:
            ref.log.append("s")
        one = ""
        for i in range(2 if twice else 1):
            ref.log.append("v")
            if unit:
                ref.messages.append((value, "default", {}, value))
            writer = Writer(ref, kind, comp, xlat)
            for n in frag:
                one = one + writer.write(n)
        want = "<doc>" + written_inside(kind, one) + "</doc>"
        detail = lambda: ctx.value([src, value, out, want,  # noqa
                                    engine.log, ref.log, engine.messages])
        ctx.check(out == want, "output", detail)
        ctx.check(engine.log == ref.log, "evaluations", detail)
        ctx.check(engine.messages == ref.messages, "messages", detail)
        ctx.check(engine.stack == [], "scopes", detail)


def several(kind, n):
    """Insertions one after the other, of the same or of other markup."""
    def fn(ctx):
        x = text(ctx, kind, "x", 1, LETTERS)
        frags = {"v": [F("i", [("k", "2")], ["x" + x])],
                 "u": ctx.pick("u", ([F("i", [("k", "2")], ["x" + x])],
                                     [F("u", [], ["y" + x]), "z"], ["z" + x]))}
        values = {n: "".join([src_of(f, kind) for f in frag])
                  for n, frag in frags.items()}
        values["w"] = "W" + x
        strict = ctx.pick("strict", (1, 0))
        ref = Ref(kind, values)
        src = want = ""
        for i in range(n):
            expr = ctx.pick("expr%d" % i, ("v", "u")) if i else "v"
            how = ctx.pick("how%d" % i, ("content", "replace"))
            comp = ctx.pick("comp%d" % i, ([], [("k", "w")], [("j", "w")])) \
                if how == "replace" else []
            ref.log.append(expr)
            writer = Writer(ref, kind, comp, [])
            out = "".join([writer.write(n) for n in frags[expr]])
            if not (strict or comp):
                out = values[expr]
            a = ""
            if comp:
                a = " tal:attributes='%s %s'" % comp[0]
            src = src + "<b%s tal:%s='structure %s'>x</b>" % (a, how, expr)
            want = want + (out if how == "replace" else "<b>" + out + "</b>")
        doc = "<doc%s>" % (NS if kind == "xml" else "")
        src = doc + src + "</doc>"
        want = "<doc>" + want + "</doc>"
        engine = Rec(values)
        program, own = compile_(kind, src, engine)
        out = run(program, own, engine, strictinsert=strict)
        ctx.observe("out", out)
        detail = lambda: ctx.value([src, values, out, want,  # noqa
                                    engine.log, ref.log])
        ctx.check(out == want, "output", detail)
        ctx.check(engine.log == ref.log, "evaluations", detail)
        ctx.cover("several")
    return fn


TOKENS = ("x", "<i>", "</i>", "<u k='1'>", "</u>", "<hr/>")


def parse(tokens, kind):
    """The tree that the tags make, or None."""
    root = F("")
    stack = [root]
    for tok in tokens:
        if tok == "x":
            stack[-1].kids.append(tok)
        elif tok == "<hr/>":
            stack[-1].kids.append(F("hr", [], [], "self"))
        elif tok.startswith("</"):
            tag = tok[2:-1]
            names = [n.tag for n in stack[1:]]
            if tag not in names:
                return None
            if kind == "xml" and names[-1] != tag:
                return None
            while stack.pop().tag != tag:
                pass
        else:
            e = F(tok[1], [("k", "1")] if "k" in tok else [])
            stack[-1].kids.append(e)
            stack.append(e)
    if kind == "xml" and len(stack) > 1:
        return None
    return root.kids


def tags(kind, n):
    """Tags in any order."""
    def fn(ctx):
        tokens = []
        for i in range(n):
            k = ctx.choose("t%d" % i, len(TOKENS) + 1)
            if not k:
                break
            tokens.append(TOKENS[k - 1])
        frag = parse(tokens, kind)
        value = "".join(tokens)
        strict = ctx.pick("strict", (1, 0))
        how = ctx.pick("how", ("content", "replace"))
        # computed attributes: always parsed
        comp = []
        if how == "replace" and ctx.flag("comp"):
            comp = [("k", "w")]
        parsed = strict or comp
        frame(ctx, kind, how, strict, False, value, comp, [], frag,
              frag is None and parsed)
        if parsed:
            ctx.cover("rejected" if frag is None else "accepted")
    return fn


ODD = {
    "xml": ("<i", "<i k", "<i k=1>x</i>", "<i k='1>", "&amp", "a & b",
            "<!-- x", "<![CDATA[x", "<?pi", "</foo>", "<foo>", "x</foo>y",
            "</foo><foo>", "<i k='1' k='2'/>", "<", "x]]>", "<o:x/>",
            "<!DOCTYPE x>", "<i></i k='1'>"),
    "html": ("</i>", "</foo>", "x</p>", "<p></p></p>", "</hr>", "</br>",
             "<h1>x<h2>y</h2></h1>", "<li></ul></li>", "<hr></hr>",
             "<i></doc></i>", "</b>"),
}
EVEN = {
    "xml": ("]", "a[1]", "]]", "<i>x</i>]", "x\n", "<!-- <i> -->",
            "<?pi <i>?>", "<![CDATA[<i>]]>", "&lt;", "&nbsp;", "&#65;",
            "\xe9", " ", " ", "<i>x</i>\n", "a>b", "]] >"),
    "html": ("]", "a[1]", "]]", "x\n", "<!-- <i> -->", "<?pi <i?>",
             "&lt;", "&nbsp;", "&#65;", "\xe9", " ", " ", "a & b",
             "a < b", "a>b", "<!DOCTYPE x>", "<p>x</p>\n", "a &", "a <",
             "&#65", "&", "<i>x</i>&"),
}


def odd(kind):
    """Markup that is wrong in one of many ways, or nearly."""
    def fn(ctx):
        wrong = ctx.flag("wrong")
        piece = ctx.pick("piece", ODD[kind] if wrong else EVEN[kind])
        t = text(ctx, kind, "t", 1, LETTERS)
        how = ctx.pick("how", ("content", "replace"))
        frame(ctx, kind, how, 1, ctx.flag("twice"), t + piece, [], [],
              [t + piece], wrong)
        ctx.cover("wrong" if wrong else "right")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = [Goal("server-code", server_code, "code of up to one letter",
                ["server", "other"])]
    for kind in ("html", "xml"):
        out += [
            Goal("exact-" + kind, exact(kind, 3 if t else 2),
                 "text of up to %d characters" % (3 if t else 2), ["exact"]),
            Goal("statements-" + kind, statements(kind, 2 if t else 1),
                 "one statement in the inserted markup",
                 ["first", "second", "inside", "element"]),
            Goal("first-" + kind, first(kind, 1, t),
                 "values of up to one character", ["comp", "xlat"]),
            Goal("several-" + kind, several(kind, 3 if t else 2),
                 "%d insertions, one unknown letter" % (3 if t else 2), ["several"]),
            Goal("tags-" + kind, tags(kind, 6 if t else 4),
                 "up to %d tags" % (6 if t else 4),
                 ["accepted", "rejected"]),
            Goal("odd-" + kind, odd(kind), "one odd piece",
                 ["wrong", "right"]),
        ]
    return out + more("C17", t)
