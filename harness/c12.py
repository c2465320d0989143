"""Wrapping of long tags only changes white space between attributes."""
from harness.common import *  # noqa: F401,F403

LINES = charset.of_chars("ab&<\n")


class Tag:
    """A start tag that may be wrapped."""

    def __init__(self, name, attrs, end=">"):
        self.name = name
        self.attrs = attrs
        self.end = end


def column(col, text):
    for c in text:
        col = 0 if c == "\n" else col + 1
    return col


def lay(tokens, wrap):
    """The text of the tokens."""
    out = []
    col = 0
    for t in tokens:
        if not isinstance(t, Tag):
            out.append(t)
            i = t.rfind("\n")
            col = col + len(t) if i < 0 else len(t) - i - 1
            continue
        out.append("<" + t.name)
        col = col + 1 + len(t.name)
        indent = col + 1
        if 2 * indent >= wrap:
            indent = 4
        for a in t.attrs:
            if wrap and col >= indent and col + 1 + len(a) > wrap:
                out.append("\n" + " " * indent + a)
                col = indent + len(a)
            else:
                out.append(" " + a)
                col = col + 1 + len(a)
        out.append(t.end)
        col = col + len(t.end)
    return "".join(out)


class Engine2(Engine):
    """Translations are longer than what they translate."""

    def translate(self, msgid, domain=None, mapping=None, default=None):
        return "long translation"

    def evaluateCode(self, lang, code):
        return "code\noutput" if lang == "text/server-x" else "out"


# what is written before the tag: source, tokens.  The source and tokens may
# use the text v and its escaped form q.
def before(ctx, kind, name, v):
    q = esc_text(v)
    if name == "text":
        return "t" + q, ["t" + q]
    if name == "static":
        return '<i k="a b">' + q + "</i>", ['<i k="a b">' + q + "</i>"]
    if name == "content":
        return '<i tal:content="v">x</i>', [Tag("i", []), q + "</i>"]
    if name == "replace":
        return '<i tal:replace="v">xyz</i>', [q]
    if name == "structure":
        return ('<i tal:replace="structure v">\nxyz</i>', [v])
    if name == "default":
        return ('<i tal:content="dflt">\nx' + q + "</i>",
                [Tag("i", []), "\nx" + q + "</i>"])
    if name == "nothing":
        return '<i tal:content="nil">\nxy</i>', [Tag("i", []), "</i>"]
    if name == "omitted":
        return ('<i tal:omit-tag="" tal:attributes="k one">' + q + "</i>",
                [q])
    if name == "kept":
        return ('<i tal:omit-tag="no" k="1">' + q + "</i>",
                [Tag("i", ['k="1"']), q + "</i>"])
    if name == "attributes":
        return ('<i tal:attributes="k one; j one">' + q + "</i>",
                [Tag("i", ['j="one"', 'k="one"']), q + "</i>"])
    if name == "failed":
        return ('<i tal:on-error="v" k="1">abc\nd<u tal:content="bad"/></i>',
                [Tag("i", ['k="1"']), q + "</i>"])
    if name == "guarded":
        return ('<i tal:on-error="one" k="1">' + q + '\nab</i>',
                [Tag("i", ['k="1"']), q + "\nab</i>"])
    if name == "unit":
        return ('<i i18n:translate="">abc\n' + q + "</i>",
                [Tag("i", []), "long translation</i>"])
    if name == "translated":
        return ('<i tal:content="v" i18n:translate="">x</i>',
                [Tag("i", []), "long translation</i>"])
    if name == "skipped":
        return '<i tal:condition="no">abc</i>' + q, [q]
    if name == "scope":
        return ('<i tal:define="a v">\n' + q + '</i>\n<u tal:define="b v">a'
                "</u>",
                [Tag("i", []), "\n" + q + "</i>\n", Tag("u", []), "a</u>"])
    if name == "loop":
        return ('<i tal:repeat="r s">' + q + "</i>",
                [Tag("i", []), q + "</i>"] * 2)
    if name == "macro":
        return ('<i metal:use-macro="m">\nx<u metal:fill-slot="s">' + q +
                "</u></i>", [Tag("b", []), Tag("u", []), q + "</u>y</b>"])
    if name == "code":
        return ('<i tal:script="text/server-x">abc' + q + "</i>",
                [Tag("i", []), "code\noutput</i>"])
    if name == "code-lines":
        return ('<i tal:script="text/server-y">' + q + "\nbc</i>",
                [Tag("i", []), "out</i>"])
    if name == "empty":
        return ('<br j="2" tal:attributes="k one"/>' + q,
                [Tag("br", ['j="2"', 'k="one"'], " />"), q])
    if name == "bare":
        return ('<br tal:omit-tag="no"/><br tal:define="a v"/>' + q,
                [Tag("br", [], " />"), Tag("br", [], " />"), q])
    if name == "void":
        if kind == "xml":
            return ('<i tal:attributes="k one"></i>' + q,
                    [Tag("i", ['k="one"'], " />"), q])
        return ('<br tal:attributes="k one"><hr tal:repeat="r s">' + q,
                [Tag("br", ['k="one"']), Tag("hr", []), Tag("hr", []), q])
    if name == "inserted":
        return ('<i tal:replace="structure u" tal:attributes="k one">\nxyz'
                "</i>" + q, [Tag("u", ['j="2"', 'k="one"']), "a\nb</u>", q])
    raise KeyError(name)


NAMES = ["text", "static", "content", "replace", "structure", "default",
         "nothing", "omitted", "kept", "attributes", "failed", "guarded",
         "unit", "translated", "skipped", "scope", "loop", "macro", "code",
         "code-lines", "empty", "bare", "void", "inserted"]
MACRO = ('<tal:x condition="no"><b metal:define-macro="m">'
         '<s metal:define-slot="s">\nx</s>y</b></tal:x>')


# the tag that may be wrapped: source, its name and attributes
FORMS = {
    "computed": ('<p a="12" tal:attributes="k w; j one">x</p>',
                 lambda w: [Tag("p", ['a="12"', 'j="one"', 'k="' + w + '"']),
                            "x</p>"]),
    "literal": ('<p a="12" tal:condition="yes" b c="345">x</p>',
                lambda w: [Tag("p", ['a="12"', "b", 'c="345"']), "x</p>"]),
    "static": ('<p a="12" c="345678901234567890">x</p>',
               lambda w: ['<p a="12" c="345678901234567890">x</p>']),
    "failed": ('<p a="12" c="345" tal:on-error="one" tal:content="bad">'
               "x</p>",
               lambda w: [Tag("p", ['a="12"', 'c="345"']), "one</p>"]),
    "empty": ('<br a="12" tal:attributes="k w"/>',
              lambda w: [Tag("br", ['a="12"', 'k="' + w + '"'], " />"),
                         "x"]),
    "loop": ('.<p a="12" tal:repeat="r s" tal:attributes="k r">x</p>',
             lambda w: [".", Tag("p", ['a="12"', 'k="1"']), "x</p>",
                        Tag("p", ['a="12"', 'k="2"']), "x</p>"]),
    "none": ('<p a="12" tal:attributes="a nil; b dflt; k w">x</p>',
             lambda w: [Tag("p", ['k="' + w + '"']), "x</p>"]),
    "inside": ('<p a="1"><u b="2" tal:attributes="k w; j one">x</u></p>',
               lambda w: ['<p a="1">', Tag("u", ['b="2"', 'j="one"',
                                                 'k="' + w + '"']),
                          "x</u></p>"]),
    "unit": ('<p i18n:translate="id"><u a="1" tal:attributes="k w">x</u></p>',
             lambda w: [Tag("p", []), "long translation</p>",
                        Tag("s", ['a="1"', 'k="1"']), "</s>"]),
    "macro": ('<p a="12" metal:define-macro="mm" c="345" d="6">x</p>',
              lambda w: [Tag("p", ['a="12"', 'c="345"', 'd="6"']), "x</p>"]),
}
TAIL = {"empty": "x", "unit": '<s a="1" tal:attributes="k n"/>'}


def one(ctx, kind, first, v, form, w, wrap, label="output"):
    src, tokens = before(ctx, kind, first, v)
    tag, toks = FORMS[form]
    tokens = tokens + toks(w)
    head = "<doc" + (NS if kind == "xml" else "") + ">"
    text = head + src + tag + TAIL.get(form, "") + MACRO + "</doc>"
    if kind == "xml":
        tokens = [Tag("doc", [])] + tokens + ["</doc>"]
        for t in tokens:
            if isinstance(t, Tag) and t.end == " />":
                t.end = "/>"
        if form == "literal":
            text = text.replace('" b c', '" b="" c')
            tokens = [Tag(t.name, [a if a != "b" else 'b=""'
                                   for a in t.attrs], t.end)
                      if isinstance(t, Tag) else t for t in tokens]
        if form == "unit":
            tokens[-3:-1] = [Tag("s", ['a="1"', 'k="1"'], "/>")]
    else:
        tokens = ["<doc>"] + tokens + ["</doc>"]
        if form == "unit":
            tokens[-3:-1] = [Tag("s", ['a="1"', 'k="1"'], " />")]
    values = {"v": v, "w": w, "one": "one", "nil": None, "dflt": DEFAULT,
              "no": False, "yes": True, "bad": Raise(), "s": ["1", "2"],
              "n": "1", "u": '<u j="2">a\nb</u>'}
    engine = Engine2(values)
    out = render(kind, text, values, engine, wrap=wrap, strictinsert=0)
    want = lay(tokens, wrap)
    ctx.observe("out", out)
    ctx.check(out == want, label,
              lambda: ctx.value([text, wrap, out, want]))
    plain = lay(tokens, 0)
    if want != plain:
        ctx.cover("wrapped")
    else:
        ctx.cover("not wrapped")


def after(kind, names, forms, n, widths):
    """What is written before decides the column."""
    def fn(ctx):
        first = ctx.pick("first", names)
        form = ctx.pick("form", forms)
        v = ctx.text("v", n, LINES, minlen=1)
        wrap = ctx.int("wrap", 0, widths)
        one(ctx, kind, first, v, form, "1", wrap)
    return fn


# with the statements shown: what is written before, source and tokens
def shown_before(name, q):
    if name == "element":
        return ('<tal:block define="a v">' + q + "</tal:block>",
                [Tag("tal:block", ['define="a v"']), q + "</tal:block>"])
    if name == "filled":
        return ('<metal:x tal:content="v" />',
                [Tag("metal:x", ['tal:content="v"']), q + "</metal:x>"])
    if name == "replaced":
        return '<tal:x replace="v">ab</tal:x>', [q]
    if name == "none":
        return ('<tal:x i18n:domain="d">\n' + q + "</tal:x>",
                [Tag("tal:x", ['i18n:domain="d"']), "\n" + q + "</tal:x>"])
    if name == "kept":
        return ('<tal:x omit-tag="no">' + q + "</tal:x>",
                [Tag("tal:x", ['omit-tag="no"']), q + "</tal:x>"])
    if name == "omitted":
        return ('<i j="1" tal:omit-tag="">' + q + "</i>", [q])
    if name == "loop":
        return ('<tal:x repeat="r s">' + q + "</tal:x>",
                [Tag("tal:x", ['repeat="r s"']), q + "</tal:x>"] * 2)
    if name == "skipped":
        return '<tal:x condition="no">abc</tal:x>' + q, [q]
    if name == "failed":
        return ('<i tal:on-error="v" k="1">abc\nd<u tal:content="bad"/></i>',
                [Tag("i", ['tal:on-error="v"', 'k="1"']), q + "</i>"])
    if name == "unit":
        return ('<tal:x i18n:translate="">abc\n' + q + "</tal:x>",
                [Tag("tal:x", ['i18n:translate=""']),
                 "long translation</tal:x>"])
    if name == "attributes":
        return ('<i k="2" tal:attributes="k one; j one">' + q + "</i>",
                [Tag("i", ['k="one"', 'tal:attributes="k one; j one"',
                           'j="one"']), q + "</i>"])
    raise KeyError(name)


SHOWN = ("element", "filled", "replaced", "none", "kept", "omitted", "loop",
         "skipped", "failed", "unit", "attributes")


def shown(kind, n, widths):
    """The same with statements shown."""
    def fn(ctx):
        v = ctx.text("v", n, LINES, minlen=1)
        wrap = ctx.int("wrap", 0, widths)
        src, tokens = shown_before(ctx.pick("first", SHOWN), esc_text(v))
        last = '<p a="12" tal:condition="yes" tal:attributes="k one" c="3">'
        head = "<doc" + (NS if kind == "xml" else "") + ">"
        src = head + src + last + "x</p></doc>"
        tokens = tokens + [Tag("p", [
            'a="12"', 'tal:condition="yes"', 'tal:attributes="k one"',
            'c="3"', 'k="one"']), "x</p></doc>"]
        if kind == "xml":
            tokens.insert(0, Tag("doc", NS.split()))
        else:
            tokens.insert(0, "<doc>")
        engine = Engine2({"v": v, "one": "one", "no": False, "yes": True,
                          "bad": Raise(), "s": ["1", "2"]})
        out = render(kind, src, None, engine, wrap=wrap, showtal=1)
        want = lay(tokens, wrap)
        ctx.observe("out", out)
        ctx.check(out == want, "output",
                  lambda: ctx.value([src, wrap, out, want]))
        ctx.cover("wrapped" if want != lay(tokens, 0) else "not wrapped")
    return fn


#: elements with statements: attributes, contents
OFF = (('a="1"', 'tal:content="v"'), ('tal:repeat="r s"', 'b="22"', 'c="3"'),
       ('a="1"', 'tal:attributes="a v; k v"', 'tal:omit-tag="v"'),
       ('a="12"', 'tal:on-error="v"'), ('a="1"', 'metal:define-macro="%s"'),
       ('i18n:domain="d"', 'tal:define="x v"'), ("d='1'",))


def off(kind, n, widths, count):
    """With the statements switched off the source is laid out again."""
    def fn(ctx):
        v = ctx.text("v", n, LINES, minlen=1)
        wrap = ctx.int("wrap", 0, widths)
        q = esc_text(v)
        gap = ctx.pick("gap", ("", "\n") if count < 2 else
                       ("", "\n", "a\n b"))
        hide = ctx.flag("hide")
        inside = ctx.flag("inside")
        attrs = [list(ctx.pick("e%d" % i, OFF)) for i in range(count)]
        attrs.append(['a="1"', 'tal:condition="yes"', 'c="345"'])
        src = ["<doc" + (NS if kind == "xml" else "") + ">"]
        tokens = ["<doc>"]
        if kind == "xml":
            tokens = [Tag("doc", [] if hide else NS.split())]
        ends = []
        for i, a in enumerate(attrs):
            name = "em"[i % 2]
            a = [x.replace("%s", "m%d" % i) for x in a]
            src.append("<" + " ".join([name] + a) + ">")
            kept = [x for x in a if not hide or ":" not in x]
            if a == ["d='1'"]:
                tokens.append("<" + name + ' d="1">')
            else:
                tokens.append(Tag(name, kept))
            end = "</" + name + ">" + gap
            if inside:
                ends.insert(0, end)
                end = ""
            for x in (src, tokens):
                x.append(q)
                x.append(end or gap)
        for x in (src, tokens):
            x += ends + ["</doc>"]
        src = "".join(src)
        out = render(kind, src, None, Engine2({}), wrap=wrap, tal=0,
                     showtal=0 if hide else -1)
        want = lay(tokens, wrap)
        ctx.observe("out", out)
        ctx.check(out == want, "output",
                  lambda: ctx.value([src, wrap, out, want]))
        ctx.cover("wrapped" if want != lay(tokens, 0) else "not wrapped")
    return fn


def lengths(kind, longest, widths):
    """Attributes and text of every length."""
    def fn(ctx):
        form = ctx.pick("form", ("computed", "none", "empty"))
        w = ctx.atom("w", ["w" * i for i in range(longest + 1)])
        wrap = ctx.int("wrap", 0, widths)
        one(ctx, kind, "text", "abc", form, w, wrap)
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    both = ["wrapped", "not wrapped"]
    for kind in ("html", "xml"):
        w = 10000
        out += [
            Goal("after-" + kind, after(
                kind, NAMES, list(FORMS) if t else ["computed", "literal"],
                2, w),
                "text of up to 2 characters, wrap column 0 to %d" % w, both),
            Goal("forms-" + kind, after(kind, ["text", "attributes"],
                                        list(FORMS), 3 if t else 2, w),
                 "every kind of tag, wrap column 0 to %d" % w, both),
            Goal("shown-" + kind, shown(kind, 2 if t else 1, w),
                 "statements shown, wrap column 0 to %d" % w, both),
            Goal("off-" + kind, off(kind, 1, w, 2 if t else 1),
                 "statements switched off, wrap column 0 to %d" % w, both),
            Goal("lengths-" + kind, lengths(kind, 40 if t else 16, w),
                 "values of up to %d characters, wrap column 0 to %d"
                 % (40 if t else 16, w), both),
        ]
    return out
