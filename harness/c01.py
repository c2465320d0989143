"""Text substituted for element content is escaped."""
from harness.c04 import substitution
from harness.around import more
from harness.common import *  # noqa: F401,F403

# name: (source, output before, output after); NS is added to the first tag
PLACES = {
    "content": ('<p>A<b tal:content="v">x</b>B</p>',
                "<p>A<b>", "</b>B</p>"),
    "text-content": ('<p><b tal:content=" text  v">x</b>\n</p>',
                     "<p><b>", "</b>\n</p>"),
    "replace": ('<p>A<b tal:replace="v">x</b>B</p>', "<p>A", "B</p>"),
    "text-replace": ('<p>A<b tal:replace="text v"/>B</p>', "<p>A", "B</p>"),
    "block": ('<p>A<tal:block content="v"/>B</p>', "<p>A", "B</p>"),
    "omit": ('<p><b tal:omit-tag="" tal:content="v">x</b>B</p>',
             "<p>", "B</p>"),
    "error": ('<p>A<b a="1" tal:on-error="v" tal:content="bad">x</b>B</p>',
              '<p>A<b a="1">', "</b>B</p>"),
    "text-error": ('<p>A<b tal:on-error="text v"><i tal:content="bad"/></b>'
                   '</p>', '<p>A<b>', "</b></p>"),
    "block-error": ('<p>A<tal:b on-error="v" content="bad"/></p>',
                    '<p>A', "</p>"),
    "translated": ('<p>A<b i18n:translate="" tal:content="v">x</b></p>',
                   "<p>A<b>", "</b></p>"),
    "translated-replace": (
        '<p>A<b i18n:translate="" tal:replace="v">x</b></p>',
        "<p>A", "</p>"),
    "attributes": ('<p><b tal:attributes="a one" tal:content="v">x</b></p>',
                   '<p><b a="1">', "</b></p>"),
    "condition": ('<p><b tal:condition="one" tal:content="v">x</b></p>',
                  '<p><b>', "</b></p>"),
    "repeat": ('<p><b tal:repeat="r seq" tal:content="r">x</b>\n</p>',
               "<p><b>", "</b>\n</p>"),
    "define": ('<p><b tal:define="w v"><i tal:content="w"/></b></p>',
               "<p><b><i>", "</i></b></p>"),
    "in-handler": ('<p><b tal:on-error="one"><i tal:content="v"/></b></p>',
                   "<p><b><i>", "</i></b></p>"),
    "in-unit": ('<p i18n:translate="m">A<b tal:content="v"/></p>',
                "<p>A<b>", "</b></p>"),
    "script": ('<p tal:content="v"><b tal:content="bad"/></p>',
               "<p>", "</p>"),
    "macro": ('<p><b metal:define-macro="m" tal:content="v"/></p>',
              "<p><b>", "</b></p>"),
    "used-macro": ('<p><tal:b condition="zero"><b metal:define-macro="m" '
                   'tal:content="v"/></tal:b><i metal:use-macro="m"/></p>',
                   "<p><b>", "</b></p>"),
    "slot": ('<p><tal:b condition="zero"><b metal:define-macro="m">'
             '<u metal:define-slot="s"/></b></tal:b><i metal:use-macro="m">'
             '<s metal:fill-slot="s" tal:replace="v"/></i></p>',
             "<p><b>", "</b></p>"),
}
NAMES = sorted(PLACES)


def template(kind, name, inside=True):
    src, pre, post = PLACES[name]
    if kind == "xml" and not inside:
        src = "<p" + NS + src[2:]
    elif kind == "xml":
        # inside other elements
        src = "<doc" + NS + ">" + within(src, "one") + "</doc>"
        a, b = written_within("|").split("|")
        pre, post = "<doc>" + a + pre, post + b + "</doc>"
    return src, pre, post


def env(v):
    return {"v": v, "bad": Raise(), "one": "1", "zero": 0, "seq": [v]}


def places(n, kind, options=None):
    """Every place where text can be inserted, every text."""
    def fn(ctx):
        name = ctx.pick("place", NAMES)
        s = ctx.text("s", n)
        src, pre, post = template(kind, name, not options)
        opts = {}
        if options:
            opts["wrap"] = ctx.pick("wrap", (0, 40, 1023))
            opts["strictinsert"] = ctx.choose("strict", 2)
        out = render(kind, src, env(s), **opts)
        ctx.observe("out", out)
        ctx.check(out == pre + esc_text(s) + post, "escaped",
                  lambda: ctx.value([name, out, s]))
        ctx.cover(name)
    return fn


def long_text(n, kind, name):
    def fn(ctx):
        s = ctx.chars("s", n)
        src, pre, post = template(kind, name)
        out = render(kind, src, env(s))
        ctx.observe("out", out)
        ctx.check(out == pre + esc_text(s) + post, "escaped",
                  lambda: ctx.value([out, s]))
        ctx.cover("rendered")
    return fn


def padded(kind, sizes):
    """Long texts and many special characters."""
    def fn(ctx):
        name = ctx.pick("place", ("content", "replace", "error",
                                  "translated"))
        k = ctx.pick("size", sizes)
        pad = ctx.pick("pad", ("a", "&", "<", "a>", " \n"))
        s = pad * k + ctx.chars("s", 1)
        if ctx.flag("both"):
            s = s + pad * k
        src, pre, post = template(kind, name)
        out = render(kind, src, env(s))
        ctx.observe("out", out)
        ctx.check(out == pre + esc_text(s) + post, "escaped",
                  lambda: ctx.value([name, k, pad, out]))
        ctx.cover("rendered")
    return fn


def message(n, kind):
    """A message object whose translation has any characters."""
    def fn(ctx):
        name = ctx.pick("place", NAMES)
        tr = ctx.text("t", n)
        default = ctx.pick("default", (None, "D<"))
        msg = Message("id<", "dom", default)

        class Engine2(Engine):
            def translate(self, msgid, domain=None, mapping=None,
                          default=None):
                if msgid == "m":
                    # the unit around it
                    return default
                self.messages.append((msgid, default))
                return tr

        src, pre, post = template(kind, name)
        values = env(msg)
        engine = Engine2(values)
        out = render(kind, src, values, engine)
        ctx.observe("out", out)
        ctx.check(out == pre + esc_text(tr) + post, "escaped",
                  lambda: ctx.value([name, out, tr]))
        ctx.check(len(engine.messages) == 1, "translated once")
        ctx.check(engine.messages[0][0] == "id<"
                  and engine.messages[0][1] == default, "message passed on")
        ctx.cover(name)
    return fn


def structure(n, kind):
    """With the structure keyword nothing is escaped."""
    def fn(ctx):
        name = ctx.pick("place", ("content", "replace", "error"))
        s = ctx.text("s", n)
        src, pre, post = template(kind, name)
        src = src.replace('="v"', '="structure v"')
        out = render(kind, src, env(s), strictinsert=0)
        ctx.observe("out", out)
        ctx.check(out == pre + s + post, "verbatim",
                  lambda: ctx.value([name, out, s]))
        ctx.cover(name)
    return fn


def special(kind):
    """None, the default value, numbers and other objects."""
    class Obj:
        def __str__(self):
            return "<&>"

    def fn(ctx):
        name = ctx.pick("place", [n for n in NAMES if n not in (
            "in-handler",)])
        what = ctx.pick("what", ("none", "default", "int", "obj", "empty"))
        src, pre, post = template(kind, name)
        v = {"none": None, "default": DEFAULT, "int": 42, "obj": Obj(),
             "empty": ""}[what]
        text = {"none": "", "default": "", "int": "42",
                "obj": "&lt;&amp;&gt;", "empty": ""}[what]
        if what == "default" and name not in (
                "error", "text-error", "block-error", "block",
                "text-replace", "in-unit", "macro", "used-macro", "slot",
                "define"):
            # the content of the template stays
            text = "<b>" if name == "script" else "x"
        if name == "script" and what == "default":
            return
        out = render(kind, src, env(v))
        ctx.observe("out", out)
        ctx.check(out == pre + text + post, "value " + what,
                  lambda: ctx.value([name, out]))
        ctx.cover(what)
    return fn


def keyword(n, kind):
    """Only the word structure, followed by white space, is the keyword."""
    def fn(ctx):
        stmt = ctx.pick("stmt", ("content", "replace", "on-error"))
        arg = ctx.pick("word", WORDS) + ctx.text("a", n, DOMAIN[kind]) + "v"
        key, expr = substitution(arg)
        engine = Fixed({})
        src = "<p" + (NS if kind == "xml" else "") + "><b tal:" + stmt + \
            '="' + attr_src(arg, kind) + '"'
        if stmt == "on-error":
            src = src + ' tal:condition="bad"'
        out = render(kind, src + ">x</b></p>", {}, engine, strictinsert=0)
        text = "<&>" if key == "structure" else "&lt;&amp;&gt;"
        if stmt != "replace":
            text = "<b>" + text + "</b>"
        ctx.observe("out", out)
        ctx.check(out == "<p>" + text + "</p>", "keyword",
                  lambda: ctx.value([src, out]))
        ctx.check(engine.log[-1] == expr, "expression",
                  lambda: ctx.value([src, engine.log]))
        ctx.cover(key)
    return fn


WORDS = ("structure", "text", "structur", "Structure", "xstructure", "")
DOMAIN = {"html": charset.ANY - charset.of_chars("\0"), "xml": XML}


class Fixed(Engine):
    """Every expression gives the same text, except one that fails."""

    def lookup(self, text):
        if text == "bad":
            return Raise()
        return "<&>"


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        out.append(Goal("places-" + kind, places(4 if t else 3, kind),
                        "%d places, texts up to %d characters"
                        % (len(NAMES), 4 if t else 3), NAMES))
        out.append(Goal("padded-" + kind,
                        padded(kind, (8, 70, 600) if t else (8, 70)),
                        "texts up to %d characters, one of them arbitrary"
                        % (1200 if t else 140), ("rendered",)))
        out.append(Goal("message-" + kind, message(3 if t else 2, kind),
                        "translations up to %d characters" % (3 if t else 2),
                        ("content", "replace", "error")))
        out.append(Goal("structure-" + kind, structure(3 if t else 2, kind),
                        "lax insertion, texts up to %d characters"
                        % (3 if t else 2), ("content", "replace", "error")))
        n = 3 if t else 2
        out.append(Goal("keyword-" + kind, keyword(n, kind),
                        "%d words followed by up to %d characters"
                        % (len(WORDS), n), ("text", "structure")))
        out.append(Goal("special-" + kind, special(kind), "",
                        ("none", "default", "int", "obj", "empty")))
        out.append(Goal("options-" + kind, places(1, kind, True),
                        "wrap 0, 40 and 1023, strict and lax insertion",
                        NAMES))
        for name in ("content", "replace", "error"):
            n = 7 if t else 5
            out.append(Goal("long-%s-%s" % (name, kind),
                            long_text(n, kind, name),
                            "texts of %d characters" % n, ("rendered",)))
    return out + more("C01", t)
