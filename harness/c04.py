"""Statement arguments are parsed exactly as specified."""
from harness.around import bad
from harness.common import *  # noqa: F401,F403
from zope.tal.taldefs import I18NError
from zope.tal.taldefs import TALError

NONUL = charset.ANY - charset.of_chars("\0")
HOT = charset.of_chars("; \n\tab_-9.A\xa0")

ASSUMPTIONS = ["arguments do not contain NUL"]


class AnyEngine(Engine):
    """Every expression evaluates to its own text."""

    def __init__(self):
        Engine.__init__(self)
        self.sets = []

    def lookup(self, text):
        return text

    def setLocal(self, name, value):
        if name != "attrs":
            self.sets.append(("local", name, value))
        Engine.setLocal(self, name, value)

    def setGlobal(self, name, value):
        self.sets.append(("global", name, value))
        Engine.setGlobal(self, name, value)

    def setRepeat(self, name, ce):
        return Iter(self, name, [self.evaluate(ce)])


# the reference: character by character

def parts_of(arg):
    parts = []
    cur = ""
    i = 0
    n = len(arg)
    while i < n:
        if arg[i] == ";":
            if i + 1 < n and arg[i + 1] == ";":
                cur = cur + ";"
                i += 2
                continue
            parts.append(cur)
            cur = ""
        else:
            cur = cur + arg[i]
        i += 1
    if not parts or not blank(cur):
        parts.append(cur)
    return parts


def blank(s):
    for c in s:
        if not c.isspace():
            return False
    return True


def skip(s, i):
    while i < len(s) and s[i].isspace():
        i += 1
    return i


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
NAMECHARS = ALPHA + "0123456789-"


def alpha(c):
    return c in ALPHA


def name_end(s, i):
    """The end of the name that starts at i, or i."""
    if i >= len(s) or not alpha(s[i]):
        return i
    while i < len(s) and s[i] in NAMECHARS:
        i += 1
    return i


def named(s, i):
    """(name, expression) at i, or None."""
    j = name_end(s, i)
    k = skip(s, j)
    if j == i or k == j:
        return None
    return s[i:j], s[k:]


def one_define(part):
    i = skip(part, 0)
    first = named(part, i)
    if first is None:
        return None
    word, rest = first
    if word == "global" or word == "local":
        second = named(rest, 0)
        if second is not None:
            return (word,) + second
    return ("local", word, rest)


def one_attribute(part):
    i = skip(part, 0)
    j = i
    while j < len(part) and not part[j].isspace():
        j += 1
    k = skip(part, j)
    if j == i or k == j or k == len(part):
        return None
    return part[i:j], part[k:]


def substitution(arg):
    i = skip(arg, 0)
    rest = arg[i:]
    for word in ("text", "structure"):
        if rest.startswith(word):
            j = skip(rest, len(word))
            if j > len(word):
                return word, rest[j:]
    return "text", rest


def compiled(src, kind):
    engine = AnyEngine()
    try:
        program, macros = compile_(kind, src, engine)
    except TALError as e:
        return engine, None, e
    return engine, (program, macros), None


def attr_source(kind, stmt, arg, before="", after=""):
    src = "<b " + before + stmt + '="' + attr_src(arg, kind) + '"' + after + \
        ">x</b>"
    return "<p" + (NS if kind == "xml" else "") + ">" + inside(kind, src) + \
        "</p>"


def page(kind, text):
    return "<p>" + written_inside(kind, text) + "</p>"


def dom(kind, d):
    return d & XML if kind == "xml" else d


def rejected(ctx, err, engine, src):
    ctx.check(err is not None, "malformed argument rejected",
              lambda: ctx.value([src, engine.compiled]))
    ctx.cover("rejected")


def a_define(ctx, kind, arg):
    src = attr_source(kind, "tal:define", arg)
    engine, code, err = compiled(src, kind)
    ctx.observe("compiled", engine.compiled)
    ctx.observe("error", err is not None)
    parts = [one_define(p) for p in parts_of(arg)]
    if not arg or None in parts:
        rejected(ctx, err, engine, src)
        return
    ctx.check(err is None, "accepted", lambda: ctx.value([src, str(err)]))
    if err is not None:
        return
    ctx.check(engine.compiled == [p[2] for p in parts], "expressions",
              lambda: ctx.value([src, engine.compiled, parts]))
    out = run(code[0], code[1], engine)
    ctx.check(engine.sets == parts, "variables",
              lambda: ctx.value([src, engine.sets, parts]))
    ctx.check(out == page(kind, "<b>x</b>"), "output", lambda: ctx.value(out))
    ctx.cover("accepted")


def define(kind, n, d, prefixes=("",)):
    def fn(ctx):
        pre = ctx.pick("pre", prefixes)
        a_define(ctx, kind, pre + ctx.text("a", n, dom(kind, d)))
    return fn


def a_attributes(ctx, kind, arg):
    src = attr_source(kind, "tal:attributes", arg)
    engine, code, err = compiled(src, kind)
    ctx.observe("compiled", engine.compiled)
    ctx.observe("error", err is not None)
    parts = [one_attribute(p) for p in parts_of(arg)]
    bad = not arg or None in parts
    found = []
    if not bad:
        for name, expr in parts:
            if kind == "html":
                name = name.lower()
            for other in found:
                if other[0] == name:
                    bad = True
            found.append((name, expr))
    if bad:
        rejected(ctx, err, engine, src)
        return
    ctx.check(err is None, "accepted", lambda: ctx.value([src, str(err)]))
    if err is not None:
        return
    found = sorted(found)
    ctx.check(engine.compiled == [f[1] for f in found], "expressions",
              lambda: ctx.value([src, engine.compiled, found]))
    out = run(code[0], code[1], engine)
    want = "<b"
    for name, expr in found:
        want = want + " " + name + '="' + esc_attr(expr) + '"'
    ctx.check(out == page(kind, want + ">x</b>"), "attributes",
              lambda: ctx.value([src, out, want]))
    ctx.cover("accepted")


def attributes(kind, n, d, prefixes=("",)):
    def fn(ctx):
        pre = ctx.pick("pre", prefixes)
        a_attributes(ctx, kind, pre + ctx.text("a", n, dom(kind, d)))
    return fn


def repeat(kind, n, d, prefixes=("",)):
    def fn(ctx):
        pre = ctx.pick("pre", prefixes)
        arg = pre + ctx.text("a", n, dom(kind, d))
        src = attr_source(kind, "tal:repeat", arg)
        engine, code, err = compiled(src, kind)
        ctx.observe("compiled", engine.compiled)
        ctx.observe("error", err is not None)
        want = named(arg, skip(arg, 0))
        if not arg or want is None:
            rejected(ctx, err, engine, src)
            return
        ctx.check(err is None, "accepted", lambda: ctx.value(src))
        if err is not None:
            return
        ctx.check(engine.compiled == [want[1]], "expressions",
                  lambda: ctx.value([src, engine.compiled]))
        run(code[0], code[1], engine)
        ctx.check(engine.sets == [("local", want[0], want[1])], "variables",
                  lambda: ctx.value([src, engine.sets, want]))
        ctx.cover("accepted")
    return fn


def content(kind, n, d, prefixes=("",)):
    def fn(ctx):
        stmt = ctx.pick("stmt", ("content", "replace", "on-error"))
        pre = ctx.pick("pre", prefixes)
        arg = pre + ctx.text("a", n, dom(kind, d))
        extra = ""
        if stmt == "on-error":
            extra = ' tal:condition="boom"'
        src = attr_source(kind, "tal:" + stmt, arg, "", extra)
        engine = AnyEngine()
        if stmt == "on-error":
            engine.evaluateBoolean = fail
        err = None
        try:
            program, macros = compile_(kind, src, engine)
        except TALError as e:
            err = e
        ctx.observe("compiled", engine.compiled)
        ctx.observe("error", err is not None)
        if not arg:
            rejected(ctx, err, engine, src)
            return
        ctx.check(err is None, "accepted", lambda: ctx.value(src))
        if err is not None:
            return
        key, expr = substitution(arg)
        got = [c for c in engine.compiled if c != "boom"]
        ctx.check(got == [expr], "expressions",
                  lambda: ctx.value([src, engine.compiled, expr]))
        out = run(program, macros, engine, strictinsert=0)
        text = esc_text(expr) if key == "text" else expr
        if stmt == "replace":
            want = page(kind, text)
        else:
            want = page(kind, "<b>" + text + "</b>")
        ctx.observe("out", out)
        ctx.check(out == want, "output", lambda: ctx.value([src, out, want]))
        ctx.cover(key)
    return fn


def fail(ce):
    raise Boom("x")


def whole(kind, n, d):
    """condition and omit-tag: the argument is the expression."""
    def fn(ctx):
        stmt = ctx.pick("stmt", ("condition", "omit-tag"))
        arg = ctx.text("a", n, dom(kind, d), minlen=1)
        src = attr_source(kind, "tal:" + stmt, arg)
        engine, code, err = compiled(src, kind)
        ctx.observe("compiled", engine.compiled)
        ctx.check(err is None and engine.compiled == [arg], "expressions",
                  lambda: ctx.value([src, engine.compiled, str(err)]))
        ctx.cover(stmt)
    return fn


def i18n_attributes(kind, n, d, prefixes=("",)):
    """Names with optional message ids, separated by semicolons."""
    def fn(ctx):
        pre = ctx.pick("pre", prefixes)
        arg = pre + ctx.text("a", n, dom(kind, d))
        src = attr_source(kind, "i18n:attributes", arg,
                          'a="1" bb="2" aa="3" ')
        engine = AnyEngine()
        err = None
        try:
            program, macros = compile_(kind, src, engine)
        except (TALError, I18NError) as e:
            err = e
        ctx.observe("error", err is not None)
        specs = []
        bad = not arg
        for part in simple_split(arg):
            if part == "":
                continue
            words = words_of(part)
            if len(words) != 1 and len(words) != 2:
                bad = True
                break
            name = words[0].lower() if kind == "html" else words[0]
            for other in specs:
                if other[0] == name:
                    bad = True
            specs.append((name, words[1] if len(words) == 2 else None))
        if bad:
            rejected(ctx, err, engine, src)
            return
        ctx.check(err is None, "accepted", lambda: ctx.value(src))
        if err is not None:
            return
        for name, msgid in specs:
            if name != "a" and name != "bb" and name != "aa":
                ctx.cover("accepted")
                return
        out = run(program, macros, engine)
        ctx.observe("out", out)
        want = []
        for name, value in (("a", "1"), ("bb", "2"), ("aa", "3")):
            for n2, msgid in specs:
                if n2 == name:
                    want.append((value if msgid is None else msgid, value))
        got = [(m[0], m[3]) for m in engine.messages]
        ctx.check(got == want, "messages",
                  lambda: ctx.value([src, got, want]))
        ctx.cover("translated")
    return fn


def simple_split(arg):
    out = [""]
    for c in arg:
        if c == ";":
            out.append("")
        else:
            out[-1] = out[-1] + c
    return out


def words_of(s):
    out = []
    cur = ""
    for c in s:
        if c.isspace():
            if cur != "":
                out.append(cur)
            cur = ""
        else:
            cur = cur + c
    if cur != "":
        out.append(cur)
    return out


LETTERY = NONUL - charset.CS(((128, 0x10ffff),)) | charset.of_chars(
    "\xa0\xe9\xc9")


def many(kind, parse, sep):
    """Many parts, one of them with unknown characters."""
    def fn(ctx):
        size = ctx.pick("size", (4, 6, 9))
        at = ctx.choose("at", size)
        a = ctx.text("a", 2, dom(kind, HOT))
        parts = ["n%d e%d" % (i, i) + (";;" if i % 3 == 2 else "")
                 for i in range(size)]
        parts[at] = ctx.pick("part", ("n%d" % at, "n%d " % at,
                                      "global x e", "n%d e;;" % at)) + a
        parse(ctx, kind, sep.join(parts) + ctx.pick("end", ("", ";", "; ")))
        ctx.cover("many")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    x = 1 if t else 0
    for kind in ("html", "xml"):
        if kind == "xml" and not t:
            x = -1
        both = ("accepted", "rejected")
        out.append(Goal("define-" + kind, define(kind, 4 + x, NONUL),
                        "arguments up to %d characters" % (4 + x), both))
        out.append(Goal("define-words-" + kind, define(
            kind, 3 + x, NONUL, ("global", "local", "global x ", "a b;",
                                 "a b;;", " \n", "local x y;global ")),
            "a prefix and %d characters" % (3 + x), both))
        out.append(Goal("attributes-" + kind, attributes(
            kind, 4 + x, LETTERY), "arguments up to %d characters"
            % (4 + x), both))
        out.append(Goal("attributes-words-" + kind, attributes(
            kind, 3 + x, LETTERY, ("a b;", "A b; a", "a b;;", "href ",
                                   "a b;b c;")),
            "a prefix and %d characters" % (3 + x), both))
        out.append(Goal("repeat-" + kind, repeat(kind, 4 + x, NONUL),
                        "arguments up to %d characters" % (4 + x), both))
        out.append(Goal("repeat-words-" + kind, repeat(
            kind, 2 + x, NONUL, ("a b", "a\n", "_a-9", "a b;", "a b c ")),
            "a prefix and %d characters" % (2 + x), both))
        out.append(Goal("content-" + kind, content(kind, 2 + x, NONUL, (
            "", "text", "structure", " \ttext ", "structure a", "textx",
            "text structure", "tex")), "a prefix and %d characters"
            % (2 + x), ("text", "structure", "rejected")))
        out.append(Goal("many-define-" + kind, many(kind, a_define, "; "),
                        "up to 9 parts", ["accepted", "many"]))
        out.append(Goal("many-attributes-" + kind,
                        many(kind, a_attributes, ";\n"),
                        "up to 9 parts", ["accepted", "many"]))
        out.append(Goal("whole-" + kind, whole(kind, 3 + x, NONUL),
                        "up to %d characters" % (3 + x),
                        ("condition", "omit-tag")))
        out.append(Goal("i18n-attributes-" + kind, i18n_attributes(
            kind, 3 + x, LETTERY), "up to %d characters" % (3 + x),
            ("accepted", "rejected", "translated")))
        out.append(Goal("i18n-attributes-words-" + kind, i18n_attributes(
            kind, 2 + x, LETTERY, ("a m;", "A m;a", "a ", "bb;a m",
                                   "aa;bb")),
            "a prefix and %d characters" % (2 + x),
            ("rejected", "translated")))
    return out + bad("C04")
