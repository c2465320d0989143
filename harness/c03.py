"""Literal attribute values keep their text."""
from harness.around import more
from harness.common import *  # noqa: F401,F403

# Letters that equal an ASCII letter when case is ignored are left out.
TEXT = charset.ANY - charset.of_chars("ſİıK")
HOT = charset.of_chars("&#;xX09aAfgZ<\"> ")

ASSUMPTIONS = ["values do not contain U+017F, U+0130, U+0131 and U+212A, "
               "which count as ASCII letters when case is ignored"]


def is_alpha(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def is_digit(c):
    return "0" <= c <= "9"


def is_hex(c):
    return is_digit(c) or "a" <= c <= "f" or "A" <= c <= "F"


def reference_at(s, i):
    """Does a well-formed reference start with the & at s[i]?"""
    n = len(s)
    j = i + 1
    if j >= n:
        return False
    if s[j] == "#":
        j += 1
        if j < n and (s[j] == "x" or s[j] == "X"):
            j += 1
            ok = is_hex
        else:
            ok = is_digit
    elif is_alpha(s[j]):
        def ok(c):
            return is_alpha(c) or is_digit(c)
    else:
        return False
    k = j
    while k < n and ok(s[k]):
        k += 1
    return k > j and k < n and s[k] == ";"


def escaped(s):
    out = []
    for i in range(len(s)):
        c = s[i]
        if c == "&":
            out.append("&" if reference_at(s, i) else "&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">":
            out.append("&gt;")
        elif c == '"':
            out.append("&quot;")
        else:
            out.append(c)
    return "".join(out)


# source and output; %s stands for the attribute with the value
TAGS = {
    "plain": ('<b k="%s">x</b>', '<b k="%s">x</b>'),
    "between": ('<b j="1" k="%s" l="2">x</b>',
                '<b j="1" k="%s" l="2">x</b>'),
    "content": ('<b k="%s" tal:content="t">x</b>', '<b k="%s">t</b>'),
    "attributes": ('<b k="%s" z="1" tal:attributes="z t; a t">x</b>',
                   '<b k="%s" z="t" a="t">x</b>'),
    "statement-first": ('<b tal:attributes="z t" k="%s" z="1">x</b>',
                        '<b k="%s" z="t">x</b>'),
    "default": ('<b tal:condition="t" k="%s" y="1">x</b>',
                '<b k="%s" y="1">x</b>'),
    "macro": ('<b metal:define-macro="m" k="%s" y="1">x</b>',
              '<b k="%s" y="1">x</b>'),
    "omitted": ('<b tal:omit-tag="nil" k="%s">x</b>', '<b k="%s">x</b>'),
    "failed": ('<b tal:on-error="t" k="%s" tal:content="bad">x</b>',
               '<b k="%s">t</b>'),
    "unit": ('<b i18n:translate="" k="%s">x</b>', '<b k="%s">x</b>'),
    "repeat": ('<b tal:repeat="r s" k="%s">x</b>',
               '<b k="%s">x</b><b k="%s">x</b>'),
    "empty": ('<img k="%s"/>', {"html": '<img k="%s" />',
                                "xml": '<img k="%s"/>'}),
    "empty-dynamic": ('<img k="%s" tal:attributes="a t"/>',
                      {"html": '<img k="%s" a="t" />',
                       "xml": '<img k="%s" a="t"/>'}),
    "void": ({"html": '<img k="%s">', "xml": '<img k="%s"/>'},
             {"html": '<img k="%s">', "xml": '<img k="%s"/>'}),
    "void-dynamic": ({"html": '<img tal:condition="t" k="%s">',
                      "xml": '<img tal:condition="t" k="%s"/>'},
                     {"html": '<img k="%s">', "xml": '<img k="%s"/>'}),
}
NAMES = sorted(TAGS)
VALUES = {"t": "t", "nil": "", "bad": Raise(), "s": [1, 2]}


def fill(pattern, text):
    parts = pattern.split("%s")
    out = parts[0]
    for p in parts[1:]:
        out = out + text + p
    return out


def one(ctx, kind, name, s):
    src, want = TAGS[name]
    if isinstance(src, dict):
        src = src[kind]
    if isinstance(want, dict):
        want = want[kind]
    head = "<p" + (NS if kind == "xml" else "") + ">"
    src = fill(src, attr_src(s, kind))
    want = fill(want, escaped(s))
    if kind == "xml":
        src, want = within(src, "t"), written_within(want)
    src = head + src + "</p>"
    out = render(kind, src, VALUES)
    want = "<p>" + want + "</p>"
    ctx.observe("out", out)
    ctx.check(out == want, "literal attribute",
              lambda: ctx.value([src, out, want]))
    ctx.cover(name)


def domain(kind, dom):
    return dom & XML if kind == "xml" else dom


def all_tags(kind, n):
    def fn(ctx):
        name = ctx.pick("tag", NAMES)
        s = ctx.text("s", n, domain(kind, TEXT))
        one(ctx, kind, name, s)
    return fn


def one_tag(kind, name, n, dom=TEXT, minlen=0):
    def fn(ctx):
        s = ctx.text("s", n, domain(kind, dom), minlen=minlen)
        one(ctx, kind, name, s)
    return fn


def amp(kind, name, n):
    """A value that starts like a reference."""
    def fn(ctx):
        pre = ctx.pick("pre", ("&", "&#", "&#x", "&a", "&&", "x&amp", "&#1",
                               "&lt;&"))
        s = pre + ctx.text("s", n, domain(kind, TEXT))
        one(ctx, kind, name, s)
    return fn


def amps(kind, name, ends):
    """Several that start like references."""
    def fn(ctx):
        s = ""
        pres = ("&", "&#", "&#x", "&a", "&#1", "&#xA")
        pre = ctx.pick("pre", pres)
        for i in range(3):
            s = s + (ctx.pick("pre%d" % i, pres) if i == 1 else pre)
            s = s + (ctx.chars("s", 1, domain(kind, TEXT)) if i == 1
                     else ctx.pick("end%d" % i, (" ", ";", "g", "")[:ends]))
        one(ctx, kind, name, s)
    return fn


def padded(kind):
    def fn(ctx):
        name = ctx.pick("tag", ("plain", "content"))
        k = ctx.pick("size", (8, 40))
        pad = ctx.pick("pad", ("a", "&", "<", '"', "&amp;", "&a "))
        s = pad * k + ctx.chars("s", 1, domain(kind, TEXT))
        if ctx.flag("both"):
            s = s + pad * k
        one(ctx, kind, name, s)
    return fn


def valueless(ctx):
    """HTML attributes without a value."""
    name = ctx.text("n", 2, LETTERS, minlen=1)
    ctx.assume(name != "k")
    extra, got = ctx.pick("extra", (
        ("", ""), (' tal:condition="t"', ""), (' tal:attributes="k t"',
                                               ' k="t"'),
        (' tal:omit-tag="nil"', ""), (' metal:define-macro="m"', "")))
    v = ctx.pick("k", ("", ' k="1"'))
    src = "<p><b " + name + v + extra + ">x</b></p>"
    out = render("html", src, VALUES)
    if got:
        want = "<p><b " + name + got + ">x</b></p>"
    else:
        want = "<p><b " + name + v + ">x</b></p>"
    ctx.observe("out", out)
    ctx.check(out == want, "attribute without value",
              lambda: ctx.value([src, out, want]))
    ctx.cover("valueless")


def several(kind):
    """The order and the names of several attributes are kept."""
    def fn(ctx):
        names = ctx.pick("names", (
            ("a", "b", "c"), ("c", "a", "b"), ("z", "q:a", "a"),
            ("x-y", "x_y", "x.y"), ("class", "id", "style"),
            ("href", "q:href", "b")))
        vals = ["", "v w", "&<"]
        vals[ctx.choose("which", 3)] = ctx.text("v", 1, domain(kind, HOT))
        stmt = ctx.pick("stmt", ("", ' tal:condition="t"',
                                 ' tal:attributes="d t"'))
        at = ctx.choose("at", 4)
        parts = [" " + n + '="' + attr_src(v, kind) + '"'
                 for n, v in zip(names, vals)]
        parts.insert(at, stmt)
        ns = (NS + ' xmlns:q="urn:q"') if kind == "xml" else ""
        src = "<p" + ns + "><b" + "".join(parts) + ">x</b></p>"
        out = render(kind, src, VALUES)
        want = ('<p xmlns:q="urn:q"><b' if kind == "xml" else "<p><b") + \
            "".join([" " + n + '="' + escaped(v) + '"'
                     for n, v in zip(names, vals)])
        if "attributes" in stmt:
            want = want + ' d="t"'
        want = want + ">x</b></p>"
        ctx.observe("out", out)
        ctx.check(out == want, "several attributes",
                  lambda: ctx.value([src, out, want]))
        ctx.cover("several")
    return fn


def many(kind):
    """Many attributes."""
    def fn(ctx):
        size = ctx.pick("size", (4, 6, 9, 14))
        which = ctx.choose("which", size)
        v = ctx.text("v", 1, domain(kind, HOT))
        vals = ["v%d" % i for i in range(size)]
        vals[which] = v
        names = ["k%d" % i for i in range(size)][::ctx.pick("order",
                                                            (1, -1))]
        stmt = ctx.pick("stmt", ("", ' tal:condition="t"',
                                 ' tal:attributes="d t"'))
        ns = NS if kind == "xml" else ""
        src = "<p" + ns + "><b" + stmt + "".join(
            [" " + n + '="' + attr_src(x, kind) + '"'
             for n, x in zip(names, vals)]) + ">x</b></p>"
        out = render(kind, src, VALUES, wrap=0)
        want = "<p><b" + "".join([" " + n + '="' + escaped(x) + '"'
                                  for n, x in zip(names, vals)])
        if "attributes" in stmt:
            want = want + ' d="t"'
        want = want + ">x</b></p>"
        ctx.observe("out", out)
        ctx.check(out == want, "many attributes",
                  lambda: ctx.value([src, out, want]))
        ctx.cover("many")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        n = 3 if t else 2
        out.append(Goal("tags-" + kind, all_tags(kind, n),
                        "%d kinds of tags, values up to %d characters"
                        % (len(NAMES), n), NAMES))
        n = 5 if t else 4
        out.append(Goal("plain-" + kind, one_tag(kind, "plain", n),
                        "values up to %d characters" % n, ("plain",)))
        n = 3 if t else 2
        for name in ("plain", "content"):
            out.append(Goal("reference-%s-%s" % (name, kind),
                            amp(kind, name, n),
                            "values that start like a reference, %d more "
                            "characters" % n, (name,)))
        out.append(Goal("references-" + kind, amps(kind, "plain", 4 if t else 2),
                        "values with 3 pieces that start like a reference",
                        ("plain",)))
        out.append(Goal("padded-" + kind, padded(kind),
                        "values up to 400 characters, one arbitrary",
                        ("plain",)))
        out.append(Goal("many-" + kind, many(kind), "up to 14 attributes",
                        ["many"]))
        out.append(Goal("several-" + kind, several(kind), "3 attributes",
                        ("several",)))
    out.append(Goal("valueless", valueless, "names up to 2 letters",
                    ("valueless",)))
    return out + more("C03", t)
