"""Invalid templates are rejected with a template error."""
from harness.around import bad
from harness.common import *  # noqa: F401,F403
from zope.tal.taldefs import I18NError
from zope.tal.taldefs import METALError
from zope.tal.taldefs import TALError

CLASS = {"tal": TALError, "metal": METALError, "i18n": I18NError}
KNOWN = {
    "tal": ("define", "condition", "content", "replace", "repeat",
            "attributes", "on-error", "omit-tag", "script"),
    "metal": ("define-macro", "extend-macro", "use-macro", "define-slot",
              "fill-slot"),
    "i18n": ("translate", "domain", "target", "source", "attributes",
             "data", "name", "ignore", "ignore-attributes"),
}
# statements that may not be empty
NEEDED = {
    "tal": ("define", "condition", "content", "replace", "repeat",
            "attributes", "on-error", "script"),
    "metal": KNOWN["metal"],
    "i18n": ("attributes", "data"),
}
WORDS = (
    ("tal", "define", "a v"), ("tal", "condition", "v"),
    ("tal", "content", "v"), ("tal", "content", "structure v"),
    ("tal", "replace", "v"), ("tal", "replace", "structure v"),
    ("tal", "repeat", "r v"),
    ("tal", "attributes", "k v"), ("tal", "on-error", "v"),
    ("tal", "omit-tag", "v"), ("tal", "omit-tag", ""),
    ("tal", "script", "v"),
    ("metal", "define-macro", "m"), ("metal", "extend-macro", "m"),
    ("metal", "use-macro", "m"), ("metal", "define-slot", "s"),
    ("metal", "fill-slot", "s"),
    ("i18n", "translate", ""), ("i18n", "translate", "id"),
    ("i18n", "domain", "d"), ("i18n", "domain", ""),
    ("i18n", "source", "en"), ("i18n", "target", "de"),
    ("i18n", "attributes", "k"), ("i18n", "attributes", "k id"),
    ("i18n", "data", "v"), ("i18n", "name", "n"), ("i18n", "name", ""),
    ("i18n", "ignore", ""), ("i18n", "ignore-attributes", ""),
    ("tal", "define", ""), ("tal", "condition", ""), ("tal", "content", ""),
    ("tal", "replace", ""), ("tal", "repeat", ""),
    ("tal", "attributes", ""), ("tal", "on-error", ""),
    ("tal", "script", ""),
    ("metal", "define-macro", ""), ("metal", "extend-macro", ""),
    ("metal", "use-macro", ""), ("metal", "define-slot", ""),
    ("metal", "fill-slot", ""),
    ("i18n", "attributes", ""), ("i18n", "data", ""),
    ("tal", "foo", "v"), ("metal", "foo", "v"), ("i18n", "foo", "v"),
    ("tal", "use-macro", "m"), ("metal", "content", "v"),
    ("i18n", "content", "v"), ("i18n", "id", "x"),
)
VALID = 30


class Place:
    """Where an element stands."""

    def __init__(self, unit=False, macro=False, use=False):
        self.unit = unit      # in a translation unit
        self.macro = macro    # in a macro
        self.use = use        # in a use of a macro, but not in a filler


def problems(words, place, void=False, open_=False):
    """The classes of errors an element may be rejected with."""
    out = []
    st = {f: {} for f in CLASS}
    for f, k, v in words:
        if k in st[f]:
            out.append(CLASS[f])
        st[f][k] = v
        if k not in KNOWN[f]:
            out.append(CLASS[f])
        elif not v and k in NEEDED[f]:
            out.append(TALError if f == "metal" else CLASS[f])
    tal, metal, i18n = st["tal"], st["metal"], st["i18n"]
    both = tal.get("content") or tal.get("replace")
    if "content" in tal and "replace" in tal:
        out.append(TALError)
    if void and "content" in tal:
        out.append(TALError)
    if i18n.get("name") and not place.unit:
        out.append(I18NError)
    if i18n.get("data") and not i18n.get("translate"):
        out.append(I18NError)
    if both and i18n.get("translate"):
        out.append(I18NError)
    if "attributes" in tal and i18n.get("attributes") == "k id":
        out.append(I18NError)
    define = metal.get("define-macro")
    extend = metal.get("extend-macro")
    use = metal.get("use-macro")
    slot = metal.get("define-slot")
    fill = metal.get("fill-slot")
    if extend and (use or not define):
        out.append(METALError)
    if define and use:
        out.append(METALError)
    if (define or extend or use) and (slot or fill):
        out.append(METALError)
    if fill and not place.use:
        out.append(METALError)
    # a filler is itself not in the macro use
    if slot and not place.macro and (not place.use or fill):
        out.append(METALError)
    if open_ and words:
        out += [METALError, TALError]
    return out


PLACES = {
    "page": (Place(), "", ""),
    "unit": (Place(unit=True), '<w i18n:translate="">', "</w>"),
    "deep": (Place(unit=True), '<w i18n:translate="id"><u>', "</u></w>"),
    "macro": (Place(macro=True), '<w metal:define-macro="o">', "</w>"),
    "use": (Place(use=True), '<w metal:use-macro="o">', "</w>"),
    "filler": (Place(), '<w metal:use-macro="o"><u metal:fill-slot="t">',
               "</u></w>"),
    "filler-in-macro": (
        Place(macro=True),
        '<w metal:define-macro="o"><q metal:use-macro="p">'
        '<u metal:fill-slot="t">', "</u></q></w>"),
    "use-in-macro": (
        Place(macro=True, use=True),
        '<w metal:define-macro="o"><q metal:use-macro="p">', "</q></w>"),
    "slot": (Place(macro=True),
             '<w metal:define-macro="o"><u metal:define-slot="t">',
             "</u></w>"),
    "after-unit": (Place(), '<w i18n:translate="">x</w>', ""),
    "after-computed": (Place(), '<w tal:content="v" i18n:translate="">x</w>',
                       ""),
    "after-inner": (Place(unit=True), '<w i18n:translate="">'
                    '<u tal:content="v" i18n:translate="">x</u>', "</w>"),
    "after-replaced": (Place(unit=True), '<w i18n:translate="">'
                       '<u tal:replace="v" i18n:translate="" i18n:name="z">x'
                       "</u>", "</w>"),
    "after-macro": (Place(), '<w metal:define-macro="o">x</w>', ""),
    "after-use": (Place(), '<w metal:use-macro="o">x</w>', ""),
    "after-filler": (Place(use=True), '<w metal:use-macro="o">'
                     '<u metal:fill-slot="t">x</u>', "</w>"),
    "unit-in-filler": (
        Place(unit=True), '<w metal:use-macro="o">'
        '<u metal:fill-slot="t" i18n:translate="">', "</u></w>"),
    "condition": (Place(), '<w tal:condition="v" tal:repeat="r v">',
                  "</w>"),
}
SOME = ("page", "unit", "macro", "use", "filler", "after-use")


#: elements with statements, far inside each other
INSIDE = ('<e tal:repeat="r v"><e><e tal:condition="v"><e tal:define="q v">'
          '<tal:e><e metal:use-macro="zz"><e metal:fill-slot="zz">')


def attempt(ctx, kind, before, tag, after, want, deep=None):
    """Compile, and see that the right thing happens."""
    if kind == "xml" if deep is None else deep:
        before = INSIDE + before
        after += "</e></e></tal:e></e></e></e></e>"
    head = "<doc%s>\n" % (NS if kind == "xml" else "")
    src = head + before + tag + after + "</doc>"
    error = None
    ctx.observe("src", src)
    try:
        program, macros = compile_(kind, src, Engine())
    except TALError as e:
        error = e
    ctx.observe("error", None if error is None else
                (type(error).__name__, error.lineno, error.offset))
    detail = lambda: ctx.value([src, str(error),  # noqa: E731
                                [c.__name__ for c in want]])
    if not want:
        ctx.check(error is None, "a valid template compiles", detail)
        return
    ctx.check(error is not None, "an invalid template is rejected", detail)
    if error is None:
        return
    ctx.check(type(error) in want, "error class", detail)
    ctx.check((error.lineno, error.offset) == (2, len(before)),
              "position", detail)


def render_words(words, bare=False):
    if bare:
        return "".join([" %s:%s" % w[:2] for w in words])
    return "".join([' %s:%s="%s"' % w for w in words])


def bare(ctx, kind, words):
    """Whether to write the empty value of a statement by leaving it out."""
    return kind == "html" and len(words) == 1 and not words[0][2] and \
        ctx.flag("bare")


def sets(kind, count, words, places):
    """Sets of statements on an element, everywhere."""
    def fn(ctx):
        where = ctx.pick("where", places)
        place, before, after = PLACES[where]
        chosen = []
        last = -1
        for i in range(count):
            n = len(words) - last - 1
            k = ctx.choose("w%d" % i, n + 1)
            if not k:
                break
            last = last + k
            chosen.append(words[last])
        # a repeated statement is not well-formed XML
        keys = [w[:2] for w in chosen]
        ctx.assume(kind == "html" or len(set(keys)) == len(keys))
        if ctx.flag("reverse"):
            ctx.assume(len(chosen) > 1)
            chosen.reverse()
        literal = ' k="1"'
        if any([w[1] == "attributes" for w in chosen]) and \
                ctx.flag("no literal"):
            literal = ""
        tag = "<b" + render_words(chosen, bare(ctx, kind, chosen)) + \
            literal + ">x</b>"
        want = problems(chosen, place)
        attempt(ctx, kind, before, tag, after, want,
                (kind == "xml") == (count == 1))
        ctx.cover("invalid" if want else "valid")
    return fn


def forms(kind):
    """Other forms of tags."""
    def fn(ctx):
        form = ctx.pick("form", ("empty", "void", "closed", "open", "para"))
        ctx.assume(kind == "html" or form == "empty")
        where = ctx.pick("where", SOME + ("deep",))
        place, before, after = PLACES[where]
        words = []
        k = ctx.choose("w", len(WORDS) + 1)
        if k:
            words = [WORDS[k - 1]]
        attrs = render_words(words, bare(ctx, kind, words))
        if form == "empty":
            tag = "<b" + attrs + "/>"
        elif form == "void":
            tag = "<hr" + attrs + ">"
        elif form == "closed":
            tag = "<hr" + attrs + "/>"
        elif form == "open":
            tag = "<div><b" + attrs + ">x</div>"
            before, tag = before + "<div>", tag[5:]
        else:
            tag = "<div><li" + attrs + ">x<li>y</li></div>"
            before, tag = before + "<div>", tag[5:]
        want = problems(words, place, form in ("void", "closed"),
                        form in ("open", "para"))
        if form in ("open", "para"):
            # statements that have no effect need no end tag
            if place.use and words and words[0][0] == "metal" and \
                    words[0][1] in ("define-macro", "extend-macro",
                                    "use-macro", "define-slot"):
                ctx.assume(False)
        attempt(ctx, kind, before, tag, after, want)
        ctx.cover(form)
    return fn


def unknown(kind, n):
    """Statements of any name (HTML)."""
    def fn(ctx):
        f = ctx.pick("family", ("tal", "metal", "i18n"))
        name = ctx.text("name", n, LETTERS | charset.of_chars("-"),
                        minlen=1)
        value = {"tal": "r v", "metal": "r", "i18n": "r"}[f]
        k = None
        for x in KNOWN[f]:
            if name == x:
                k = x
        want = problems([(f, k or "none", value)], Place(unit=True))
        attempt(ctx, kind, '<w i18n:translate="">',
                "<b " + f + ":" + name + '="' + value + '">x</b>', "</w>",
                want)
        ctx.cover("known" if k else "unknown")
    return fn


FIRST = charset.CS(((65, 90), (95, 95), (97, 122)))
REST = FIRST | charset.CS(((48, 57), (45, 45)))
FIRST_CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
REST_CHARS = FIRST_CHARS + "-0123456789"


def proper(name):
    if not name or name[0] not in FIRST_CHARS:
        return False
    for c in name[1:]:
        if c not in REST_CHARS:
            return False
    return True


NAMED = {
    "macro": ('', '<b metal:define-macro="', '">x</b>', ""),
    "slot": ('<m metal:define-macro="o">', '<b metal:define-slot="',
             '">x</b>', "</m>"),
    "filler": ('<m metal:use-macro="o">', '<b metal:fill-slot="',
               '">x</b>', "</m>"),
    "part": ('<w i18n:translate="">', '<b i18n:name="', '">x</b>', "</w>"),
    "extended": ('', '<b metal:extend-macro="o" metal:define-macro="',
                 '">x</b>', ""),
}


def names(kind, n):
    """Names of macros, slots and parts."""
    def fn(ctx):
        what = ctx.pick("what", list(NAMED))
        before, a, b, after = NAMED[what]
        name = ctx.text("name", n, ANY & XML - charset.of_chars("\r\n\t")
                        if kind == "xml" else ANY, minlen=1)
        plain = name
        if what != "part":
            plain = name.strip()
        else:
            ctx.assume(name != "")
        want = [] if proper(plain) else \
            [TALError if what == "part" else METALError]
        attempt(ctx, kind, before, a + attr_src(name, kind) + b, after, want)
        ctx.cover("improper" if want else "proper")
    return fn


def twice(kind, n):
    """A name that is given again."""
    def fn(ctx):
        what = ctx.pick("what", ("macro", "filler", "extended", "nested",
                                 "slot", "two-uses"))
        one = ctx.text("one", n, FIRST, minlen=1)
        two = ctx.text("two", n, FIRST, minlen=1)
        pad = ctx.pick("pad", ("", " "))
        before, a, b, after = NAMED.get(what, NAMED["macro"])
        same = one == two
        if what == "nested":
            # the outer macro ends last
            before = '<b metal:define-macro="' + one + '">'
            tag = '<b metal:define-macro="' + two + '">x</b>'
            src = "<doc%s>\n" % (NS if kind == "xml" else "") + before + \
                tag + "</b></doc>"
            error = None
            try:
                compile_(kind, src, Engine())
            except METALError as e:
                error = e
            ctx.check((error is not None) == same, "nested macros",
                      lambda: ctx.value([src, str(error)]))
            if error is not None:
                ctx.check((error.lineno, error.offset) == (2, 0),
                          "position", lambda: ctx.value([src, str(error)]))
            ctx.cover("same" if same else "different")
            return
        if what == "two-uses":
            before, a, b, after = NAMED["filler"]
            between = "</m><m metal:use-macro='o'>"
            want = []
        elif what == "slot":
            between = ""
            want = []
        else:
            between = "x"
            want = [METALError] if same else []
        attempt(ctx, kind, before + a + one + b + between,
                a + pad + two + b, after, want)
        ctx.cover("same" if same else "different")
    return fn


def repeated(kind):
    """A statement that is given twice on an element."""
    def fn(ctx):
        f, k, v = ctx.pick("word", WORDS[:VALID])
        place, before, after = PLACES[ctx.pick("where", ("unit", "macro",
                                                         "deep"))]
        between = ctx.pick("between", ("", ' j="1"', ' tal:condition="v"'))
        w = ' %s:%s="%s"' % (f, k, v)
        tag = "<b" + w + between + w + ">x</b>"
        ctx.assume(k != "condition" or "condition" not in between)
        if kind == "html":
            attempt(ctx, kind, before, tag, after, [CLASS[f]])
        else:
            from xml.parsers.expat import ExpatError
            error = None
            src = "<doc%s>\n" % NS + before + tag + after + "</doc>"
            try:
                compile_(kind, src, Engine())
            except ExpatError as e:
                error = e
            ctx.check(error is not None, "repeated statement",
                      lambda: ctx.value([src]))
        ctx.cover("repeated")
    return fn


def respelled(kind):
    """A statement given with and without prefix on a TAL element."""
    def fn(ctx):
        f, k, v = ctx.pick("word", WORDS[:VALID])
        place, before, after = PLACES[ctx.pick("where", ("unit", "macro"))]
        between = ctx.pick("between", ("", ' i18n:domain="d"'))
        ctx.assume(k != "domain" or not between)
        one = ' %s="%s"' % (k, v)
        two = ' %s:%s="%s"' % (f, k, v)
        if ctx.flag("swap"):
            one, two = two, one
        tag = "<" + f + ":b" + one + between + two + ">x</" + f + ":b>"
        attempt(ctx, kind, before, tag, after, [CLASS[f]])
        ctx.cover("repeated")
    return fn


def data(kind):
    """Values of a message cannot be structure."""
    def fn(ctx):
        word = ctx.text("word", 2, LETTERS)
        arg = ctx.pick("key", ("", "text ", "structure ")) + word
        ctx.assume(arg != "")
        want = [I18NError] if arg.startswith("structure ") and word else []
        ctx.assume(word)
        attempt(ctx, kind, "", '<b i18n:translate="id" i18n:data="' + arg +
                '">x</b>', "", want)
        ctx.cover("structure" if want else "other")
    return fn


def nested(kind, words, outer):
    """An element in another, each with statements."""
    def fn(ctx):
        a = ctx.pick("outer", outer)
        b = ctx.pick("inner", words)
        two = ctx.pick("sibling", ((), ("i18n", "name", "n"),
                                   ("metal", "fill-slot", "z"),
                                   ("metal", "define-slot", "z")))
        f, k, v = a
        place = Place(unit=k == "translate", macro=k == "define-macro",
                      use=k == "use-macro")
        # its own statements are all right
        v = "o" if k == "define-macro" else v
        before = '<a %s:%s="%s">' % (f, k, v)
        tag = "<b" + render_words([b]) + ">x</b>"
        want = problems([b], place)
        if want or not two:
            attempt(ctx, kind, before, tag, "</a>", want)
            ctx.cover("inner")
            return
        if ctx.flag("inside"):
            # in the outer element, after the inner one
            before = before + tag
            after = "</a>"
        else:
            place = Place()
            before = before + tag + "</a>"
            after = ""
        attempt(ctx, kind, before, "<c" + render_words([two]) + ">y</c>",
                after, problems([two], place))
        ctx.cover("sibling")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        n = 3 if t else 2
        out += [
            Goal("pairs-" + kind, sets(kind, 2, WORDS, SOME if not t else
                                       list(PLACES)),
                 "up to two statements on an element", ["valid", "invalid"]),
            Goal("single-" + kind, sets(kind, 1, WORDS, list(PLACES)),
                 "up to one statement on an element", ["valid", "invalid"]),
            Goal("forms-" + kind, forms(kind), "one statement",
                 ["empty", "void", "closed", "open", "para"]
                 if kind == "html" else ["empty"]),
            Goal("names-" + kind, names(kind, n),
                 "names of up to %d characters" % n, ["proper", "improper"]),
            Goal("twice-" + kind, twice(kind, n),
                 "two names of up to %d characters" % n,
                 ["same", "different"]),
            Goal("repeated-" + kind, repeated(kind), "one statement twice",
                 ["repeated"]),
            Goal("respelled-" + kind, respelled(kind),
                 "one statement twice, with and without prefix",
                 ["repeated"]),
            Goal("data-" + kind, data(kind), "one argument",
                 ["structure", "other"]),
            Goal("nested-" + kind, nested(
                kind, WORDS[:VALID], (("i18n", "translate", ""),
                                      ("metal", "define-macro", "m"),
                                      ("metal", "use-macro", "m"),
                                      ("tal", "content", "v"))),
                 "two elements", ["inner", "sibling"]),
        ]
        if t:
            out.append(Goal("triples-" + kind,
                            sets(kind, 3, WORDS[:VALID], SOME),
                            "up to three statements on an element",
                            ["valid", "invalid"]))
    out.append(Goal("unknown", unknown("html", 10 if t else 10),
                    "names of up to 10 characters", ["known", "unknown"]))
    return out + bad("C18")
