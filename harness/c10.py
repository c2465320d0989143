"""HTML tags are closed where HTML implies it; bad nesting is rejected."""
from harness.around import more
from harness.common import *  # noqa: F401,F403
from zope.tal.htmltalparser import HTMLParseError
from zope.tal.taldefs import TALError

EMPTY = ["base", "meta", "link", "hr", "br", "param", "img", "area",
         "input", "col", "basefont", "isindex", "frame"]
HEADING = ["h1", "h2", "h3", "h4", "h5", "h6"]
ITEM = {"tr": ["tr", "td", "th"], "td": ["td", "th"], "th": ["td", "th"],
        "li": ["li"], "dd": ["dd", "dt"], "dt": ["dd", "dt"]}
BLOCK = ["blockquote", "table", "tr", "th", "td", "thead", "tfoot", "tbody",
         "noframe", "ul", "ol", "li", "dl", "dt", "dd", "div", "nav"]
INLINE = ["b", "span", "a", "em", "x-y", "body"]
TAGS = EMPTY + HEADING + ["p"] + BLOCK + INLINE


class Rejected(Exception):
    pass


class Reference:
    """Where elements end.  stack: (tag, has statements)"""

    def __init__(self):
        self.stack = []
        self.out = []

    def text(self, s):
        self.out.append(s)

    def close(self, implied):
        tag, st = self.stack.pop()
        if implied and st:
            raise Rejected("explicit end tag required")
        white = ""
        if implied and (tag == "p" or tag in HEADING or tag in ITEM):
            # the end tag goes before white space
            text = "".join(self.out)
            kept = text.rstrip()
            white = text[len(kept):]
            self.out = [kept]
        self.out.append("</" + tag + ">" + white)

    def enter(self, tag):
        """Close what the start tag closes."""
        if tag in EMPTY:
            return
        kinds = None
        for k in ITEM:
            if tag == k:
                kinds = ITEM[k]
        close = 0
        if kinds is not None:
            n = 0
            for t, st in reversed(self.stack):
                n += 1
                if t in kinds:
                    close = n
                elif t in BLOCK:
                    break
        elif tag in BLOCK or tag in HEADING or tag == "p":
            n = 0
            for t, st in reversed(self.stack):
                n += 1
                if t in BLOCK:
                    break
                if t == "p":
                    close = n
                elif t in HEADING:
                    raise Rejected("not allowed in a heading")
        for i in range(close):
            self.close(True)

    def start(self, tag, st=False, attr=""):
        self.enter(tag)
        self.out.append("<" + tag + attr + ">")
        if tag not in EMPTY:
            self.stack.append((tag, st))

    def startend(self, tag):
        self.enter(tag)
        self.out.append("<" + tag + " />")

    def end(self, tag):
        if tag in EMPTY:
            raise Rejected("end tag of an empty element")
        there = False
        for t, st in self.stack:
            if t == tag:
                there = True
                break
        if not there:
            raise Rejected("nothing to close")
        while self.stack[-1][0] != tag:
            self.close(True)
        self.close(False)

    def finish(self):
        while self.stack:
            self.close(True)
        return "".join(self.out)


#: a filler of a macro, inside other elements with statements
INSIDE = ('<w tal:condition="c"><w><w metal:define-macro="mm">'
          '(<w metal:define-slot="s">d</w>)</w><w metal:use-macro="mm">'
          '<w tal:define="q v" metal:fill-slot="s">', "</w></w></w></w>")
WRITTEN = ("<w><w><w>(<w>d</w>)</w><w>(<w>", "</w>)</w></w></w>")


def judge(ctx, src, ref, want, values=None, inside=False):
    """Compile and render; compare with what the reference says."""
    out = err = None
    if inside:
        src = INSIDE[0] + src + INSIDE[1]
        if want is not None:
            want = WRITTEN[0] + want + WRITTEN[1]
    try:
        out = render("html", src, values or {"c": True, "v": "V"})
    except (HTMLParseError, TALError) as e:
        err = e
    ctx.observe("out", out)
    ctx.observe("rejected", err is not None)
    if want is None:
        ctx.check(err is not None, "rejected", lambda: ctx.value([src, out]))
        ctx.cover("rejected")
    else:
        ctx.check(out == want, "output",
                  lambda: ctx.value([src, out, want, str(err)]))
        ctx.cover("accepted")


def build(ctx, prefix, n, tags, words, wide=False):
    """Source text of n unknown tags after the prefix."""
    src = []
    ref = Reference()
    rejected = False
    steps = [("start", t, "x") for t in prefix]
    for i in range(n):
        kind = ctx.pick("k%d" % i, ("start", "end", "startend")
                        if wide else ("start", "end"))
        steps.append((kind, ctx.atom("t%d" % i, tags),
                      ctx.pick("w%d" % i, words)))
    for kind, tag, word in steps:
        if kind == "start":
            src.append("<" + tag + ">")
        elif kind == "end":
            src.append("</" + tag + ">")
        else:
            src.append("<" + tag + "/>")
        src.append(word)
        if rejected:
            continue
        try:
            if kind == "start":
                ref.start(tag)
            elif kind == "end":
                ref.end(tag)
            else:
                ref.startend(tag)
        except Rejected:
            rejected = True
        ref.text(word)
    want = None
    if not rejected:
        want = ref.finish()
    return "".join(src), ref, want


PREFIXES = [[], ["p"], ["div", "p", "b"], ["ul", "li"],
            ["ul", "li", "p", "b"], ["table", "tr", "td"],
            ["table", "tbody", "tr", "th", "span"], ["dl", "dt"],
            ["dl", "dd", "ul", "li"], ["h1"], ["h2", "b"],
            ["table", "tr", "td", "table", "tr"],
            ["li", "b", "p"], ["body", "div", "h1"]]


def tags(n, wide, words=("",)):
    def fn(ctx):
        prefix = ctx.pick("prefix", PREFIXES)
        src, ref, want = build(ctx, prefix, n, TAGS, words, wide)
        judge(ctx, src, ref, want)
    return fn


def white(n, inside=False):
    """White space goes after an implied end tag."""
    def fn(ctx):
        prefix = ctx.pick("prefix", PREFIXES[1:9])
        w = ctx.text("w", n, charset.of_chars("x \n\t\xa0"))
        kind = ctx.pick("kind", ("start", "end", "eof", "explicit"))
        ref = Reference()
        src = []
        for t in prefix:
            src.append("<" + t + ">a")
            ref.start(t)
            ref.text("a")
        src.append(w)
        ref.text(w)
        if kind == "eof":
            want = ref.finish()
        else:
            tag = prefix[-1]
            if kind != "explicit":
                tag = ctx.pick("tag", ("p", "li", "td", "tr", "dd", "div",
                                       "table", "ul"))
            want = None
            try:
                if kind == "start":
                    src.append("<" + tag + ">z")
                    ref.start(tag)
                else:
                    src.append("</" + tag + ">z")
                    ref.end(tag)
                ref.text("z")
                want = ref.finish()
            except Rejected:
                pass
        judge(ctx, "".join(src), ref, want, inside=inside)
    return fn


def layers(inside=False):
    """White space where elements of any name end one after the other."""
    def fn(ctx):
        prefix = ctx.pick("prefix", (["table"], ["ul"], ["div", "b"],
                                     ["table", "tbody"], ["dl", "dd"],
                                     ["body"], ["p"]))
        ref = Reference()
        src = []
        for t in prefix:
            src.append("<" + t + ">")
            ref.start(t)
        want = None
        try:
            outer = ctx.atom("outer", TAGS)
            src.append("<" + outer + "> ")
            ref.start(outer)
            ref.text(" ")
            if ctx.flag("inner"):
                inner = ctx.pick("tag", ("tr", "td", "li", "p", "b", "div"))
                src.append("<" + inner + ">x")
                ref.start(inner)
                ref.text("x")
                if ctx.flag("closed"):
                    src.append("</" + inner + ">")
                    ref.end(inner)
            src.append(" \n")
            ref.text(" \n")
            if ctx.flag("end"):
                src.append("</" + prefix[0] + "> z")
                ref.end(prefix[0])
                ref.text(" z")
            want = ref.finish()
        except Rejected:
            pass
        judge(ctx, "".join(src), ref, want, inside=inside)
    return fn


STATEMENTS = ('tal:condition="c"', 'tal:define="a c"', 'tal:omit-tag="n"',
              'metal:define-macro="m"', 'i18n:translate=""',
              'i18n:domain="d"', 'tal:attributes="k v"',
              'tal:content="v"')
SHORT = [["p"], ["div", "b"], ["li", "p"], ["tr", "td"], ["h2", "b"],
         ["dl", "dt"]]


def statements(n, prefixes, sts, inside=False):
    """Elements with statements need their end tag."""
    def fn(ctx):
        prefix = ctx.pick("prefix", prefixes)
        where = ctx.choose("where", len(prefix))
        st = ctx.pick("st", sts)
        attr = ""
        if "attributes" in st:
            attr = ' k="V"'
        ref = Reference()
        src = []
        for i, t in enumerate(prefix):
            if i == where:
                src.append("<" + t + " " + st + ">")
                ref.start(t, True, attr)
            else:
                src.append("<" + t + ">")
                ref.start(t)
        if "content" in st:
            ctx.assume(where == len(prefix) - 1)
            ref.text("V")
        rejected = False
        for i in range(n):
            tag = ctx.atom("t%d" % i, TAGS)
            kind = ctx.pick("k%d" % i, ("start", "end"))
            if "content" in st:
                kind = "end"
            src.append(("<" if kind == "start" else "</") + tag + ">")
            if not rejected:
                try:
                    if kind == "start":
                        ref.start(tag)
                    else:
                        ref.end(tag)
                except Rejected:
                    rejected = True
        for i in range(len(prefix)):
            if ctx.flag("close%d" % i):
                t = prefix[len(prefix) - 1 - i]
                src.append("</" + t + ">")
                if not rejected:
                    try:
                        ref.end(t)
                    except Rejected:
                        rejected = True
        want = None
        if not rejected:
            try:
                want = ref.finish()
            except Rejected:
                pass
        judge(ctx, "".join(src), ref, want,
              {"c": True, "n": False, "v": "V"}, inside)
    return fn


def handled():
    """Empty elements that fail."""
    def fn(ctx):
        tag = ctx.atom("t", EMPTY)
        end = ctx.pick("end", (">", "/>"))
        src = "<b>x<" + tag + ' tal:on-error="h" tal:attributes="k bad"' + \
            end + "y</b>"
        out = render("html", src, {"h": "H", "bad": Raise()})
        ctx.observe("out", out)
        detail = lambda: ctx.value([src, out])  # noqa: E731
        ctx.check(out.startswith("<b>x<" + tag) and "H" in out
                  and out.endswith("y</b>"), "handled", detail)
        ctx.check("</" + tag + ">" not in out, "end tag", detail)
    return fn


def empties():
    """Elements with an empty content model, with statements."""
    def fn(ctx):
        tag = ctx.atom("t", EMPTY)
        st = ctx.pick("st", ("", ' tal:condition="c"', ' tal:omit-tag="n"',
                             ' tal:attributes="k v"', ' tal:replace="v"',
                             ' tal:repeat="r s"'))
        form = ctx.pick("form", ("<%s>", "<%s/>", "<%s />"))
        a, b = form.split("%s")
        inside = ctx.pick("inside", ("p", "h1", "td", "b"))
        src = "<" + inside + ">x" + a + tag + st + b + "y</" + inside + ">"
        e = " />" if "/" in form else ">"
        one = "<" + tag + e
        if "attributes" in st:
            one = "<" + tag + ' k="V"' + e
        elif "replace" in st:
            one = "V"
        elif "repeat" in st:
            one = one + one
        want = "<" + inside + ">x" + one + "y</" + inside + ">"
        out = render("html", src, {"c": True, "n": False, "v": "V",
                                   "s": ["1", "2"]})
        ctx.observe("out", out)
        ctx.check(out == want, "empty element",
                  lambda: ctx.value([src, out, want]))
        ctx.cover("empty")
    return fn


def upper():
    """Tags are written in any case."""
    def fn(ctx):
        pairs = ctx.pick("pair", (("P", "p"), ("Li", "LI"), ("B", "b"),
                                  ("TD", "Td")))
        nxt = ctx.pick("next", ("P", "lI", "tD", "B", "DIV", "Hr"))
        src = "<" + pairs[0] + ">x<" + nxt + ">y"
        ref = Reference()
        ref.start(pairs[0].lower())
        ref.text("x")
        ref.start(nxt.lower())
        ref.text("y")
        want = None
        try:
            if ctx.flag("close"):
                src += "</" + pairs[1] + ">"
                ref.end(pairs[1].lower())
            want = ref.finish()
        except Rejected:
            pass
        judge(ctx, src, ref, want)
    return fn


DEEP = (["div", "b"], ["ul", "li"], ["table", "tr", "td"], ["dl", "dd"],
        ["span", "em"], ["blockquote", "p"], ["ol", "li", "b"])


def deep():
    """A tag of any name far inside, and one end tag for all of it."""
    def fn(ctx):
        size = ctx.pick("size", (3, 5, 8))
        first = ctx.choose("first", len(DEEP))
        step = ctx.choose("step", 3)
        ref = Reference()
        src = ["<body>"]
        ref.start("body")
        want = None
        try:
            for i in range(size):
                for t in DEEP[(first + i * step) % len(DEEP)]:
                    src.append("<" + t + ">%d" % i)
                    ref.start(t)
                    ref.text(str(i))
            tag = ctx.atom("tag", TAGS)
            if ctx.flag("end"):
                src.append("</" + tag + "> ")
                ref.end(tag)
            else:
                src.append("<" + tag + "> ")
                ref.start(tag)
            ref.text(" ")
            src.append("</body>")
            ref.end("body")
            want = ref.finish()
        except Rejected:
            pass
        judge(ctx, "".join(src), ref, want)
    return fn


def goals(tier):
    t = tier == "thorough"
    both = ["accepted", "rejected"]
    return [
        Goal("one", tags(1, True, ("", "y", " ")), "one tag of any name "
             "after %d contexts" % len(PREFIXES), both),
        Goal("two", tags(2, t), "two tags of any names", both),
        Goal("deep", deep(), "a tag of any name inside up to 24 others",
             both),
        Goal("white", white(3 if t else 2), "white space up to %d"
             % (3 if t else 2), both),
        Goal("layers", layers(), "a tag of any name, and one in it, white "
             "space after them", both),
        Goal("statements", statements(
            1, [p for p in PREFIXES if p] if t else SHORT, STATEMENTS[:1]),
             "one element with a statement, one tag of any name", both),
        Goal("kinds", statements(0, SHORT, STATEMENTS),
             "every kind of statement", both),
        Goal("white-inside", white(1, True), "white space up to 1, in a "
             "filler", both),
        Goal("layers-inside", layers(True), "the same in a filler", both),
        Goal("kinds-inside", statements(0, SHORT, STATEMENTS, True),
             "the same in a filler", both),
        Goal("statements-inside", statements(
            1, SHORT[:4], STATEMENTS[:2], True), "the same in a filler",
             both),
        Goal("empties", empties(), "all empty elements", ["empty"]),
        Goal("handled", handled(), "all empty elements", []),
        Goal("upper", upper(), "mixed case", ["accepted"]),
    ] + more("C10", t, kinds=("html",)) + ([Goal("three", tags(3, False), "three tags of any names", both,
               3)] if t else [])
