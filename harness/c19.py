"""Source annotations name the file and line of what follows."""
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import find_fillers
from harness.tree import find_macros
from harness.tree import layout

SEP = "=" * 78
TEXT = charset.of_chars("ab \n\t\xa0]")
DECLS = ('<?xml version="1.0" ?>', '<?xml version="1.0"?>\n')


def comment(file, line):
    where = file if line is None else "%s (line %d)" % (file, line)
    return "<!--\n%s\n%s\n%s\n-->" % (SEP, where, SEP)


class Events:
    """What happens when a page is rendered, one thing after another.

    ("file", name), ("line", number), ("text", text)
    """

    def __init__(self, kind, values, macros):
        self.kind = kind
        self.values = values
        self.macros = macros
        self.frame = None
        self.out = []

    def nodes(self, nodes):
        for n in nodes:
            if isinstance(n, E):
                self.elem(n)
            else:
                self.out.append(("text", n))

    def start(self, e):
        self.out.append(("line", e.pos[0]))
        if e.file is not None:
            self.out.append(("file", e.file))

    def elem(self, e, used=False):
        st = e.st
        use = st.get("use_macro") or st.get("extend_macro")
        if st:
            self.out.append(("line", e.pos[0]))
        if use:
            saved = self.frame
            self.frame = (find_fillers(e.kids, {}), saved,
                          used and "extend_macro" in st)
            if self.values.get(use) is DEFAULT:
                self.body(e)
            else:
                m = self.macros[use]
                self.start(m)
                if "extend_macro" in m.st:
                    self.elem(m, True)
                else:
                    self.body(m)
            self.frame = saved
            self.after(e)
        elif "define_slot" in st:
            filler = None
            f = self.frame
            while f is not None:
                filler = f[0].get(st["define_slot"])
                if filler is not None:
                    break
                f = f[1] if f[2] else None
            if filler is not None:
                saved = self.frame
                self.frame = f[1]
                self.start(filler)
                self.body(filler)
                self.frame = saved
            else:
                self.body(e)
            self.after(e)
        elif "define_macro" in st or "fill_slot" in st:
            self.start(e)
            self.body(e)
        else:
            self.body(e)

    def after(self, e):
        self.out.append(("line", e.end))
        if e.file is not None:
            self.out.append(("file", e.file))

    def body(self, e):
        st = e.st
        n = 1
        if "condition" in st:
            n = 1 if self.values[st["condition"]] else 0
        if "repeat" in st:
            n = len(self.values[st["repeat"][1]])
        for i in range(n):
            if i:
                # back at the repeated element
                self.out.append(("line", e.pos[0]))
            if "omit" not in st and not e.ns:
                self.out.append(("text", "<" + e.tag + ">"))
            if "content" in st:
                self.out.append(("text", self.values[st["content"][1]]))
            else:
                self.nodes(e.kids)
            if "omit" not in st and not e.ns:
                self.out.append(("text", "</" + e.tag + ">"))


def blank(c):
    return c.isspace()


def written(events, on):
    """The output, with a comment before the text that needs it."""
    out = []
    line = None
    file = None
    pending = False
    for what, x in events:
        if what == "line":
            line = x
        elif what == "file":
            file = x
            pending = True
        else:
            for c in x:
                # the line is that of the element last begun
                if pending and on and not blank(c):
                    out.append(comment(file, line))
                    pending = False
                out.append(c)
    return "".join(out)


def strip_comments(s, marks):
    """Without the annotations."""
    out = []
    while True:
        i = s.find("<!--\n" + SEP)
        if i < 0:
            break
        j = s.find("-->", i) + 3
        out.append(s[:i])
        marks.append(s[i:j])
        s = s[j:]
    out.append(s)
    return out


def normal(pieces, marks):
    """Comments moved over the white space that follows them.

    Where in the white space a comment stands does not matter.
    """
    out = [pieces[0]]
    for piece, mark in zip(pieces[1:], marks):
        i = 0
        while i < len(piece) and blank(piece[i]):
            i += 1
        out.append(piece[:i] + mark + piece[i:])
    return "".join(out)


def compare(ctx, kind, nodes, values, others=(), files=("P", "L", "M"),
            decl="", lead="", exact=True):
    head = decl + lead + "<doc%s>" % (NS if kind == "xml" else "")
    src = layout(nodes, kind, head, "\n</doc>", files[0])
    macros = find_macros(nodes)
    engine = Engine(values, {})
    for other, name in zip(others, files[1:]):
        text = layout(other, kind, "<doc%s>" % (NS if kind == "xml" else ""),
                      "</doc>", name)
        engine.macros.update(compile_(kind, text, engine, name)[1])
        find_macros(other, macros)
    program, own = compile_(kind, src, engine, files[0])
    engine.macros.update(own)
    plain = run(program, own, engine)
    log = engine.log
    engine.log = []
    out = run(program, own, engine, sourceAnnotations=1)
    again = run(program, own, engine, sourceAnnotations=0)
    ctx.observe("src", src)
    ctx.observe("out", out)
    detail = lambda: ctx.value([src, out, plain])  # noqa: E731
    marks = []
    pieces = strip_comments(out, marks)
    none = []
    strip_comments(plain, none)
    ctx.check(none == [] and again == plain, "annotations are off", detail)
    ctx.check("".join(pieces) == plain, "output otherwise", detail)
    ctx.check(engine.log == log + log, "evaluations", detail)
    if not exact:
        return marks
    ref = Events(kind, values, macros)
    if files[0] is not None:
        ref.out.append(("file", files[0]))
    if decl:
        # no comment before the declaration
        ref.out.pop()
        ref.out.append(("text", decl))
        if files[0] is not None:
            ref.out.append(("file", files[0]))
    ref.out.append(("text", lead + "<doc>"))
    ref.nodes(nodes)
    ref.out.append(("text", "\n</doc>"))
    want = written(ref.out, True)
    detail = lambda: ctx.value([src, out, want])  # noqa: E731
    ctx.check(plain == written(ref.out, False), "plain output", detail)
    ctx.check(normal(pieces, marks) == want, "annotated output", detail)
    return marks


def text(ctx, name, n):
    return ctx.text(name, n, TEXT)


def page(kind, n):
    """Texts and declarations around a macro use."""
    def fn(ctx):
        a, b, c, d = [text(ctx, x, n) for x in "abcd"]
        where = ctx.pick("where", ("library", "own", "none"))
        m = E("m", [b, E("i", ["x"], condition="one"), "y"],
              define_macro="m")
        nodes = [a]
        others = []
        if where == "library":
            others = [[c, m]]
        elif where == "own":
            nodes.append(m)
        nodes += [c]
        if where != "none":
            nodes.append(E("u", ["."], use_macro="m"))
        nodes.append(d)
        decl = ctx.pick("decl", ("",) + DECLS)
        marks = compare(ctx, kind, nodes, {"one": "1"}, others, decl=decl)
        ctx.cover("annotated" if marks else "none")
    return fn


#: not a declaration, but it looks similar
SIMILAR = ('<?xml-stylesheet href="x"?>', '<?xml-stylesheet?>',
           "<!-- <?xml ?> -->", "<?php xml?>", "<?xmlns x?>")
SIMILAR_HTML = ('x<?xml version="1.0"?>', "<!DOCTYPE a><?xml a?>",
                '<?xml:namespace prefix="o" />', "<?xml>")


def similar(kind):
    """Declarations after white space, and what is none."""
    def fn(ctx):
        texts = ("",) + SIMILAR
        decls = ("",) + DECLS
        if kind == "html":
            texts += SIMILAR_HTML
            decls += ("\n" + DECLS[0], " \t\n" + DECLS[1])
        decl = ctx.pick("decl", decls)
        at = ctx.choose("at", 3)
        t = [""] * 3
        t[at] = ctx.pick("t", texts)
        m = E("m", [ctx.text("a", 1, TEXT), t[1], "y"], define_macro="m")
        nodes = [E("u", ["."], use_macro="m"), t[2], "z"]
        # only the first one can be a declaration
        compare(ctx, kind, nodes, {}, [[m]], decl=decl, lead=t[0])
        ctx.cover("similar" if t[at] else "none")
    return fn


def slots(kind, n):
    """Slots and fillers."""
    def fn(ctx):
        a, b, c = [text(ctx, x, n) for x in "abc"]
        s = E("s", [b, E("j", [], content=("", "v"))], define_slot="s")
        around = ctx.pick("around", ("none", "loop", "omit", "line"))
        if around == "loop":
            s.st["repeat"] = ("r", "q")
        elif around == "omit":
            s.st["omit"] = ""
        m = E("m", ["\n" if around == "line" else "", s, a, "\n<i>z</i>"],
              define_macro="m")
        kids = ["."]
        f = ctx.pick("filler", ("none", "plain", "deep", "loop"))
        if f != "none":
            e = E("f", [c, "F"], fill_slot="s")
            if f == "loop":
                e.st["repeat"] = ("r", "q")
            kids = ["\n.", e]
            if f == "deep":
                kids = [E("w", ["\n.", e, "\n"])]
            bare = ctx.pick("bare", ("", "macro", "filler", "namespace")) \
                if around == "none" and f == "plain" else ""
            if bare == "filler":
                e.st["omit"] = ""
            elif bare == "macro":
                m.st["omit"] = ""
            elif bare:
                e.tag = m.tag = "tal:block"
        use = E("u", kids, use_macro="m")
        if ctx.flag("default"):
            use.st["use_macro"] = "dflt"
        nodes = ["A\n", use, "B"]
        if f != "loop" and ctx.flag("loop"):
            nodes = [E("o", nodes, repeat=("r", "q"))]
        compare(ctx, kind, nodes, {"v": "V", "q": ["1", "2"],
                                   "dflt": DEFAULT}, [[m]])
        ctx.cover(f)
    return fn


def chain(kind, n):
    """Macros that use macros of other files."""
    def fn(ctx):
        a, b = [text(ctx, x, n) for x in "ab"]
        inner = E("n", ["N", E("s", ["d"], define_slot="s")],
                  define_macro="n")
        kids = [E("f", ["f", E("t", ["t"], define_slot="t")],
                  fill_slot="s")] if ctx.flag("fill") else []
        m = E("m", [a, E("u", kids, use_macro="n"), b, "M"],
              define_macro="m")
        kids = [E("f", ["g"], fill_slot="t")] if ctx.flag("fill2") else []
        if ctx.flag("extend"):
            m = E("x", m.kids[1].kids, define_macro="m", extend_macro="n")
        nodes = ["\n", E("u", kids, use_macro="m"), "\n",
                 E("u", [], use_macro="n"), b]
        compare(ctx, kind, nodes, {}, [[m], ["\n\n", inner]],
                files=ctx.pick("files", (("P", "L", "M"), ("P", "P", "M"),
                                         ("P", "L", "L"))))
        ctx.cover("chain")
    return fn


def handled(kind, n):
    """Errors and units: the rest of the output stays the same."""
    def fn(ctx):
        a = text(ctx, "a", n)
        flags = [ctx.sbool("f%d" % i) for i in range(2)]
        m = E("m", ["m", E("s", [a, E("i", content=("", "bad"))],
                           define_slot="s"), "n"], define_macro="m")
        use = E("u", [E("f", ["f"], fill_slot="s")] if ctx.flag("fill")
                else [], use_macro="m")
        how = ctx.pick("how", ("around", "macro", "slot", "inside"))
        if how == "macro":
            m.st["on_error"] = ("", "v")
        elif how == "slot":
            m.kids[1].st["on_error"] = ("", "v")
        elif how == "inside":
            m.kids[1].kids[1].st["on_error"] = ("", "v")
        nodes = ["A", E("g", [use, "x"], on_error=("", "v")), "B",
                 E("u", use_macro="n")]
        other = E("n", ["N"], define_macro="n")
        engine_values = {"v": "V", "bad": Maybe(flags)}
        compare(ctx, kind, nodes, engine_values, [[m], [other]],
                exact=False)
        ctx.cover(how)
    return fn


class Maybe(Faulty):
    """Fails or not, the same way in every rendering."""

    def __init__(self, flags):
        Faulty.__init__(self, flags, "B")

    def fails(self, n):
        return bool(self.flags[0])


def files(kind, n):
    """The name of the file."""
    def fn(ctx):
        name = ctx.text("name", n, ANY - charset.of_chars("-=<>\n"),
                        minlen=1)
        m = E("m", ["x"], define_macro="m")
        nodes = ["A", E("u", use_macro="m"), "B"]
        which = ctx.pick("which", ("page", "library", "none"))
        names = {"page": (name, "L"), "library": ("P", name),
                 "none": (None, None)}[which]
        marks = compare(ctx, kind, nodes, {}, [[m]], files=names)
        ctx.check((len(marks) == 0) == (which == "none"), "annotated",
                  lambda: ctx.value([marks]))
        ctx.cover(which)
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        n = 2 if t else 1
        out += [
            Goal("page-" + kind, page(kind, n),
                 "texts of up to %d characters" % n, ["annotated"]),
            Goal("similar-" + kind, similar(kind), "one declaration, one "
                 "other instruction", ["similar", "none"]),
            Goal("slots-" + kind, slots(kind, n),
                 "texts of up to %d characters" % n,
                 ["none", "plain", "deep", "loop"]),
            Goal("chain-" + kind, chain(kind, n), "two macros, three files",
                 ["chain"]),
            Goal("handled-" + kind, handled(kind, n), "two failures",
                 ["around", "macro", "slot", "inside"]),
            Goal("files-" + kind, files(kind, n), "names of up to %d "
                 "characters" % n, ["page", "library", "none"]),
        ]
    return out
