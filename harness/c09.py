"""Expanding macros first and rendering later gives the same page."""
from harness.c05 import head_of
from harness.c08 import PAGE
from harness.c08 import bare
from harness.c08 import filler
from harness.c08 import fillers
from harness.c08 import macro
from harness.c08 import simple
from harness.c08 import slot
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import find_fillers
from harness.tree import find_macros
from harness.tree import layout
from zope.tal.taldefs import METALError

ASSUMPTIONS = ["a use whose macro is the default value has no filler that "
               "opens the slot it fills",
               "no slot is opened twice, or again in an extension"]


class Library:
    """Macros of other templates."""

    def __init__(self, kind, others, values):
        self.kind = kind
        self.values = values
        self.macros = {}
        self.trees = {}
        for nodes in others:
            text = layout(nodes, kind, head_of(kind), "</doc>")
            self.macros.update(compile_(kind, text, Engine())[1])
            find_macros(nodes, self.trees)

    def render(self, src, **options):
        engine = Engine(self.values, dict(self.macros))
        program, own = compile_(self.kind, src, engine)
        engine.macros.update(own)
        out = run(program, own, engine, strictinsert=0, wrap=0,
                  **options)
        return out, engine


def two_stages(ctx, kind, nodes, others, values):
    lib = Library(kind, others, values)
    src = layout(nodes, kind, head_of(kind), "</doc>")
    once, e1 = lib.render(src, tal=0)
    ctx.observe("once", once)
    detail = lambda: ctx.value([src, once])  # noqa
    twice, e2 = lib.render(once, tal=0)
    ctx.check(twice == once, "expanding again",
              lambda: ctx.value([src, once, twice]))
    page, e3 = lib.render(src)
    later, e4 = lib.render(once)
    ctx.check(later == page, "rendering later",
              lambda: ctx.value([src, once, page, later]))
    ctx.check([x for x in e3.log if x not in e1.log] ==
              [x for x in e4.log if x not in e1.log], "evaluations", detail)
    plain, e5 = lib.render(once, metal=0)
    ctx.check(plain == page, "rendering without macros",
              lambda: ctx.value([src, once, page, plain]))
    ctx.check(e5.messages == e3.messages, "messages", detail)
    ctx.check([x for x in e3.log if x not in e1.log] ==
              [x for x in e5.log if x not in e1.log], "statements", detail)
    return src, once


# what expansion gives

class Expander:
    """frames: pairs of the fillers of a use and whether it extends."""

    def __init__(self, kind, trees):
        self.kind = kind
        self.trees = trees
        self.frames = []

    def nodes(self, nodes):
        out = []
        for n in nodes:
            if isinstance(n, E):
                out.append(self.elem(n, None))
            else:
                out.append(n)
        return "".join(out)

    def elem(self, e, root):
        st = e.st
        used = st.get("use_macro") or root and st.get("extend_macro")
        if used:
            self.frames.append((find_fillers(e.kids, {}),
                                "extend_macro" in st))
            try:
                return self.elem(self.trees[used], root or used)
            finally:
                self.frames.pop()
        if "define_slot" in st:
            i = len(self.frames) - 1
            while i >= 0:
                fillers, extending = self.frames[i]
                f = fillers.get(st["define_slot"])
                if f is not None:
                    saved = self.frames
                    self.frames = saved[:i]
                    try:
                        return self.write(f, None)
                    finally:
                        self.frames = saved
                if not extending:
                    break
                i -= 1
        return self.write(e, root)

    def write(self, e, root):
        out = ["<" + e.tag]
        inner = [f for f in self.frames[1:] if not f[1]]
        for name, value in e.all_attrs():
            if name.startswith("metal:") and self.frames:
                if name != "metal:define-macro" or root is None or inner:
                    continue
                name, value = "metal:use-macro", root
            if value is None:
                out.append(" " + name)
            else:
                out.append(" " + name + '="' + esc_attr(value) + '"')
        out.append(">" + self.nodes(e.kids) + "</" + e.tag + ">")
        return "".join(out)


def unfilled(text):
    """Without the marks of fillers."""
    for s in ("s1", "s2", "s3"):
        text = text.replace(' metal:fill-slot="' + s + '"', "")
    return text


def expanded(ctx, kind, nodes, others, src, once):
    trees = {}
    for o in others:
        find_macros(o, trees)
    want = head_of(kind) + Expander(kind, trees).nodes(nodes) + "</doc>"
    ctx.check(unfilled(once) == unfilled(want), "expansion",
              lambda: ctx.value([src, once, want]))


def exact(kind, chars):
    """The text of the expansion."""
    def fn(ctx):
        x = ctx.chars("x", 1, chars)
        y = ctx.chars("y", 1, LETTERS)
        values = AnyValue()
        shown = E("u", ["."], [("t", x)], attributes=[("v", "x" + x + "x")],
                  **ctx.pick("more", ({}, {"domain": "d" + x})))
        s1 = E("o", ["D", shown], define_slot="s1", condition="y" + x)
        m1 = macro("m1", ["[", s1, "|", E("v", [
            E("o", ["D2", shown], define_slot="s2")], repeat=("r", "s"))],
            **ctx.pick("st", ({}, {"define": [("", "q", "q")]},
                              {"content": ("", "q")},
                              {"translate": "", "domain": "d"})))
        inner = E("z", ["gone", E("f", ["F", E(
            "o", ["D3"], define_slot="s2")], fill_slot="s1")],
            use_macro="m1")
        m2 = macro("m2", ["(", inner, E("o", [shown, "D4"],
                                        define_slot="s1"), ")"])
        kids = ["gone"]
        for s in ("s1", "s2"):
            k = ctx.pick("fill" + s, (None, "plain", "use"))
            if k == "plain":
                kids.append(E("f", ["F", y, shown], [("k", x)],
                              fill_slot=s, attributes=[("k", "z" + x)]))
            elif k == "use":
                kids.append(E("f", ["F", E("q", ["gone"], use_macro="m1")],
                              fill_slot=s))
        page = E("p", kids, [("gone", "1")], use_macro=ctx.pick(
            "which", ("m1", "m2")), attributes=[("gone", "gone")])
        nodes = ["A", E("w", [page, "B"], condition="z" + x), shown]
        others = [[m1, m2]]
        lib = Library(kind, others, values)
        src = layout(nodes, kind, head_of(kind), "</doc>")
        once, e1 = lib.render(src, tal=0)
        ctx.observe("once", once)
        want = head_of(kind) + Expander(kind, lib.trees).nodes(nodes) + \
            "</doc>"
        ctx.check(once == want, "expansion",
                  lambda: ctx.value([src, once, want]))
        off, e6 = lib.render(src, tal=0, metal=0)
        ctx.check(off == head_of(kind) + Expander(kind, {}).nodes(
            strip(nodes)) + "</doc>", "both off",
            lambda: ctx.value([src, off]))
        ctx.check(e6.log == [], "nothing evaluated")
        ctx.cover("exact")
    return fn


def strip(nodes):
    """The same tree with macro uses as ordinary attributes."""
    out = []
    for n in nodes:
        if isinstance(n, E):
            c = E(n.tag, strip(n.kids), n.all_attrs())
            out.append(c)
        else:
            out.append(n)
    return out


class AnyValue:
    """Every name has a value."""

    def __getitem__(self, name):
        if name == "s":
            return ["1", "2"]
        return "(" + name + ")"

    def get(self, name, default):
        return default


def values_for(ctx):
    return {"x": ctx.chars("x", 1, LETTERS), "seq": ["1", "2"], "no": False,
            "bad": Raise(), "y": "Y", "c": ctx.sbool("c")}


def use(kind, k1, k2):
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", E("v", [slot("s2")],
                                                  condition="c"), "]"],
                   **ctx.pick("st", ({}, {"attributes": [("n", "x")]},
                                     {"repeat": ("y", "seq")},
                                     {"content": ("", "x")},
                                     {"translate": ""})))
        page = E("p", fillers(ctx, "p", k1, k2), [("k", "gone")],
                 use_macro="m1")
        own = ctx.flag("own")
        nodes = [page, E("u", content=("", "y"))]
        others = [[simple()]]
        if own:
            nodes.append(E("div", [m1], condition="no"))
        else:
            others[0].append(m1)
        src, once = two_stages(ctx, kind, nodes, others, values)
        expanded(ctx, kind, nodes, others + [nodes], src, once)
        ctx.cover("use")
    return fn


def extend(kind, mk1, mk2, pk):
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        m2 = macro("m2", fillers(ctx, "m", mk1, mk2), extend_macro="m1")
        m3 = macro("m3", fillers(ctx, "n", (None, "plain", "tal"),
                                 (None,)), extend_macro="m2")
        nodes = [E("p", fillers(ctx, "p", pk, (None, "plain")),
                   use_macro=ctx.pick("which", ("m2", "m3")))]
        others = [[m1, m2, m3, simple()]]
        src, once = two_stages(ctx, kind, nodes, others, values)
        expanded(ctx, kind, nodes, others, src, once)
        ctx.cover("extend")
    return fn


def inside(kind, kinds):
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        k = ctx.pick("inner", kinds)
        inner = ["gone"]
        if k is not None:
            inner.append(filler(k, "s1", "m"))
        m2 = macro("m2", ["(", E("g", inner, use_macro="m1"), ")"])
        if k is None or not k.startswith("reopen"):
            m2.kids.append(slot("s1", "own"))
        nodes = [E("p", fillers(ctx, "p", (None, "plain", "use-fill"),
                                (None, "plain")), use_macro="m2")]
        others = [[m1, m2, simple()]]
        src, once = two_stages(ctx, kind, nodes, others, values)
        expanded(ctx, kind, nodes, others, src, once)
        ctx.cover("inside")
    return fn


MIXED = {
    False: {"inner": (None, "m4"), "m3": (None, "plain"),
            "page": (None, "plain", "m1")},
    True: {k: (None, "plain", "m1", "m4") for k in ("inner", "m3", "page")},
}


def mixed(kind, kinds):
    """Extensions and uses of one another."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "]"])
        m4 = macro("m4", [filler("plain", "s1", "e")] if ctx.flag("m4")
                   else [], extend_macro="m1")

        def fill(mark, s):
            k = ctx.pick(mark, kinds[mark])
            if k is None:
                return ["gone"]
            if k == "plain":
                return [filler("plain", s, mark)]
            return [E("f", ["F" + mark, E("q", use_macro=k)], fill_slot=s)]
        inner = fill("inner", "s1")
        m2 = macro("m2", ["(", E("g", inner, use_macro=ctx.pick(
            "third", ("m1", "m4"))), E("o", ["D"], define_slot="s3"), ")"])
        m3 = macro("m3", fill("m3", "s3"), extend_macro="m2")
        m5 = macro("m5", [], extend_macro="m3")
        nodes = [E("p", fill("page", "s3"), use_macro=ctx.pick(
            "which", ("m2", "m3", "m5")))]
        if ctx.flag("in"):
            nodes = [E("d", [E("f", nodes, fill_slot="s1")],
                       use_macro="m1")]
        others = [[m1, m2, m3, m4, m5]]
        src, once = two_stages(ctx, kind, nodes, others, values)
        expanded(ctx, kind, nodes, others, src, once)
        ctx.cover("mixed")
    return fn


def default(kind):
    def fn(ctx):
        values = values_for(ctx)
        values["dm"] = DEFAULT
        f = ctx.pick("fill", (None, "plain", "tal", "use"))
        kids = ["keep", E("u", content=("", "x"))]
        if f:
            kids.append(filler(f, "s1", "p"))
        e = E("p", kids, [("k", "lit")], use_macro="dm",
              **ctx.pick("st", ({}, {"attributes": [("k", "x")]},
                                {"condition": "c"})))
        nodes = [e]
        if ctx.flag("filler"):
            nodes = [E("q", [E("f", [e], fill_slot="s1")], use_macro="m0")]
        two_stages(ctx, kind, nodes, [[simple()]], values)
        ctx.cover("default")
    return fn


def in_place(kind):
    """An extending definition in the page itself.

    Known: its expansion has both define-macro and use-macro, which is not
    accepted when the result is compiled."""
    def fn(ctx):
        values = values_for(ctx)
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        m2 = macro("m2", fillers(ctx, "m", (None, "plain", "tal"),
                                 (None, "plain")), extend_macro="m1")
        lib = Library(kind, [[m1, simple()]], values)
        src = layout([m2], kind, head_of(kind), "</doc>")
        once, e1 = lib.render(src, tal=0)
        try:
            compile_(kind, once, Engine())
        except METALError as e:
            if "define-macro may not be used with use-macro" in str(e):
                ctx.check(False, "compiling an extension expanded in place",
                          lambda: ctx.value([src, once]))
                return
            raise
        page, e3 = lib.render(src)
        later, e4 = lib.render(once)
        ctx.check(later == page, "rendering later",
                  lambda: ctx.value([src, once, page, later]))
    return fn


def prefixes(kind):
    """Other prefixes for the namespaces."""
    def fn(ctx):
        metal = ctx.pick("metal", ("metal", "m", "macro-x"))
        tal = ctx.pick("tal", ("tal", "t"))
        m1 = macro("m1", ["[", slot("s1"), "|", slot("s2"), "]"])
        m2 = macro("m2", [E("f", ["F"], fill_slot="s1", content=("", "x"))],
                   extend_macro="m1")
        nodes = [m1, E("p", [filler("tal", "s2", "p")],
                       use_macro=ctx.pick("which", ("m1", "m2")))]
        nodes = [E("w", nodes, condition="x"), E("p", ["gone"],
                                                 use_macro="m1")]
        values = values_for(ctx)

        def swap(text):
            # the names of one prefix end in those of the other
            text = text.replace("metal:", "@:").replace(":metal=", ":@=")
            text = text.replace("tal:", tal + ":").replace(
                ":tal=", ":" + tal + "=")
            return text.replace("@", metal)

        lib = layout([m1, m2], kind, "<doc" + NS + ">", "</doc>")
        src = layout(nodes, kind, "<doc" + NS + ">", "</doc>")
        outs = []
        for change in (str, swap):
            engine = Engine(values)
            engine.macros = dict(compile_(kind, change(lib), Engine())[1])
            program, own = compile_(kind, change(src), engine)
            outs.append(run(program, own, engine, strictinsert=0, wrap=0,
                            tal=0))
        ctx.observe("outs", outs)
        ctx.check(outs[1] == swap(outs[0]), "prefixes",
                  lambda: ctx.value([swap(src), outs]))
        ctx.cover("prefixes")
    return fn


def without(kind):
    """Elements without content."""
    def fn(ctx):
        m1, page = bare(ctx, kind)
        if ctx.flag("elsewhere"):
            nodes, others = ["A", page, "B"], [[m1]]
        else:
            nodes, others = [page, "|", m1], []
        two_stages(ctx, kind, nodes, others, values_for(ctx))
        ctx.cover("end")
    return fn


def goals(tier):
    t = tier == "thorough"
    out = []
    for kind in ("html", "xml"):
        dom = charset.ANY - charset.of_chars("\0; \t\n\r\x0b\x0c")
        if kind == "xml":
            dom = dom & XML
        dom = dom - charset.predicate("isspace")
        out.append(Goal("exact-" + kind, exact(kind, dom),
                        "two macros, two slots, one unknown character in "
                        "every argument", ["exact"]))
        out.append(Goal("use-" + kind, use(
            kind, PAGE, PAGE if t else (None, "plain", "tal")),
            "a macro with two slots", ["use"]))
        out.append(Goal("extend-" + kind, extend(
            kind, PAGE if t else (None, "plain", "tal", "use-fill", "deep"),
            (None, "plain", "tal"),
            (None, "plain", "use-fill")),
            "one or two extensions, two slots", ["extend"]))
        out.append(Goal("inside-" + kind, inside(kind, PAGE + (
            "reopen", "reopen-other")),
                        "a macro using a macro", ["inside"]))
        out.append(Goal("mixed-" + kind, mixed(kind, MIXED[t]),
                        "a macro that extends one that uses a third, "
                        "fillers that use macros", ["mixed"]))
        out.append(Goal("prefixes-" + kind, prefixes(kind),
                        "%s: a use and an extension, 3 x 2 prefixes" % kind,
                        ["prefixes"]))
        out.append(Goal("without-" + kind, without(kind),
                        "elements without content", ["end"]))
        out.append(Goal("default-" + kind, default(kind),
                        "the default value", ["default"]))
        out.append(Goal("in-place-" + kind, in_place(kind),
                        "an extending definition"))
    return out
