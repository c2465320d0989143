"""Rendering options change only what they name."""
import sys

from harness.c05 import FORMS
from harness.c05 import head_of
from harness.around import OPTIONS as OPTIONS_AROUND
from harness.around import more
from harness.common import *  # noqa: F401,F403
from harness.tree import E
from harness.tree import Ref
from harness.tree import find_macros
from harness.tree import layout
from harness.tree import resolve
from harness.tree import shorten

ASSUMPTIONS = ["no macro is used while statements are shown (how macro "
               "statements are shown is part of the property on expansion)"]

TEXT = charset.of_chars("ab<&\"$ ")

#: statements of one element
FIRST = ({}, {"define": [("", "x", "v")]}, {"define": [("global", "x", "v")]},
         {"condition": "c"}, {"repeat": ("x", "q")},
         {"on_error": ("", "u")}, {"domain": "dom"})
SECOND = ({}, {"attributes": [("k", "v"), ("n", "u")]},
          {"i18n_attributes": [("k", None)]},
          {"i18n_attributes": [("k", "k-id")]},
          {"i18n_attributes": [("k", None), ("l", None)],
           "attributes": [("k", "msg")]},
          {"attributes": [("k", "msg"), ("l", "dflt"), ("o", "none")]},
          {"attributes": [("k", "none"), ("l", "u")]},
          {"omit": ""}, {"omit": "d"})
THIRD = ({}, {"content": ("", "v")}, {"content": ("structure", "s")},
         {"content": ("", "dflt")}, {"content": ("", "msg")},
         {"content": ("", "v"), "translate": ""},
         {"replace": ("", "v")}, {"replace": ("", "dflt")},
         {"replace": ("structure", "msg")},
         {"translate": ""}, {"translate": "t-id"},
         {"translate": "t-id", "data": "map"})


class Shown(Ref):
    """Statements stay on the tags that are written."""

    def tag(self, e, attrs, closed):
        attrs = list(attrs)
        out = []
        statements = [n for n, v in e.statements()]
        for name, value in e.all_attrs():
            if name in statements:
                out.append((name, value))
                continue
            for a in attrs:
                if a[0] == name:
                    out.append(a)
                    attrs.remove(a)
                    break
        out += attrs
        return Ref.tag(self, e, out, closed)


class NoService(Ref):
    """Messages are given by their id."""

    def translate(self, msgid, mapping, default, e):
        return str(msgid)


def hidden(nodes, kind):
    """The template's text without statements."""
    out = []
    for n in nodes:
        if not isinstance(n, E):
            out.append(n)
            continue
        inner = hidden(n.kids, kind)
        if n.ns:
            out.append(inner)
            continue
        out.append("<" + n.tag)
        for name, value in n.attrs:
            out.append(" " + name + '="' + esc_attr(value) + '"')
        if n.empty == "void":
            out.append(">")
        elif n.empty if kind == "html" else \
                not n.kids and "replace" not in n.st:
            out.append(" />" if kind == "html" else "/>")
        else:
            out.append(">" + inner + "</" + n.tag + ">")
    return "".join(out)


def make(ctx, kind, n, units, namespaces, deep, single=False,
         pairs=False):
    v = ctx.text("v", n, TEXT, minlen=n)
    third = [t for t in THIRD if units or "translate" not in t]
    if single:
        st = dict(ctx.pick("first", FIRST + SECOND + tuple(third)))
    else:
        # pairs: one of the three groups is left out
        out = ctx.choose("out", 3) if pairs else None
        st = {}
        for i, (name, group) in enumerate((
                ("first", FIRST), ("second", SECOND), ("third", third))):
            if i != out:
                st.update(ctx.pick(name, group))
    if "omit" in st and "replace" in st:
        del st["omit"]
    shorten(ctx, kind, st)
    tag = "w"
    attrs = [("k", "1" + v), ("l", "2")]
    if namespaces and "attributes" not in st and \
            "i18n_attributes" not in st and ctx.flag("ns"):
        tag = "tal:block"
        attrs = []
    kid = {}
    if deep:
        kid = dict(ctx.pick("kid", (
            {"content": ("", "v")}, {"attributes": [("n", "v")]},
            {"on_error": ("", "u"), "content": ("", "fail")},
            {"i18n_attributes": [("n", "n-id")]})))
        if "translate" in st and "content" not in st:
            kid["name"] = "nm"
    i = E("i", ["d"], [("n", "3")], literal=ctx.pick(
        "literal", ("first", "last")) if deep else "first", **kid)
    e = E(tag, ["(", i, ")"], attrs, literal="last" if deep else "first",
          **st)
    nodes = ["A", e, "B", E("u", ["d"], content=("", "v")), E(
        "z", [E("z", ["d"], translate="")] if units else ["d"],
        [("k", "1")], attributes=[("k", "v")])]
    values = {"v": v, "u": "U<", "none": None, "dflt": DEFAULT,
              "s": "<s>S</s>", "msg": Message("m-id", "mdom", "Dflt"),
              "map": {"mp": "M"}, "fail": Raise(), "q": ["1", "2"]}
    if "condition" in st:
        values["c"] = ctx.sbool("c")
    if "omit" in st:
        values["d"] = ctx.sbool("d")
    resolve(nodes)
    return nodes, values


def compare(ctx, kind, nodes, values, ref, want, **options):
    src = layout(nodes, kind, head_of(kind), "</doc>")
    engine = Engine(values)
    engine.translation = lambda m, mapping, default: "T(" + m + ")"
    program, macros = compile_(kind, src, engine)
    engine.macros = macros
    out = run(program, macros, engine, wrap=100000, strictinsert=0,
              **options)
    detail = lambda: ctx.value([src, out, want])  # noqa: E731
    ctx.observe("out", out)
    ctx.check(out == want, "output", detail)
    if ref is not None:
        ctx.check(engine.log == ref.log, "evaluations", detail)
        ctx.check(engine.messages == ref.messages, "messages", detail)
    else:
        ctx.check(engine.log == [], "no evaluation", detail)
        ctx.check(engine.messages == [], "no messages", detail)
    return out


def wrapped(kind, text, shown=False):
    if kind == "html" or shown:
        return head_of(kind) + text + "</doc>"
    return "<doc>" + text + "</doc>"


def show(kind, n, deep):
    def fn(ctx):
        nodes, values = make(ctx, kind, n, True, False, deep)
        ref = Shown(kind, values)
        ref.translation = lambda m, mapping, default: "T(" + m + ")"
        want = wrapped(kind, ref.render(nodes), True)
        out = compare(ctx, kind, nodes, values, ref, want, showtal=1)
        # hiding statements is what happens when not asked
        ref = Ref(kind, values)
        ref.translation = lambda m, mapping, default: "T(" + m + ")"
        want = wrapped(kind, ref.render(nodes))
        compare(ctx, kind, nodes, values, ref, want, showtal=0)
        ctx.cover("dropped" if want == out else "shown")
    return fn


def tags(kind):
    """TAL elements with the statements shown."""
    def fn(ctx):
        x = ctx.chars("x", 1, TEXT)
        v = ctx.chars("v", 1, TEXT)
        name = ctx.pick("tag", ("tal:block", "tal:x", "metal:y", "i18n:z"))
        st, what = ctx.pick("st", (
            ("", "kids"), ("content", "v"), ("condition", "c"),
            ("omit-tag", "c"), ("repeat", "q"), ("replace", "v"),
            ("define", "kids"), ("on-error", "v")))
        arg = {"content": "v", "condition": "c", "omit-tag": "c",
               "repeat": "x q", "replace": "v", "define": "y v",
               "on-error": "v", "": None}[st]
        attr = ""
        if arg is not None:
            # TAL elements may leave out the prefix
            short = name.startswith("tal:") and ctx.flag("short")
            attr = " " + ("" if short else "tal:") + st + '="' + arg + '"'
        else:
            x = "(" + x
        body = attr_src(x, kind)
        if st == "on-error":
            attr = attr + ' tal:define="x bad"'
        end = ">" + body + "</" + name + ">"
        if what == "v" and ctx.flag("empty"):
            end = "/>"
        src = head_of(kind) + "A<" + name + attr + end + "B</doc>"
        n = ctx.choose("q", 3)
        c = ctx.sbool("c")
        engine = Engine({"v": v, "c": c, "q": ["1", "2"][:n],
                         "bad": Raise()})
        out = render(kind, src, None, engine, showtal=1)
        inner = body if what != "v" else esc_text(v)
        full = "<" + name + attr + ">" + inner + "</" + name + ">"
        if st == "condition":
            full = full if c else ""
        elif st == "omit-tag":
            full = inner if c else full
        elif st == "repeat":
            full = full * n
        elif st == "replace":
            full = inner
        want = wrapped(kind, "A" + full + "B", True)
        ctx.observe("out", out)
        ctx.check(out == want, "output",
                  lambda: ctx.value([src, out, want]))
        ctx.cover(st or "none")
    return fn


def off(kind, n, deep, pairs):
    """Translation switched off."""
    def fn(ctx):
        nodes, values = make(ctx, kind, n, True, True, deep, pairs=pairs)
        ref = NoService(kind, values)
        want = wrapped(kind, ref.render(nodes))
        compare(ctx, kind, nodes, values, ref, want, i18nInterpolate=0)
        ctx.cover("end")
    return fn


def hide(kind, n, deep, pairs):
    """Statements hidden and not carried out."""
    def fn(ctx):
        nodes, values = make(ctx, kind, n, False, True, deep, pairs=pairs)
        want = wrapped(kind, hidden(nodes, kind))
        compare(ctx, kind, nodes, values, None, want, tal=0, showtal=0,
                metal=ctx.choose("metal", 2))
        ctx.cover("end")
    return fn


def without(kind):
    """Elements that have no content."""
    def fn(ctx):
        v = ctx.chars("v", 1, TEXT)
        tag, empty = ctx.pick("form", FORMS[kind])
        st = dict(ctx.pick("first", FIRST))
        second = SECOND + ({"replace": ("", "v")},)
        if tag != "img":
            second += ({"translate": "m"}, {"translate": "m", "omit": "d"})
        st.update(ctx.pick("second", second))
        shorten(ctx, kind, st)
        e = E(tag, [], [("k", "1" + v), ("l", "2")], empty=empty, **st)
        nodes = ["A", e, "B"]
        values = {"v": v, "u": "U<", "none": None, "dflt": DEFAULT,
                  "msg": Message("m-id", "mdom", "Dflt"), "q": ["1", "2"],
                  "c": ctx.sbool("c"), "d": ctx.sbool("d")}
        resolve(nodes)
        how = ctx.pick("how", ("show", "off", "hide"))
        if how == "hide" and "translate" in st:
            return
        if how == "hide":
            compare(ctx, kind, nodes, values, None,
                    wrapped(kind, hidden(nodes, kind)), tal=0, showtal=0)
        elif how == "off":
            ref = NoService(kind, values)
            compare(ctx, kind, nodes, values, ref,
                    wrapped(kind, ref.render(nodes)), i18nInterpolate=0)
        else:
            ref = Shown(kind, values)
            ref.translation = lambda m, mapping, default: "T(" + m + ")"
            compare(ctx, kind, nodes, values, ref,
                    wrapped(kind, ref.render(nodes), True), showtal=1)
        ctx.cover(how)
    return fn


class Sink:
    """Counts what is written."""

    def __init__(self):
        self.n = 0

    def write(self, s):
        self.n += 1
        return len(s)

    def flush(self):
        pass


def debug(kind, n, deep, single):
    """Debugging on: the page is the same."""
    def fn(ctx):
        nodes, values = make(ctx, kind, n, True, True, deep, single)
        ref = Ref(kind, values)
        ref.translation = lambda m, mapping, default: "T(" + m + ")"
        want = wrapped(kind, ref.render(nodes))
        real = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = plain, sink = Sink(), Sink()
        try:
            compare(ctx, kind, nodes, values, ref, want, debug=1)
        finally:
            sys.stdout, sys.stderr = real
        ctx.check(sink.n > 0 and plain.n == 0, "trace")
        ctx.cover("end")
    return fn


def ordinary(nodes):
    """The nodes without the statements for macros."""
    out = []
    for n in nodes:
        if isinstance(n, E):
            st = {k: v for k, v in n.st.items() if k not in (
                "define_macro", "extend_macro", "use_macro", "define_slot",
                "fill_slot")}
            n = E(n.tag, ordinary(n.kids), n.attrs, **st)
        out.append(n)
    return out


#: statements of elements of macros
ON = ({}, {"content": ("", "v")}, {"attributes": [("k", "v")]},
      {"repeat": ("x", "q")}, {"condition": "c"}, {"omit": "c"},
      {"domain": "dom", "i18n_attributes": [("k", None)]},
      {"on_error": ("", "u"), "define": [("", "x", "fail")]},
      {"translate": ""})


def macros(kind, most):
    """Macros, with options that do not show statements."""
    def fn(ctx):
        v = ctx.chars("v", 1, TEXT)
        how = ctx.pick("how", ("metal", "off", "hide", "debug"))
        on = [o for o in ON if how != "hide" or "translate" not in o]
        at = ctx.choose("at", 5)
        st = [{}] * 5
        st[at] = dict(ctx.pick("st", on))
        slots = ctx.pick("slots", most)
        kids = ["(", E("s", ["d"], [("k", "1")], define_slot="s", **st[1]),
                E("i", ["D"], content=("", "v"))]
        if slots:
            kids.append(E("t", ["e"], define_slot="t"))
        m = E("m", kids, [("k", "2")], define_macro="mm", **st[0])
        fill = [E("f", ["F", E("j", ["f"], content=("", "v"))], [("k", "3")],
                  fill_slot="s", **st[3])]
        if slots == 2:
            fill += ["-", E("f", [E("u", ["n"], use_macro="mm")],
                            fill_slot="t")]
        use = E("u", ["b"] + fill + ["e", E("l", ["n"], content=("", "v"))],
                [("k", "4")], use_macro="mm", **st[2])
        nodes = [m, use]
        if ctx.flag("extend"):
            nodes = [m, E("n", ["x"] + fill, [("k", "4")], define_macro="nn",
                          extend_macro="mm", **st[2]),
                     E("u", ["b"], use_macro="nn")]
        nodes.append(E("z", ["d"], [("k", "5")], **st[4]))
        values = {"v": v, "u": "U<", "fail": Raise(), "q": ["1", "2"],
                  "c": ctx.sbool("c")}
        found = find_macros(nodes)
        if how == "hide":
            resolve(nodes)
            compare(ctx, kind, nodes, values, None, wrapped(
                kind, hidden(nodes, kind)), tal=0, metal=0, showtal=0)
        elif how == "metal":
            bare = ordinary(nodes)
            resolve(bare)
            resolve(nodes)
            ref = Ref(kind, values)
            ref.translation = lambda m, mapping, default: "T(" + m + ")"
            compare(ctx, kind, nodes, values, ref,
                    wrapped(kind, ref.render(bare)), metal=0)
        elif how == "off":
            resolve(nodes)
            ref = NoService(kind, values, found)
            compare(ctx, kind, nodes, values, ref,
                    wrapped(kind, ref.render(nodes)), i18nInterpolate=0)
        else:
            resolve(nodes)
            ref = Ref(kind, values, found)
            ref.translation = lambda m, mapping, default: "T(" + m + ")"
            want = wrapped(kind, ref.render(nodes))
            real = sys.stderr
            sys.stderr = Sink()
            try:
                compare(ctx, kind, nodes, values, ref, want, debug=1)
            finally:
                sys.stderr = real
        ctx.cover(how)
    return fn


def goals(tier):
    t = tier == "thorough"
    n = 2 if t else 1
    same = "the same" if t else "every two of these statements"
    out = []
    for kind in ("html", "xml"):
        for deep in ((True, False) if t else (False,)):
            d = "-deep" if deep else ""
            out += [
                Goal("show-" + kind + d, show(kind, n, deep),
                     "%s: an element with %d x %d x %d statements, values of "
                     "%d characters" % (kind, len(FIRST), len(SECOND),
                                        len(THIRD), n),
                     ["shown"]),
                Goal("off-" + kind + d, off(kind, n, deep, not t),
                     "%s: %s, translation off" % (kind, same), ["end"]),
                Goal("hide-" + kind + d, hide(kind, n, deep, not t),
                     "%s: %s, statements neither shown nor carried "
                     "out" % (kind, same), ["end"]),
                Goal("debug-" + kind + d, debug(kind, n, deep, not t),
                     "%s: %s, debugging" % (
                         kind, "the same" if t else "one statement"), ["end"]),
            ]
        out.append(Goal("without-" + kind, without(kind),
                        "%s: %d x %d statements on an element without "
                        "content" % (kind, len(FIRST), len(SECOND) + 1),
                        ["show", "off", "hide"]))
        out.append(Goal("macros-" + kind, macros(kind, (0, 1, 2) if t else (0, 2)),
                        "%s: a macro, a use or an extension with fillers, "
                        "%d statements on any of the elements" % (
                            kind, len(ON)),
                        ["metal", "off", "hide", "debug"]))
        out.append(Goal("tags-" + kind, tags(kind),
                        "%s: TAL elements, statements shown" % kind,
                        ["none", "content", "condition", "omit-tag",
                         "repeat", "replace", "define", "on-error"]))
    return out + more("C26", t, options=OPTIONS_AROUND)
