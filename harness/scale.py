"""Templates that are larger than those of the other goals."""
from harness.c05 import compare
from harness.common import *  # noqa: F401,F403
from harness.tree import E

SIZES = (3, 4, 5, 7, 9)


def big(kind, items, values, sizes=SIZES, last=None, translation=None,
        steps=(1, 2, 3), forms=("deep", "wide", "deep-wide", "loop"),
        around=None):
    """Several elements inside or beside each other.

    items: functions from a number and the content to an element
    values: from the context to the values of the expressions
    last: from the context to the innermost content
    around: from the elements to the template
    """
    inner = last or (lambda ctx: ["x"])

    def fn(ctx):
        size = ctx.pick("size", sizes)
        first = ctx.choose("first", len(items))
        step = ctx.pick("step", steps)
        form = ctx.pick("form", forms)
        chosen = [items[(first + i * step) % len(items)]
                  for i in range(size)]
        if form == "wide":
            nodes = []
            for i, item in enumerate(chosen):
                nodes += [item(i, inner(ctx)), " "]
        else:
            nodes = inner(ctx)
            for i in range(size - 1, -1, -1):
                nodes = ["(", chosen[i](i, nodes), ")"]
                if form == "deep-wide":
                    nodes += [chosen[i](i, ["y"]), "."]
        vs = values(ctx)
        if form == "loop":
            vs["many"] = [str(i) for i in range(size)]
            nodes = [E("w", [chosen[0](0, inner(ctx)), "-",
                             chosen[1](1, inner(ctx))],
                       repeat=("each", "many"))]
        if around is not None:
            nodes = around(nodes)
        compare(ctx, kind, ["A"] + nodes + ["B"], vs,
                translation=translation, wrap=0)
        ctx.cover(form)
    return fn
