"""Writing symbolic text into template source."""


def esc_attr(s, kind):
    """Escape s for a double-quoted attribute value."""
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    s = s.replace('"', "&quot;")
    if kind == "xml":
        s = s.replace("\t", "&#9;").replace("\n", "&#10;")
        s = s.replace("\r", "&#13;")
    return s


def attr(s, kind="html"):
    """Source of an attribute value; works for symbolic strings too."""
    if not hasattr(type(s), "_sx_str"):
        return esc_attr(s, kind)
    from sx.symstr import EscChar, SymChar, SymStr
    out = []
    for x in s.p:
        if type(x) is str:
            out.append(esc_attr(x, kind))
        elif type(x) is SymChar:
            e = EscChar(x.var, x.off)
            e.ctx = kind
            out.append(e)
        else:
            if any(esc_attr(t, kind) != t for t in x.strings):
                raise AssertionError("atom needs escaping")
            out.append(x)
    return SymStr.make(out)
