"""Load modules so that they can run on symbolic values.

The source of the module (as it is on disk now) is parsed; calls, `in`, `%`,
f-strings and subscripts go through the functions below, which do exactly
what Python does unless a symbolic value is involved.  Nothing about the
module's logic is known here.
"""
import collections
import ast
import builtins
import importlib.abc
import importlib.machinery
import io
import re
import sys
import types
import warnings

from sx import core
from sx import rx
from sx import symstr
from sx.core import SymBool
from sx.core import SymInt
from sx.core import c_or
from sx.core import mk
from sx.symstr import SymBytes
from sx.symstr import SymMsg
from sx.symstr import SymStr
from sx.symstr import concretize_deep
from sx.symstr import contains_sym
from sx.symstr import is_str
from sx.symstr import is_sym
from sx.symstr import sx_repr
from sx.symstr import sx_str
from sx.symstr import test

seen = set()            # functions of the code under test that were entered
defined = set()

NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir",
          "__import__"}


class Instrument(ast.NodeTransformer):
    def __init__(self, modname, record):
        self.mod = modname
        self.record = record
        self.qual = []

    def _fn(self, node):
        self.qual.append(node.name)
        node = self.generic_visit(node)
        if self.record:
            name = "%s:%s" % (self.mod, ".".join(self.qual))
            defined.add(name)
            stmt = ast.Expr(ast.Call(
                ast.Attribute(ast.Name("__sx_seen__", ast.Load()), "add",
                              ast.Load()),
                [ast.Constant(name)], []))
            body = node.body
            k = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant) and isinstance(
                    body[0].value.value, str)) else 0
            body.insert(k, stmt)
        self.qual.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        node = self.generic_visit(node)
        self.qual.pop()
        return node

    def _call(self, name, args):
        return ast.Call(ast.Name(name, ast.Load()), args, [])

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        return ast.copy_location(
            ast.Call(ast.Name("__sx_call__", ast.Load()),
                     [node.func] + node.args, node.keywords), node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                self._call("__sx_mod__", [node.left, node.right]), node)
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [node.target],
                self._call("__sx_mod__", [
                    ast.Name(node.target.id, ast.Load()), node.value])), node)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0],
                                             (ast.In, ast.NotIn)):
            name = "__sx_in__" if isinstance(node.ops[0], ast.In) \
                else "__sx_notin__"
            return ast.copy_location(
                self._call(name, [node.left, node.comparators[0]]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None \
                    else ast.Constant("")
                conv = ast.Constant(chr(v.conversion) if v.conversion >= 0
                                    else "")
                parts.append(self._call("__sx_fmt__", [val, conv, spec]))
        return ast.copy_location(
            self._call("__sx_fstr__", [ast.Tuple(parts, ast.Load())]), node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, ast.Slice):
            return ast.copy_location(
                self._call("__sx_getitem__", [node.value, node.slice]), node)
        return node

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(
                node.targets[0], ast.Subscript) and not isinstance(
                    node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(
                self._call("__sx_setitem__", [node.value, t.value, t.slice])),
                node)
        return node

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(
                    t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(
                    self._call("__sx_delitem__", [t.value, t.slice])), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out


# --------------------------------------------------------------------------
# run-time support

def deep_eq_key(a, b):
    """Truth of a == b for dictionary keys."""
    if a is b:
        return True
    if is_str(a) and is_str(b):
        if is_sym(a):
            return test(a.eq_cond(b))
        if is_sym(b):
            return test(b.eq_cond(a))
        return a == b
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(
            deep_eq_key(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def keyed(k):
    """Does looking up k need symbolic reasoning?"""
    t = type(k)
    if hasattr(t, "_sx_str"):
        return True
    if t is tuple and contains_sym(k):
        return True
    return core.cur is not None and core.cur.sym_keys and (
        t is str or t is tuple or t is MESSAGE)


_NOKEY = object()


def find_key(d, k):
    """The key of d equal to k, or _NOKEY; forks when it depends."""
    t = type(k)
    if t is str or t is MESSAGE or (t is tuple and not contains_sym(k)):
        try:
            if k in d:
                for x in d:
                    if x == k and not contains_sym(x):
                        return x
        except TypeError:
            pass
        cand = [x for x in d if contains_sym(x)]
    else:
        cand = list(d)
    for x in cand:
        if deep_eq_key(x, k):
            return x
    return _NOKEY


def sx_getitem(o, k):
    if type(o) is dict or isinstance(o, dict):
        if keyed(k):
            x = find_key(o, k)
            if x is _NOKEY:
                if hasattr(type(o), "__missing__"):
                    return type(o).__missing__(o, k)
                raise KeyError(k)
            return dict.__getitem__(o, x)
    elif type(k) is SymInt:
        return o[k.__index__()]
    return o[k]


def sx_setitem(v, o, k):
    if isinstance(o, dict) and keyed(k):
        x = find_key(o, k)
        if x is not _NOKEY:
            k = x
    o[k] = v


def sx_delitem(o, k):
    if isinstance(o, dict) and keyed(k):
        x = find_key(o, k)
        if x is _NOKEY:
            raise KeyError(k)
        del o[x]
        return
    del o[k]


def sx_in(a, b):
    t = type(b)
    if hasattr(t, "_sx_str"):
        return mk(b.contains_cond(a))
    if t is str:
        if is_sym(a):
            return mk(SymStr.wrap(b).contains_cond(a))
        return a in b
    if isinstance(b, (dict, set, frozenset)):
        if keyed(a):
            if is_sym(a) and all(is_str(x) for x in b):
                return mk(c_or([a.eq_cond(x) for x in b]))
            return find_key(b, a) is not _NOKEY
        return a in b
    if is_sym(a) and t in (list, tuple):
        cs = []
        for x in b:
            if x is a:
                return True
            if is_str(x):
                cs.append(a.eq_cond(x))
        return mk(c_or(cs))
    if type(a) is str and t in (list, tuple) and any(is_sym(x) for x in b):
        return mk(c_or([SymStr.wrap(x).eq_cond(a) for x in b if is_str(x)]))
    return a in b


def sx_notin(a, b):
    return core.sx_not(sx_in(a, b))


def sx_mod(a, b):
    if type(a) is str:
        if contains_sym(b) or (type(b) is not str and not isinstance(
                b, (int, float)) and needs_str(b)):
            return symstr.percent(a, b)
        return a % b
    return a % b


def needs_str(b):
    """Formatting b may call code that returns a symbolic string."""
    if type(b) is tuple:
        return any(needs_str(x) for x in b)
    t = type(b)
    return t.__module__.startswith(("zope.tal", "harness")) or isinstance(
        b, BaseException)


def sx_fmt(v, conv, spec):
    return symstr.fmt_value(v, conv, spec)


def sx_fstr(parts):
    return SymStr.make([q for p in parts for q in SymStr.wrap(p).p])


class SymIO:
    """io.StringIO for symbolic text."""

    def __init__(self, initial="", newline="\n"):
        self.parts = [initial] if initial else []
        self.pos = None

    def write(self, s):
        if not is_str(s):
            raise TypeError("string argument expected, got %r"
                            % type(s).__name__)
        self.parts.append(s)
        return 0

    def writelines(self, it):
        for s in it:
            self.write(s)

    def getvalue(self):
        v = SymStr.wrap("").join(self.parts)
        self.parts = [v]
        return v

    def read(self, *a):
        v = self.getvalue()
        return v

    def readlines(self):
        parts = SymStr.wrap(self.getvalue()).split("\n")
        out = [p + "\n" for p in parts[:-1]]
        if parts[-1]:
            out.append(parts[-1])
        return out

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, *a):
        return 0

    def tell(self):
        return symstr.SymStr.wrap(self.getvalue()).length()

    def truncate(self, *a):
        self.parts = []

    def flush(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def f_len(x):
    if hasattr(type(x), "_sx_str"):
        return x.length()
    return len(x)


def f_str(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    return str(*concretize_deep(a), **k)


def f_repr(x):
    return sx_repr(x)


def f_type(*a):
    if len(a) == 1:
        x = a[0]
        if hasattr(type(x), "_sx_str") or type(x) in (SymInt, SymBytes):
            return x.__class__
        if type(x) is SymBool:
            return bool
    return type(*a)


def f_isinstance(x, t):
    if type(x) is SymBool:
        return isinstance(True, t)
    return isinstance(x, t)


def f_map(f, *its):
    return (sx_call(f, *xs) for xs in zip(*its))


def f_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if sx_call(f, x))


def f_sorted(it, *, key=None, reverse=False):
    if key is not None:
        return sorted(it, key=lambda x: sx_call(key, x), reverse=reverse)
    return sorted(it, reverse=reverse)


def f_dict(*a, **k):
    if len(a) == 1 and core.cur is not None:
        src = a[0]
        if isinstance(src, dict):
            return dict(src, **k)
        d = {}
        for pair in src:
            kk, v = pair
            sx_setitem(v, d, kk)
        d.update(k)
        return d
    return dict(*a, **k)


def f_set(cls):
    def mkset(*a):
        if not a:
            return cls()
        items = list(a[0])
        if not any(keyed(x) for x in items):
            return cls(items)
        d = {}
        for x in items:
            sx_setitem(None, d, x)
        return cls(d)
    return mkset


def f_ord(c):
    if is_sym(c):
        f = c.flat()
        if len(f) != 1:
            raise TypeError("ord() expected a character")
        return ord(f[0]) if type(f[0]) is str else f[0].ord_()
    return ord(c)


def f_bool(*a):
    return bool(*a)


def f_int(*a):
    if a and type(a[0]) is SymInt and len(a) == 1:
        return a[0]
    if a and is_sym(a[0]):
        return int(int_text(a[0]), *a[1:])
    return int(*a)


def int_text(s):
    """Concrete digits of a symbolic number, forking over the digits."""
    from sx import charset
    out = []
    D = charset.of_chars("0123456789+-_ \t\n")
    for x in s.flat():
        if type(x) is str:
            out.append(x)
        elif test(x.isin(D)):
            out.append(chr(core.cur.concretize_int(x.ord_())))
        elif test(x.isin(charset.predicate("isdecimal")
                         | charset.predicate("isspace"))):
            out.append(core.cur.force(x))
        else:
            raise ValueError("invalid literal for int()")
    return "".join(out)


def f_iter_max(fn):
    def g(*a, **k):
        return fn(*a, **k)
    return g


def f_warn(message, *a, **k):
    if core.cur is None:
        k["stacklevel"] = k.get("stacklevel", 1) + 1
        return warnings.warn(message, *a, **k)
    kind = a[0] if a else k.get("category")
    if kind is None or kind is UserWarning:
        core.cur.warnings.append(sx_str(message))


def f_stringio(*a, **k):
    if core.cur is None:
        return io.StringIO(*a, **k)
    return SymIO(*a, **k)


def f_getattr(o, name, *d):
    if is_sym(name):
        # fork over the attributes the object has
        for n in dir(o):
            if test(name.eq_cond(n)):
                return getattr(o, n)
        if d:
            return d[0]
        raise AttributeError(name)
    return getattr(o, name, *d)


def f_hasattr(o, name):
    if is_sym(name):
        return any(test(name.eq_cond(n)) for n in dir(o))
    return hasattr(o, name)


def f_reversed(x):
    if is_sym(x):
        return reversed(list(x))
    return reversed(x)


def f_enumerate(x, *a, **k):
    return enumerate(x, *a, **k)


TABLE = {
    len: f_len, str: f_str, repr: f_repr, type: f_type,
    isinstance: f_isinstance, map: f_map, filter: f_filter,
    sorted: f_sorted, dict: f_dict, set: f_set(set),
    frozenset: f_set(frozenset), ord: f_ord, int: f_int,
    warnings.warn: f_warn, io.StringIO: f_stringio,
    getattr: f_getattr, hasattr: f_hasattr, reversed: f_reversed,
    ascii: f_repr,
}
for _n in rx.METHODS:
    TABLE[getattr(re, _n)] = (lambda native, sym: (
        lambda *a, **k: sym(*a, **k) if contains_sym(a)
        or contains_sym(k) else native(*a, **k)))(
            getattr(re, _n), rx.module_fn(_n))


def f_compile(p, *a, **k):
    if is_sym(p):
        p = p.concretize()
    return re.compile(p, *a, **k)


TABLE[re.compile] = f_compile


def f_escape(p):
    if is_sym(p):
        sp = re._special_chars_map
        return p.translate(sp)
    return re.escape(p)


TABLE[re.escape] = f_escape

#: C functions that are fine with symbolic arguments
TRANSPARENT = {
    iter, next, list, tuple, zip, enumerate, any, all, min, max, sum, bool,
    id, callable, issubclass, setattr, range, slice, hash, isinstance,
    object, property, staticmethod, classmethod, abs, super, print, delattr,
    types.SimpleNamespace,
}

_FN = types.FunctionType
_MT = types.MethodType
_BF = types.BuiltinFunctionType
_BM = type("".join)         # same type as _BF
_CM = type(re.compile("").match)
_MD = type(str.join)        # method descriptor
_MW = type("".__str__)      # method-wrapper


def dict_method(d, name, a, k):
    if name in ("get", "pop", "setdefault", "__contains__", "__getitem__",
                "__setitem__", "__delitem__") and a and keyed(a[0]):
        key = a[0]
        if name == "__setitem__":
            return sx_setitem(a[1], d, key)
        x = find_key(d, key)
        if name == "get":
            return dict.__getitem__(d, x) if x is not _NOKEY else (
                a[1] if len(a) > 1 else k.get("default"))
        if name == "pop":
            if x is not _NOKEY:
                return d.pop(x)
            if len(a) > 1:
                return a[1]
            raise KeyError(key)
        if name == "setdefault":
            if x is _NOKEY:
                d[key] = a[1] if len(a) > 1 else None
                return d[key]
            return d[x]
        if name == "__contains__":
            return x is not _NOKEY
        if x is _NOKEY:
            raise KeyError(key)
        if name == "__getitem__":
            return d[x]
        del d[x]
        return None
    if name == "update":
        for src in a:
            items = src.items() if isinstance(src, dict) else src
            for kk, v in list(items):
                sx_setitem(v, d, kk)
        for kk, v in k.items():
            sx_setitem(v, d, kk)
        return None
    return _NOKEY


def set_method(s, name, a):
    if name in ("add", "discard", "remove", "__contains__") and keyed(a[0]):
        x = find_key(s, a[0])
        if name == "__contains__":
            return x is not _NOKEY
        if name == "add":
            if x is _NOKEY:
                s.add(a[0])
            return None
        if x is _NOKEY:
            if name == "remove":
                raise KeyError(a[0])
            return None
        s.remove(x)
        return None
    return _NOKEY


def sx_call(f, *a, **k):
    t = type(f)
    if t is _MT:
        return f(*a, **k)
    if t is _FN:
        if f in TABLE:
            return TABLE[f](*a, **k)
        return f(*a, **k)
    if t is _BF or t is _CM:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            if f in TABLE:
                return TABLE[f](*a, **k)
            if f in TRANSPARENT:
                return f(*a, **k)
            if contains_sym(a) or (k and contains_sym(k)):
                return opaque(f, a, k)
            return f(*a, **k)
        ts = type(s)
        if ts is str or (isinstance(s, str) and not is_sym(s)):
            name = f.__name__
            if name == "join":
                items = list(a[0])
                if contains_sym(items, 1):
                    return SymStr.wrap(str(s)).join(items)
                return f(items)
            if name == "format":
                if contains_sym(a) or contains_sym(k) or needs_str(
                        a + tuple(k.values())):
                    return symstr.str_format(s, a, k)
                return f(*a, **k)
            if name == "format_map":
                return symstr.str_format(s, (), a[0])
            if name == "translate":
                return f(*a, **k)
            if contains_sym(a) or (k and contains_sym(k)):
                return getattr(SymStr.wrap(str(s)), name)(*a, **k)
            return f(*a, **k)
        if ts is dict or isinstance(s, dict):
            r = dict_method(s, f.__name__, a, k) \
                if core.cur is not None else _NOKEY
            if r is not _NOKEY:
                return r
            return f(*a, **k)
        if ts is set:
            r = set_method(s, f.__name__, a) if a else _NOKEY
            if r is not _NOKEY:
                return r
            return f(*a, **k)
        if ts is re.Pattern:
            if contains_sym(a) or contains_sym(k):
                return rx.METHODS[f.__name__](s, *a, **k)
            if f.__name__ in ("sub", "subn") and callable(a[0]):
                # the callback may return symbolic text
                return rx.METHODS[f.__name__](s, *a, **k)
            return f(*a, **k)
        if isinstance(s, (list, tuple, collections.deque)):
            n = f.__name__
            if n == "sort" and k.get("key") is not None:
                key = k["key"]
                return f(key=lambda x: sx_call(key, x),
                         reverse=k.get("reverse", False))
            return f(*a, **k)
        if isinstance(s, type):
            # class method such as dict.fromkeys, str.maketrans
            return f(*a, **k)
        if isinstance(s, io.IOBase) and contains_sym(a):
            return opaque(f, a, k)
        if contains_sym(a) and ts.__module__ not in ("builtins",
                                                     "collections"):
            return opaque(f, a, k)
        return f(*a, **k)
    if t is _MD:
        # unbound C method: str.lower, dict.get, ...
        if a:
            if is_sym(a[0]) or (type(a[0]) is str):
                return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
            return sx_call(f.__get__(a[0]), *a[1:], **k)
        return f(*a, **k)
    if isinstance(f, type):
        if f in TABLE:
            return TABLE[f](*a, **k)
        if f is MESSAGE and a and (is_sym(a[0]) or is_sym(k.get("default"))
                                   or is_sym(k.get("domain"))):
            return make_message(*a, **k)
        return f(*a, **k)
    return f(*a, **k)


def opaque(f, a, k):
    core.cur.gap("native call %s" % getattr(f, "__name__", f))
    return f(*concretize_deep(a), **concretize_deep(k))


MESSAGE = None


def make_message(ustr, domain=None, default=None, mapping=None, *rest, **kw):
    if type(ustr) is SymMsg:
        domain = ustr.domain if domain is None else domain
        default = ustr.default if default is None else default
        mapping = ustr.mapping if mapping is None else mapping
    p = SymStr.wrap(ustr).p
    return SymMsg(p, domain, default, mapping)


def set_message_class(cls):
    global MESSAGE
    MESSAGE = cls
    SymMsg.cls = cls


NAMES = {
    "__sx_call__": sx_call, "__sx_mod__": sx_mod, "__sx_in__": sx_in,
    "__sx_notin__": sx_notin, "__sx_fmt__": sx_fmt, "__sx_fstr__": sx_fstr,
    "__sx_getitem__": sx_getitem, "__sx_setitem__": sx_setitem,
    "__sx_delitem__": sx_delitem, "__sx_seen__": seen,
}


class Loader(importlib.machinery.SourceFileLoader):
    record = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        tree = Instrument(fullname, self.record).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(NAMES)
        super().exec_module(module)


class HarnessLoader(Loader):
    record = False


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, tests=False):
        self.prefixes = prefixes
        self.tests = tests

    def find_spec(self, fullname, path, target=None):
        for p, loader in self.prefixes:
            if fullname == p or fullname.startswith(p + "."):
                if ".tests" in fullname and not self.tests:
                    return None
                spec = importlib.machinery.PathFinder.find_spec(
                    fullname, path)
                if spec is None or spec.origin is None or \
                        not isinstance(spec.loader,
                                       importlib.machinery.SourceFileLoader):
                    return spec
                spec.loader = loader(fullname, spec.origin)
                spec.cached = None
                return spec
        return None


def install(prefixes):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(prefixes))
