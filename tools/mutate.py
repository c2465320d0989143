"""Small changes of the code that pass the tests: which check notices them?

usage: mutate.py <file under src/zope/tal> <result file> [every n-th] [offset]

Not used by the checks; finds behaviour no check looks at.
"""
import ast
import collections
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
#: inputs recorded with VERIF_RECORD
RECORDED = os.environ.get("RECORDED", "/tmp/rec")


def swap(node, **kw):
    new = copy.deepcopy(node)
    for k, v in kw.items():
        setattr(new, k, v)
    return new


def variants(node):
    """(what, replacement) of one node."""
    if isinstance(node, ast.If) or isinstance(node, ast.While):
        if isinstance(node, ast.If):
            yield "if True", swap(node, test=ast.Constant(True))
        yield "if False", swap(node, test=ast.Constant(False))
    if isinstance(node, ast.IfExp):
        yield "first", node.body
        yield "second", node.orelse
    if isinstance(node, ast.BoolOp):
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            yield "drop operand %d" % i, (
                rest[0] if len(rest) == 1 else swap(node, values=rest))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        op = node.ops[0]
        for a, b in ((ast.Lt, ast.LtE), (ast.LtE, ast.Lt), (ast.Gt, ast.GtE),
                     (ast.GtE, ast.Gt)):
            if type(op) is a:
                yield "compare", swap(node, ops=[b()])
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        yield "left", node.left
        yield "right", node.right
        yield "minus", swap(node, op=ast.Sub())
    if isinstance(node, ast.Constant) and isinstance(node.value, int) \
            and not isinstance(node.value, bool):
        yield "+1", ast.Constant(node.value + 1)
        yield "-1", ast.Constant(node.value - 1)
    if isinstance(node, ast.Constant) and isinstance(node.value, str) \
            and len(node.value) < 40 and node.value:
        yield "empty", ast.Constant("")
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) \
            and node.func.attr in ("lower", "strip", "rstrip", "lstrip",
                                   "copy", "split", "replace"):
        yield "no " + node.func.attr, node.func.value
    if isinstance(node, ast.Call) and node.args:
        if len(node.args) == 1 and isinstance(node.func, ast.Name):
            yield "no call", node.args[0]
    if isinstance(node, ast.Dict) and len(node.keys) > 1:
        for i in range(len(node.keys)):
            yield "drop key", swap(node, keys=node.keys[:i]
                                   + node.keys[i + 1:],
                                   values=node.values[:i]
                                   + node.values[i + 1:])
    if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) > 2 \
            and all(isinstance(x, ast.Constant) for x in node.elts):
        for i in range(len(node.elts)):
            yield "drop item", swap(node, elts=node.elts[:i]
                                    + node.elts[i + 1:])


def deletable(s):
    return isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                          ast.Return, ast.Continue, ast.Break, ast.Delete)) \
        and not (isinstance(s, ast.Expr) and isinstance(s.value,
                                                        ast.Constant))


class Mutator:
    """Calls back with the source of each mutant."""

    def __init__(self, text):
        self.text = text
        self.tree = ast.parse(text)
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln.encode()))
        self.data = text.encode()

    def span(self, node):
        a = self.starts[node.lineno - 1] + node.col_offset
        b = self.starts[node.end_lineno - 1] + node.end_col_offset
        return a, b

    def all(self):
        out = []

        def put(node, what, code, fname):
            a, b = self.span(node)
            src = self.data[:a] + code.encode() + self.data[b:]
            try:
                ast.parse(src)
            except SyntaxError:
                return
            old = self.data[a:b].decode()
            out.append((node.lineno, fname, what, old[:160], code[:160],
                        src.decode()))

        def visit(node, fname):
            if isinstance(node, ast.FunctionDef):
                fname = node.name
            for field, value in ast.iter_fields(node):
                kids = value if isinstance(value, list) else [value]
                for k in kids:
                    if not isinstance(k, ast.AST):
                        continue
                    if isinstance(k, ast.JoinedStr):
                        continue
                    if deletable(k):
                        put(k, "delete", "pass", fname)
                    for what, new in variants(k):
                        if isinstance(k, ast.stmt):
                            a, b = self.span(k.test)
                            t = k.test
                            put(t, what, repr(new.test.value), fname)
                        else:
                            put(k, what, "(" + ast.unparse(new) + ")", fname)
                    visit(k, fname)

        visit(self.tree, "<module>")
        return out


def call(argv, timeout, **kw):
    try:
        return subprocess.run(argv, stdout=subprocess.PIPE, text=True,
                              stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(argv, 99, "timeout " + str(e))


def main():
    name, result = sys.argv[1:3]
    step = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    offset = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    with open(os.path.join("/repo/src/zope/tal", name)) as f:
        text = f.read()
    todo = Mutator(text).all()[offset::step]
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    nth = iter(range(len(todo)))
    out = open(result, "a")
    scratch = tempfile.mkdtemp(prefix="mutate-")
    tally = collections.Counter()

    def work(w):
        repo = os.path.join(scratch, "r%d" % w)
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        path = os.path.join(repo, "src/zope/tal", name)
        while True:
            with lock:
                i = next(nth, None)
            if i is None:
                return
            line, fname, what, old, new, src = todo[i]
            with open(path, "w") as f:
                f.write(src)
            t = call(["python3-vt", os.path.join(HERE, "tools/testcopy.py"),
                      repo], 30)
            if t.stdout.strip() != "ok":
                with lock:
                    tally["tests"] += 1
                continue
            env = dict(os.environ, VERIF_REPO=repo, PYTHONHASHSEED="0")
            c = call(["/opt/venv/bin/python", os.path.join(
                HERE, "tools/trymutant.py"), RECORDED, "1200"], 400, env=env)
            try:
                by = json.loads(c.stdout.splitlines()[-1])
            except (ValueError, IndexError):
                by = {"all": c.stdout[-300:]}
            with lock:
                tally["caught" if by else "missed"] += 1
                out.write(json.dumps({
                    "file": name, "line": line, "function": fname,
                    "what": what, "old": old, "new": new, "by": by}) + "\n")
                out.flush()
                print(i, line, fname, what, len(by), dict(tally), flush=True)

    try:
        threads = [threading.Thread(target=work, args=(w,))
                   for w in range(8)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        shutil.rmtree(scratch)
    print(dict(tally))


if __name__ == "__main__":
    main()
