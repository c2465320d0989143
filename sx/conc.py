"""The harness context for plain runs: inputs come from a solver model."""


class Skip(BaseException):
    """An assumption does not hold for these inputs."""


class CCtx:
    symbolic = False

    def __init__(self, assign):
        self.assign = assign
        self.failures = []
        self.obs = []
        self.covered = set()
        self.warnings = []
        self.checks = 0

    def _get(self, name, default=0):
        return self.assign.get(name, default)

    def choose(self, name, n):
        if n == 1:
            return 0
        return self._get("?" + name)

    def pick(self, name, seq):
        return seq[self.choose(name, len(seq))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def sbool(self, name):
        return self._get("!" + name) == 1

    def int(self, name, lo, hi):
        return self._get("#" + name, lo)

    def chars(self, name, n, dom=None):
        return "".join([chr(self._get("%s.%d" % (name, i), 97))
                        for i in range(n)])

    def text(self, name, maxlen, dom=None, minlen=0):
        n = minlen + self.choose(name + "#len", maxlen - minlen + 1)
        return self.chars(name, n, dom)

    def atom(self, name, strings):
        return tuple(strings)[self._get("@" + name)]

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=None):
        self.checks += 1
        if not cond:
            self.failures.append(
                (label, detail() if callable(detail) else detail))
            return False
        return True

    def warning_texts(self):
        """What the warnings say."""
        return [str(w.message) for w in self.warnings
                if w.category is UserWarning]

    def warned(self):
        """The number of warnings issued."""
        return len([w for w in self.warnings if w.category is UserWarning])

    def cover(self, label):
        self.covered.add(label)

    def observe(self, name, value):
        self.obs.append((name, plain(value)))

    def value(self, x):
        return plain(x)


def plain(x):
    """JSON form of an observed value; same shape as core.concrete."""
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return sorted([[plain(k), plain(v)] for k, v in x.items()], key=repr)
    return repr(type(x).__name__)
