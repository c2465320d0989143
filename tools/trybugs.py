"""Run planted bugs' own checks on scratch copies, with demo and tests.

usage: trybugs.py [bug ...]
"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "python3-vt"


def call(argv, **kw):
    return subprocess.run(argv, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def one(bug, props=None):
    d = os.path.join(HERE, "seeded", bug)
    with open(os.path.join(d, "meta.json")) as f:
        prop = json.load(f)["property"]
    with tempfile.TemporaryDirectory(prefix="try-") as tmp:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        r = call(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            print(bug, "does not apply", r.stdout)
            return
        demo = os.path.join(d, "demo.py")
        clean = call(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        broken = call([VT, os.path.join(HERE, "tools/demo.py"), repo, demo])
        tests = call([VT, os.path.join(HERE, "tools/testcopy.py"), repo])
        res = []
        for p in props or [prop]:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp)
            c = call([VT, "sx/run.py", p], cwd=HERE, env=env)
            caught = c.returncode == 1 and \
                "VIOLATION property=%s " % p in c.stdout
            res.append("%s:%s" % (p, "CAUGHT" if caught else "missed(%d)"
                                  % c.returncode))
            if not caught or os.environ.get("VERBOSE"):
                res.append(c.stdout[:1500])
        print(bug, "demo %d/%d" % (clean.returncode, broken.returncode),
              "tests", tests.stdout.strip(), " ".join(res), flush=True)
        if clean.returncode:
            print(clean.stdout[-800:])


def main(argv):
    props = os.environ.get("PROPS")
    for b in argv or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        one(b, props.split(",") if props else None)


if __name__ == "__main__":
    main(sys.argv[1:])
