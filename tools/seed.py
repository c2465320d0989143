"""Make a planted bug from a replacement: used by hand while writing them.

usage: seed.py <id> <property> <file> <<< JSON {old, new, needs, breaks, demo}
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASELINE = "/opt/vp/BASELINE.json"


def plant(bug, prop, edits, needs, breaks, demo):
    """edits: [(file under src/zope/tal, old, new)]; demo: Python source."""
    scratch = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(scratch, "repo")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for name, old, new in edits:
            path = os.path.join(repo, "src/zope/tal", name)
            with open(path) as f:
                s = f.read()
            assert s.count(old) == 1, (bug, name, s.count(old), old)
            with open(path, "w") as f:
                f.write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
        d = os.path.join(HERE, "seeded", bug)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nset -e\ncd "$(dirname "$0")"\n'
                    'exec /opt/venv/bin/python demo.py\n')
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(demo)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": prop, "needs": needs,
                       "what_it_breaks": breaks}, f, indent=1)
            f.write("\n")
    finally:
        shutil.rmtree(scratch)
