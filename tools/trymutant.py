"""Run recorded inputs on a copy: which properties notice a difference?

usage: VERIF_REPO=copy trymutant.py <recorded inputs> <per property>
"""
import importlib
import json
import os
import random
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx import plain  # noqa: E402


def explain(res):
    if res["failures"]:
        return res["failures"][0][0]
    if res["hang"]:
        return "hang"
    if res["exc"] and any("/zope/tal/" in f for f in res["exc"]["through"]):
        return "uncaught " + res["exc"]["type"]
    if res["exc"]:
        return "unusable result: " + res["exc"]["type"]
    return None


def load(path):
    by = {}
    for name in sorted(os.listdir(path)):
        with open(os.path.join(path, name)) as f:
            by.setdefault(name[:3], []).extend(f)
    return by


def sample(lines, n):
    rng = random.Random(1)
    goals = {}
    for ln in lines:
        goals.setdefault(ln[:40].split('"')[3], []).append(ln)
    out = []
    for g in goals.values():
        k = max(n // len(goals), 40)
        out.extend(rng.sample(g, min(k, len(g))))
    rng.shuffle(out)
    return [json.loads(ln) for ln in out]




def main():
    path, n = sys.argv[1], int(sys.argv[2])
    signal.signal(signal.SIGALRM, plain.on_alarm)
    out = {}
    for prop, lines in sorted(load(path).items()):
        try:
            mod = importlib.import_module("harness." + prop.lower())
        except Exception as e:
            out[prop] = "import %s" % e
            continue
        goals = {(t, g.name): g for t in ("quick",) for g in mod.goals(t)}
        for tier, goal, assign in sample(lines, n):
            if (tier, goal) not in goals:
                continue
            why = explain(plain.run(goals[tier, goal], assign, 3))
            if why is not None and not known(prop, goal, why):
                out[prop] = goal + ": " + why
                break
    print(json.dumps(out))


def known(prop, goal, why):
    return (prop, goal, why.replace(" ", "_")) in FINDINGS


FINDINGS = set()
with open(os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "KNOWN-FINDINGS.txt")) as f:
    for ln in f:
        if ln.startswith("finding:"):
            d = dict(w.split("=", 1) for w in ln.split("::")[0].split()[1:])
            FINDINGS.add((d["property"], d["goal"], d["label"]))

main()
