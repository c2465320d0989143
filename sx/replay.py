"""Show one recorded counterexample: replay.py <file>"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    if not sys.executable.startswith("/opt/venv/"):
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)
    sys.path.insert(0, os.path.dirname(HERE))
    from sx import plain
    import signal
    signal.signal(signal.SIGALRM, plain.on_alarm)
    mod = importlib.import_module("harness." + rec["property"].lower())
    goal = next(g for g in mod.goals(rec["tier"]) if g.name == rec["goal"])
    res = plain.run(goal, rec["assign"])
    print(json.dumps(res, indent=1))
    sys.exit(1 if res["failures"] or res["exc"] or res["hang"] else 0)


if __name__ == "__main__":
    main()
