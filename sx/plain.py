"""Runs a harness on concrete inputs, without any instrumentation.

Reads one JSON request per line: {"goal": name, "assign": {...}}.
"""
import importlib
import json
import os
import signal
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx import paths  # noqa: E402

paths.setup()

from sx.conc import CCtx  # noqa: E402
from sx.conc import Skip  # noqa: E402


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang()


def files_of(tb):
    out = []
    while tb is not None:
        out.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return out


def run(goal, assign, timeout=10):
    ctx = CCtx(assign)
    exc = None
    skipped = hang = False
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            ctx.warnings = log
            goal.fn(ctx)
    except Skip:
        skipped = True
    except Hang:
        hang = True
    except Exception as e:
        exc = {"type": type(e).__name__, "text": str(e)[:300],
               "through": files_of(e.__traceback__),
               "trace": traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"obs": ctx.obs, "failures": ctx.failures, "exc": exc,
            "skipped": skipped, "hang": hang, "checks": ctx.checks,
            "covered": sorted(ctx.covered)}


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mod = importlib.import_module("harness." + sys.argv[1])
    goals = {}
    for tier in ("quick", "thorough"):
        for g in mod.goals(tier):
            goals.setdefault((tier, g.name), g)
    signal.signal(signal.SIGALRM, on_alarm)
    import zope.tal
    out.write(json.dumps({"ready": os.path.dirname(zope.tal.__file__)})
              + "\n")
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        res = run(goals[(req["tier"], req["goal"])], req["assign"])
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
