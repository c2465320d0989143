"""Explore all goals of one property.

usage: run.py <property id>          (tier and seed from the environment)
"""
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sx import paths  # noqa: E402
from sx.paths import REPO  # noqa: E402
from sx.paths import VENV  # noqa: E402
from sx.paths import VERIF  # noqa: E402

#: a directory for the inputs of all paths (for tools/mutate.py)
RECORD = os.environ.get("VERIF_RECORD")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")

def load(prop):
    """Import the code under test and the harness, instrumented."""
    paths.setup()
    from sx import instr
    from sx import lexers
    import warnings
    warnings.simplefilter("ignore")
    instr.install([("zope.tal", instr.Loader),
                   ("harness", instr.HarnessLoader)])
    import zope.i18nmessageid
    instr.set_message_class(zope.i18nmessageid.Message)
    lexers.install()
    mod = importlib.import_module("harness." + prop.lower())
    return mod


class Plain:
    """A pipe to an uninstrumented interpreter running the same harness."""

    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen(
            [VENV, os.path.join(VERIF, "sx", "plain.py"), self.prop.lower()],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True)
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("plain interpreter did not start")
        where = json.loads(line)["ready"]
        if not os.path.realpath(where).startswith(os.path.realpath(REPO)):
            raise RuntimeError("plain interpreter runs %s" % where)

    def run(self, tier, goal, assign):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(
                {"tier": tier, "goal": goal, "assign": assign}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if not line:
            self.p = None
            return {"obs": [], "failures": [], "exc": {
                "type": "ProcessDied", "text": "", "through": ["/zope/tal/"],
                "trace": ""}, "skipped": False, "hang": False,
                "covered": [], "checks": 0}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait()


class Timeout(BaseException):
    pass


def on_alarm(sig, frame):
    raise Timeout()


UNUSABLE = ("AttributeError", "TypeError", "IndexError", "KeyError",
            "ValueError")


def explain(res):
    """(label, detail) pairs that a plain run found wrong."""
    out = [(f[0], f[1]) for f in res["failures"]]
    if res["hang"]:
        out.append(("does not terminate", None))
    if res["exc"]:
        e = res["exc"]
        # also when the code under test made a call it should not make, or
        # when what it gave back could not be used
        if any("/zope/tal/" in f for f in e["through"]):
            out.append(("uncaught %s" % e["type"], e["text"]))
        elif e["type"] in UNUSABLE:
            out.append(("unusable result: %s" % e["type"], e["trace"]))
    return out


def norm(x):
    return json.loads(json.dumps(x))


def explore(mod, tier, gi, start, budget, ex, plain, last, max_paths=10 ** 9):
    """Run paths of one goal from the given open prefixes."""
    from sx import core
    from sx import instr
    goal = mod.GOALS[gi]
    stack = list(start)
    t0 = time.time()
    r = collections.Counter()
    r_cover = set()
    gaps = collections.Counter()
    mism = []
    viol = []
    errors = []
    samples = []
    while stack and time.time() - t0 < budget and r["paths"] < max_paths:
        prefix, assign = stack.pop()
        ex.sync(prefix, last)
        ctx = core.Ctx(ex, prefix, assign)
        core.cur = ctx
        exc = None
        timed = False
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            try:
                goal.fn(ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except core.PathEnd:
            pass
        except Timeout:
            timed = True
        except RecursionError:
            exc = "RecursionError"
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__,
                              traceback.format_exc()[-1800:])
        finally:
            core.cur = None
        last = ctx.decisions
        if timed:
            ex.reset()
            last = []
        stack.extend(ctx.alts)
        r["paths"] += 1
        r["decisions"] += len(ctx.decisions) - len(prefix) + bool(prefix)
        r["checks"] += ctx.checks
        if ctx.aborted:
            if ctx.aborted == "assume":
                r["assumed_away"] += 1
            else:
                r["aborted"] += 1
                gaps[ctx.aborted] += 1
            continue
        for g in set(ctx.gaps):
            gaps[g] += 1
        if ctx.gaps:
            r["gap_paths"] += 1
        if RECORD:
            with open("%s/%s-%d" % (RECORD, plain.prop, os.getpid()),
                      "a") as f:
                f.write(json.dumps([tier, goal.name, ctx.assign]) + "\n")
        res = plain.run(tier, goal.name, ctx.assign)
        bad = explain(res)
        if res["exc"] and not bad:
            errors.append(res["exc"]["trace"])
            if len(errors) > 2:
                break
            continue
        if bad:
            viol.append((bad[0][0], bad[0][1], ctx.assign))
        if exc is not None or timed:
            if not bad and not timed:
                r["engine_errors"] += 1
                if len(mism) < 3:
                    mism.append(["engine", exc, ctx.assign])
            elif timed:
                gaps["path timeout"] += 1
            continue
        if not res["skipped"] and not bad:
            mine = norm([[n, core.concrete(v, ctx.assign)]
                         for n, v in ctx.obs])
            if mine == norm(res["obs"]):
                r["validated"] += 1
                r_cover |= set(res["covered"]) & ctx.covered
            else:
                r["mismatches"] += 1
                if len(mism) < 3:
                    mism.append(["observations", mine, norm(res["obs"]),
                                 ctx.assign])
        for label, model, detail in ctx.failures:
            res2 = plain.run(tier, goal.name, model)
            bad2 = explain(res2)
            if bad2:
                viol.append((bad2[0][0], bad2[0][1], model))
            else:
                r["unconfirmed"] += 1
                if len(mism) < 3:
                    mism.append(["unconfirmed " + label, detail, model])
        if len(samples) < 2:
            samples.append({"goal": goal.name, "inputs": {
                k: v for k, v in ctx.assign.items() if k in ctx.vars},
                "observed": norm(res["obs"])[:6]})
        if len(viol) >= 3:
            break
    return {"gi": gi, "open": stack, "r": dict(r), "cover": sorted(r_cover),
            "gaps": dict(gaps), "mism": mism, "viol": viol,
            "errors": errors[:2], "samples": samples,
            "seen": sorted(instr.seen), "spent": time.time() - t0}, last


def worker(conn, mod, prop, tier, seed):
    from sx import core
    from sx import instr
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(6000)
    ex = core.Explorer(seed)
    plain = Plain(prop)
    cur_goal = None
    last = []
    base = dict(ex.stats)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            gi, start, budget = msg
            if gi != cur_goal:
                ex.reset()
                core.Var.table.clear()
                core.LenOf.table.clear()
                core._cin_z.clear()
                last = []
                cur_goal = gi
            instr.seen.clear()
            res, last = explore(mod, tier, gi, start, budget, ex, plain, last)
            res["solver"] = {k: ex.stats[k] - base[k] for k in base}
            base = dict(ex.stats)
            conn.send(res)
    except EOFError:
        pass
    except BaseException:
        try:
            conn.send({"crash": traceback.format_exc()})
        except OSError:
            pass
    finally:
        plain.close()


def findings(prop):
    out = []
    path = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    # finding: property=<id> goal=<g> label=<l> :: text
                    head, _, text = line.partition("::")
                    kv = dict(x.split("=", 1) for x in head.split()[1:]
                              if "=" in x)
                    kv["text"] = text.strip()
                    out.append(kv)
    return out


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    only = os.environ.get("VERIF_GOAL")
    t0 = time.time()
    mod = load(prop)
    mod.GOALS = list(mod.goals(tier))
    if only:
        mod.GOALS = [g for g in mod.GOALS if g.name in only.split(",")]
    total = mod.BUDGET[tier] if hasattr(mod, "BUDGET") else \
        {"quick": 240, "thorough": 780}[tier]
    total = float(os.environ.get("VERIF_BUDGET", total))
    G = len(mod.GOALS)
    ctxm = multiprocessing.get_context("fork")
    workers = []
    for i in range(nproc):
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(b, mod, prop, tier, seed),
                         daemon=True)
        p.start()
        b.close()
        workers.append((a, p))
    conns = {a: p for a, p in workers}
    todo = [[([], {})] for _ in range(G)]
    busy = [0] * G
    spent = [0.0] * G
    first = [True] * G
    agg = collections.Counter()
    per = [collections.Counter() for _ in range(G)]
    cover = [set() for _ in range(G)]
    gaps = collections.Counter()
    solver = collections.Counter()
    mism, viol, errors, samples = [], [], [], []
    seen = set()
    idle = list(conns)
    running = {}
    known = findings(prop)
    hits = {}
    stop = False
    affinity = {}
    while True:
        late = time.time() - t0 > total
        while idle and not stop and not late:
            cand = [g for g in range(G) if todo[g]]
            if not cand:
                break
            g = min(cand, key=lambda x: (busy[x], spent[x]
                                         / mod.GOALS[x].weight))
            # a worker that already has this goal's solver state, if any
            c = next((w for w in idle if affinity.get(w) == g), idle[0])
            idle.remove(c)
            n = 1 if len(todo[g]) < 2 * nproc else \
                min(len(todo[g]) // (2 * nproc) + 1, 64)
            batch = todo[g][-n:]
            del todo[g][-n:]
            budget = 0.15 if first[g] else (
                0.5 if len(todo[g]) < nproc else 3.0)
            budget = min(budget, max(0.1, total - (time.time() - t0)))
            first[g] = False
            busy[g] += 1
            affinity[c] = g
            running[c] = g
            c.send((g, batch, budget))
        if not running:
            break
        for c in multiprocessing.connection.wait(list(running), timeout=5):
            g = running.pop(c)
            busy[g] -= 1
            try:
                res = c.recv()
            except EOFError:
                errors.append("worker died in goal %s" % mod.GOALS[g].name)
                stop = True
                continue
            if "crash" in res:
                errors.append(res["crash"])
                stop = True
                continue
            idle.append(c)
            todo[g].extend(res["open"])
            spent[g] += res["spent"]
            per[g].update(res["r"])
            agg.update(res["r"])
            cover[g] |= set(res["cover"])
            gaps.update(res["gaps"])
            solver.update(res["solver"])
            seen |= set(res["seen"])
            if len(mism) < 5:
                mism.extend([[mod.GOALS[g].name] + m for m in res["mism"]])
            if len([s for s in samples
                    if s["goal"] == mod.GOALS[g].name]) < 2:
                samples.extend(res["samples"])
            if res["errors"]:
                errors.extend(res["errors"])
                if len(errors) > 100:
                    stop = True
            for label, detail, model in res["viol"]:
                k = next((f for f in known
                          if f.get("goal") == mod.GOALS[g].name
                          and f.get("label") == label.replace(" ", "_")),
                         None)
                if k is not None:
                    hits[k["text"]] = hits.get(k["text"], 0) + 1
                    continue
                viol.append((mod.GOALS[g].name, label, detail, model))
                stop = True
        if stop and not running:
            break
        if time.time() - t0 > total + 90:
            errors.append("workers did not answer")
            break
    for c, p in workers:
        try:
            c.send(None)
        except OSError:
            pass
    for c, p in workers:
        p.join(5)
        if p.is_alive():
            p.kill()
    wall = time.time() - t0
    finished = [not todo[g] for g in range(G)]
    exhaustive = all(finished) and not viol and not errors \
        and not gaps and not agg["mismatches"] and not agg["engine_errors"] \
        and not agg["unconfirmed"]
    for text in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    os.makedirs(EVIDENCE, exist_ok=True)
    replays = []
    for name, label, detail, model in viol[:3]:
        path = os.path.join(EVIDENCE,
                            "replay-%s-%d.json" % (prop, len(replays)))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "goal": name,
                       "label": label, "detail": detail, "assign": model,
                       "how": "python3 sx/replay.py " + path}, f, indent=1)
        replays.append((path, name, label, detail))
    samples = samples[:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": agg["paths"],
            "transitions": agg["decisions"],
            "traces_validated_against_impl": agg["validated"],
            "samples": samples,
            "exhaustive": bool(exhaustive),
            "paths_outside_assumptions": agg["assumed_away"],
            "assertions_checked": agg["checks"],
            "solver": {
                "name": "z3 " + z3_version(),
                "queries": solver["queries"], "sat": solver["sat"],
                "unsat": solver["unsat"], "unknown": solver["unknown"],
                "assertion_queries": solver["asserts"],
                "assertion_queries_unsat": solver["assert_unsat"],
                "assertions_decided_by_path": solver["trivial"],
                "seconds": round(solver["solver_s"], 3)},
            "functions_executed_symbolically": sorted(seen),
            "goals": [{
                "name": gl.name, "bounds": gl.bounds,
                "explored_to_the_end": finished[i],
                "paths": per[i]["paths"], "validated": per[i]["validated"],
                "checks": per[i]["checks"],
                "witnesses": sorted(cover[i]),
                "cpu_s": round(spent[i], 2)}
                for i, gl in enumerate(mod.GOALS)],
            "engine": {
                "gaps": dict(gaps), "paths_with_gaps": agg["gap_paths"],
                "mismatches": agg["mismatches"],
                "engine_errors": agg["engine_errors"],
                "unconfirmed": agg["unconfirmed"]},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + COMMON,
        "violations": [{"goal": n, "label": lb, "replay": p}
                       for p, n, lb, d in replays],
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d validated, %d solver queries, %.1f s, %s" % (
        prop, tier, agg["paths"], agg["validated"], solver["queries"], wall,
        "exhaustive within bounds" if exhaustive else "not exhaustive"))
    if os.environ.get("VERIF_VERBOSE"):
        for i, gl in enumerate(mod.GOALS):
            print("  goal %-28s paths %6d checks %6d done %s cpu %.1f" % (
                gl.name, per[i]["paths"], per[i]["checks"], finished[i],
                spent[i]), dict(per[i]))
        print("  gaps", dict(gaps))
        for m in mism[:5]:
            print("  MISMATCH", str(m)[:3000])
    for p, n, lb, d in replays:
        print("  goal %s: %s: %s" % (n, lb, str(d)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if replays:
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e)
        return 2
    for i, gl in enumerate(mod.GOALS):
        if not finished[i]:
            continue
        missing = set(gl.cover) - cover[i]
        if missing:
            print("ERROR goal %s never reached %s" % (
                gl.name, sorted(missing)))
            return 2
        if per[i]["checks"] == 0:
            print("ERROR goal %s checked nothing" % gl.name)
            return 2
    return 0


COMMON = [
    "characters are Unicode scalar values (no lone surrogates)",
    "the CPython interpreter, z3, html.parser and expat are trusted; "
    "html.parser and expat run natively on the source with symbolic "
    "characters replaced by private-use placeholders",
    "every path's model is also run on the uninstrumented code in a plain "
    "interpreter and must behave the same",
]


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main(sys.argv[1:]))
