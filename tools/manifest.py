"""Write MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = (
    "Symbolic execution of the real modules: every path feasible within the "
    "bounds stated in the evidence is explored, z3 decides each branch and "
    "each assertion, and every path's model is replayed on the "
    "uninstrumented code. Bounded, not a proof for all sizes. Trusted: "
    "CPython, z3, the models of str and re (compared with Python's in "
    "setup_cmd), html.parser and expat, which run natively.")


def main():
    props = []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            props.append(json.loads(line))
    checks = []
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(
                HERE, "harness", pid.lower() + ".py")):
            continue
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt sx/run.py " + pid,
            "thorough_cmd": "python3-vt sx/run.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the real code with z3, "
                         "counterexamples replayed",
            "level": "model_checking",
            "level_note": NOTE,
        })
    doc = {
        "version": 1,
        "setup_cmd": "python3-vt sx/selftest.py",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo. sx/ is the symbolic executor, harness/ "
                 "holds one module per property, KNOWN-FINDINGS.txt lists "
                 "what was found in the unchanged tree.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


if __name__ == "__main__":
    main()
