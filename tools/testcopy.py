"""Do the stable tests pass in a copy of the repository? Prints ok or names."""
import json
import os
import resource
import signal
import subprocess
import sys

repo = sys.argv[1]
if len(sys.argv) == 2:
    p = subprocess.run([sys.executable, __file__, repo, "run"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True)
    lines = [x for x in p.stdout.splitlines() if x.startswith("BAD ")]
    lines = [x for x in lines if "test_code_simple_identity" not in x]
    if "DONE" not in p.stdout:
        lines.append("did not finish")
    print("ok" if not lines else json.dumps(lines[:3]))
else:
    signal.alarm(60)
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    os.environ["VERIF_REPO"] = repo
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    from sx import paths
    paths.setup()
    sys.path.insert(0, paths.SITE)
    import importlib
    import io
    import pkgutil
    import unittest
    import zope.tal.tests
    assert zope.tal.__file__.startswith(repo)
    suite = unittest.TestSuite()
    for m in pkgutil.iter_modules(zope.tal.tests.__path__):
        if m.name.startswith("test_"):
            mod = importlib.import_module("zope.tal.tests." + m.name)
            suite.addTest(
                mod.test_suite() if hasattr(mod, "test_suite") else
                unittest.defaultTestLoader.loadTestsFromModule(mod))
    r = unittest.TextTestRunner(stream=io.StringIO(), verbosity=0).run(suite)
    for t, _ in r.failures + r.errors:
        print("BAD", t)
    print("DONE")
