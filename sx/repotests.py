"""Run the repository's own tests, instrumented or plain; list the failures.

usage: repotests.py instrumented|plain
"""
import importlib
import io
import os
import pkgutil
import sys
import unittest

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(how):
    if how == "instrumented":
        from sx import instr
        from sx import lexers
        from sx import paths
        paths.setup()
        instr.install([("zope.tal", instr.Loader)])
        import zope.i18nmessageid
        instr.set_message_class(zope.i18nmessageid.Message)
        lexers.install()
    import zope.tal.tests
    suite = unittest.TestSuite()
    for m in pkgutil.iter_modules(zope.tal.tests.__path__):
        if m.name.startswith("test_"):
            mod = importlib.import_module("zope.tal.tests." + m.name)
            if hasattr(mod, "test_suite"):
                suite.addTest(mod.test_suite())
            else:
                suite.addTest(
                    unittest.defaultTestLoader.loadTestsFromModule(mod))
    r = unittest.TextTestRunner(stream=io.StringIO(), verbosity=0).run(suite)
    bad = sorted(str(t) for t, _ in r.failures + r.errors)
    sys.stdout.write("%d tests\n%s\n" % (r.testsRun, "\n".join(bad)))


if __name__ == "__main__":
    main(sys.argv[1])
