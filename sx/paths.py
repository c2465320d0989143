"""Where the code under test lives, and how to import it."""
import os
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    m = sys.modules.get("zope")
    if m is None:
        m = sys.modules["zope"] = types.ModuleType("zope")
    m.__path__ = [os.path.join(REPO, "src", "zope"),
                  os.path.join(SITE, "zope")]
