"""Run a script with zope.tal from a given copy: demo.py <repo> <script>"""
import os
import runpy
import sys

os.environ["VERIF_REPO"] = sys.argv[1]
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import paths  # noqa: E402

paths.setup()
sys.path.insert(0, paths.SITE)
import zope.tal  # noqa: E402

assert zope.tal.__file__.startswith(sys.argv[1]), zope.tal.__file__
runpy.run_path(sys.argv[2], run_name="__main__")
