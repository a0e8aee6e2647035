"""
Import environment of the checks.

The checks run under /opt/venv (the interpreter and dependency set the package is tested with).  Hypothesis (and a Markdown parser) is not
installed there, so exactly these and what they need are borrowed from the tooling venv; nothing else is, because an
extra installed package (e.g. a jsonschema format helper) would change what the code under test does.
"""
import importlib.machinery
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'distribution', 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SITES = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
BORROW = {'markdown_it', 'mdurl', 'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector', 'sortedcontainers'}


class _Borrow:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in BORROW:
            return importlib.machinery.PathFinder.find_spec(name, TOOL_SITES)
        return None


def setup():
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if not any(isinstance(f, type) and f is _Borrow for f in sys.meta_path):
        sys.meta_path.append(_Borrow)
    os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', '/nonexistent/hypothesis')


setup()
