"""Environment: where the code under test and hypothesis come from.

The code under test is imported from VERIF_REPO (default /repo) at every run, from
source: bytecode is neither read from nor written to the tree (see the `check` script).
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.path.join(REPO, "py")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """Something in the machinery, not in the code under test, is wrong."""


def setup():
    if PY not in sys.path:
        sys.path.insert(0, PY)
    if VT not in sys.path:
        sys.path.append(VT)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import docria
    where = os.path.realpath(docria.__file__)
    if not where.startswith(os.path.realpath(PY) + os.sep):
        raise HarnessError("docria imported from %s, not from %s" % (where, PY))


setup()
