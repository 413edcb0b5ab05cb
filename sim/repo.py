"""Locates and imports the code under test from /repo's working tree."""
import logging
import os
import sys
import warnings

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


def setup():
    from . import threads

    threads.install()
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import pandalone

    here = os.path.realpath(pandalone.__file__)
    if not here.startswith(REPO + os.sep):
        raise SystemExit("harness: imported pandalone from %s, not %s" % (here, REPO))


def src_prefix():
    return os.path.join(REPO, "pandalone") + os.sep
