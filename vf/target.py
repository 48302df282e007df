"""Locates and imports the code under test from the working tree of the
repository (never from an installed copy), without reading or writing any
bytecode cache inside it."""
import os
import sys

REPO = os.path.realpath(os.environ.get('XIGT_REPO', '/repo'))
PKG = os.path.join(REPO, 'xigt') + os.sep


def setup():
    sys.dont_write_bytecode = True
    # read no .pyc from the tree either: a stale one could hide an edit
    sys.pycache_prefix = '/nonexistent-vf-pycache'
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import xigt
    if not os.path.realpath(xigt.__file__).startswith(PKG):
        raise RuntimeError('xigt imported from %s' % xigt.__file__)


def in_target(exc):
    """True if the exception passed through a frame of the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if os.path.realpath(fn).startswith(PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__
    return False
