"""Environment set-up shared by every process of the harness.

* The library under test is imported from $DOATOOLS_REPO (default /repo).
* The code under test needs the interpreter in /opt/venv (numpy < 2). Hypothesis
  lives in the tooling venv; only Hypothesis and its two pure-Python helpers are
  taken from there, never numpy or scipy.
"""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get('DOATOOLS_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TOOL_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'
EXPOSED = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
           'sortedcontainers', 'attr', 'attrs'}

THREAD_ENV = {
    'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
}


class _ToolFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if fullname in EXPOSED:
            return importlib.machinery.PathFinder.find_spec(fullname, self.path)
        return None


def setup():
    sys.dont_write_bytecode = True
    for k, v in THREAD_ENV.items():
        os.environ.setdefault(k, v)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        path = []
        if os.path.isdir(os.path.join(TOOL_SITE, 'hypothesis')):
            path.append(TOOL_SITE)
        if os.path.isdir(WHEELS):
            path += sorted(os.path.join(WHEELS, f) for f in os.listdir(WHEELS)
                           if f.startswith(('hypothesis-', 'sortedcontainers-', 'attrs-'))
                           and f.endswith('.whl'))
        sys.meta_path.append(_ToolFinder(path))
        import hypothesis  # noqa: F401
    # Generation must not depend on which modules happen to be loaded, nor on
    # constants mined from the code under test.
    from hypothesis.internal.conjecture import engine, providers
    empty = getattr(providers, 'Constants', None)
    if empty is not None and hasattr(providers, '_get_local_constants'):
        none = empty()
        providers._get_local_constants = lambda: none
    engine.MAX_SHRINKING_SECONDS = 25
    import doatools
    here = os.path.realpath(os.path.dirname(doatools.__file__))
    if here != os.path.realpath(os.path.join(REPO, 'doatools')):
        raise RuntimeError('doatools imported from %s, not from %s' % (here, REPO))
