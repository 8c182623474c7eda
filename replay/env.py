"""Loads the real code of a /repo tree (no build products are needed: pure Python)."""
import sys, importlib, os
sys.dont_write_bytecode = True
SITE = '/opt/venv/lib/python3.12/site-packages'

class Skip(Exception):
    """the oracle does not apply (precondition not met, or the interface it uses is gone)"""

class Env:
    def __init__(self, repo='/repo'):
        self.repo = repo
        if SITE not in sys.path: sys.path.append(SITE)
        sys.path.insert(0, repo)
        self.B = importlib.import_module('bpypolyskel.bpypolyskel')
        self.E = importlib.import_module('bpypolyskel.bpyeuclid')
        self.P = importlib.import_module('bpypolyskel.poly2FacesGraph')
        f = os.path.realpath(self.B.__file__)
        assert f.startswith(os.path.realpath(repo) + os.sep), f
        from mathutils import Vector
        self.V = Vector
        self._saved = []
    def need(self, mod, *names):
        m = getattr(self, mod)
        for n in names:
            if not hasattr(m, n): raise Skip('%s.%s is gone' % (mod, n))
    def patch(self, obj, name, val):
        self._saved.append((obj, name, obj.__dict__[name] if name in getattr(obj, '__dict__', {}) else getattr(obj, name)))
        setattr(obj, name, val)
    def restore(self):
        while self._saved:
            o, n, v = self._saved.pop()
            setattr(o, n, v)
