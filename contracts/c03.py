"""C03: the new faces go to the end of the list of the caller, or into a new list.

Two runs of polygonize with the same arguments are compared, one with a list of faces and one without.  All choices of
the summarised parts (names of fresh symbols) are made in the same order in both; that they are made from the same
values is checked on the recorded arguments."""
import itertools
import z3
from pyvc import values, loops
from pyvc.contract import *
from pyvc.values import *
from . import poly
same = poly.same

def go(repo, unit, deadline, holes, units, given):
    values._ids = itertools.count(1000)
    c = Ctx(repo, unit)
    c.e.deadline = deadline
    c.e.htrace = []
    p = poly.setup(c, holes, units, 'list')
    for name in list(c.e.summaries):
        f = c.e.summaries[name]
        def g(e, st, fn, a, kw, node, f=f, name=name):
            e.htrace.append(('call', name, [e.digest(st, x) for x in a]))
            return f(e, st, fn, a, kw, node)
        c.e.summaries[name] = g
    if not given: p.args[6] = NONE
    outs = c.call('bpypolyskel', 'polygonize', p.args, st=c.st.copy())
    return c, p, outs

def known(s): return [h.sexpr() for h in s.facts + s.pc]

def unit(holes, units):
    def f(c):
        cA, pA, A = go(c.e.repo, c.unit, c.e.deadline, holes, units, False)
        cB, pB, B = go(c.e.repo, c.unit, c.e.deadline, holes, units, True)
        c.e.inlined |= cB.e.inlined; c.e.assumed |= cB.e.assumed; c.e.trusted_used |= cB.e.trusted_used
        c.e.loop_log += cB.e.loop_log
        c.e.obls += cA.e.obls + cB.e.obls
        for s, r in B:
            c.ensure(s, 'the list given is returned', z3.BoolVal(isinstance(r, LocV) and r.id == pB.fref.id))
            same(c, s, pB.fref, pB.faces, 'its earlier entries are unchanged and in place', True)
        for s, r in A:
            c.ensure(s, 'a list is returned', z3.BoolVal(isinstance(r, LocV) and isinstance(s.heap[r.id], ListC)))
        if cA.e.htrace != cB.e.htrace or len(A) != len(B): raise Unsupported('the runs with and without a list differ before the end')
        for (s, r), (t, q) in zip(B, A):
            if known(s) != known(t): raise Unsupported('the runs with and without a list differ')
            old, new, ret = pB.faces, s.heap[pB.fref.id], t.heap[q.id]
            c.ensure(s, 'as many new faces as without a list', new.n == old.n + ret.n)
            j, i = z3.Int('j*'), z3.Int('i*')
            s2 = s.copy(); s2.fact(0 <= j, j < ret.n)
            (x, f), (y, g) = new.get(old.n + j), ret.get(j)
            s2.fact(*f, *g)
            x, y = c.e.purify(s2, x), c.e.purify(t, y)
            X = x.alts if isinstance(x, Guarded) else [(z3.BoolVal(True), x)]
            Y = y.alts if isinstance(y, Guarded) else [(z3.BoolVal(True), y)]
            for g, x in X:
                for h, y in Y:
                    s3 = s2.copy()
                    s3.fact(g, h)
                    if not c.e.feasible(s3, z3.BoolVal(True)): continue
                    c.ensure(s3, 'every new face has as many vertices as without a list', x.n == y.n)
                    s3.fact(0 <= i, i < y.n)
                    (u, f), (v, k) = x.get(i), y.get(i)
                    s3.fact(*f, *k)
                    c.ensure(s3, 'the new faces are those of a call without a list, in order', c.e.veq0(u, v))
    contract('C03', 'faces: ' + poly.name(holes, units, 'none'), ['polygonize'], timeout=250)(f)

for h in (False, True):
    for u in (False, True): unit(h, u)
