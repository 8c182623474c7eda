"""C02: position and height of the roof vertices."""
import z3
from pyvc.contract import *
from pyvc.values import *
from . import poly

def unit(holes, units, faces):
    def f(c):
        p, outs = poly.run(c, holes, units, faces)
        z0 = p.verts.get(p.first)[0].xs[2]
        for s, r in outs:
            new = s.heap[p.vref.id]
            # what the skeleton is relative to: vertex `first` is the first corner handed to skeletonize
            j, w = z3.Int('j*'), z3.Int('w')
            s.fact(0 <= w, w < p.skel.n)
            H = lambda t: p.skel.get(t)[0].fields['height'].t
            x_ = z3.Int('x')
            s.fact(forall(x_, z3.Implies(z3.And(0 <= x_, x_ < p.skel.n), H(x_) <= H(w)), H(x_)))       # w: a highest node
            s2 = s.copy(); s2.fact(0 <= j, j < p.skel.n)
            x, fs = new.get(p.verts.n + j); s2.fact(*fs)
            u, g = p.skel.get(j); s2.fact(*g)
            if not (isinstance(x, VecC) and len(x.xs) == 3): c.ensure(s, '3D vertices', z3.BoolVal(False)); continue
            cst, args = p.calls[0]
            o = cst.heap.get(args[0].id) if isinstance(args[0], LocV) else None
            if not isinstance(o, ListC): c.ensure(s, 'contours', z3.BoolVal(False)); continue
            k0, fk = o.get(z3.IntVal(0))
            k0 = c.e.read(cst, k0)
            e0, fe = k0.get(z3.IntVal(0)); s2.fact(*fk, *fe)
            q = c.pure(cst, e0)
            P1 = q.fields['p1'].xs
            for a in range(2):
                c.ensure(s2, 'at the position of its node in the coordinates of the caller', x.xs[a] == u.fields['source'].xs[a] + (p.verts.get(p.first)[0].xs[a] - P1[a]))
            h = H(j)
            s3 = s2.copy(); s3.fact(p.height != 0, H(w) != 0)
            c.ensure(s3, 'height given: highest node at `height`, the others in proportion', (x.xs[2] - z0) * H(w) == p.height * h)
            s4 = s2.copy(); s4.fact(p.height == 0)
            c.ensure(s4, 'no height: the pitch gives the height', x.xs[2] == z0 + p.tan * h)
    contract('C02', 'heights: ' + poly.name(holes, units, faces), ['polygonize'], timeout=200)(f)

poly.each(unit, [(False, False, 'none'), (True, False, 'none'), (False, True, 'none'), (True, True, 'list')])
