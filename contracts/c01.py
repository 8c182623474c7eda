"""C01: polygonize only appends to the list of vertices; unit vectors and holes stay as they are."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj
from . import poly

same = poly.same

def unit(holes, units, faces):
    def f(c):
        p, outs = poly.run(c, holes, units, faces)
        for s, r in outs:
            new = s.heap[p.vref.id]
            if not isinstance(new, ListC): c.ensure(s, 'a list', z3.BoolVal(False)); continue
            c.ensure(s, 'grown by exactly one vertex per skeleton node', new.n == p.verts.n + p.skel.n)
            same(c, s, p.vref, p.verts, 'every earlier vertex is in place, unchanged', True)
            # node j of the skeleton is vertex n + j: all differ from their node by the same vector
            j, i = z3.Int('j*'), z3.Int('i*')
            s2 = s.copy(); s2.fact(0 <= j, j < p.skel.n, 0 <= i, i < p.skel.n)
            (x, f), (y, g) = new.get(p.verts.n + j), new.get(p.verts.n + i)
            (u, h), (v, k) = p.skel.get(j), p.skel.get(i)
            s2.fact(*f, *g, *h, *k)
            if not (isinstance(x, VecC) and len(x.xs) == 3): c.ensure(s, '3D vertices', z3.BoolVal(False)); continue
            U, V = u.fields['source'].xs, v.fields['source'].xs
            for a in range(2):
                c.ensure(s2, 'in the order of the nodes', x.xs[a] - U[a] == y.xs[a] - V[a])
            if holes: same(c, s, p.href, p.hinfo, 'the hole descriptions are unchanged')
            if units: same(c, s, p.uref, p.uv, 'the unit vectors are unchanged')
    contract('C01', 'vertices: ' + poly.name(holes, units, faces), ['polygonize'], timeout=200)(f)

poly.each(unit)
