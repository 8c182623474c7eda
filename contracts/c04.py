"""C04: the contours polygonize hands to skeletonize."""
import z3
from pyvc.contract import *
from pyvc.values import *
from . import poly

def edge_ok(c, s, p, q, first, num, j, S, k, units):
    """edge j of the block [first, first + num); k: its running number"""
    if not isinstance(q, (ObjC, RecV)) or not {'i1', 'i2', 'p1', 'p2', 'norm'} <= set(q.fields): raise Unsupported('edge %r' % (q,))
    f = {n: c.pure(s, v) for n, v in q.fields.items()}
    nxt = z3.If(j == num - 1, first, first + j + 1)
    c.ensure(s, 'starts at the vertex of its place', f['i1'].t == first + j)
    c.ensure(s, 'ends at the next vertex, the last one at the first', f['i2'].t == nxt)
    a, b = p.verts.get(first + j)[0].xs, p.verts.get(nxt)[0].xs
    for x in range(2):
        c.ensure(s, '2D start relative to the centroid', (a[x] - f['p1'].xs[x]) * p.num == S[x])
        c.ensure(s, '2D end relative to the centroid', (b[x] - f['p2'].xs[x]) * p.num == S[x])
    N = f['norm'].xs
    if len(N) != 2: c.ensure(s, '2D direction', z3.BoolVal(False)); return
    if units:
        u = p.uv.get(k)[0].xs
        for x in range(2): c.ensure(s, 'direction is the unit vector with the running number of the edge', N[x] == u[x])
    else:
        D = [f['p2'].xs[x] - f['p1'].xs[x] for x in range(2)]
        zero = z3.And(D[0] == 0, D[1] == 0)
        c.ensure(s, 'direction is parallel to the edge', N[0] * D[1] == N[1] * D[0])
        c.ensure(s, 'direction points along the edge', z3.Or(zero, N[0] * D[0] + N[1] * D[1] > 0))
        c.ensure(s, 'direction has length one', z3.Or(zero, N[0] * N[0] + N[1] * N[1] == 1))

def contour(c, s, o, i):
    v, f = o.get(i); s.fact(*f)
    v = c.e.read(s, v) if isinstance(v, (LocV, PathV)) else v
    if not isinstance(v, ListC): raise Unsupported('contour %r' % (v,))
    return v

def edges(c, s, p, ct, first, num, k0, S, units, tag):
    c.ensure(s, 'one edge per vertex of the ' + tag, ct.n == num)
    j = z3.Int('j*')
    s = s.copy(); s.fact(0 <= j, j < num)
    e, f = ct.get(j); s.fact(*f)
    edge_ok(c, s, p, c.pure(s, e), first, num, j, S, k0 + j, units)

def unit(holes, units, faces):
    def f(c):
        p, outs = poly.run(c, holes, units, faces)
        if units:
            m = z3.Int('m')
            unit_ = lambda t: z3.And(t[2] == 0, t[0] * t[0] + t[1] * t[1] == 1)
        for s, args in p.calls:
            if len(args) != 1: raise Unsupported('arguments of skeletonize')
            o = s.heap.get(args[0].id) if isinstance(args[0], LocV) else None
            if not isinstance(o, ListC): raise Unsupported('contours %r' % (args[0],))
            c.ensure(s, 'the outer contour and the holes', o.n == 1 + (p.hinfo.n if holes else 0))
            S = [linked_sum(c, s, p.num, lambda j, x=x: (p.verts.get(p.first + j)[0].xs[x], []))(p.num) for x in range(2)]
            edges(c, s.copy(), p, contour(c, s, o, z3.IntVal(0)), p.first, p.num, z3.IntVal(0), S, units, 'outer contour')
            if holes:
                h = z3.Int('h*')
                s.fact(0 <= h, h < p.hinfo.n)
                it = p.hinfo.get(h)[0].items
                before = linked_sum(c, s, p.hinfo.n, lambda j: (p.hinfo.get(j)[0].items[1].t, []), True)
                s.fact(before(h) >= 0)
                edges(c, s.copy(), p, contour(c, s, o, 1 + h), it[0].t, it[1].t, p.num + before(h), S, units, 'hole')
        if not p.calls: raise Unsupported('skeletonize is not called')
    contract('C04', 'contours: ' + poly.name(holes, units, faces), ['polygonize'], timeout=200)(f)

poly.each(unit, [(False, False, 'none'), (True, False, 'none'), (False, True, 'none'), (True, True, 'none')])
