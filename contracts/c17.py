"""C17: every face returned starts with an edge of the footprint or of a hole, if it has one."""
import z3
from pyvc.contract import *
from pyvc.values import *
from . import poly

def unit(holes, units):
    def f(c):
        p, outs = poly.run(c, holes, units, 'none')
        def nxt(a, first, num): return z3.If(a == first + num - 1, first, a + 1)
        def inblock(a, b, first, num): return z3.And(first <= a, a < first + num, b == nxt(a, first, num))
        for s, r in outs:
            if not isinstance(r, LocV) or not isinstance(s.heap[r.id], ListC): c.ensure(s, 'a list', z3.BoolVal(False)); continue
            l = s.heap[r.id]
            j, i = z3.Int('j*'), z3.Int('i*')
            s2 = s.copy(); s2.fact(0 <= j, j < l.n)
            x, fs = l.get(j); s2.fact(*fs)
            for s3, face in c.e.split(s2, c.e.purify(s2, x)):
                n = face.n
                s3.fact(n >= 1, 0 <= i, i < n)
                at = lambda t: face.get(t)[0].t
                fa = lambda t: face.get(t)[1]
                i2 = z3.If(i == n - 1, z3.IntVal(0), i + 1)
                s3.fact(*fa(i), *fa(i2), *fa(z3.IntVal(0)), *fa(z3.If(n == 1, z3.IntVal(0), z3.IntVal(1))))
                a, b = at(i), at(i2)
                a0, b0 = at(z3.IntVal(0)), at(z3.If(n == 1, z3.IntVal(0), z3.IntVal(1)))
                slim(s3, 'skeleton', 'verts[', 'unitVectors')
                goal = [inblock(a0, b0, p.first, p.num)]
                m = z3.Int('m')
                if holes:
                    h = z3.Int('h*')
                    before = linked_sum(c, s3, p.hinfo.n, lambda j: (p.hinfo.get(j)[0].items[1].t, []), True)
                    s3.fact(before(p.hinfo.n) >= 0)
                    def hole(m, a, b):
                        it = p.hinfo.get(m)[0].items
                        return z3.And(0 <= m, m < p.hinfo.n, inblock(a, b, it[0].t, it[1].t))
                    goal.append(z3.Exists([m], hole(m, a0, b0)))
                    s4 = s3.copy(); s4.fact(hole(h, a, b))
                    d = a - p.hinfo.get(h)[0].items[0].t
                    s4.fact(before(h) >= 0, before(h + 1) == before(h) + p.hinfo.get(h)[0].items[1].t, before(h + 1) <= before(p.hinfo.n))
                    c.ensure(s4, 'a face with an edge of a hole starts with a polygon edge', z3.Or(*goal), [j, i, h, d, p.num + before(h) + d])
                s4 = s3.copy(); s4.fact(inblock(a, b, p.first, p.num))
                c.ensure(s4, 'a face with an edge of the footprint starts with a polygon edge', z3.Or(*goal), [j, i, a - p.first])
    contract('C17', 'faces: ' + poly.name(holes, units, 'none'), ['polygonize', '_rotateToPolyEdge'], timeout=200)(f)

for h in (False, True):
    for u in (False, True): unit(h, u)
