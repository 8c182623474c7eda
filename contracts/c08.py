"""C08: intersection of lines and rays, distance of a point from a line."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

PRE = 'directions of lines and rays are non-zero'

def mk(c, kind, tag):
    """a line or ray as the code builds them"""
    p, v = c.vec('p' + tag), c.vec('v' + tag)
    P, V = c.st.heap[p.id], c.st.heap[v.id]
    c.assume(z3.Or(V.xs[0] != 0, V.xs[1] != 0))
    if kind == 'ray': r = c.new('Ray2', [p, v])
    elif kind == 'line':
        r = c.new('Line2', [p, v, StrV('pv')])
    else:
        # the line that carries an edge
        q = c.vec('q' + tag); n = c.vec('n' + tag)
        Q = c.st.heap[q.id]
        c.assume(z3.Or(Q.xs[0] != P.xs[0], Q.xs[1] != P.xs[1]))
        es = c.new('Edge2', [p, q, n])
        assert len(es) == 1
        c.st = es[0][0]
        r = c.new('Line2', [es[0][1]])
        V = VecC([a - b for a, b in zip(Q.xs, P.xs)])
    if len(r) != 1: raise Unsupported('constructor with several outcomes')
    c.st = r[0][0]
    return r[0][1], P.xs, V.xs

def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return [x - y for x, y in zip(a, b)]

def unit(ka, kb):
    def f(c):
        A, pa, va = mk(c, ka, 'A')
        B, pb, vb = mk(c, kb, 'B')
        d = cross(va, vb)
        w = sub(pb, pa)
        # parameters of the intersection of the carriers: pa + s*va = pb + t*vb
        sn, tn = cross(w, vb), cross(w, va)         # s = sn/d, t = tn/d
        behindA = sn * d < 0 if ka == 'ray' else z3.BoolVal(False)
        behindB = tn * d < 0 if kb == 'ray' else z3.BoolVal(False)
        none = z3.Or(d == 0, behindA, behindB)
        outs = c.method(c.st.copy(), A, 'intersect', [B])
        for s, r in outs:
            if r is NONE:
                c.ensure(s, 'no point only if parallel or behind the origin of a ray', none)
                continue
            x = c.pure(s, r)
            if not (isinstance(x, VecC) and len(x.xs) == 2): c.ensure(s, 'result is a 2D point', z3.BoolVal(False)); continue
            q = x.xs
            c.ensure(s, 'a point only if not parallel and not behind an origin', neg(none))
            # both carriers, scaled so that no solver has to divide: q*d == pa*d + sn*va
            c.ensure(s, 'the point lies on the first carrier', cross(sub(q, pa), va) == 0)
            c.ensure(s, 'the point lies on the second carrier', cross(sub(q, pb), vb) == 0)
            if ka == 'ray': c.ensure(s, 'not behind the origin of the first ray', sub(q, pa)[0] * va[0] + sub(q, pa)[1] * va[1] >= 0)
            if kb == 'ray': c.ensure(s, 'not behind the origin of the second ray', sub(q, pb)[0] * vb[0] + sub(q, pb)[1] * vb[1] >= 0)
        # swapping the operands
        for s, r in outs:
            for s2, r2 in c.method(s.copy(), B, 'intersect', [A]):
                if (r is NONE) != (r2 is NONE): c.ensure(s2, 'swapping the operands: same kind of result', z3.BoolVal(False)); continue
                if r is NONE: continue
                x, y = c.pure(s2, r), c.pure(s2, r2)
                c.ensure(s2, 'swapping the operands: same point', conj([a == b for a, b in zip(x.xs, y.xs)]))
    return f

for ka in ('line', 'ray', 'edge line'):
    for kb in ('line', 'ray', 'edge line'):
        contract('C08', 'intersection of a %s and a %s' % (ka, kb), ['_intersect_line2_line2', 'Ray2.intersect', 'Line2.intersect', 'Ray2.__init__', 'Line2.__init__', 'Edge2.__init__', 'Ray2.intsecttest', 'Line2.intsecttest'])(unit(ka, kb))

@contract('C08', 'distance of a point from a line', ['Line2.distance', 'Line2.__init__'])
def dist(c):
    for kind in ('line', 'edge line'):
        A, p, v = mk(c, kind, kind[0])
        x = c.vec('x' + kind[0])
        X = c.st.heap[x.id].xs
        for s, r in c.method(c.st.copy(), A, 'distance', [x]):
            if not isinstance(r, Num): c.ensure(s, 'a number', z3.BoolVal(False)); continue
            D = to_real(r.t)
            c.ensure(s, 'distance is not negative', D >= 0)
            c.ensure(s, 'distance * |v| = |v x (x - p)|', D * D * (v[0] * v[0] + v[1] * v[1]) == cross(v, sub(X, p)) * cross(v, sub(X, p)))

@contract('C08', 'a line through two points: start and direction', ['Line2.__init__'])
def through(c):
    p, q = c.vec('p'), c.vec('q')
    P, Q = c.st.heap[p.id].xs, c.st.heap[q.id].xs
    for s, l in c.new('Line2', [p, q, StrV('pv')]):
        for nm, want in (('p', P), ('v', Q), ('p1', P), ('p2', [a + b for a, b in zip(P, Q)])):
            c.ensure(s, 'Line2.%s' % nm, conj([a == b for a, b in zip(c.pure(s, c.attr1(s, l, nm)).xs, want)]))
