"""C13: the next event of a vertex of the wavefront."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

BOUNDED = ['no valid split candidate is missed: every event the function could list is covered, which events it must list is not']

V2 = TVec(2)
RAY = TObj('Ray2', {'p': V2, 'v': V2})

def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return [x - y for x, y in zip(a, b)]

class Geometry:
    """the contracts of intersect and distance (proved for C08), as functions of the carriers"""
    def __init__(self, c):
        self.c = c
        e = c.e
        self.meet = {}
        for a in 'RL':
            for b in 'RL':
                self.meet[a + b] = [z3.Function('meet%s%s.%s' % (a, b, k), *([R] * 8), s) for k, s in (('has', B), ('x', R), ('y', R))]
        self.dist = z3.Function('away', *([R] * 6), R)
        e.summaries['Ray2.intersect'] = e.summaries['Line2.intersect'] = self.intersect
        e.summaries['Line2.distance'] = self.distance
        # a test without effects whose outcome no postcondition depends on
        e.summaries['_approximately_equals'] = lambda e, st, fn, args, kw, node: [(st, BoolV(e.fresh(st, 'near', B)))]
    def carrier(self, e, st, x):
        cls, get = None, None
        c = e.read(st, x) if isinstance(x, (LocV, PathV)) else x
        if not isinstance(c, ObjC) or c.cls not in ('Ray2', 'Line2'): raise Unsupported('intersection with %r' % (c,))
        p, v = e.purify(st, c.fields['p']), e.purify(st, c.fields['v'])
        return c.cls[0], list(p.xs), list(v.xs)
    def at(self, ka, pa, va, kb, pb, vb):
        """-> (condition, point, facts)"""
        args = [to_real(z3.simplify(t)) for t in (*pa, *va, *pb, *vb)]
        h, x, y = (f(*args) for f in self.meet[ka + kb])
        q = [x, y]
        fs = [cross(sub(q, pa), va) == 0, cross(sub(q, pb), vb) == 0, z3.Or(va[0] != 0, va[1] != 0), z3.Or(vb[0] != 0, vb[1] != 0)]
        for k, p, v in ((ka, pa, va), (kb, pb, vb)):
            if k == 'R': fs.append(sub(q, p)[0] * v[0] + sub(q, p)[1] * v[1] >= 0)
        return h, q, [z3.Implies(h, conj(fs))]
    def intersect(self, e, st, fn, args, kw, node):
        if kw or len(args) != 2: return None
        a, b = self.carrier(e, st, args[0]), self.carrier(e, st, args[1])
        if st.ctx:
            # inside the loop over the contour edges: any result the contract allows
            h, q = e.fresh(st, 'meets', B), [e.fresh(st, 'meet.' + k, R) for k in 'xy']
            for k, p, v in (a, b):
                if k == 'R': st.fact(z3.Implies(h, z3.And(cross(sub(q, p), v) == 0, sub(q, p)[0] * v[0] + sub(q, p)[1] * v[1] >= 0)))
            return [(st, Guarded([(h, VecC(q)), (z3.Not(h), NONE)]))]
        h, q, fs = self.at(*a, *b)
        h2, q2, _ = self.at(*b, *a)
        st.fact(*fs, h == h2, z3.Implies(h, z3.And(q[0] == q2[0], q[1] == q2[1])))     # swapping the operands
        e.assumed.add('intersect() and distance() by the contracts proved for C08')
        return [(st, Guarded([(h, VecC(q)), (z3.Not(h), NONE)]))]
    def away(self, p, v, q):
        return self.dist(*[to_real(z3.simplify(t)) for t in (*p, *v, *q)])
    def distance(self, e, st, fn, args, kw, node):
        if kw or len(args) != 2: return None
        k, p, v = self.carrier(e, st, args[0])
        out = []
        for s, q in e.split(st, args[1]):
            q = e.purify(s, q)
            if not isinstance(q, VecC): raise Unsupported('distance of %r' % (q,))
            d = self.away(p, v, q.xs)
            s.fact(d >= 0)
            out.append((s, Num(d)))
        return out

class Vertex:
    """a vertex of the wavefront and its neighbours, with any number of contour edges"""
    def __init__(self, c, g, reflex):
        e = c.e
        E = TSym('Edge2')
        self.c, self.g = c, g
        st = c.st
        e.symclasses = {'Edge2': {'p1': V2, 'p2': V2, 'norm': V2}}
        OE = TRec('_OriginalEdge', {'edge': E, 'bisector_prev': RAY, 'bisector_next': RAY})
        self.orig, ref = c.list(OE, 'orig', ('frozen',))
        e.symclasses['_SLAV'] = {'_original_edges': T('host', ref)}
        e.symclasses['_LAV'] = {'_slav': TSym('_SLAV')}
        e.symclasses['_LAVertex'] = {'point': V2, 'edge_prev': E, 'edge_next': E, 'prev': TSym('_LAVertex'), 'next': TSym('_LAVertex'), 'lav': TSym('_LAV'),
                                     '_valid': TBool, '_is_reflex': TBool, '_bisector': RAY}
        self.v = self.vertex('v')
        get = self.get
        self.a, self.b = get(self.v, 'prev'), get(self.v, 'next')
        for x in (self.v, self.a, self.b):
            c.assume(x.t > 0)
            for f in ('edge_prev', 'edge_next', 'lav'): c.assume(get(x, f).t > 0)
            c.assume(e.sym_get(st, get(x, 'lav'), '_slav').t > 0)
            r = self.ray(x)
            c.assume(*[p == q for p, q in zip(r[1], get(x, 'point').xs)])
        c.assume(get(self.v, '_is_reflex').t == z3.BoolVal(reflex))
        j = z3.Int('j')
        x, f = self.orig.get(j)
        c.assume(forall(j, z3.Implies(z3.And(0 <= j, j < self.orig.n), x.fields['edge'].t > 0), x.fields['edge'].t))
    def vertex(self, n): return SymV('_LAVertex', z3.Int(n))
    def get(self, x, f): return self.c.e.sym_get(self.c.st, x, f)
    def ray(self, x):
        r = self.get(x, '_bisector').fields
        return 'R', list(r['p'].xs), list(r['v'].xs)
    def line(self, x):
        """the carrier of an edge"""
        return 'L', list(self.get(x, 'p1').xs), sub(self.get(x, 'p2').xs, self.get(x, 'p1').xs)

def eq2(a, b): return conj([x == y for x, y in zip(a, b)])
def length(a): return mk_sqrt(a[0] * a[0] + a[1] * a[1])

def index_of(t, f):
    """the argument of the application of f inside t"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f): return x.arg(0)
        stack.extend(x.children())

def run(reflex):
    def f(c):
        from pyvc.builtins import unit
        e = c.e
        e.linear_feasibility = True
        e.name_conditions = 12
        def apart(a, b):
            """states in which different events have been listed"""
            return not (a.ctx or b.ctx)
        e.keep_apart = apart
        g = Geometry(c)
        w = Vertex(c, g, reflex)
        start = c.st
        V, A, B = w.ray(w.v), w.ray(w.a), w.ray(w.b)
        point = list(w.get(w.v, 'point').xs)
        edge_fn = w.orig.get(z3.Int('k0'))[0].fields['edge'].t.decl()
        outs = c.method(c.st.copy(), w.v, 'next_event')
        for s, r in outs:
            for key in s.sym:
                for p, q in zip(s.sym[key], e.sym_arrays(start, *key)): c.ensure(s, 'nothing changes (%s.%s)' % key, p == q)
            # the candidates with the neighbours
            cand = []
            for pair, o, edge in (((w.a, w.v), A, w.get(w.v, 'edge_prev')), ((w.v, w.b), B, w.get(w.v, 'edge_next'))):
                h, q, fs = g.at(*V, *o)
                s.fact(*fs)
                cand.append((h, q, pair, g.away(*w.line(edge)[1:], q)))
            if r is NONE:
                for h, q, pair, d in cand: c.ensure(s, 'no event: the bisectors of the neighbours do not meet its own', z3.Not(h))
                continue
            ev = e.purify(s, r)
            if not isinstance(ev, RecV) or ev.cls not in ('_EdgeEvent', '_SplitEvent'): c.ensure(s, 'an edge event or a split event', z3.BoolVal(False)); continue
            for s, at in e.split(s, ev.fields['intersection_point']):
              at = e.purify(s, at)
              d = ev.fields['distance']
              if not isinstance(at, VecC) or len(at.xs) != 2: c.ensure(s, 'the event has a point', z3.BoolVal(False)); continue
              for s, d in e.split(s, d):
                if not isinstance(d, Num): c.ensure(s, 'the event has a distance', z3.BoolVal(False)); continue
                d, at2 = to_real(d.t), list(at.xs)
                for h, q, pair, away in cand:
                    c.ensure(instantiate(s, []), 'no candidate with a neighbour is nearer', z3.Implies(h, length(sub(point, at2)) <= length(sub(point, q))))
                for l in [x for x in s.heap.values() if isinstance(x, ListC)]:
                    check_listed(c, s, l, point, at2, edge_fn)
                if ev.cls == '_EdgeEvent':
                    a, b = ev.fields['vertex_a'], ev.fields['vertex_b']
                    ok = isinstance(a, SymV) and isinstance(b, SymV)
                    c.ensure(s, 'an edge event pairs the vertex with a neighbour, where their bisectors meet, at the distance of the shared edge',
                             disj([z3.And(a.t == p.t, b.t == n.t, h, eq2(at2, q), d == away) for h, q, (p, n), away in cand]) if ok else z3.BoolVal(False))
                    continue
                c.ensure(s, 'a split event only at a reflex vertex', z3.BoolVal(reflex))
                x, oe = ev.fields['vertex'], ev.fields['opposite_edge']
                if not isinstance(x, SymV) or not isinstance(oe, SymV): c.ensure(s, 'a split event of a vertex and an edge', z3.BoolVal(False)); continue
                c.ensure(s, 'the split event is that of the vertex', x.t == w.v.t)
                c.ensure(s, 'not against an own edge', z3.And(oe.t != w.get(w.v, 'edge_prev').t, oe.t != w.get(w.v, 'edge_next').t))
                j = index_of(oe.t, edge_fn)
                if j is not None: s = instantiate(s, [j])
                w2 = sub(at2, point)
                c.ensure(s, 'on the bisector', z3.And(cross(w2, V[2]) == 0, w2[0] * V[2][0] + w2[1] * V[2][1] >= 0))
                if j is None: c.ensure(s, 'against a contour edge', z3.BoolVal(False)); continue
                o, fs = w.orig.get(j)
                s.fact(*fs)
                c.ensure(s, 'against a contour edge', z3.And(0 <= j, j < w.orig.n, oe.t == o.fields['edge'].t))
                p1, v = w.line(SymV('Edge2', oe.t))[1:]
                c.ensure(s, 'the distance is that of the opposite edge', d == g.away(p1, v, at2))
                # within the area swept by the edge (sines of the angles, with a margin)
                M = z3.RealVal('1/100')
                U = lambda xs: unit(e, s, xs)
                for nm, bis, sg in (('previous', 'bisector_prev', -1), ('next', 'bisector_next', 1)):
                    b = o.fields[bis].fields
                    c.ensure(s, 'on the inner side of the %s bisector of the edge' % nm, sg * cross(U(list(b['v'].xs)), U(sub(at2, b['p'].xs))) >= -M)
                n = w.get(SymV('Edge2', oe.t), 'norm').xs
                c.ensure(s, 'on the inner side of the edge', cross(n, U(sub(at2, p1))) >= -M)
    return f

def check_listed(c, s, l, point, at, edge_fn):
    """an event the code has built is not nearer than the one it returns"""
    from pyvc.builtins import tail_of
    e = c.e
    i = z3.Int('i!cand')
    def check(s, x, terms):
        for s1, x in e.split(s, x):
            if not isinstance(x, RecV) or x.cls not in ('_EdgeEvent', '_SplitEvent'): return
            for s2, q in e.split(s1, x.fields['intersection_point']):
                q = e.purify(s2, q)
                if not isinstance(q, VecC): continue
                oe = x.fields.get('opposite_edge')
                j = index_of(oe.t, edge_fn) if isinstance(oe, SymV) else None
                s3 = instantiate(s2, terms + ([j] if j is not None else []))
                c.ensure(s3, 'no candidate is nearer', length(sub(point, at)) <= length(sub(point, list(q.xs))))
    base, tail = tail_of(l)
    for x in tail: check(s.copy(), x, [])
    if base is None or const_int(base.n) == 0: return
    try: x, fs = base.get(i)
    except Unsupported: return
    s = s.copy(); s.fact(0 <= i, i < base.n, *fs)
    check(s, x, [i])

for k, v in (('reflex', True), ('convex', False)): contract('C13', 'next event of a %s vertex' % k, ['_LAVertex.next_event'])(run(v))
