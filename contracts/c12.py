"""C12: wavefront vertices (reflex test, bisector), circular iteration, closing a contour."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return [x - y for x, y in zip(a, b)]

def edge(c, tag, p1, p2):
    """an edge with a unit direction (given or normalised)"""
    n = c.vecc('n' + tag)
    e = c.alloc(ObjC('Edge2', {'p1': c.alloc(VecC(list(p1)), ('frozen',)), 'p2': c.alloc(VecC(list(p2)), ('frozen',)), 'norm': c.alloc(n, ('frozen',))}))
    c.assume(n.xs[0] * n.xs[0] + n.xs[1] * n.xs[1] == 1)
    return e, n.xs

def fields(c, st, obj):
    """the values of the bisector ray"""
    b = c.attr1(st, obj, 'bisector')
    return c.pure(st, c.attr1(st, b, 'p')).xs, c.pure(st, c.attr1(st, b, 'v')).xs

def vertex(force, given):
    def f(c):
        p = c.vec('point')
        P = c.st.heap[p.id].xs
        a, b = c.vecc('a').xs, c.vecc('b').xs
        e1, n1 = edge(c, '1', a, P)
        e2, n2 = edge(c, '2', P, b)
        kw = {}
        if given:
            d0, d1 = c.vec('d0'), c.vec('d1')
            kw['direction_vectors'] = TupleV([d0, d1])
            D0, D1 = c.st.heap[d0.id].xs, c.st.heap[d1.id].xs
            turn = cross(D0, D1) > 0
        else: turn = cross(n1, n2) < 0
        kw['forceConvex'] = BoolV(z3.Bool('forceConvex')) if force else BoolV(z3.BoolVal(False))
        want = z3.And(turn, z3.Not(z3.Bool('forceConvex'))) if force else turn
        if not force and not given: kw = {}
        for s, v in c.new('_LAVertex', [p, e1, e2], kw):
            r = c.attr1(s, v, 'is_reflex')
            if not isinstance(r, BoolV): c.ensure(s, 'reflex is a truth value', z3.BoolVal(False)); continue
            c.ensure(s, 'reflex exactly at a right turn', r.t == want)
            q, d = fields(c, s, v)
            c.ensure(s, 'the bisector starts at the vertex', conj([x == y for x, y in zip(q, P)]))
            # n x (x - p) is the signed distance of x from the carrier of an edge through p
            c.ensure(s, 'equal distance from both carriers', cross(n1, d) == cross(n2, d))
            if not given and not force: c.ensure(s, 'on the left side of both edges', z3.And(cross(n1, d) >= 0, cross(n2, d) >= 0))
            if not given and not force: c.ensure(s, 'strictly inside unless the edges are parallel', z3.Implies(cross(n1, n2) != 0, cross(n1, d) > 0))
            if given: c.ensure(s, 'on the side the given directions say', z3.Implies(cross(n1, n2) != 0, z3.If(r.t, cross(n1, d) * cross(n1, n2) < 0, cross(n1, d) * cross(n1, n2) > 0)))
            for nm, w in (('point', p), ('edge_prev', e1), ('edge_next', e2)):
                x = c.attr1(s, v, nm)
                c.ensure(s, '%s is the one given' % nm, z3.BoolVal(isinstance(x, LocV) and x.id == w.id))
            for nm in ('prev', 'next', 'lav'): c.ensure(s, 'not linked yet: ' + nm, z3.BoolVal(c.attr1(s, v, nm) is NONE))
            x = c.attr1(s, v, 'is_valid')
            c.ensure(s, 'valid', x.t if isinstance(x, BoolV) else z3.BoolVal(False))
            for o in (e1, e2, p): c.ensure(s, 'the edges and the point are not modified', z3.BoolVal(s.heap[o.id] is c.st.heap[o.id]))
    return f

contract('C12', 'vertex between two edges', ['_LAVertex.__init__', 'Ray2.__init__'])(vertex(False, False))
contract('C12', 'vertex between two edges, convexity forced or not', ['_LAVertex.__init__', 'Ray2.__init__'])(vertex(True, False))
contract('C12', 'vertex with given directions', ['_LAVertex.__init__', 'Ray2.__init__'])(vertex(False, True))
contract('C12', 'vertex with given directions, convexity forced or not', ['_LAVertex.__init__', 'Ray2.__init__'])(vertex(True, True))

def circ(name, offsets):
    def f(c):
        l, ref = c.list(TInt, 'lst')
        n = l.n
        c.assume(n >= 1)
        item = lambda j: l.get(j)[0].t
        for s, r in c.call('bpypolyskel', name, [ref]):
            for s, r in c._done(c.e.call(s, BuiltinV('list'), [r], {}, NODE)):
                L = c.pure(s, r)
                if not isinstance(L, ListC): c.ensure(s, 'a sequence', z3.BoolVal(False)); continue
                c.ensure(s, 'one entry per element', L.n == n)
                j = z3.Int('j*')
                s2 = s.copy(); s2.fact(0 <= j, j < n, j < L.n)
                x, fs = L.get(j); s2.fact(*fs)
                if not isinstance(x, TupleV) or len(x.items) != len(offsets): c.ensure(s, 'tuples', z3.BoolVal(False)); continue
                for y, o in zip(x.items, offsets):
                    idx = z3.If(j + o < 0, j + o + n, z3.If(j + o >= n, j + o - n, j + o))
                    c.ensure(s2, {-1: 'previous element, wrapping around', 0: 'the element', 1: 'next element, wrapping around'}[o], y.t == item(idx))
    return f

contract('C12', 'circular iteration: previous and next', ['_iterCircularPrevNext'])(circ('_iterCircularPrevNext', (-1, 0)))
contract('C12', 'circular iteration: previous, this and next', ['_iterCircularPrevThisNext'])(circ('_iterCircularPrevThisNext', (-1, 0, 1)))

V2 = TVec(2)
RAY = TObj('Ray2', {'p': V2, 'v': V2})
CLASSES = {
    'Edge2': {'p1': V2, 'p2': V2, 'norm': V2},
    '_LAVertex': {'point': V2, 'edge_prev': TSym('Edge2'), 'edge_next': TSym('Edge2'), 'prev': TSym('_LAVertex'), 'next': TSym('_LAVertex'),
                  'lav': TSym('_LAV'), '_valid': TBool, '_is_reflex': TBool, '_bisector': RAY},
    '_LAV': {'head': TSym('_LAVertex'), '_slav': TSym('_SLAV'), '_len': TInt},
    '_SLAV': {},
}

def sym(c, cls, name):
    x = SymV(cls, z3.Int(name))
    c.assume(x.t > 0)
    return x

@contract('C12', 'closing a contour', ['_LAV.from_polygon', '_iterCircularPrevNext', '_LAV.__init__', '_LAVertex.__init__'])
def from_polygon(c):
    e = c.e
    e.symclasses = {k: dict(v) for k, v in CLASSES.items()}
    l, ref = c.list(TSym('Edge2'), 'edgeContour')
    n = l.n
    c.assume(n >= 1)
    E = lambda j: l.get(j)[0].t
    slav = sym(c, '_SLAV', 'slav')
    m = z3.Int('m')
    c.assume(forall(m, z3.Implies(z3.And(0 <= m, m < n), E(m) > 0), E(m)))
    a0 = z3.Int('alloc0')
    c.st.alloc = a0
    c.assume(a0 > 0)
    F = lambda st, cls, f, i=0: e.sym_arrays(st, cls, f)[i]
    def hint(info):
        i = z3.Int('i')
        def at(st, f): return lambda x: z3.Select(F(st, '_LAVertex', f), x)
        # vertices are numbered from `first`, the number after that of the loop object
        def inv(name, g):
            def fn(v, k):
                A = lambda cls, f, i=0: v(('sym', (cls, f)))[i] if v(('sym', (cls, f))) is not None else F(info.st, cls, f, i)
                return g(A, v(('alloc', 0)), k)
            return (name, fn)
        if ('alloc', 0) not in info.inits: return []
        first = info.inits[('alloc', 0)]
        lav = next((x.t for x in info.st.env.values() if isinstance(x, SymV) and x.cls == '_LAV'), None)
        if lav is None: return []
        S = z3.Select
        rng = lambda k: z3.And(first <= i, i < first + k)
        LV = '_LAVertex'
        idx = lambda t: z3.simplify(t)
        prevof = lambda j: z3.If(j == 0, n - 1, j - 1)
        def all_(k, body, pat): return forall(i, z3.Implies(rng(k), body), pat)
        return [
            inv('vertices are made one by one', lambda A, al, k: al == first + k),
            inv('length', lambda A, al, k: S(A('_LAV', '_len'), lav) == k),
            inv('head', lambda A, al, k: S(A('_LAV', 'head'), lav) == z3.If(k == 0, z3.IntVal(0), first)),
            inv('next', lambda A, al, k: all_(k, S(A(LV, 'next'), i) == z3.If(i == first + k - 1, first, i + 1), S(A(LV, 'next'), i))),
            inv('prev', lambda A, al, k: all_(k, S(A(LV, 'prev'), i) == z3.If(i == first, first + k - 1, i - 1), S(A(LV, 'prev'), i))),
            inv('edge_next', lambda A, al, k: all_(k, S(A(LV, 'edge_next'), i) == E(i - first), S(A(LV, 'edge_next'), i))),
            inv('edge_prev', lambda A, al, k: all_(k, S(A(LV, 'edge_prev'), i) == E(prevof(i - first)), S(A(LV, 'edge_prev'), i))),
            inv('point', lambda A, al, k: all_(k, S(A(LV, 'point'), i) == S(F(info.st, 'Edge2', 'p1'), E(i - first)), S(A(LV, 'point'), i))),
            inv('point (y)', lambda A, al, k: all_(k, S(A(LV, 'point', 1), i) == S(F(info.st, 'Edge2', 'p1', 1), E(i - first)), S(A(LV, 'point', 1), i))),
            inv('lav', lambda A, al, k: all_(k, S(A(LV, 'lav'), i) == lav, S(A(LV, 'lav'), i))),
            inv('valid', lambda A, al, k: all_(k, S(A(LV, '_valid'), i), S(A(LV, '_valid'), i))),
        ]
    e.hints.append(hint)
    j = z3.Int('j')
    cls = e.lookup_global('bpypolyskel', '_LAV')
    for s, r in c.method(c.st.copy(), cls, 'from_polygon', [ref, slav]):
        if not isinstance(r, SymV): c.ensure(s, 'a loop', z3.BoolVal(False)); continue
        g = lambda x, cl, f: e.sym_get(s, SymV(cl, x), f)
        h = g(r.t, '_LAV', 'head').t
        c.ensure(s, 'the length is the number of edges', g(r.t, '_LAV', '_len').t == n)
        c.ensure(s, 'belongs to the wavefront', g(r.t, '_LAV', '_slav').t == slav.t)
        # vertex j of the loop is number h + j (they are made in order)
        s2 = s.copy(); s2.fact(0 <= j, j < n)
        v = h + j
        LV = '_LAVertex'
        c.ensure(s, 'new vertices', z3.And(h >= a0, h > 0))
        c.ensure(s2, 'next vertex, wrapping around', g(v, LV, 'next').t == z3.If(j == n - 1, h, v + 1))
        c.ensure(s2, 'previous vertex, wrapping around', g(v, LV, 'prev').t == z3.If(j == 0, h + n - 1, v - 1))
        c.ensure(s2, 'edge after the vertex', g(v, LV, 'edge_next').t == E(j))
        c.ensure(s2, 'edge before the vertex', g(v, LV, 'edge_prev').t == z3.If(j == 0, E(n - 1), E(j - 1)))
        p1 = e.sym_get(c.st, SymV('Edge2', E(j)), 'p1').xs
        c.ensure(s2, 'at the start of its edge', conj([x == y for x, y in zip(g(v, LV, 'point').xs, p1)]))
        c.ensure(s2, 'member of the loop', g(v, LV, 'lav').t == r.t)
        c.ensure(s2, 'valid', g(v, LV, '_valid').t)
