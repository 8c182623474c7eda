"""C07: pseudo-angle and circular embedding."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def lower(v): return z3.Or(v[1] < 0, z3.And(v[1] == 0, v[0] < 0))     # polar angle in [pi, 2 pi)
def less(a, b):
    """polar angle of a in [0, 2 pi) is smaller than that of b"""
    return z3.Or(z3.And(z3.Not(lower(a)), lower(b)), z3.And(lower(a) == lower(b), cross(a, b) > 0))
def nonzero(v): return z3.Or(v[0] != 0, v[1] != 0)

@contract('C07', 'pseudo-angle: range and order', ['pseudoangle'])
def pseudo(c):
    for d in (2, 3):
        a, b = c.vec('a%d' % d, d), c.vec('b%d' % d, d)
        A, B_ = c.st.heap[a.id].xs, c.st.heap[b.id].xs
        c.assume(nonzero(A), nonzero(B_))
        for s, p in c.call('poly2FacesGraph', 'pseudoangle', [a], st=c.st.copy()):
            if not isinstance(p, Num): c.ensure(s, 'a number', z3.BoolVal(False)); continue
            P = to_real(p.t)
            c.ensure(s, 'in [0, 4)', z3.And(0 <= P, P < 4))
            for s2, q in c.call('poly2FacesGraph', 'pseudoangle', [b], st=s.copy()):
                Q = to_real(q.t)
                c.ensure(s2, 'smaller polar angle -> smaller pseudo-angle', z3.Implies(less(A, B_), P < Q))
                c.ensure(s2, 'smaller pseudo-angle -> smaller polar angle', z3.Implies(P < Q, less(A, B_)))

PA = z3.Function('pseudoangle', R, R, R)
def use_pseudo(c):
    """pseudoangle is used by its contract (proved by the unit above)"""
    def call(e, st, fn, args, kw, node):
        if len(args) != 1 or kw: return None
        v = e.purify(st, args[0])
        if not isinstance(v, VecC) or len(v.xs) < 2: return None
        st = e.safety(st, nonzero(v.xs), 'ZeroDivisionError', node, 'precondition of pseudoangle')
        if st is None: return []
        return [(st, Num(PA(*v.xs[:2])))]
    c.e.summaries['pseudoangle'] = call
    a, b = [z3.Reals('a0 a1'), z3.Reals('b0 b1')]
    c.st.fact(z3.ForAll(a + b, z3.Implies(z3.And(nonzero(a), nonzero(b)), (PA(*a) < PA(*b)) == less(a, b)), patterns=[z3.MultiPattern(PA(*a), PA(*b))]))

def embed(direction):
    def f(c):
        e = c.e
        st = c.st
        use_pseudo(c)
        pts, pref = c.list(TVec(3), 'vList')
        # the graph: distinct vertices, neighbours without repetition (a simple graph), different positions
        keys = e.fresh_val(st, TList(TInt), 'vertex')
        st.fact(keys.n >= 0)
        V_ = lambda j: keys.get(j)[0].t
        pos = z3.Function('vpos', I, I)
        has = lambda x: z3.And(0 <= pos(x), pos(x) < keys.n, V_(pos(x)) == x)
        j, i, x = z3.Int('j'), z3.Int('i'), z3.Int('x')
        st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < keys.n), pos(V_(j)) == j), patterns=[V_(j)]))
        deg, nb = z3.Function('deg', I, I), z3.Function('nb', I, I, I)
        nbs = lambda v: ListC(deg(v), lambda m: (Num(nb(v, m)), [deg(v) >= 0]), etype=TInt)
        inr = lambda t: z3.And(0 <= t, t < pts.n)
        st.fact(z3.ForAll([x], deg(x) >= 0))
        st.fact(z3.ForAll([x], z3.Implies(has(x), inr(x))))
        st.fact(z3.ForAll([x, i], z3.Implies(z3.And(has(x), 0 <= i, i < deg(x)), inr(nb(x, i)))))
        st.fact(z3.ForAll([x, i, j], z3.Implies(z3.And(has(x), 0 <= i, i < j, j < deg(x)), nb(x, i) != nb(x, j))))
        P = lambda t: pts.get(t)[0].xs
        dif = lambda v, u: [a - b for a, b in zip(P(u), P(v))]
        st.fact(z3.ForAll([x, i], z3.Implies(z3.And(has(x), 0 <= i, i < deg(x)), nonzero(dif(x, nb(x, i))))))
        g = DictC(lambda k: has(k.t), lambda k: (nbs(k.t), []), keys=keys, kt=TInt, vt=TList(TInt))
        gref = e.alloc(st, g)
        obj = e.alloc(st, ObjC('poly2FacesGraph', {'g_dict': gref}))
        for s, r in c.method(st.copy(), obj, 'circular_embedding', [pref, StrV(direction)]):
            emb = s.heap[r.id] if isinstance(r, LocV) else None
            if not isinstance(emb, DictC): c.ensure(s, 'a dictionary', z3.BoolVal(False)); continue
            v = z3.Int('v*')
            s = s.copy(); s.fact(has(v))
            c.ensure(s, 'every vertex has an entry', emb.has(Num(v)))
            L, fs = emb.get(Num(v)); s.fact(*fs)
            if not isinstance(L, ListC): c.ensure(s, 'a list', z3.BoolVal(False)); continue
            c.ensure(s, 'as many entries as neighbours', L.n == deg(v))
            a, b = z3.Int('a*'), z3.Int('b*')
            s1 = s.copy(); s1.fact(0 <= a, a < L.n)
            xa, fa = L.get(a); s1.fact(*fa)
            if not isinstance(xa, Num): c.ensure(s, 'vertices', z3.BoolVal(False)); continue
            m = z3.Int('m')
            c.ensure(s1, 'entries are neighbours', z3.Exists([m], z3.And(0 <= m, m < deg(v), nb(v, m) == xa.t)))
            s2 = s1.copy(); s2.fact(a < b, b < L.n)
            xb, fb = L.get(b); s2.fact(*fb)
            c.ensure(s2, 'no neighbour twice', xa.t != xb.t)
            # the order of the pseudo-angles is that of the polar angles (unit above)
            da, db = dif(v, xa.t), dif(v, xb.t)
            c.ensure(s2, 'different from the vertex', z3.And(nonzero(da), nonzero(db)))
            wrong = PA(*da[:2]) < PA(*db[:2]) if direction == 'CCW' else PA(*db[:2]) < PA(*da[:2])
            c.ensure(s2, 'in order of the polar angle', z3.Not(wrong))
            c.ensure(s, 'the graph is not modified', z3.BoolVal(s.heap[gref.id] is g))
            c.ensure(s, 'the vertices are not modified', z3.BoolVal(s.heap[pref.id] is pts))
        return
    return f

for d in ('CCW', 'CW'):
    contract('C07', 'circular embedding, ' + d, ['circular_embedding', 'compare_angles'])(embed(d))
