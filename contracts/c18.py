"""C18: walking a loop of the wavefront, edge events, split events, dormer events."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg
from pyvc.loops import IterView

V2 = TVec(2)
RAY = TObj('Ray2', {'p': V2, 'v': V2})
EDGE = TSym('Edge2')
CLASSES = {
    'Edge2': {'p1': V2, 'p2': V2, 'norm': V2},
    '_LAVertex': {'point': V2, 'edge_prev': EDGE, 'edge_next': EDGE, 'prev': TSym('_LAVertex'), 'next': TSym('_LAVertex'),
                  'lav': TSym('_LAV'), '_valid': TBool, '_is_reflex': TBool, '_bisector': RAY},
    '_LAV': {'head': TSym('_LAVertex'), '_slav': TSym('_SLAV'), '_len': TInt},
}
LV = '_LAVertex'
S = z3.Select

class World:
    """a wavefront on a symbolic heap: loops of vertices, no bound on their number"""
    def __init__(self, c):
        self.c, self.e = c, c.e
        e = c.e
        e.symclasses = {k: dict(v) for k, v in CLASSES.items()}
        st = c.st
        self.a0 = st.alloc = z3.Int('alloc0')
        c.assume(self.a0 > 0)
        v = z3.Int('v')
        old = z3.And(0 < v, v < self.a0)
        A = lambda cl, f, i=0: e.sym_arrays(st, cl, f)[i]
        # every vertex of the wavefront has neighbours and edges, every loop has a first vertex
        for f in ('prev', 'next'):
            c.assume(forall(v, z3.Implies(old, z3.And(S(A(LV, f), v) > 0, S(A(LV, f), v) < self.a0)), S(A(LV, f), v)))
        for f in ('edge_prev', 'edge_next'):
            c.assume(forall(v, z3.Implies(old, S(A(LV, f), v) > 0), S(A(LV, f), v)))
        c.assume(forall(v, z3.Implies(old, z3.And(S(A(LV, 'lav'), v) >= 0, S(A(LV, 'lav'), v) < self.a0)), S(A(LV, 'lav'), v)))
        c.assume(forall(v, z3.Implies(old, z3.And(S(A('_LAV', 'head'), v) > 0, S(A('_LAV', 'head'), v) < self.a0)), S(A('_LAV', 'head'), v)))
        self.A = A
        self.asked = []
        self.lists = []
        self.members = False
        e.iter_summaries = {'_LAV': self.walk}
        e.summaries['_LAVertex.next_event'] = self.ask
        lavs, ref = c.list(TSym('_LAV'), 'lavs')
        self.lavs, self.lavsref = lavs, ref
        j = z3.Int('j')
        c.assume(forall(j, z3.Implies(z3.And(0 <= j, j < lavs.n), z3.And(lavs.get(j)[0].t > 0, lavs.get(j)[0].t < self.a0)), lavs.get(j)[0].t))
        self.slav = c.alloc(ObjC('_SLAV', {'_lavs': ref, '_original_edges': c.alloc(c.e.fresh_val(c.st, TList(TInt), 'orig'), ('frozen',))}))

    def vertex(self, name):
        x = SymV(LV, z3.Int(name))
        self.c.assume(x.t > 0, x.t < self.a0)
        return x
    def edge(self, name):
        x = SymV('Edge2', z3.Int(name))
        self.c.assume(x.t > 0)
        return x
    def get(self, st, x, f): return self.e.sym_get(st, SymV(LV, x), f)

    def walk(self, e, st, v):
        """contract of _LAV.__iter__ (see the unit 'walking a loop')"""
        c = e.read(st, v)
        n = e.fresh(st, 'walk.n', I)
        w = e.fresh_fun(st, 'walk', I, I)
        at = e.fresh_fun(st, 'walk.at', I, I)
        nx, hd = e.sym_arrays(st, LV, 'next')[0], e.sym_arrays(st, '_LAV', 'head')[0]
        i = z3.Int('i?%d' % uid())
        st.fact(n >= 1, w(z3.IntVal(0)) == S(hd, c.t), S(nx, w(n - 1)) == S(hd, c.t))
        st.fact(forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(at(w(i)) == i, w(i) > 0, w(i) < st.alloc)), w(i)))
        st.fact(forall(i, z3.Implies(z3.And(0 <= i, i + 1 < n), w(i + 1) == S(nx, w(i))), w(i)))
        if self.members:
            la = e.sym_arrays(st, LV, 'lav')[0]
            st.fact(forall(i, z3.Implies(z3.And(0 <= i, i < n), S(la, w(i)) == c.t), w(i)))
            e.assumed.add('the vertices of a loop refer to that loop (established by from_polygon and from_chain); cutting a loop at two places gives two loops without a common vertex')
        l = ListC(n, lambda k: (SymV(LV, w(k)), [z3.Implies(z3.And(0 <= k, k < n), w(k) > 0)]), etype=TSym(LV))
        self.lists.append((st, v, w, n))
        e.assumed.add('a loop of the wavefront is closed (walking along it ends); otherwise RuntimeError')
        view = IterView(n, lambda en, s, k: en.get_fact(s, l, k), lst=l)
        view.reads = [(LV, 'next'), ('_LAV', 'head')]
        return view

    def ask(self, e, st, fn, args, kw, node):
        """contract of next_event: an event or None; modifies nothing"""
        self.asked.append((st.copy(), args[0]))
        has = z3.Bool('has!%d' % uid())
        ev = OpaqueV(e.fresh(st, 'event', I))
        return [(st, Guarded([(has, ev), (z3.Not(has), NONE)]))]

def same_xy(a, b): return conj([x == y for x, y in zip(a, b)])

def node(c, s, r, p, d):
    """(node, events) with the node at the point p and the height d -> (sinks, events) or None"""
    if not isinstance(r, TupleV) or len(r.items) != 2: c.ensure(s, 'a pair of node and events', z3.BoolVal(False)); return None
    a = c.e.purify(s, r.items[0])
    if not isinstance(a, RecV) or a.cls != 'Subtree': return a if a is NONE else None
    src = a.fields['source']
    ok = isinstance(src, VecC) and len(src.xs) == 2
    c.ensure(s, 'the node is at the point of the event', same_xy(src.xs, p) if ok else z3.BoolVal(False))
    h = a.fields['height']
    c.ensure(s, 'the height of the node is the distance of the event', to_real(h.t) == d if isinstance(h, Num) else z3.BoolVal(False))
    return a.fields['sinks']

@contract('C18', 'walking a loop', ['_LAV.__iter__'])
def walk(c):
    w = World(c)
    e = c.e
    e.iter_summaries = {}
    e.eager_generators = True
    lav = SymV('_LAV', z3.Int('lav'))
    c.assume(lav.t > 0, lav.t < w.a0)
    nx, hd = w.A(LV, 'next'), S(w.A('_LAV', 'head'), lav.t)
    i, j = z3.Int('i'), z3.Int('j')
    def hint(info):
        ys = [x for x in info.cells if x[0] == 'loc' and isinstance(info.inits[x], ListC)]
        cur = [x for x in info.opaque if x[0] == 'env' and isinstance(info.inits[x], SymV)]
        vis = [x for x in info.opaque if isinstance(info.inits[x], SetC)]
        if len(ys) != 1 or len(cur) != 1 or len(vis) > 1: return []
        ys, cur = ys[0], cur[0]
        def Y(v, t):
            l = v(ys)
            if const_int(l.n) == 0: return z3.IntVal(0)      # nothing yielded yet
            return l.get(t)[0].t
        out = [
            ('as many as steps', lambda v, k: v(ys).n == k),
            ('a vertex', lambda v, k: z3.And(v(cur).t > 0, v(cur).t < w.a0)),
            ('first', lambda v, k: z3.If(k == 0, v(cur).t == hd, z3.And(Y(v, z3.IntVal(0)) == hd, v(cur).t == S(nx, Y(v, k - 1)), v(cur).t != hd))),
            ('one after the other', lambda v, k: forall(i, z3.Implies(z3.And(1 <= i, i < k), Y(v, i) == S(nx, Y(v, i - 1))), Y(v, i))),
            ('vertices', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), z3.And(Y(v, i) > 0, Y(v, i) < w.a0)), Y(v, i))),
            ('not the first again', lambda v, k: forall(i, z3.Implies(z3.And(1 <= i, i < k), Y(v, i) != hd), Y(v, i))),
            ('no repetition', lambda v, k: forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), Y(v, i) != Y(v, j)), [Y(v, i), Y(v, j)])),
        ]
        if vis:
            vis = vis[0]
            has = lambda v, t: v(vis).has(SymV(LV, t))
            out += [('visited', lambda v, k: z3.And(z3.Implies(k > 0, has(v, v(cur).t)), forall(i, z3.Implies(z3.And(1 <= i, i < k), has(v, Y(v, i))), Y(v, i)))),
                    ('visited only', lambda v, k: forall(i, z3.Implies(has(v, i), z3.Or(i == v(cur).t, z3.Exists([j], z3.And(1 <= j, j < k, Y(v, j) == i)))), has(v, i))),
                    ('this one is new', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), Y(v, i) != v(cur).t), Y(v, i)))]
        else: out += [('this one is new', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), Y(v, i) != v(cur).t), Y(v, i)))]
        return out
    e.hints.append(hint)
    e.allowed = lambda exc, st, node: exc == 'RuntimeError'
    for s, r in c.method(c.st.copy(), lav, '__iter__'):
        l = c.pure(s, r)
        n = l.n
        Y = lambda t: l.get(t)[0].t
        c.ensure(s, 'at least one vertex', n >= 1)
        c.ensure(s, 'starts at the head', Y(z3.IntVal(0)) == hd)
        s2 = s.copy(); s2.fact(0 <= i, i < n)
        c.ensure(s2, 'goes from vertex to next vertex and back to the head', z3.If(i == n - 1, S(nx, Y(i)) == hd, Y(i + 1) == S(nx, Y(i))))
        s2.fact(i < j, j < n)
        c.ensure(s2, 'no vertex twice', Y(i) != Y(j))
        for key in (k for k in s.sym if not s.sym[k][0].eq(e.sym_arrays(c.st, *k)[0])): c.ensure(s, 'nothing changes', z3.BoolVal(False))

def event(c, w, kind, **fields):
    p = c.vec('at')
    d = c.real('distance')
    return RecV(kind, dict(distance=d, intersection_point=p, **fields)), c.st.heap[p.id].xs, d.t

def valid(e, st, x): return e.sym_get(st, SymV(LV, x), '_valid').t

def others_kept(c, w, s, consumed, what):
    """vertices outside `consumed` keep their validity"""
    i = z3.Int('i!other')
    s2 = s.copy(); s2.fact(0 < i, i < w.a0, *[i != x for x in consumed])
    c.ensure(s2, 'no other vertex is invalidated', valid(c.e, s, i) == valid(c.e, c.st, i))

def head_hint(c, w):
    """loops keep a first vertex while vertices are consumed"""
    def hint(info):
        hs = ('sym', ('_LAV', 'head'))
        if hs not in info.cells: return []
        l = z3.Int('l')
        return [('every loop has a first vertex', lambda v, k: forall(l, z3.Implies(z3.And(0 < l, l < w.a0), z3.And(S(v(hs)[0], l) > 0, S(v(hs)[0], l) < c.e.sym_alloc(info.st))), S(v(hs)[0], l)))]
    return hint

@contract('C18', 'edge event', ['_SLAV.handle_edge_event', '_LAV.unify', '_LAVertex.__init__', '_LAVertex.invalidate', '_LAV.invalidate'])
def edge_event(c):
    w = World(c)
    e = c.e
    a, b = w.vertex('a'), w.vertex('b')
    ev, at, d = event(c, w, '_EdgeEvent', vertex_a=a, vertex_b=b)
    A = lambda f, x, i=0: S(w.A(LV, f, i), x)
    # both vertices are part of the wavefront, in the same loop
    lav = A('lav', a.t)
    c.assume(a.t != b.t, lav > 0, A('lav', b.t) == lav, A('_valid', a.t), A('_valid', b.t))
    # they are neighbours, and loops of the wavefront have more than two vertices
    c.assume(A('next', a.t) == b.t, A('prev', b.t) == a.t, A('prev', a.t) != b.t, A('next', b.t) != a.t)
    j = z3.Int('j')
    c.assume(z3.Exists([j], z3.And(0 <= j, j < w.lavs.n, w.lavs.get(j)[0].t == lav)))
    c.assume(forall([z3.Int('i'), j], z3.Implies(z3.And(0 <= z3.Int('i'), z3.Int('i') < j, j < w.lavs.n), w.lavs.get(z3.Int('i'))[0].t != w.lavs.get(j)[0].t), [w.lavs.get(z3.Int('i'))[0].t, w.lavs.get(j)[0].t]))
    def hint(info):
        va, la, hd = ('sym', (LV, '_valid')), ('sym', (LV, 'lav')), ('sym', ('_LAV', 'head'))
        if va not in info.cells or info.view is None or info.view.lst is None: return []
        x = lambda t: info.view.lst.get(t)[0].t
        i, m = z3.Int('i'), z3.Int('m')
        F = lambda v, key: v(key)[0] if key in info.cells else e.sym_arrays(info.st, *key[1])[0]
        out = [('those done are not valid', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), z3.Not(S(F(v, va), x(i)))), x(i))),
               ('others are as before', lambda v, k: forall(m, z3.Or(S(F(v, va), m) == S(info.inits[va][0], m), z3.Exists([i], z3.And(0 <= i, i < k, x(i) == m))), S(F(v, va), m)))]
        if hd in info.cells:
            out.append(('every loop has a first vertex', lambda v, k: forall(m, z3.Implies(z3.And(0 < m, m < w.a0), z3.And(S(F(v, hd), m) > 0, S(F(v, hd), m) < w.a0)), S(F(v, hd), m))))
        if la in info.cells:
            out.append(('vertices belong to a loop or none', lambda v, k: forall(m, z3.Implies(z3.And(0 < m, m < w.a0), z3.And(S(F(v, la), m) >= 0, S(F(v, la), m) < w.a0)), S(F(v, la), m))))
        return out
    e.hints.append(hint)
    peak = A('prev', a.t) == A('next', b.t)
    for s, r in c.method(c.st.copy(), w.slav, 'handle_edge_event', [ev]):
        sinks = node(c, s, r, at, d)
        if not isinstance(sinks, ListC): c.ensure(s, 'a list of sinks', z3.BoolVal(False)); continue
        pt = lambda x: [S(w.A(LV, 'point', i), x) for i in (0, 1)]
        n0 = e.sym_alloc(s)
        # normal case
        s1 = s.copy(); s1.assume(z3.Not(peak))
        if e.feasible(s1, z3.BoolVal(True)):
            c.ensure(s1, 'the sinks are the two vertices that meet', z3.And(sinks.n == 2, same_xy(sinks.get(z3.IntVal(0))[0].xs, pt(a.t)), same_xy(sinks.get(z3.IntVal(1))[0].xs, pt(b.t))))
            c.ensure(s1, 'the vertices that meet are consumed', z3.And(z3.Not(valid(e, s, a.t)), z3.Not(valid(e, s, b.t))))
            others_kept(c, w, s1, [a.t, b.t], 'edge event')
            nv = w.a0
            c.ensure(s1, 'one vertex is created', n0 == w.a0 + 1)
            g = lambda f: e.sym_get(s, SymV(LV, nv), f)
            c.ensure(s1, 'the new vertex is at the point of the event', same_xy(g('point').xs, at))
            c.ensure(s1, 'the new vertex is valid', valid(e, s, nv))
            c.ensure(s1, 'the new vertex lies between the outer edges', z3.And(g('edge_prev').t == A('edge_prev', a.t), g('edge_next').t == A('edge_next', b.t)))
            c.ensure(s1, 'the new vertex is linked between the neighbours', z3.And(g('prev').t == A('prev', a.t), g('next').t == A('next', b.t),
                     e.sym_get(s, SymV(LV, A('prev', a.t)), 'next').t == nv, e.sym_get(s, SymV(LV, A('next', b.t)), 'prev').t == nv))
            c.ensure(s1, 'the new vertex belongs to the loop', g('lav').t == lav)
            asked = [x for x in w.asked if e.feasible(x[0], z3.Not(peak))]
            for q, v in asked:
                c.ensure(q, 'events are asked for from vertices that remain', z3.And(v.t == nv, valid(e, q, v.t)) if isinstance(v, SymV) else z3.BoolVal(False))
            c.ensure(s1, 'the new vertex is asked for its event', z3.BoolVal(len(asked) == 1))
            ls = c.pure(s1, s1.heap[w.slav.id].fields['_lavs'])
            c.ensure(s1, 'the loops stay', ls.n == w.lavs.n)
            evs = e.purify(s1, r.items[1])
            c.ensure(s1, 'at most one new event', z3.And(evs.n >= 0, evs.n <= 1) if isinstance(evs, ListC) else z3.BoolVal(False))
        s1 = s.copy(); s1.assume(peak)
        if e.feasible(s1, z3.BoolVal(True)):
            walks = [x for x in w.lists if isinstance(x[1], SymV)]
            if len(walks) != 1: c.ensure(s1, 'the loop is walked once', z3.BoolVal(False)); continue
            _, v, wk, n = walks[0]
            c.ensure(s1, 'the loop of the vertices vanishes', v.t == lav)
            c.ensure(s1, 'a sink for every vertex of the loop', sinks.n == n)
            i = z3.Int('i!sink')
            s2 = s1.copy(); s2.fact(0 <= i, i < n)
            c.ensure(s2, 'the sinks are the vertices of the loop', same_xy(sinks.get(i)[0].xs, pt(wk(i))))
            c.ensure(s2, 'the vertices of the loop are consumed', z3.Not(valid(e, s, wk(i))))
            m = z3.Int('m!other')
            s3 = s1.copy(); s3.fact(0 < m, m < w.a0, forall(i, z3.Implies(z3.And(0 <= i, i < n), wk(i) != m), wk(i)))
            c.ensure(s3, 'no vertex of another loop is invalidated', valid(e, s, m) == valid(e, c.st, m))
            c.ensure(s1, 'no vertex is created', n0 == w.a0)
            evs = e.purify(s1, r.items[1])
            c.ensure(s1, 'no new event', evs.n == 0 if isinstance(evs, ListC) else z3.BoolVal(False))
            ls = c.pure(s1, s1.heap[w.slav.id].fields['_lavs'])
            c.ensure(s1, 'one loop fewer', ls.n == w.lavs.n - 1)
            s4 = s1.copy(); s4.fact(0 <= j, j < ls.n)
            c.ensure(s4, 'the loop is no longer part of the wavefront', ls.get(j)[0].t != lav)

def chain_facts(w, e, st, new, head, before, after):
    """contract of _LAV.from_chain: new: the loop, head: its first vertex; before/after: (lav array, _len array)"""
    i, m = z3.Int('i?%d' % uid()), z3.Int('m?%d' % uid())
    la0, ln0 = before; la, ln = after
    return [('the loop has its vertices counted', S(ln, new) >= 1),
            ('the first vertex joins', S(la, head) == new),
            ('vertices join the loop or stay where they are', forall(m, z3.Or(S(la, m) == S(la0, m), S(la, m) == new), S(la, m))),
            ('no other length changes', forall(m, z3.Or(m == new, S(ln, m) == S(ln0, m)), S(ln, m)))]

def from_chain_summary(c, w):
    heads = []
    def f(e, st, fn, args, kw, node):
        if len(args) != 3 or not isinstance(args[1], SymV) or kw: return None
        before = (e.sym_arrays(st, LV, 'lav')[0], e.sym_arrays(st, '_LAV', '_len')[0])
        lav = e.sym_new(st, '_LAV')
        e.sym_set(st, lav, 'head', args[1])
        e.sym_set(st, lav, '_slav', args[2])
        la, ln = e.fresh(st, 'lav', before[0].sort()), e.fresh(st, 'len', before[1].sort())
        for _, g in chain_facts(w, e, st, lav.t, args[1].t, before, (la, ln)): st.fact(g)
        # loops made before have no vertex in common with this one
        if w.members:
            for h, l in heads: st.fact(z3.Implies(z3.And(h != args[1].t, S(before[0], h) == l), S(la, h) == l))
            heads.append((args[1].t, lav.t))
        st.sym[(LV, 'lav')], st.sym[('_LAV', '_len')] = [la], [ln]
        e.assumed.add('a loop of the wavefront is closed (walking along it ends); otherwise RuntimeError')
        return [(st, lav)]
    return f

@contract('C18', 'a loop from a chain of vertices', ['_LAV.from_chain', '_LAV.__init__', '_LAV.__iter__'])
def from_chain(c):
    w = World(c)
    e = c.e
    head = w.vertex('head')
    start = c.st
    def hint(info):
        la, ln = ('sym', (LV, 'lav')), ('sym', ('_LAV', '_len'))
        if la not in info.cells or ln not in info.cells or info.view is None or info.view.lst is None: return []
        new = next((x.t for x in info.st.env.values() if isinstance(x, SymV) and x.cls == '_LAV'), None)
        if new is None: return []
        x = lambda t: info.view.lst.get(t)[0].t
        i, m = z3.Int('i'), z3.Int('m')
        return [('length', lambda v, k: S(v(ln)[0], new) == k),
                ('members', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), S(v(la)[0], x(i)) == new), x(i))),
                ('others are as before', lambda v, k: forall(m, z3.Or(S(v(la)[0], m) == S(info.inits[la][0], m), S(v(la)[0], m) == new), S(v(la)[0], m))),
                ('other lengths are as before', lambda v, k: forall(m, z3.Or(m == new, S(v(ln)[0], m) == S(info.inits[ln][0], m)), S(v(ln)[0], m)))]
    e.hints.append(hint)
    cls = e.lookup_global('bpypolyskel', '_LAV')
    for s, r in c.method(start.copy(), cls, 'from_chain', [head, w.slav]):
        if not isinstance(r, SymV): c.ensure(s, 'a loop', z3.BoolVal(False)); continue
        g = lambda f: e.sym_get(s, SymV('_LAV', r.t), f).t
        c.ensure(s, 'a new loop', r.t == w.a0)
        c.ensure(s, 'one object is created', e.sym_alloc(s) == w.a0 + 1)
        c.ensure(s, 'starts at the given vertex', g('head') == head.t)
        c.ensure(s, 'belongs to the wavefront', g('_slav') == z3.Int('object&%d' % w.slav.id))
        walks = [x for x in w.lists if isinstance(x[1], SymV)]
        if len(walks) == 1:
            _, v, wk, n = walks[0]
            i = z3.Int('i!m')
            c.ensure(s, 'as many vertices as the chain has', g('_len') == n)
            s2 = s.copy(); s2.fact(0 <= i, i < n)
            c.ensure(s2, 'all vertices of the chain join', e.sym_get(s, SymV(LV, wk(i)), 'lav').t == r.t)
        arr = lambda st: (e.sym_arrays(st, LV, 'lav')[0], e.sym_arrays(st, '_LAV', '_len')[0])
        for nm, g_ in chain_facts(w, e, s, r.t, head.t, arr(start), arr(s)): c.ensure(s, nm, g_)
        for key in s.sym:
            if key[1] in ('lav', '_len') or key[0] == '_LAV': continue
            c.ensure(s, 'nothing else changes', z3.BoolVal(all(p.eq(q) for p, q in zip(s.sym[key], e.sym_arrays(start, *key)))))
        m = z3.Int('m!l')
        for f in ('head', '_slav'): c.ensure(s, 'no other loop changes', forall(m, z3.Implies(m != r.t, S(e.sym_arrays(s, '_LAV', f)[0], m) == S(e.sym_arrays(start, '_LAV', f)[0], m))))

def kill_hint(c, w, made):
    def hint(info):
        va, la, hd = ('sym', (LV, '_valid')), ('sym', (LV, 'lav')), ('sym', ('_LAV', 'head'))
        if not {va, la, hd} <= set(info.cells) or info.view is None or info.view.lst is None: return []
        m, i = z3.Int('m'), z3.Int('i')
        x = lambda t: info.view.lst.get(t)[0].t
        ids = list({z3.simplify(t) for t in made})
        top = c.e.sym_alloc(info.st)
        la0, hd0, va0 = info.inits[la][0], info.inits[hd][0], info.inits[va][0]
        l = S(la0, x(z3.IntVal(0)))
        nov = [m != t for t in ids]      # numbers of loops, not of vertices
        return [('vertices only become invalid', lambda v, k: forall(m, z3.Implies(S(v(va)[0], m), S(va0, m)), S(v(va)[0], m))),
                ('those to come are still members', lambda v, k: forall(i, z3.Implies(z3.And(k <= i, i < info.n), S(v(la)[0], x(i)) == l), x(i))),
                ('members stay or leave', lambda v, k: forall(m, z3.Or(S(v(la)[0], m) == S(la0, m), z3.And(S(la0, m) == l, S(v(la)[0], m) == 0)), S(v(la)[0], m))),
                ('other loops keep their first vertex', lambda v, k: forall(m, z3.Implies(m != l, S(v(hd)[0], m) == S(hd0, m)), S(v(hd)[0], m))),
                ('the first vertex is a vertex', lambda v, k: z3.And(S(v(hd)[0], l) > 0, z3.Or(S(v(hd)[0], l) < w.a0, *[S(v(hd)[0], l) == t for t in ids])))]
    return hint

def spy_made(c):
    made = []
    def spy(e, st, cls, args, kw, node):
        made.append(e.sym_alloc(st)); return None
    c.e.summaries['_LAVertex'] = spy
    return made

@contract('C18', 'split event', ['_SLAV.handle_split_event', '_LAVertex.__init__', '_LAV.from_chain', '_LAV.__len__', '_LAVertex.invalidate', '_LAV.invalidate'], timeout=300)
def split_event(c):
    w = World(c)
    e = c.e
    v, oe = w.vertex('vertex'), w.edge('opposite')
    ev, at, d = event(c, w, '_SplitEvent', vertex=v, opposite_edge=oe)
    A = lambda f, x, i=0: S(w.A(LV, f, i), x)
    lav = A('lav', v.t)
    made = spy_made(c)
    # all vertices of all loops
    W, Wref = c.list(TSym(LV), 'wavefront', ('frozen',))
    i, j = z3.Int('i'), z3.Int('j')
    ix = z3.Function('loop position', I, I)      # where a loop is in the list
    x = lambda t: W.get(t)[0].t
    L = lambda t: w.lavs.get(t)[0].t
    c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < W.n), z3.And(x(i) > 0, x(i) < w.a0, 0 <= ix(A('lav', x(i))), ix(A('lav', x(i))) < w.lavs.n, L(ix(A('lav', x(i)))) == A('lav', x(i)))), x(i)))
    c.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < w.lavs.n), L(i) != L(j)), [L(i), L(j)]))
    # the split vertex is one of them, and neighbours belong to the same loop
    at_v = z3.Int('at_v')
    c.assume(0 <= at_v, at_v < W.n, x(at_v) == v.t, A('_valid', v.t), lav > 0)
    for f in ('prev', 'next'): c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < W.n), A('lav', A(f, x(i))) == A('lav', x(i))), x(i)))
    def chained(en, st, arg):
        en.assumed.add('chain.from_iterable(loops): the vertices of all loops, one after the other')
        l = en.read(st, arg)
        if not isinstance(l, ListC): return None
        return [(st, Wref)]
    e.chain_summary = chained
    e.keep_lengths = True
    w.members = True
    e.merge_breaks = True
    e.member_hints = lambda st, l, px: [ix(px.t), ix(px.t) - 1] if isinstance(px, SymV) and px.cls == '_LAV' else []
    e.hints += [kill_hint(c, w, made)]
    e.summaries['_LAV.from_chain'] = from_chain_summary(c, w)
    start = c.st
    for s, r in c.method(c.st.copy(), w.slav, 'handle_split_event', [ev]):
        for s, a in e.split(s, r.items[0]) if isinstance(r, TupleV) and len(r.items) == 2 else [(s, None)]:
            if a is None: c.ensure(s, 'a pair of node and events', z3.BoolVal(False)); continue
            evs = e.purify(s, r.items[1])
            if not isinstance(evs, ListC): c.ensure(s, 'a list of events', z3.BoolVal(False)); continue
            lvs = c.pure(s, s.heap[w.slav.id].fields['_lavs'])
            if a is NONE:
                c.ensure(s, 'no node: no events', evs.n == 0)
                for key in s.sym:
                    for p, q in zip(s.sym[key], e.sym_arrays(start, *key)): c.ensure(s, 'no node: nothing changes (%s.%s)' % key, p == q)
                c.ensure(s, 'no node: nothing is created', e.sym_alloc(s) == w.a0)
                c.ensure(s, 'no node: the loops stay', lvs.n == w.lavs.n)
                s2 = s.copy(); s2.fact(0 <= j, j < lvs.n)
                c.ensure(s2, 'no node: the loops stay the same', lvs.get(j)[0].t == L(j))
                continue
            sinks = node(c, s, TupleV([a, r.items[1]]), at, d)
            if not isinstance(sinks, ListC): c.ensure(s, 'a list of sinks', z3.BoolVal(False)); continue
            pt = lambda y: [S(w.A(LV, 'point', t), y) for t in (0, 1)]
            c.ensure(s, 'the first sink is the split vertex', z3.And(sinks.n >= 1, same_xy(sinks.get(z3.IntVal(0))[0].xs, pt(v.t))))
            c.ensure(s, 'the split vertex is consumed', z3.Not(valid(e, s, v.t)))
            mk = list({z3.simplify(t).get_id(): z3.simplify(t) for t in made}.values())
            c.ensure(s, 'two vertices are created', z3.BoolVal(len(mk) == 2))
            for t in mk:
                g = lambda f: e.sym_get(s, SymV(LV, t), f)
                c.ensure(s, 'the new vertices are at the point of the event', same_xy(g('point').xs, at))
                c.ensure(s, 'the new vertices are convex', z3.Not(g('_is_reflex').t))
            if len(mk) == 2:
                g = lambda k, f: e.sym_get(s, SymV(LV, mk[k]), f).t
                one = lambda p, q: z3.And(g(p, 'edge_prev') == A('edge_prev', v.t), g(p, 'edge_next') == oe.t, g(q, 'edge_prev') == oe.t, g(q, 'edge_next') == A('edge_next', v.t))
                c.ensure(s, 'the new vertices lie between the split vertex\'s edges and the opposite edge', z3.Or(one(0, 1), one(1, 0)))
            m = z3.Int('m')
            # only vertices of the loops that changed
            c.ensure(s, 'no vertex becomes valid', forall(m, z3.Implies(z3.And(0 < m, m < w.a0, valid(e, s, m)), valid(e, start, m))))
    ids = [z3.simplify(t) for t in made]
    for q, y in w.asked:
        if not isinstance(y, SymV): c.ensure(q, 'events are asked for from new vertices', z3.BoolVal(False)); continue
        lv = e.sym_get(q, y, 'lav').t
        c.ensure(q, 'events are asked for from new vertices', disj([y.t == t for t in ids]))
        lst = c.pure(q, q.heap[w.slav.id].fields['_lavs'])
        ln = e.sym_get(q, SymV('_LAV', lv), '_len').t
        hd = e.sym_get(q, SymV('_LAV', lv), 'head').t
        c.ensure(q, 'events are asked for from vertices whose loop stays', z3.Or(z3.Exists([j], z3.And(0 <= j, j < lst.n, lst.get(j)[0].t == lv)), *[z3.And(lst.n >= t, lst.get(lst.n - t)[0].t == lv) for t in (1, 2)]))
