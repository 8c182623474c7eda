"""C06: tracing the faces of a planar graph."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.values import symbols
from pyvc.engine import conj, disj, neg

PAIR = TTuple(TInt, TInt)
T2 = lambda u, v: TupleV([Num(u), Num(v)])
i, j, f, g, u, v, w, x = z3.Ints('i j f g u v w x')

class Graph:
    """a simple graph (dictionary of neighbours) and a rotation system of it"""
    def __init__(self, c, emb=True):
        e, st = c.e, c.st
        self.c, self.e = c, e
        keys = e.fresh_val(st, TList(TInt), 'vertex')
        st.fact(keys.n >= 0)
        V_ = lambda k: keys.get(k)[0].t
        vpos = z3.Function('vpos', I, I)
        has = lambda y: z3.And(0 <= vpos(y), vpos(y) < keys.n, V_(vpos(y)) == y)
        c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < keys.n), vpos(V_(i)) == i), V_(i)))
        self.E = E = z3.Function('E', I, I, B)
        def adj(deg, nb, pos):
            c.assume(forall(u, deg(u) >= 0, deg(u)))
            c.assume(forall([u, i], z3.Implies(z3.And(has(u), 0 <= i, i < deg(u)), z3.And(E(u, nb(u, i)), pos(u, nb(u, i)) == i)), nb(u, i)))
            c.assume(forall([u, v], z3.Implies(E(u, v), z3.And(0 <= pos(u, v), pos(u, v) < deg(u), nb(u, pos(u, v)) == v)), E(u, v)))
            return lambda y: ListC(deg(y), lambda m: (Num(nb(y, m)), [deg(y) >= 0]), etype=TInt)
        fn = lambda n, k: z3.Function(n, *([I] * (k + 1)))
        nbs = adj(fn('gdeg', 1), fn('gnb', 2), fn('gpos', 2))
        # neighbours are mutual, no vertex is its own neighbour (add_edge)
        c.assume(forall([u, v], z3.Implies(E(u, v), z3.And(E(v, u), u != v, has(u), has(v))), E(u, v)))
        self.g = c.alloc(DictC(lambda k: has(k.t), lambda k: (nbs(k.t), []), keys=keys, kt=TInt, vt=TList(TInt)))
        self.obj = c.alloc(ObjC('poly2FacesGraph', {'g_dict': self.g}))
        if not emb: return
        deg, nb, pos = fn('deg', 1), fn('nb', 2), fn('pos', 2)
        en = adj(deg, nb, pos)
        self.emb = c.alloc(DictC(lambda k: has(k.t), lambda k: (en(k.t), []), keys=keys, default='list', kt=TInt, vt=TList(TInt)))
        # the edge after (u, v): (v, the neighbour of v after u in the circular order at v)
        self.nxt = fn('nxt', 2)
        c.assume(forall([u, v], z3.Implies(E(u, v), self.nxt(u, v) == nb(v, z3.If(pos(v, u) + 1 == deg(v), 0, pos(v, u) + 1))), self.nxt(u, v)))
        # it is an edge, and different edges into v are followed by different edges
        s = c.st.copy()
        s.fact(E(u, v), E(w, v))
        c.ensure(s, 'lemma: an edge is followed by an edge', E(v, self.nxt(u, v)))
        c.ensure(s, 'lemma: different edges are followed by different edges', z3.Implies(self.nxt(u, v) == self.nxt(w, v), u == w))
        c.assume(forall([u, v], z3.Implies(E(u, v), E(v, self.nxt(u, v))), self.nxt(u, v)))
        c.assume(forall([u, v, w], z3.Implies(z3.And(E(u, v), E(w, v), self.nxt(u, v) == self.nxt(w, v)), u == w), [self.nxt(u, v), self.nxt(w, v)]))

def State_(st):
    s = st.copy(); s.facts, s.pc = [], []
    return s

def provs(l):
    if not isinstance(l, ListC) or not l.prov: return []
    return [l.prov] + [q for x in l.prov[1:] if isinstance(x, ListC) for q in provs(x)]

def pair(p): return p.items[0].t, p.items[1].t

@contract('C06', 'edges of a graph', ['poly2FacesGraph.edges'])
def edges(c):
    G = Graph(c, emb=False)
    e = c.e
    e.multisets = True
    E = G.E
    keys = c.st.heap[G.g.id].keys
    def hint(info):
        ls = [q for q in info.cells if q[0] == 'loc' and isinstance(info.inits[q], ListC) and info.view is not None]
        if len(ls) != 1: return []
        L = ls[0]
        def ct(v_, a, b):
            if v_(L).cnt is None: raise Unsupported('multiplicities')
            return v_(L).cnt(T2(a, b))
        out = [('only edges', lambda v_, k: forall([u, v], z3.Implies(ct(v_, u, v) >= 1, E(u, v)), ct(v_, u, v)))]
        init = info.inits[L]
        if init.cnt is not None: out.append(('nothing is lost', lambda v_, k: forall([u, v], z3.Implies(init.cnt(T2(u, v)) >= 1, ct(v_, u, v) >= 1), init.cnt(T2(u, v)))))
        lst = info.view.lst
        either = lambda v_, a, b: z3.Or(ct(v_, a, b) >= 1, ct(v_, b, a) >= 1)
        if lst is not None and lst.etype == TInt:
            out.append(('edges of this vertex so far', lambda v_, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), either(v_, x0(info), lst.get(i)[0].t)), lst.get(i)[0].t) if x0(info) is not None else None))
        V_ = lambda m: keys.get(m)[0].t
        at = lambda m, t: G.c.st.heap[G.g.id].get(Num(V_(m)))[0].get(t)[0].t
        dg = lambda m: G.c.st.heap[G.g.id].get(Num(V_(m)))[0].n
        out.append(('edges of the vertices so far', lambda v_, k: forall([j, i], z3.Implies(z3.And(0 <= j, j < k, 0 <= i, i < dg(j)), either(v_, V_(j), at(j, i))), at(j, i))))
        return out
    def x0(info):
        # the vertex of the outer loop: the only other integer in reach that is a vertex
        t = info.view.lst.get(z3.Int('probe!x'))[0].t
        return t.arg(0) if z3.is_app(t) and t.num_args() == 2 else None
    e.hints.append(hint)
    for s, r in c.method(c.st.copy(), G.obj, 'edges'):
        L = c.pure(s, r)
        if not isinstance(L, ListC): c.ensure(s, 'a list', z3.BoolVal(False)); continue
        s2 = s.copy(); s2.fact(0 <= i, i < L.n)
        p, fs = L.get(i); s2.fact(*fs)
        if not isinstance(p, TupleV) or len(p.items) != 2: c.ensure(s, 'pairs', z3.BoolVal(False)); continue
        a, b = pair(p)
        c.ensure(s2, 'edges of the graph only', E(a, b))
        s3 = s.copy(); s3.fact(E(u, v))
        gp = z3.Function('gpos', I, I, I)(u, v)
        s3.fact(E(v, u), z3.Function('gnb', I, I, I)(u, gp) == v)
        if L.prov and L.prov[0] == 'concat' and const_int(L.prov[1].n) == 0: L = L.prov[2]
        def inl(a, b):
            if L.cnt is not None: return L.cnt(T2(a, b)) >= 1
            at = lambda t: z3.And(0 <= t, t < L.n, *[y == z for y, z in zip(pair(L.get(t)[0]), (a, b))])
            if L.prov and L.prov[0] in ('flatten', 'blocks'):
                m = L.prov[4 if L.prov[0] == 'flatten' else 1](z3.Function('vpos', I, I)(a)) + z3.Function('gpos', I, I, I)(a, b)      # where it is in the list
                s3.fact(*L.get(m)[1])
                return at(m)
            return z3.Exists([i], at(i))
        c.ensure(s3, 'every edge, in at least one direction', z3.Or(inl(u, v), inl(v, u)))
        c.ensure(s, 'the graph is not modified', z3.BoolVal(s.heap[G.g.id] is c.st.heap[G.g.id]))

@contract('C06', 'adding an edge', ['poly2FacesGraph.add_edge', 'poly2FacesGraph.add_vertex'])
def add_edge(c):
    G = Graph(c, emb=False)
    a, b = c.int('a'), c.int('b')
    old = c.st.heap[G.g.id]
    for s, r in c.method(c.st.copy(), G.obj, 'add_edge', [TupleV([a, b])]):
        g = s.heap[G.g.id]
        w = z3.Int('w')
        if not isinstance(g, DictC): c.ensure(s, 'a dictionary', z3.BoolVal(False)); continue
        loop = a.t == b.t
        c.ensure(s, 'vertices', g.has(Num(w)) == z3.Or(old.has(Num(w)), z3.And(z3.Not(loop), z3.Or(w == a.t, w == b.t))))
        s1 = s.copy(); s1.fact(old.has(Num(w)), z3.Or(loop, z3.And(w != a.t, w != b.t)))
        l0, l1 = old.get(Num(w))[0], c.pure(s1, g.get(Num(w))[0])
        s1.fact(*g.get(Num(w))[1])
        s1.fact(0 <= i, i < l0.n)
        c.ensure(s1, 'other neighbours are unchanged', z3.And(l1.n == l0.n, l1.get(i)[0].t == l0.get(i)[0].t))
        for p, q in ((a, b), (b, a)):
            s2 = s.copy(); s2.fact(z3.Not(loop))
            l1, fs = g.get(p); s2.fact(*fs)
            l1 = c.pure(s2, l1)
            n0 = z3.If(old.has(p), old.get(p)[0].n, 0)
            c.ensure(s2, 'one more neighbour', l1.n == n0 + 1)
            s2.fact(l1.n == n0 + 1)
            x_, fs = l1.get(n0); s2.fact(*fs)
            c.ensure(s2, 'the other end is a neighbour', x_.t == q.t)
            s3 = s2.copy(); s3.fact(0 <= i, i < n0)
            x_, fs = l1.get(i); s3.fact(*fs)
            c.ensure(s3, 'the neighbours so far stay', x_.t == old.get(p)[0].get(i)[0].t)

@contract('C06', 'tracing faces', ['poly2FacesGraph.faces'], timeout=300)
def faces(c):
    G = Graph(c)
    e = c.e
    E, nxt = G.E, G.nxt
    e.multisets = e.unique_positions = True
    e.hint_ms = 10000
    N = z3.Int('nrOfPolyVerts')
    # contract of edges() (unit above)
    ed, _ = c.list(PAIR, 'edges', ('frozen',))
    epos = z3.Function('epos', I, I, I)
    el = lambda t: pair(ed.get(t)[0])
    c.assume(forall(i, z3.Implies(z3.And(0 <= i, i < ed.n), E(*el(i))), el(i)[0]))
    c.assume(forall([u, v], z3.Implies(E(u, v), z3.And(0 <= epos(u, v), epos(u, v) < ed.n, z3.Or(z3.And(el(epos(u, v))[0] == u, el(epos(u, v))[1] == v), z3.And(el(epos(u, v))[0] == v, el(epos(u, v))[1] == u)))), E(u, v)))
    e.summaries['poly2FacesGraph.edges'] = lambda e_, st, fn, args, kw, node: [(st, e_.alloc(st, ListC(ed.n, ed.fn, etype=PAIR)))]
    isE = lambda a, b: z3.If(E(a, b), 1, 0)
    def hint(info):
        ty = lambda q: type_of(info.templates[q]) if info.templates[q] is not None else None
        sets = [q for q in info.cells if q[0] == 'loc' and isinstance(info.templates[q], SetC)] + [q for q in info.cells if q[0] == 'env' and isinstance(info.templates[q], SetC)]
        if len(sets) != 1: return []
        S = sets[0]
        has = lambda v_, a, b: v_(S).has(T2(a, b))
        if info.view is not None:      # the directed edges
            return [('only edges', lambda v_, k: forall([u, v], z3.Implies(has(v_, u, v), E(u, v)), has(v_, u, v))),
                    ('both directions', lambda v_, k: forall(i, z3.Implies(z3.And(0 <= i, i < k), z3.And(has(v_, *el(i)), has(v_, el(i)[1], el(i)[0]))), el(i)[0]))]
        lists = [q for q in info.cells if isinstance(info.templates[q], ListC)]
        P = [q for q in lists if ty(q) == TList(PAIR)]
        F = [q for q in lists if ty(q) == TList(TList(PAIR))]
        P = [q for q in P if q[0] == 'env'] or P     # the path may be a new list in every turn
        if len(P) != 1 or len(F) != 1: return []
        P, F = P[0], F[0]
        pe = lambda v_, t: pair(v_(P).get(t)[0])
        fe = lambda v_, a, t: pair(v_(F).get(a)[0].get(t)[0])
        fl = lambda v_, a: v_(F).get(a)[0].n
        pc = lambda v_, a, b: v_(P).cnt(T2(a, b))
        fc = lambda v_, a, b: e.flat_cnt(v_(F))[0](T2(a, b))
        one = lambda a, b: z3.If(z3.And(a[0] == b[0], a[1] == b[1]), 1, 0)
        follows = lambda a, b: z3.And(b[0] == a[1], b[1] == nxt(*a))
        return [
            ('every directed edge once', lambda v_, k: forall([u, v], z3.If(has(v_, u, v), 1, 0) + pc(v_, u, v) + fc(v_, u, v) == isE(u, v), E(u, v), has(v_, u, v), pc(v_, u, v), fc(v_, u, v))),
            ('a path is traced', lambda v_, k: z3.Or(v_(P).n >= 1, forall([u, v], z3.Not(E(u, v)), E(u, v)))),
            # the successor of an edge of the path is in the path, except that of the last; only the first edge may have none before it
            ('the path ends with an edge that has a successor', lambda v_, k: z3.Or(v_(P).n < 1, z3.And(E(*pe(v_, v_(P).n - 1)), E(pe(v_, v_(P).n - 1)[1], nxt(*pe(v_, v_(P).n - 1)))))),
            ('successors in the path', lambda v_, k: z3.Or(v_(P).n < 1, forall([u, v], z3.Implies(E(u, v), pc(v_, v, nxt(u, v)) == pc(v_, u, v) - one((u, v), pe(v_, v_(P).n - 1)) + one((v, nxt(u, v)), pe(v_, z3.IntVal(0)))), nxt(u, v)))),
            ('successors in the faces', lambda v_, k: forall([u, v], z3.Implies(E(u, v), fc(v_, u, v) == fc(v_, v, nxt(u, v))), nxt(u, v))),
            ('path and faces are paths', lambda v_, k: z3.And(forall([i, j], z3.Implies(z3.And(0 <= i, j == i + 1, j < v_(P).n), follows(pe(v_, i), pe(v_, j))), [pe(v_, i)[0], pe(v_, j)[0]]),
                    z3.BoolVal(True) if const_int(v_(F).n) == 0 else forall([f, i, j], z3.Implies(z3.And(0 <= f, f < v_(F).n, 0 <= i, j == i + 1, j < fl(v_, f)), follows(fe(v_, f, i), fe(v_, f, j))), [fe(v_, f, i)[0], fe(v_, f, j)[0]]))),
            ('faces are closed', lambda v_, k: z3.BoolVal(True) if const_int(v_(F).n) == 0 else forall(f, z3.Implies(z3.And(0 <= f, f < v_(F).n), follows(fe(v_, f, fl(v_, f) - 1), fe(v_, f, z3.IntVal(0)))), fl(v_, f))),
            ('no empty face', lambda v_, k: z3.BoolVal(True) if const_int(v_(F).n) == 0 else forall(f, z3.Implies(z3.And(0 <= f, f < v_(F).n), fl(v_, f) >= 1), fl(v_, f))),
            ('every turn of the loop takes a new edge', lambda v_, k: z3.Or(v_(P).n + e.flat_cnt(v_(F))[1] == k + 1, forall([u, v], z3.Not(E(u, v)), E(u, v)))),
        ]
    e.hints.append(hint)
    follows = lambda a, b: z3.And(b[0] == a[1], b[1] == nxt(*a))
    traced = {}
    def cut(e_, st, ref):
        """what is traced is asserted before the faces are gone through, and only that is known afterwards"""
        if not isinstance(ref, LocV): return
        F = st.heap[ref.id]
        if not isinstance(F, ListC) or type_of(F) != TList(TList(PAIR)) or any(F is q for q in traced.values()): return
        fcl = e.flat_cnt(F)
        if fcl is None: return
        def facts(F, fc, s, name, sink):
            fe = lambda a, t: pair(F.get(a)[0].get(t)[0])
            n = F.get(f)[0].n
            inr = z3.And(0 <= f, f < F.n)
            sink(s, 'no empty face', inr, n >= 1, [f], n)
            sink(s, 'only edges', z3.And(inr, 0 <= i, i < n), E(*fe(f, i)), [f, i], fe(f, i)[0])
            sink(s, 'an edge is followed by its successor in the circular order', z3.And(inr, 0 <= i, j == i + 1, j < n), follows(fe(f, i), fe(f, j)), [f, i, j], [fe(f, i)[0], fe(f, j)[0]])
            sink(s, 'the first edge is the successor of the last', z3.And(inr, n >= 1), follows(fe(f, n - 1), fe(f, z3.IntVal(0))), [f], n)
            sink(s, 'every directed edge is in exactly one face', z3.BoolVal(True), fc(T2(u, v)) == isE(u, v), [u, v], E(u, v))
        def prove(s, nm, hyp, concl, vs, pat):
            s2 = s.copy(); s2.fact(hyp)
            if F.n is not None: s2.fact(*F.get(f)[1])
            c.ensure(s2, nm, concl)
        facts(F, fcl[0], st, '', prove)
        key = ref.id
        N_ = e_.fresh_val(st, TList(TList(PAIR)), 'traced')
        st.fact(N_.n >= 0)
        e_.give_fcnt(st, N_)
        facts(N_, N_.fcnt, st, '', lambda s, nm, hyp, concl, vs, pat: s.fact(forall(vs, z3.Implies(hyp, concl), pat)))
        a = z3.Int('a')
        fe = lambda a, t: pair(N_.get(a)[0].get(t)[0])
        traced[N_.n.get_id()] = N_
        st.heap[ref.id] = N_
        st.epoch[ref.id] = st.epoch.get(ref.id, 0) + 1
    e.cuts.append(cut)
    for s, r in c.method(c.st.copy(), G.obj, 'faces', [G.emb, Num(N)]):
        L = c.pure(s, r)
        if not isinstance(L, ListC): c.ensure(s, 'a list', z3.BoolVal(False)); continue
        def face(s, t):
            q, fs = L.get(t); s.fact(*fs)
            return q
        def at(s, q, t):
            y, fs = q.get(t); s.fact(*fs)
            return y.t
        nx = lambda q, t: z3.If(t == q.n - 1, 0, t + 1)
        s1 = s.copy(); s1.fact(0 <= f, f < L.n)
        q = face(s1, f)
        c.ensure(s1, 'a face is not empty', q.n >= 1)
        s2 = s1.copy(); s2.fact(q.n >= 1, 0 <= i, i < q.n)
        a, b, d = at(s2, q, i), at(s2, q, nx(q, i)), at(s2, q, nx(q, nx(q, i)))
        c.ensure(s2, 'consecutive vertices are joined by an edge', E(a, b))
        c.ensure(s2, 'each edge is followed by its successor in the circular order', nxt(a, b) == d)
        c.ensure(s1, 'a face has a vertex that is not a footprint vertex', z3.Exists([j], z3.And(0 <= j, j < q.n, q.get(j)[0].t >= N)))
        s3 = s2.copy()
        c.ensure(s3, 'a face starts with a footprint edge if it has one', z3.Implies(z3.And(a < N, b < N), z3.And(at(s3, q, z3.IntVal(0)) < N, at(s3, q, nx(q, z3.IntVal(0))) < N)))
        # which traced face it is, where the edges are in it
        Ns = [q_ for q_ in traced.values() if symbols(q_.n) & symbols(L.n)]
        if len(Ns) != 1: raise Unsupported('faces not made from one traced list')
        N_ = Ns[0]
        _, pf, pi = N_.prov
        a0, b0 = at(s2, q, z3.IntVal(0)), at(s2, q, nx(q, z3.IntVal(0)))
        k_ = pi(a0, b0) + i
        rot = pi(a, b) == z3.If(k_ < q.n, k_, k_ - q.n)
        c.ensure(s2, 'lemma: a face is part of a traced face', pf(a, b) == pf(a0, b0))
        s5 = s2.copy(); s5.fact(i == 0)
        c.ensure(s5, 'lemma: a face is as long as the traced face', z3.And(0 <= pi(a0, b0), pi(a0, b0) < q.n, 0 <= pf(a0, b0), pf(a0, b0) < N_.n, N_.get(pf(a0, b0))[0].n == q.n))
        c.ensure(s2, 'lemma: a face is a rotated traced face', rot)
        s4 = s1.copy(); s4.fact(0 <= g, g < f)
        q2 = face(s4, g)
        o4 = at(s4, q2, z3.IntVal(0)), at(s4, q2, nx(q2, z3.IntVal(0)))
        c.ensure(s4, 'lemma: different faces are different traced faces', pf(*o4) < pf(a0, b0))
        # from the lemmas: with functions for the faces
        A, Q = z3.Function('face!', I, I, I), z3.Function('face.len!', I, I)
        s5 = State_(c.st)
        B_ = lambda f, i: A(f, z3.If(i == Q(f) - 1, 0, i + 1))
        for f_, i_ in ((f, i), (g, j)):
            k_ = pi(A(f_, 0), B_(f_, z3.IntVal(0))) + i_
            s5.fact(0 <= i_, i_ < Q(f_), pf(A(f_, i_), B_(f_, i_)) == pf(A(f_, 0), B_(f_, z3.IntVal(0))), pi(A(f_, i_), B_(f_, i_)) == z3.If(k_ < Q(f_), k_, k_ - Q(f_)))
            k_ = pi(A(f_, 0), B_(f_, z3.IntVal(0)))
            s5.fact(0 <= k_, k_ < Q(f_))
        less = lambda f, g: z3.Implies(g < f, pf(A(g, 0), B_(g, z3.IntVal(0))) < pf(A(f, 0), B_(f, z3.IntVal(0))))
        s5.fact(less(f, g), less(g, f), A(f, i) == A(g, j), B_(f, i) == B_(g, j))
        c.ensure(s5, 'no directed edge is in two faces or twice in one', z3.And(f == g, i == j))
        # the edge (u, v) with a vertex that is not a footprint vertex
        flt = next((q_ for q_ in provs(L) if q_[0] == 'ranks'), None)
        if flt is None: raise Unsupported('faces not made by going through one list')
        T = pf(u, v)
        fm = flt[-2](T)
        s6 = s.copy(); s6.fact(E(u, v), z3.Or(u >= N, v >= N))
        c.ensure(s6, 'lemma: the edge is in a traced face', z3.And(0 <= T, T < N_.n, 0 <= pi(u, v), pi(u, v) < N_.get(T)[0].n, *[x == y for x, y in zip(pair(N_.get(T)[0].get(pi(u, v))[0]), (u, v))]))
        s6.fact(0 <= T, T < N_.n, 0 <= pi(u, v), pi(u, v) < N_.get(T)[0].n, *[x == y for x, y in zip(pair(N_.get(T)[0].get(pi(u, v))[0]), (u, v))])
        nT = N_.get(T)[0].n
        after = N_.get(T)[0].get(z3.If(pi(u, v) == nT - 1, 0, pi(u, v) + 1))[0].items[0].t
        c.ensure(s6, 'lemma: the next edge of the face starts where this one ends', after == v)
        s6.fact(z3.If(pi(u, v) == nT - 1, N_.get(T)[0].get(z3.IntVal(0))[0].items[0].t == v, N_.get(T)[0].get(pi(u, v) + 1)[0].items[0].t == v))
        c.ensure(s6, 'lemma: the traced face of an edge to a vertex inside is kept', flt[1](T))
        s6.fact(flt[1](T))
        c.ensure(s6, 'lemma: its position in the result', z3.And(0 <= fm, fm < L.n))
        c.ensure(s6, 'lemma: it is the source', flt[-1](fm) == T)
        # hence it is in the result: at idx in the face at fm
        s6.fact(0 <= fm, fm < L.n)
        q6 = face(s6, fm)
        c0, d0 = at(s6, q6, z3.IntVal(0)), at(s6, q6, nx(q6, z3.IntVal(0)))
        s7 = s6.copy()
        c.ensure(s7, 'lemma: length of its face', z3.And(q6.n == N_.get(T)[0].n, q6.n >= 1))
        dx = pi(u, v) - pi(c0, d0)
        idx = z3.If(dx >= 0, dx, dx + q6.n)
        s6.fact(q6.n == N_.get(T)[0].n, q6.n >= 1, 0 <= pi(c0, d0), pi(c0, d0) < q6.n)      # by the lemmas
        t = z3.Int('idx')
        s6.fact(t == idx)
        a6, b6 = at(s6, q6, t), at(s6, q6, nx(q6, t))
        # the lemma on rotated faces for the face fm at t
        k6 = pi(c0, d0) + t
        s6.fact(pf(a6, b6) == pf(c0, d0), pi(a6, b6) == z3.If(k6 < q6.n, k6, k6 - q6.n))
        c.ensure(s6, 'every directed edge to a vertex inside is in the result', z3.And(0 <= t, t < q6.n, a6 == u, b6 == v))
