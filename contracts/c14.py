"""C14: merging nodes of the skeleton."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

V2 = TVec(2)
BOUNDED = ['mergeCluster: the merged node is connected to every outside vertex a merged node was connected to, and a node connected into the cluster is connected to the merged node (proved: not to anything else, and not to the cluster any more)',
           'mergeNodeClusters: the first loop (nodes with exactly equal positions)', 'floating point: means computed with rounding']
SUB = TRec('Subtree', {'source': V2, 'height': TReal, 'sinks': TList(V2)})
eq = lambda a, b: conj([x == y for x, y in zip(a, b)])
rng = lambda i, n: z3.And(0 <= i, i < n)

def node(l, b):
    """source, height, number of sinks, sink j"""
    f = l.get(b)[0].fields
    return f['source'].xs, f['height'].t, f['sinks'].n, lambda j: f['sinks'].get(j)[0].xs

def cases(l, cond=()):
    """a list depending on conditions: the lists it may be"""
    if l.prov and l.prov[0] == 'ite':
        return cases(l.prov[2], cond + (l.prov[1],)) + cases(l.prov[3], cond + (neg(l.prov[1]),))
    return [(list(cond), l)]

def merge(c, all=True):
    e = c.e
    e.strict_closing = True
    skel, sref = c.list(SUB, 'skeleton')
    cl, cref = c.list(TInt, 'cluster')
    n, k = skel.n, cl.n
    b, i, j, p, q, t = z3.Ints('b i j p q t')
    x, y = z3.Reals('x y')
    at = lambda t: cl.get(t)[0].t
    src = lambda t: node(skel, t)[0]
    deg = lambda b: node(skel, b)[2]
    snk = lambda b, j: node(skel, b)[3](j)
    c.assume(k >= 2, forall(i, z3.Implies(rng(i, k), rng(at(i), n)), at(i)))
    c.assume(forall(b, z3.Implies(rng(b, n), deg(b) >= 0), deg(b)))
    # no node twice in the cluster (where a node is in it), no two nodes at the same position (those are merged before)
    place = z3.Function('place', I, I)
    inC = lambda b: z3.And(rng(place(b), k), at(place(b)) == b)
    c.assume(forall(i, z3.Implies(rng(i, k), place(at(i)) == i), at(i)))
    c.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(eq(src(i), src(j)))), (src(i)[0], src(j)[0])))
    # definition: positions of merged nodes
    inM, whM = z3.Function('merged', R, R, B), z3.Function('mergedAt', R, R, I)
    c.assume(forall(i, z3.Implies(rng(i, k), inM(*src(at(i)))), at(i)))
    c.assume(forall([x, y], z3.Implies(inM(x, y), z3.And(rng(whM(x, y), k), src(at(whM(x, y)))[0] == x, src(at(whM(x, y)))[1] == y)), inM(x, y)))
    mean = []
    def spec(st):
        """the mean of positions and heights; the code's sums are recognised term by term"""
        if not mean:
            o = st.copy(); n0 = len(o.facts)
            for g in (lambda t: src(at(t))[0], lambda t: src(at(t))[1], lambda t: node(skel, at(t))[1]):
                S = linked_sum(c, o, k, lambda t, g=g: (g(t), []))
                m = z3.Real('mean!%d' % len(mean))
                o.fact(m == S(k) / z3.ToReal(k))
                mean.append(m)
            facts.extend(o.facts[n0:])
        have = {f.get_id() for f in st.facts}
        st.fact(*[f for f in facts if f.get_id() not in have])
    facts = []
    def hint(info):
        if info.view is None: return []
        out = []
        for q in info.cells:
            if q[0] == 'loc' and isinstance(info.inits[q], ListC) and z3.is_true(z3.simplify(info.inits[q].n == 0)):
                # a list of indices collected in a loop
                el = lambda v, t, q=q: v(q).get(t)[0]
                def cl_(f, q=q):
                    def g(v, k):
                        if z3.is_true(z3.simplify(v(q).n == 0)): return z3.BoolVal(True)
                        return f(v, k) if isinstance(v(q).get(z3.IntVal(0))[0], Num) else z3.BoolVal(True)
                    return g
                out += [('indices collected so far', cl_(lambda v, k, q=q, el=el: forall(t, z3.Implies(rng(t, v(q).n), rng(el(v, t).t, k)), el(v, t).t))),
                        ('indices are collected in order', cl_(lambda v, k, q=q, el=el: forall([t, p], z3.Implies(z3.And(0 <= t, t < p, p < v(q).n), el(v, t).t < el(v, p).t), (el(v, t).t, el(v, p).t))))]
        lists = [q for q in info.cells if isinstance(info.inits[q], ListC)]
        if len(lists) == 1 and info.view.lst is not None and lists[0][0] == 'loc' and lists[0][1] not in (sref.id, cref.id):
            # the connections of the merged node are collected
            q = lists[0]
            l, init = info.view.lst, info.inits[q]
            def sound(f):
                def g(v, k):
                    if z3.is_true(z3.simplify(v(q).n == 0)): return z3.BoolVal(True)
                    return f(v, k) if isinstance(v(q).get(z3.IntVal(0))[0], VecC) else None
                return g
            outside = lambda l: forall(t, z3.Implies(rng(t, l.n), z3.Not(inM(*l.get(t)[0].xs))), l.get(t)[0].xs[0])
            once = lambda l: forall([t, p], z3.Implies(z3.And(0 <= t, t < p, p < l.n), z3.Not(eq(l.get(t)[0].xs, l.get(p)[0].xs))), (l.get(t)[0].xs[0], l.get(p)[0].xs[0]))
            still = lambda P: lambda v, k: P(v(q)) if z3.is_true(z3.simplify(init.n == 0)) else z3.Implies(P(init), P(v(q)))
            out += [('collected connections lead outside', sound(still(outside))), ('collected once', sound(still(once)))]
        ats = [q for q in info.cells if q[0] == 'at' and isinstance(info.inits[q], ListC) and info.inits[q].etype == V2 and q[1].root == sref.id]
        if len(ats) == 1 and any('collected' in h[0] for h in out):
            # the sinks of one node are redirected
            spec(info.st)
            a = ats[0]
            K = a[1].steps[0][1]
            cur = lambda v, t: v(a).get(t)[0].xs
            lst = [q for q in info.cells if q[0] == 'loc' and isinstance(info.inits[q], ListC)][0]
            rem = lambda v, t: v(lst).get(t)[0].t
            none = lambda v: z3.is_true(z3.simplify(v(lst).n == 0))
            out += [('connections to other vertices stay', lambda v, k: forall(j, z3.Implies(z3.And(rng(j, deg(K)), z3.Not(inM(*snk(K, j)))), eq(cur(v, j), snk(K, j))), snk(K, j)[0], cur(v, j)[0])),
                    ('connections into the cluster lead to the merged node', lambda v, k: forall(j, z3.Implies(z3.And(rng(j, deg(K)), inM(*snk(K, j))), z3.Or(eq(cur(v, j), snk(K, j)), eq(cur(v, j), mean[:2]))), snk(K, j)[0], cur(v, j)[0])),
                    ('only connections into the cluster are dropped', lambda v, k: z3.BoolVal(True) if none(v) else forall(t, z3.Implies(rng(t, v(lst).n), z3.And(rng(rem(v, t), k), inM(*snk(K, rem(v, t))))), rem(v, t))),
                    ('what is not redirected is dropped', lambda v, k: forall(j, z3.Implies(z3.And(rng(j, k), rng(j, deg(K)), inM(*snk(K, j)), z3.Not(eq(cur(v, j), mean[:2]))), z3.BoolVal(False) if none(v) else z3.Or(z3.And(v(lst).n >= 1, rem(v, v(lst).n - 1) == j), z3.Exists([t], z3.And(rng(t, v(lst).n), rem(v, t) == j)))), snk(K, j)[0], cur(v, j)[0]))]
        return out
    e.hints.append(hint)
    for s, r in c.call('bpypolyskel', 'mergeCluster', [sref, cref], st=c.st.copy()):
        now = s.heap[sref.id]
        spec(s); sums = mean
        m = node(now, now.n - 1)
        c.ensure(s, 'the cluster is replaced by one node', now.n == n - k + 1)
        c.ensure(s, 'the merged node is at the mean position', z3.And(m[0][0] == sums[0], m[0][1] == sums[1]))
        c.ensure(s, 'the merged node has the mean height', m[1] == sums[2])
        ns = node(now, now.n - 1)
        t1, t2 = z3.Ints('a_new_sink another_new_sink')
        w1 = s.copy(); w1.fact(rng(t1, ns[2]), rng(t2, ns[2]))
        c.ensure(w1, 'the merged node is not connected to the cluster', z3.Not(inM(*ns[3](t1))))
        w1.fact(t1 < t2)
        c.ensure(w1, 'the merged node is connected once', z3.Not(eq(ns[3](t1), ns[3](t2))))
        clu = s.heap[cref.id]
        c.ensure(s, 'the cluster is not changed', z3.And(clu.n == k, forall(i, z3.Implies(rng(i, k), clu.get(i)[0].t == at(i)))))
        o = s.copy()
        bb = z3.Int('a_node')
        o.fact(rng(bb, n))
        if now.prov and now.prov[0] == 'append' and now.prov[1].prov and now.prov[1].prov[0] == 'ranks':
            _, kept, rank, source = now.prov[1].prov
            w = rank(bb)
            o1 = o.copy(); o1.fact(z3.Not(inC(bb)))
            c.ensure(o1, 'a node outside the cluster keeps its position and height', z3.And(rng(w, now.n - 1), eq(node(now, w)[0], src(bb)), node(now, w)[1] == node(skel, bb)[1]))
            b2 = z3.Int('another_node')
            o2 = o1.copy(); o2.fact(rng(b2, n), z3.Not(inC(b2)), bb < b2)
            c.ensure(o2, 'nodes outside the cluster keep their order', rank(bb) < rank(b2))
            jj, qq = z3.Ints('a_sink a_position')
            c.ensure(o1, 'lemma: where a node outside the cluster comes from', source(w) == bb)
            c.ensure(o1, 'lemma: no merged node at its position', z3.Not(inM(*src(bb))))
            o1.fact(source(w) == bb, z3.Not(inM(*src(bb))), w < n - k)
            sub = substf([(source(w), bb)])
            node_, fs = now.get(w)
            node_ = vmap(node_, sub)
            o1.fact(*[sub(f) for f in fs])
            for cond, l in cases(node_.fields['sinks']):
                q1 = o1.copy(); q1.fact(*cond)
                if not e.feasible(q1, z3.BoolVal(True)): continue
                if l.prov and l.prov[0] == 'ranks': _, kp, rk, sc = l.prov
                else: kp, rk, sc = (lambda i: z3.BoolVal(True)), (lambda i: i), (lambda q: q)
                q2 = q1.copy(); q2.fact(rng(jj, deg(bb)), z3.Not(inM(*snk(bb, jj))))
                c.ensure(q2, 'connections outside the cluster are kept', z3.And(kp(jj), rng(rk(jj), l.n), eq(l.get(rk(jj))[0].xs, snk(bb, jj))))
                q3 = q1.copy(); q3.fact(rng(qq, l.n), *l.get(qq)[1])
                c.ensure(q3, 'what a node is connected to afterwards', z3.And(rng(sc(qq), deg(bb)), z3.If(inM(*snk(bb, sc(qq))), eq(l.get(qq)[0].xs, mean[:2]), eq(l.get(qq)[0].xs, snk(bb, sc(qq))))))

contract('C14', 'merging a cluster', ['mergeCluster'], timeout=300, budget=60)(merge)
merge_closed = merge
