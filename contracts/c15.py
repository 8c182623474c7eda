"""C15: which nodes are clustered."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

BOUNDED = ['no node is in two clusters', 'clusters connected to close contour vertices are not reported', 'detectApses finds the centres of the apses (the contract of findClusters takes any list of centres)', 'floating point']
V2 = TVec(2)
SUB = TRec('Subtree', {'source': V2, 'height': TReal, 'sinks': TList(V2)})
EDGE = TRec('Edge2', {'p1': V2, 'p2': V2, 'norm': V2})

def clusters(c, apses):
    e = c.e
    skel, sref = c.list(SUB, 'skeleton')
    cand, cref = c.list(TInt, 'candidates')
    cv, vref = c.list(V2, 'contourVertices')
    ct, tref = c.list(TList(EDGE), 'edgeContours')
    thresh = c.real('thresh') if hasattr(c, 'real') else Num(z3.Real('thresh'))
    i = z3.Int('i')
    c.assume(ct.n >= 1, forall(i, z3.Implies(z3.And(0 <= i, i < cand.n), z3.And(0 <= cand.get(i)[0].t, cand.get(i)[0].t < skel.n)), cand.get(i)[0].t))
    ap, aref = c.list(V2, 'apses')
    e.summaries['detectApses'] = lambda e_, st, fn, args, kw, node: [(st, aref if apses else NONE)]
    t, u, a = z3.Ints('t u a')
    rng = lambda i, n: z3.And(0 <= i, i < n)
    src = lambda b: skel.get(b)[0].fields['source'].xs
    ab = lambda x: z3.If(x >= 0, x, -x)
    man = lambda p, q: ab(p[0] - q[0]) + ab(p[1] - q[1])
    c.assume(thresh.t > 0)
    # definition: nodes that are at least 3 from every centre
    clear, near = z3.Function('clear', I, B), z3.Function('centreNear', I, I)
    c.assume(forall(t, z3.Implies(z3.Not(clear(t)), z3.And(rng(near(t), ap.n), man(ap.get(near(t))[0].xs, src(t)) < 3)), clear(t)))
    def nested(x): return isinstance(x, ListC) and not z3.is_true(z3.simplify(x.n == 0)) and isinstance(x.get(z3.IntVal(0))[0], ListC)
    def ints(x): return isinstance(x, ListC) and not z3.is_true(z3.simplify(x.n == 0)) and isinstance(x.get(z3.IntVal(0))[0], Num)
    el = lambda l, t, u: l.get(t)[0].get(u)[0].t
    props = [
        ('a cluster has at least two nodes', lambda l: forall(t, z3.Implies(rng(t, l.n), l.get(t)[0].n >= 2), l.get(t)[0].n)),
        ('all nodes of a cluster are nodes of the skeleton', lambda l: forall([t, u], z3.Implies(z3.And(rng(t, l.n), rng(u, l.get(t)[0].n)), rng(el(l, t, u), skel.n)), el(l, t, u))),
        ('all nodes of a cluster are near its first one', lambda l: forall([t, u], z3.Implies(z3.And(rng(t, l.n), rng(u, l.get(t)[0].n)), man(src(el(l, t, u)), src(el(l, t, z3.IntVal(0)))) < thresh.t), el(l, t, u))),
        ('no node of a cluster is near the centre of an apse', lambda l: forall([t, u], z3.Implies(z3.And(rng(t, l.n), rng(u, l.get(t)[0].n)), clear(el(l, t, u))), el(l, t, u))),
    ]
    if not apses: props = props[:3]
    nodes = lambda l: forall(t, z3.Implies(rng(t, l.n), rng(l.get(t)[0].t, skel.n)), l.get(t)[0].t)
    def hint(info):
        out = []
        for q in info.cells:
            x = info.inits[q]
            if not isinstance(x, ListC): continue
            if q[0] == 'loc' and q[1] == cref.id:
                out.append(('candidates are nodes', lambda v, k, q=q, x=x: z3.Implies(nodes(x), nodes(v(q)))))
            elif q[0] == 'loc':
                for nm, P in props:
                    out.append((nm, lambda v, k, q=q, P=P: z3.BoolVal(True) if z3.is_true(z3.simplify(v(q).n == 0)) else P(v(q)) if nested(v(q)) else None))
        return out
    e.hints.append(hint)
    for s, r in c.call('bpypolyskel', 'findClusters', [sref, cref, vref, tref, thresh], st=c.st.copy()):
        l = s.heap[r.id]
        if not nested(l): raise Unsupported('the clusters are not lists of node indices')
        for nm, P in props:
            c.ensure(s, nm, P(l))

contract('C15', 'clusters, no apse', ['findClusters'], timeout=300, budget=120)(lambda c: clusters(c, False))
contract('C15', 'clusters, with apses', ['findClusters'], timeout=300, budget=120)(lambda c: clusters(c, True))
