"""C09: segment crossing tests."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg
from pyvc import builtins as bi

def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return [x - y for x, y in zip(a, b)]

@contract('C09', 'segment test is exact in general position', ['intersect', 'ccw'])
def seg(c):
    pts = [c.vec(n) for n in 'ABCD']
    A, B, C, D = [c.st.heap[p.id].xs for p in pts]
    def area(p, q, r): return cross(sub(q, p), sub(r, p))
    # general position: no three of the four points on a line
    c.assume(area(A, B, C) != 0, area(A, B, D) != 0, area(A, C, D) != 0, area(B, C, D) != 0)
    d = cross(sub(B, A), sub(D, C))
    sn, tn = cross(sub(C, A), sub(D, C)), cross(sub(C, A), sub(B, A))   # s = sn/d, t = tn/d
    meet = z3.And(d != 0, sn * d >= 0, sn * d <= d * d, tn * d >= 0, tn * d <= d * d)
    s_, t_ = z3.Real('s'), z3.Real('t')
    common = conj([a + s_ * (b - a) == p + t_ * (q - p) for a, b, p, q in zip(A, B, C, D)])
    inside = z3.And(0 <= s_, s_ <= 1, 0 <= t_, t_ <= 1)
    orders = [(0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)]
    for o in orders:
        for st, r in c.call('bpyeuclid', 'intersect', [pts[i] for i in o], st=c.st.copy()):
            if not isinstance(r, BoolV): c.ensure(st, 'a truth value', z3.BoolVal(False)); continue
            nm = ''.join('ABCD'[i] for i in o)
            c.ensure(st, 'intersect(%s): reported -> the segments share a point' % nm, z3.Implies(r.t, meet))
            c.ensure(st, 'intersect(%s): share a point -> reported' % nm, z3.Implies(meet, r.t))
    # the algebraic form used above says just that
    c.ensure(c.st, 'meet <- common point', z3.Implies(z3.And(common, inside), meet))
    c.ensure(c.st, 'meet -> common point', z3.Implies(z3.And(meet, s_ * d == sn, t_ * d == tn), z3.And(common, inside)))

EPS = z3.Q(1, 100000)

@contract('C09', 'checkEdgeCrossing counts the crossing pairs', ['checkEdgeCrossing', 'Edge2.__init__'])
def count(c):
    e = c.e
    T = TRec('Subtree', {'source': TVec(2), 'height': TReal, 'sinks': TList(TVec(2))})
    L, ref = c.list(T, 'skeleton')
    st = c.st
    # the edges, arc by arc
    k = z3.Int('arc')
    x, f = L.get(k)
    src, sinks = x.fields['source'], x.fields['sinks']
    c.assume(e.forall(L.n, lambda j: (L.get(j)[0].fields['sinks'].n >= 0, L.get(j)[1])))
    inner = ListC(sinks.n, lambda i: (TupleV([src, sinks.get(i)[0]]), []), etype=TTuple(TVec(2), TVec(2)))
    E, O, b = e.mk_flatten(st, L.n, k, inner)
    N, PA, PB, PI = bi.pair_index(e, st, E.n)
    before = st.heap[ref.id]
    for s, r in c.call('bpypolyskel', 'checkEdgeCrossing', [ref], st=st.copy()):
        if not isinstance(r, Num): c.ensure(s, 'a number', z3.BoolVal(False)); continue
        def term(p):
            (u, fu), (v, fv) = E.get(PA(p)), E.get(PB(p))
            p1, p2 = u.items[0].xs, u.items[1].xs
            q1, q2 = v.items[0].xs, v.items[1].xs
            d = cross(sub(p2, p1), sub(q2, q1))
            rn, sn = cross(sub(q1, p1), sub(q2, q1)), cross(sub(q1, p1), sub(p2, p1))
            R_, S_ = rn / d, sn / d
            inn = z3.And(d != 0, R_ > EPS, R_ < 1 - EPS, S_ > EPS, S_ < 1 - EPS)
            return z3.If(inn, z3.IntVal(1), z3.IntVal(0)), fu + fv
        sum_equal(c, s, r.t, N, term, 'result = number of pairs crossing in their interiors')
        after = s.heap[ref.id]
        c.ensure(s, 'the skeleton is not modified', z3.BoolVal(True) if after is before else e.veq0(before, after))
