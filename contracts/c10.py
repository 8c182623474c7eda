"""C10: circle through the first, middle and last point."""
import z3
from pyvc.contract import *
from pyvc.values import *

@contract('C10', 'centre and radius of the fitted circle', ['fitCircle3Points'], timeout=200, budget=60)
def fit(c):
    e = c.e
    L, ref = c.list(TVec(2), 'points')
    c.assume(L.n >= 3)
    m = L.n / 2
    P = [L.get(z3.IntVal(0))[0].xs, L.get(m)[0].xs, L.get(L.n - 1)[0].xs]
    (x0, y0), (x1, y1), (x2, y2) = P
    c.assume((x1 - x0) * (y2 - y0) - (y1 - y0) * (x2 - x0) != 0)
    for s, r in c.call('bpyeuclid', 'fitCircle3Points', [ref], st=c.st.copy()):
        if not (isinstance(r, TupleV) and len(r.items) == 2): c.ensure(s, 'a pair', z3.BoolVal(False)); continue
        ctr, rad = c.pure(s, r.items[0]), r.items[1]
        cx, cy = ctr.xs
        R_ = to_real(rad.t)
        c.ensure(s, 'radius is not negative', R_ >= 0)
        for i, nm in enumerate(('first', 'middle', 'last')):
            px, py = P[i]
            c.ensure(s, 'the %s point lies on the circle' % nm, (px - cx) * (px - cx) + (py - cy) * (py - cy) == R_ * R_)
