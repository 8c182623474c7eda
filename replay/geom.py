"""Oracles on the geometry helpers and the graph: C06-C13 (unit level)."""
import math
from fractions import Fraction as F
from . import gen
from .env import Skip

G = lambda rng, m=40: rng.randint(-m * 4, m * 4) / 4.

# ---- C06: face tracing
def gen_c06(rng, i):
    """random simple graph with a random rotation system; some vertices are footprint vertices"""
    n = rng.randint(3, 9)
    vs = list(range(n))
    k = rng.random()
    E = set()
    if k < .35:      # ring plus inner nodes
        m = rng.randint(3, max(3, n - 1))
        for a in range(m): E.add((min(a, (a + 1) % m), max(a, (a + 1) % m)))
        for a in range(m, n):
            for b in rng.sample(range(a), min(a, rng.randint(1, 3))): E.add((b, a))
        np_ = m
    else:
        for a in range(n):
            for b in range(a + 1, n):
                if rng.random() < rng.choice([.25, .5, .8]): E.add((a, b))
        np_ = rng.randint(0, n)
    if not E: E.add((0, 1))
    nb = {}
    for a, b in sorted(E):
        nb.setdefault(a, []).append(b); nb.setdefault(b, []).append(a)
    for v in nb: rng.shuffle(nb[v])
    # labels need not be small or in order
    return dict(edges=[list(e) for e in rng.sample(sorted(E), len(E))], rotation=[[v, nb[v]] for v in nb], poly=np_)

def c06(env, case):
    env.need('P', 'poly2FacesGraph')
    g = env.P.poly2FacesGraph()
    for a, b in case['edges']: g.add_edge((a, b))
    emb = {v: list(l) for v, l in case['rotation']}
    try: out = g.faces({v: list(l) for v, l in emb.items()}, case['poly'])
    except Exception as e: return 'faces() raised %r' % e
    nxt = {}
    for v, l in emb.items():
        for i, u in enumerate(l): nxt[(u, v)] = (v, l[(i + 1) % len(l)])
    todo, faces = set(nxt), []
    while todo:
        e = min(todo)
        f, x = [], e
        while True:
            f.append(x); todo.discard(x); x = nxt[x]
            if x == e: break
        faces.append(f)
    p = case['poly']
    want = []
    for f in faces:
        if any(e[0] >= p for e in f): want.append(rotmin([e[0] for e in f]))
    got = [rotmin(list(f)) for f in out]
    if sorted(want) != sorted(got):
        return 'traced %s, the faces with a non-footprint vertex are %s' % (sorted(got), sorted(want))
    for f in out:
        f = list(f)
        if any(f[i - 1] < p and f[i] < p for i in range(len(f))) and not (f[0] < p and f[1 % len(f)] < p):
            return 'face %s has an edge between footprint vertices but does not start with one' % f

def rotmin(l):
    # smallest rotation: repeated vertices are possible
    return min(l[i:] + l[:i] for i in range(len(l)))

# ---- C07
def gen_c07(rng, i):
    if rng.random() < .4:
        v = [0., -0.0, 1., -1., .5, -2., 3., 1e-3, -1e-3]
        return dict(kind='angle', a=[rng.choice(v), rng.choice(v)] if rng.random() < .6 else [rng.uniform(-9, 9), rng.uniform(-9, 9)],
                    b=[rng.choice(v), rng.choice(v)] if rng.random() < .6 else [rng.uniform(-9, 9), rng.uniform(-9, 9)])
    n = rng.randint(2, 9)
    pts = [[G(rng), G(rng), float(rng.randint(-3, 3))] for _ in range(n)]
    E = [[a, b] for a in range(n) for b in range(n) if a < b and rng.random() < .6]
    rng.shuffle(E)
    E = [e if rng.random() < .5 else e[::-1] for e in E]
    return dict(kind='embedding', pts=pts, edges=E, dir=rng.choice(['CCW', 'CW']))

def ang(d):
    a = math.atan2(d[1], d[0])
    return a if a >= 0 and not (a == 0 and d[0] > 0) else (0. if a == 0 else a + 2 * math.pi)

def half(d): return 0 if d[1] > 0 or (d[1] == 0 and d[0] > 0) else 1

def acmp(a, b):
    """exact: -1 if a has the smaller polar angle in [0, 2 pi)"""
    a, b = [F(float(x)) for x in a[:2]], [F(float(x)) for x in b[:2]]
    ha, hb = half(a), half(b)
    if ha != hb: return -1 if ha < hb else 1
    c = a[0] * b[1] - a[1] * b[0]
    return -1 if c > 0 else 1 if c < 0 else 0

def c07(env, case):
    V = env.V
    if case['kind'] == 'angle':
        env.need('P', 'pseudoangle')
        a, b = V(case['a']), V(case['b'])
        if not a.length or not b.length: raise Skip('zero vector')
        pa, pb = env.P.pseudoangle(a), env.P.pseudoangle(b)
        for p, v in ((pa, a), (pb, b)):
            if not 0 <= p < 4 and not (p == 4 and v.y < 0 and abs(v.y) < 1e-5 * v.x): return 'pseudo-angle %r of %s' % (p, tuple(v))
        c = acmp(a, b)
        if abs(pa - pb) > 1e-6:
            if (pa < pb) != (c < 0): return 'pseudo-angles %r of %s and %r of %s are not ordered as the angles' % (pa, tuple(a), pb, tuple(b))
        elif c == 0 and abs(pa - pb) > 1e-6: return 'parallel vectors with pseudo-angles %r, %r' % (pa, pb)
        elif c != 0 and pa == pb:
            s = abs(a.x * b.y - a.y * b.x) / (a.length * b.length)
            if s > 1e-4 : return 'vectors %s, %s in different directions have the same pseudo-angle' % (tuple(a), tuple(b))
        return
    env.need('P', 'poly2FacesGraph')
    pts = [V(p) for p in case['pts']]
    g = env.P.poly2FacesGraph()
    nb = {}
    for a, b in case['edges']:
        g.add_edge((a, b))
        nb.setdefault(a, set()).add(b); nb.setdefault(b, set()).add(a)
    dd = {v: {u: (pts[u].x - pts[v].x, pts[u].y - pts[v].y) for u in nb[v]} for v in nb}
    if any(x == (0, 0) for d in dd.values() for x in d.values()): raise Skip('coincident')
    emb = g.circular_embedding(pts, case['dir'])
    for v in nb:
        d = dd[v]
        l = list(emb[v])
        if sorted(l) != sorted(nb[v]): return 'neighbours of %d are %s, embedding lists %s' % (v, sorted(nb[v]), l)
        if case['dir'] == 'CW': l = l[::-1]
        us = sorted(nb[v])
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                if acmp(d[l[i]], d[l[j]]) < 0:
                    s = abs(d[l[i]][0] * d[l[j]][1] - d[l[i]][1] * d[l[j]][0]) / (math.hypot(*d[l[i]]) * math.hypot(*d[l[j]]))
                    if s < 1e-5 and d[l[i]][0] * d[l[j]][0] + d[l[i]][1] * d[l[j]][1] > 0: continue
                    return '%s embedding of vertex %d is %s: %d and %d are in the wrong order' % (case['dir'], v, list(emb[v]), l[i], l[j])

# ---- C08
def gen_c08(rng, i):
    k = rng.choice(['line', 'ray', 'edge'])
    k2 = rng.choice(['line', 'ray', 'edge'])
    small = rng.random() < .5
    g = (lambda: float(rng.randint(-6, 6))) if small else (lambda: G(rng, 20))
    def sc():     # short and long direction vectors, exactly representable
        return rng.choice([1., 1., 1., 1., 2. ** -5, 2. ** -8, 2. ** -10, 32.])
    a, b, q = sc(), sc(), rng.choice([1., 1., 1., 64.])
    return dict(A=[k, [g(), g()], [g() * a, g() * a]], B=[k2, [g(), g()], [g() * b, g() * b]], q=[g() * q, g() * q])

def mk(env, spec):
    k, p, v = spec
    V = env.V
    if k == 'ray': return env.E.Ray2(V(p), V(v))
    if k == 'line': return env.E.Line2(V(p), V(v), 'pv')
    e = env.E.Edge2(V(p), V((p[0] + v[0], p[1] + v[1])))
    return env.E.Line2(e)

def c08(env, case):
    env.need('E', 'Ray2', 'Line2', 'Edge2')
    A, B = case['A'], case['B']
    for s in (A, B):
        if s[2] == [0, 0]: raise Skip('zero direction')
    fp = lambda s: ([F(float(x)) for x in s[1]], [F(float(x)) for x in s[2]])
    (p, v), (q, w) = fp(A), fp(B)
    d = v[0] * w[1] - v[1] * w[0]
    want = None
    border = False
    if d != 0:
        ta = ((q[0] - p[0]) * w[1] - (q[1] - p[1]) * w[0]) / d
        tb = ((q[0] - p[0]) * v[1] - (q[1] - p[1]) * v[0]) / d
        want = (p[0] + ta * v[0], p[1] + ta * v[1])
        if A[0] == 'ray' and ta < 0: want = None
        if B[0] == 'ray' and tb < 0: want = None
        if (A[0] == 'ray' and ta == 0) or (B[0] == 'ray' and tb == 0): border = (ta.denominator > 4096 or tb.denominator > 4096)
    a, b = mk(env, A), mk(env, B)
    for x, y, nm in ((a, b, 'A.intersect(B)'), (b, a, 'B.intersect(A)')):
        r = x.intersect(y)
        if border: continue
        if (r is None) != (want is None): return '%s = %s, exact: %s' % (nm, r and tuple(r), want and tuple(map(float, want)))
        if r is not None:
            m = max(1., *map(abs, map(float, want)))
            if not all(abs(float(u) - t) <= 1e-5 * m for u, t in zip(want, r)): return '%s = %s, exact: %s' % (nm, tuple(r), tuple(map(float, want)))
    for s, l, (pp, vv) in ((A, a, (p, v)), (B, b, (q, w))):
        if s[0] == 'ray': continue
        x = [F(float(t)) for t in case['q']]
        dist = abs(float((x[0] - pp[0]) * vv[1] - (x[1] - pp[1]) * vv[0])) / math.hypot(*map(float, vv))
        got = l.distance(env.V(case['q']))
        if abs(got - dist) > 1e-4 * max(1., dist) + 1e-6 * max(map(abs, case['q'])): return 'distance of %s from %s is %r, exact %r' % (case['q'], s, got, dist)

# ---- C09
def gen_c09(rng, i):
    g = lambda: float(rng.randint(-8, 8)) if rng.random() < .7 else G(rng, 8)
    if rng.random() < .4: return dict(kind='seg', pts=[[g(), g()] for _ in range(4)])
    n = rng.randint(1, 5)
    return dict(kind='count', arcs=[[[g(), g()], [[g(), g()] for _ in range(rng.randint(0, rng.choice([3, 3, 6])))]] for _ in range(n)])

def orient(a, b, c):
    a, b, c = [[F(float(x)) for x in p] for p in (a, b, c)]
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])

def c09(env, case):
    V = env.V
    if case['kind'] == 'seg':
        env.need('E', 'intersect')
        a, b, c, d = case['pts']
        o = [orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)]
        if any(x == 0 for x in o): raise Skip('not in general position')
        want = o[0] * o[1] < 0 and o[2] * o[3] < 0
        P = [V(p) for p in case['pts']]
        for perm in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
            if bool(env.E.intersect(*[P[i] for i in perm])) != want: return 'intersect of %s in order %s: expected %s' % (case['pts'], perm, want)
        return
    env.need('B', 'checkEdgeCrossing', 'Subtree')
    skel = [env.B.Subtree(V(s), 1., [V(x) for x in k]) for s, k in case['arcs']]
    es = [(s, x) for s, k in case['arcs'] for x in k]
    n = 0
    eps = F(1, 100000)
    for i in range(len(es)):
        for j in range(i + 1, len(es)):
            (a, b), (c, d) = [[[F(float(x)) for x in p] for p in e] for e in (es[i], es[j])]
            v, w = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])
            D = v[0] * w[1] - v[1] * w[0]
            if D == 0: continue
            r = ((c[0] - a[0]) * w[1] - (c[1] - a[1]) * w[0]) / D
            s = ((c[0] - a[0]) * v[1] - (c[1] - a[1]) * v[0]) / D
            if any(0 < abs(abs(t - e)) < F(1, 10000000) for t in (r, s) for e in (eps, 1 - eps)): raise Skip('at the tolerance')
            if eps < r < 1 - eps and eps < s < 1 - eps: n += 1
    before = [(tuple(s.source), [tuple(x) for x in s.sinks]) for s in skel]
    got = env.B.checkEdgeCrossing(skel)
    if got != n: return 'checkEdgeCrossing = %r, %d pairs cross' % (got, n)
    if before != [(tuple(s.source), [tuple(x) for x in s.sinks]) for s in skel]: return 'the skeleton was modified'

# ---- C10
def gen_c10(rng, i):
    n = rng.randint(3, 9)
    if rng.random() < .6: return dict(pts=[[G(rng, 30), G(rng, 30)] for _ in range(n)])
    r, a, b = rng.uniform(1, 20), rng.uniform(0, 6), rng.uniform(.3, 3)
    return dict(pts=[[5 + r * math.cos(a + b * i / n), -3 + r * math.sin(a + b * i / n)] for i in range(n)])

def c10(env, case):
    env.need('E', 'fitCircle3Points')
    P = [env.V(p) for p in case['pts']]
    t = [P[0], P[len(P) // 2], P[-1]]
    ar = abs(float(orient(*t)))
    L = max((t[0] - t[1]).length, (t[1] - t[2]).length, (t[0] - t[2]).length)
    if ar < 1e-2 * L * L: raise Skip('nearly on a line')
    c, R = env.E.fitCircle3Points(P)
    for p, nm in zip(t, ('first', 'middle', 'last')):
        d = math.hypot(p[0] - c[0], p[1] - c[1])
        if abs(d - R) > 1e-3 * max(1., R): return 'the %s point has distance %r from the centre %s, radius %r' % (nm, d, tuple(c), R)

# ---- C11
def gen_c11(rng, i):
    base = rng.choice([0., 1., 12.5])
    ops = []
    for _ in range(rng.randint(1, 30)):
        k = rng.random()
        d = base + rng.choice([0., .0004, .0008, .0009765625, .0015, .002, 1., rng.uniform(0, .01), rng.uniform(0, 5)])
        if k < .45: ops.append(['put', rng.choice('ESD') if rng.random() < .95 else None, d])
        elif k < .6: ops.append(['put_all', [[rng.choice('ESD'), base + rng.choice([0., .0005, .001953125, 2.])] for _ in range(rng.randint(0, 5))]])
        elif k < .8: ops.append(['get'])
        else: ops.append(['batch'])
    ops += [['batch']] * 3
    return dict(ops=ops)

def mk_event(env, k, d):
    B, V = env.B, env.V
    if k == 'E': return B._EdgeEvent(d, V((0., 0.)), None, None)
    if k == 'S': return B._SplitEvent(d, V((0., 0.)), None, None)
    return B.DormerEvent(d, V((0., 0.)), [])

def c11(env, case):
    env.need('B', '_EventQueue', '_EdgeEvent', '_SplitEvent', 'DormerEvent')
    q = env.B._EventQueue()
    inq = []
    def take(ev):
        for i, x in enumerate(inq):
            if x is ev: del inq[i]; return True
        return False
    for op in case['ops']:
        if op[0] == 'put':
            if op[1] is None: q.put(None)
            else:
                ev = mk_event(env, op[1], op[2]); q.put(ev); inq.append(ev)
        elif op[0] == 'put_all':
            evs = [mk_event(env, k, d) for k, d in op[1]]
            q.put_all(evs); inq += evs
        else:
            if bool(q.empty()) != (not inq): return 'empty() = %r with %d events queued' % (q.empty(), len(inq))
            if not inq: continue
            m = min(e.distance for e in inq)
            if op[0] == 'get':
                e = q.get()
                if not take(e): return 'get() handed out something that is not queued: %r' % (e,)
                if e.distance != m: return 'get() handed out distance %r, the nearest is %r' % (e.distance, m)
            else:
                b = q.getAllEqualDistance()
                ds = [e.distance for e in b]
                if not b or ds[0] != m: return 'batch %s, the nearest event has distance %r' % (ds, m)
                if ds != sorted(ds): return 'batch not in order: %s' % ds
                want = sorted(e.distance for e in inq if abs(e.distance - m) < .001)
                if any(abs(abs(e.distance - m) - .001) < 1e-9 for e in inq): want = None
                for e in b:
                    if not take(e): return 'batch holds an event that is not queued (or twice)'
                if want is not None and ds != want: return 'batch distances %s, expected %s' % (ds, want)
    while inq:
        if q.empty(): return '%d events never handed out' % len(inq)
        m = min(e.distance for e in inq)
        e = q.get()
        if not take(e): return 'an event was handed out twice'
        if e.distance != m: return 'get() handed out distance %r, the nearest is %r' % (e.distance, m)
    if not q.empty(): return 'the queue is not empty after all events were handed out'

# ---- C12
def gen_c12(rng, i):
    if rng.random() < .25: return dict(kind='circ', n=rng.randint(1, 9))
    if rng.random() < .35:
        p = gen.polygon(rng)
        return dict(kind='polygon', pts=p)
    a = rng.uniform(0, 6.28)
    b = a + rng.choice([rng.uniform(.05, 3.0), -rng.uniform(.05, 3.0), math.pi / 2, -math.pi / 2])
    l1, l2 = rng.uniform(.5, 20), rng.uniform(.5, 20)
    dirs = None
    if rng.random() < .3: c, d = rng.uniform(0, 6.28), rng.uniform(0, 6.28); dirs = [[math.cos(c), math.sin(c)], [math.cos(d), math.sin(d)]]
    return dict(kind='vertex', p=[G(rng), G(rng)], a=a, b=b, l=[l1, l2], dirs=dirs, force=rng.random() < .3)

def sd(e, q):
    """signed distance of q to the left of edge e"""
    n = e.norm
    return n[0] * (q[1] - e.p1[1]) - n[1] * (q[0] - e.p1[0])

def c12(env, case):
    V, B, E = env.V, env.B, env.E
    if case['kind'] == 'circ':
        n = case['n']
        l = list(range(n))
        for nm, want in (('_iterCircularPrevNext', [(l[i - 1], l[i]) for i in range(n)]),
                         ('_iterCircularPrevThisNext', [(l[i - 1], l[i], l[(i + 1) % n]) for i in range(n)])):
            if not hasattr(B, nm): continue
            got = [tuple(x) for x in getattr(B, nm)(l)]
            if got != want: return '%s(%s) = %s' % (nm, l, got)
            got = [tuple(x) for x in getattr(B, nm)(range(5, 5 + n))]
            if got != [tuple(x + 5 for x in t) for t in want]: return '%s(range) = %s' % (nm, got)
        return
    env.need('B', '_LAVertex')
    if case['kind'] == 'polygon':
        env.need('B', '_LAV')
        P = [V(p) for p in case['pts']]
        n = len(P)
        edges = [E.Edge2(P[i], P[(i + 1) % n]) for i in range(n)]
        lav = B._LAV.from_polygon(edges, None)
        if len(lav) != n: return 'wavefront loop of %d vertices for %d edges' % (len(lav), n)
        v = lav.head
        vs = list(lav)
        if len(vs) != n: return 'iterating the loop yields %d vertices' % len(vs)
        for i, v in enumerate(vs):
            if v.edge_next is not edges[i] or v.edge_prev is not edges[i - 1]: return 'vertex %d of the loop is between the wrong edges' % i
            if tuple(v.point) != tuple(edges[i].p1): return 'vertex %d of the loop is at %s' % (i, tuple(v.point))
            if v.next is not vs[(i + 1) % n] or v.prev is not vs[i - 1]: return 'vertex %d of the loop is linked wrongly' % i
            m = check_vertex(env, v, None, False)
            if m: return 'vertex %d: %s' % (i, m)
        return
    p = V(case['p'])
    a, b = case['a'], case['b']
    l1, l2 = case['l']
    e1 = E.Edge2(V((p.x - l1 * math.cos(a), p.y - l1 * math.sin(a))), p)
    e2 = E.Edge2(p, V((p.x + l2 * math.cos(b), p.y + l2 * math.sin(b))))
    dirs = tuple(V(d) for d in case['dirs']) if case['dirs'] else None
    v = B._LAVertex(p, e1, e2, dirs, case['force'])
    return check_vertex(env, v, dirs, case['force'])

def check_vertex(env, v, dirs, force):
    n1, n2 = v.edge_prev.norm, v.edge_next.norm
    c = n1[0] * n2[1] - n1[1] * n2[0]
    if dirs: 
        x = dirs[0][0] * dirs[1][1] - dirs[0][1] * dirs[1][0]
        reflex = x > 0
        if abs(x) < 1e-5: raise Skip('nearly straight')
    else:
        reflex = c < 0
        if abs(c) < 1e-5: raise Skip('nearly straight')
    if force: reflex = False
    if v.is_reflex != reflex: return 'is_reflex = %s at a %s turn (directions %s, forced %s)' % (v.is_reflex, 'right' if c < 0 else 'left', dirs, force)
    b = v.bisector
    if tuple(b.p) != tuple(v.point): return 'the bisector starts at %s, the vertex is at %s' % (tuple(b.p), tuple(v.point))
    if dirs or force:
        if reflex != (c < 0): return       # aim only meaningful if classified as the contour turns
    q = v.point + b.v * 3.
    d1, d2 = sd(v.edge_prev, q), sd(v.edge_next, q)
    if b.v.length < 1e-4: return 'the bisector has no direction' if abs(c) > 1e-3 else None
    t = 1e-3 * max(1., abs(v.point[0]), abs(v.point[1])) * .3
    if abs(d1 - d2) > t: return 'points of the bisector are not equidistant from the edges: %r, %r' % (d1, d2)
    if d1 < -t or (abs(c) > .05 and d1 <= 0): return 'the bisector points outside: %r' % d1
