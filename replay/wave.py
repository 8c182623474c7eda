"""Oracles on the wavefront and the clean-up of the skeleton: C13-C16, C18.  The real functions run
inside real skeletonize() runs (wrapped, their arguments and results compared), or directly on
generated arguments."""
import math
from . import gen, roof
from .env import Skip

def contours_of(env, case):
    """the contours polygonize() builds for the case, taken from the real code"""
    B = env.B
    got = []
    class Stop(Exception): pass
    def spy(c, *a, **k):
        got.append(c); raise Stop()
    env.need('B', 'polygonize', 'skeletonize')
    env.patch(B, 'skeletonize', spy)
    v, u, h, f = roof.inputs(env, case)
    try: B.polygonize(v, case['first'], case['num'], h, 0., .5, None, u)
    except Stop: pass
    finally: env.restore()
    return got[0]

def real_run(env, case):
    """skeletonize() with the patches in place"""
    B = env.B
    saved, env._saved = env._saved, []
    try: c = contours_of(env, case)
    finally: env._saved = saved
    try: return B.skeletonize(c)
    finally: pass

def contract_run(env, case):
    try: real_run(env, case)
    except Skip: raise
    except Found as e: return str(e)
    except Exception as e:
        import os
        if os.environ.get('REPLAY_DEBUG'): raise
    finally: env.restore()

class Found(BaseException): pass

def cr(a, b): return a[0] * b[1] - a[1] * b[0]
def sub(a, b): return (a[0] - b[0], a[1] - b[1])
def nrm(a): return math.hypot(a[0], a[1])
def unit(a):
    l = nrm(a)
    return (a[0] / l, a[1] / l) if l else (0., 0.)

def line_dist(p1, p2, q):
    v = sub(p2, p1)
    l = nrm(v)
    return abs(cr(v, sub(q, p1))) / l if l > 1e-9 else None

def ray_meet(A, B):
    """-> (point or None, robust?) of two rays (p, v)"""
    d = cr(A.v, B.v)
    la, lb = nrm(A.v), nrm(B.v)
    if la < 1e-6 or lb < 1e-6: return None, False
    if abs(d) < 1e-4 * la * lb: return None, False
    dp = sub(B.p, A.p)
    ta, tb = cr(dp, B.v) / d, cr(dp, A.v) / d
    rob = abs(ta) * la > 1e-3 and abs(tb) * lb > 1e-3
    if ta < 0 or tb < 0: return None, rob
    return (A.p[0] + ta * A.v[0], A.p[1] + ta * A.v[1]), rob and nrm(dp) < 1e3

def ray_line(e, o):
    d = cr(e.norm, o.norm)
    if abs(d) < 1e-3: return None
    t = cr(sub(o.p1, e.p1), o.norm) / d
    return (e.p1[0] + t * e.norm[0], e.p1[1] + t * e.norm[1])

# ---- C13
def check_next(env, v, ev):
    B = env.B
    if v.prev is None or v.next is None: return
    cand = []
    for o, e, pair in ((v.prev, v.edge_prev, (v.prev, v)), (v.next, v.edge_next, (v, v.next))):
        p, rob = ray_meet(v.bisector, o.bisector)
        cand.append((p, rob, e, pair))
    bv = v.bisector.v
    if ev is None:
        for p, rob, e, pair in cand:
            if p is not None and rob and nrm(sub(p, v.point)) < 500: return 'no event, but the bisectors of %s and its neighbour meet at %s' % (tuple(v.point), p)
        # a robust split candidate?
        if v.is_reflex:
            m = missed_split(env, v, None)
            if m: return m
        return
    p = ev.intersection_point
    d = nrm(sub(p, v.point))
    tol = 1e-3 * max(1., d, abs(p[0]), abs(p[1]))
    if isinstance(ev, B._EdgeEvent):
        pairs = [c for c in cand if ev.vertex_a is c[3][0] and ev.vertex_b is c[3][1]]
        if not pairs: return 'an edge event pairs vertices at %s and %s, asked at %s' % (tuple(ev.vertex_a.point), tuple(ev.vertex_b.point), tuple(v.point))
        if all(c[1] and c[0] is not None and nrm(sub(c[0], p)) > 2 * tol for c in pairs): return 'edge event at %s, the bisectors meet at %s' % (tuple(p), pairs[0][0])
        if all(c[1] and c[0] is None for c in pairs): return 'edge event at %s, but the bisectors do not meet' % (tuple(p),)
        ds = [line_dist(c[2].p1, c[2].p2, p) for c in pairs]
        if all(x is not None and abs(x - ev.distance) > tol * .3 for x in ds): return 'edge event at %s with distance %r, the shared edge is %r away' % (tuple(p), ev.distance, ds[0])
    elif isinstance(ev, B._SplitEvent):
        if not v.is_reflex: return 'split event at a convex vertex %s' % (tuple(v.point),)
        if ev.vertex is not v: return 'split event of another vertex'
        oe = ev.opposite_edge
        os = [o for o in v.original_edges if o.edge is oe]
        if not os: return 'split event against an edge that is not a contour edge'
        if oe is v.edge_prev or oe is v.edge_next: return 'split event against an own edge'
        w = sub(p, v.point)
        if nrm(bv) > 1e-3 and (abs(cr(unit(bv), w)) > tol or (unit(bv)[0] * w[0] + unit(bv)[1] * w[1]) < -tol): return 'split event at %s is not on the bisector of %s' % (tuple(p), tuple(v.point))
        x = line_dist(oe.p1, oe.p2, p)
        if x is not None and nrm(sub(oe.p2, oe.p1)) > .1 and abs(x - ev.distance) > tol: return 'split event with distance %r, the opposite edge is %r away' % (ev.distance, x)
        ok = False
        for o in os:
            a = cr(unit(o.bisector_prev.v), unit(sub(p, o.bisector_prev.p))) < 1e-2
            b = cr(unit(o.bisector_next.v), unit(sub(p, o.bisector_next.p))) > -1e-2
            c = cr(o.edge.norm, unit(sub(p, o.edge.p1))) > -1e-2
            ok = ok or (a and b and c)
        if not ok: return 'split event at %s is outside the area swept by the edge %s-%s' % (tuple(p), tuple(oe.p1), tuple(oe.p2))
        # equally far from the vertex's own edges
        de = [line_dist(e.p1, e.p2, p) for e in (v.edge_prev, v.edge_next)]
    else: return 'an event of kind %s' % type(ev).__name__
    for q, rob, e, pair in cand:
        if q is not None and rob and nrm(sub(q, v.point)) < d - 3 * tol:
            return 'event at %s (%r from the vertex %s), but the bisectors meet nearer, at %s' % (tuple(p), d, tuple(v.point), q)
    if v.is_reflex: return missed_split(env, v, d - 3 * tol)

def missed_split(env, v, limit):
    """a split candidate that is clearly valid and clearly nearer"""
    u = unit(v.bisector.v)
    if nrm(v.bisector.v) < .05: return
    n1 = v.edge_prev.norm
    s_own = cr(n1, u)
    if abs(cr(n1, v.edge_next.norm)) < .05 or s_own < .05: return
    # a vertex may be flagged reflex by its directions
    if abs(s_own - cr(v.edge_next.norm, u)) > 1e-3: return
    for o in v.original_edges:
        if o.edge is v.edge_prev or o.edge is v.edge_next: continue
        n = o.edge.norm
        if nrm(sub(o.edge.p2, o.edge.p1)) < .2: continue
        # sd(own) = s_own * t (own edges pass through the vertex's contour corner or moved)
        d_own0 = cr(n1, sub(v.point, v.edge_prev.p1))
        d_opp0 = cr(n, sub(v.point, o.edge.p1))
        den = s_own - cr(n, u)
        if abs(den) < .05: continue
        t = (d_opp0 - d_own0) / den
        if t < 1e-2: continue
        b = (v.point[0] + t * u[0], v.point[1] + t * u[1])
        if limit is not None and t > .8 * limit - .3: continue
        if t > 300: continue
        # right-angled corners are nudged by 0.01 in the code: nothing is clear close to the edge's line
        i_ = [ray_line(e, o.edge) for e in (v.edge_prev, v.edge_next)]
        if any(q is None or nrm(sub(q, v.point)) < .5 for q in i_): continue
        if any(abs(cr(unit(sub(b, q)), u)) < .3 for q in i_): continue
        # the code works with the less parallel own edge; nearly parallel ones are left out
        if min(abs(v.edge_prev.norm.dot(n)), abs(v.edge_next.norm.dot(n))) > .98: continue
        bp, bn = o.bisector_prev, o.bisector_next
        if nrm(bp.v) < .05 or nrm(bn.v) < .05: continue
        a = cr(unit(bp.v), unit(sub(b, bp.p)))
        c = cr(unit(bn.v), unit(sub(b, bn.p)))
        x = cr(n, unit(sub(b, o.edge.p1)))
        if a < -.02 and c > .02 and x > .02:
            return 'vertex %s meets the edge %s-%s at %s, %r away, but its next event is %s' % (tuple(v.point), tuple(o.edge.p1), tuple(o.edge.p2), b, t, 'absent' if limit is None else 'farther')

def gen_c13(rng, i):
    if i % 12 == 5: return dict(rng.choice(gen.corpus()[:120]))
    p = gen.polygon(rng)
    return gen.layout(rng, p, gen.holes(rng, p, rng.choice([0, 0, 1, 2])))

def c13(env, case):
    env.need('B', '_LAVertex', '_EdgeEvent', '_SplitEvent')
    B = env.B
    if not hasattr(B._LAVertex, 'next_event'): raise Skip('next_event is gone')
    f = B._LAVertex.next_event
    def g(self):
        ev = f(self)
        m = check_next(env, self, ev)
        if m: raise Found(m)
        return ev
    env.patch(B._LAVertex, 'next_event', g)
    return contract_run(env, case)

# ---- C14
def gen_c14(rng, i):
    if i % 8 == 3: return dict(rng.choice(gen.corpus()[:150]), run=True)
    if rng.random() < .15: 
        p = gen.polygon(rng)
        return dict(gen.layout(rng, p, []), run=True)
    c = roof.gen_unit(rng)
    m = len(c['nodes'])
    c['kind'] = rng.choice(['cluster', 'cluster', 'same'])
    if rng.random() < .25 and m >= 4:
        # the middle of three nodes is at the mean position
        a, b, d = rng.sample(range(m), 3)
        w = lambda: (float(rng.randint(-20, 20)), float(rng.randint(-20, 20)))
        p, v = w(), w()
        old = [list(c['nodes'][z][0]) for z in (a, b, d)]
        new = [list(p), [p[0] + v[0], p[1] + v[1]], [p[0] - v[0], p[1] - v[1]]]
        for z in range(m):
            src, h, sinks = c['nodes'][z]
            mv = lambda q: next((n for o, n in zip(old, new) if list(q) == o), q)
            c['nodes'][z] = [mv(src), h, [mv(q) for q in sinks]]
        c['kind'] = 'cluster'; c['cluster'] = [a, b, d]
        for z in rng.sample(range(m), 2):
            if z not in c['cluster']: c['nodes'][z][2].insert(rng.randint(0, len(c['nodes'][z][2])), rng.choice(new))
        return c
    c['cluster'] = rng.sample(range(m), rng.randint(2, m)) if rng.random() < .4 else sorted(rng.sample(range(m), rng.randint(2, min(4, m))))
    return c

def snap(skel): return [(tuple(s.source), float(s.height), [tuple(x) for x in s.sinks]) for s in skel]

def check_merge(before, cluster, after):
    src = {before[i][0] for i in cluster}
    if len({b[0] for b in before}) != len(before): return
    n = len(cluster)
    m = (sum(before[i][0][0] for i in cluster) / n, sum(before[i][0][1] for i in cluster) / n)
    h = sum(before[i][1] for i in cluster) / n
    rest = [b for i, b in enumerate(before) if i not in cluster]
    near = lambda a, b: roof.near(a, b)
    # the mean may be at the place of a merged node, but of nothing else
    if any(near(m, b[0]) for b in rest) or any(near(m, x) and x not in src for b in before for x in b[2]): return
    if any(near(a[0], b[0]) for i, a in enumerate(before) for b in before[:i]): return
    if len(after) != len(rest) + 1: return '%d nodes, a cluster of %d merged, %d nodes left' % (len(before), n, len(after))
    new = [a for a in after if near(a[0], m)]
    if len(new) != 1: return 'no merged node at the mean position %s (nodes at %s)' % (m, [a[0] for a in after])
    new = new[0]
    if abs(new[1] - h) > 1e-6 * max(1, abs(h)): return 'merged node has height %r, the mean is %r' % (new[1], h)
    out = []
    for i in cluster:
        for x in before[i][2]:
            if x not in src and x not in out: out.append(x)
    if sorted(new[2]) != sorted(out): return 'merged node is connected to %s, the nodes were connected to %s' % (sorted(new[2]), sorted(out))
    for b in rest:
        a = [a for a in after if a[0] == b[0]]
        if len(a) != 1: return 'the node at %s is gone' % (b[0],)
        a = a[0]
        if abs(a[1] - b[1]) > 1e-9: return 'the height of the node at %s changed from %r to %r' % (b[0], b[1], a[1])
        want = [x for x in b[2] if x not in src]
        inc = len(want) != len(b[2])
        got = [x for x in a[2] if not near(x, m)]
        if sorted(got) != sorted(want): return 'the node at %s had the connections %s outside the cluster, now %s' % (b[0], want, got)
        k = len(a[2]) - len(got)
        if k != (1 if inc else 0): return 'the node at %s has %d connections to the merged node' % (b[0], k)

def c14(env, case):
    env.need('B', 'mergeCluster', 'mergeNodeClusters', 'findClusters')
    B = env.B
    if case.get('run'):
        f = B.mergeCluster
        def g(skel, cluster, *a):
            b = snap(skel); cl = list(cluster)
            r = f(skel, cluster, *a)
            m = check_merge(b, cl, snap(skel))
            if m: raise Found(m)
            return r
        env.patch(B, 'mergeCluster', g)
        def h(skel, contours, *a):
            m = check_same(env, skel, contours)
            if m: raise Found(m)
            return q(skel, contours, *a)
        q = B.mergeNodeClusters
        env.patch(B, 'mergeNodeClusters', h)
        return contract_run(env, case)
    skel, contours = roof.build(env, case)
    if case['kind'] == 'same': return check_same(env, skel, contours)
    b = snap(skel)
    try: B.mergeCluster(skel, list(case['cluster']))
    except Exception as e: 
        if len({x[0] for x in b}) != len(b): raise Skip('repeated sources')
        return 'mergeCluster raised %r' % e
    if len({x[0] for x in b}) != len(b): raise Skip('repeated sources')
    return check_merge(b, case['cluster'], snap(skel))

def check_same(env, skel, contours):
    """the first stage alone: cluster search switched off"""
    B = env.B
    skel = [B.Subtree(s.source.copy(), s.height, [x.copy() for x in s.sinks]) for s in skel]
    b = snap(skel)
    if any(roof.near(x[0], y[0]) and x[0] != y[0] for i, x in enumerate(b) for y in b[:i]): return
    old = B.findClusters
    B.findClusters = lambda *a, **k: []
    try: out = B.mergeNodeClusters(skel, contours)
    finally: B.findClusters = old
    a = snap(out)
    order = list(dict.fromkeys(x[0] for x in b))
    if sorted(x[0] for x in a) != sorted(order): return 'nodes at %s before, at %s after merging equal positions' % ([x[0] for x in b], [x[0] for x in a])
    for s, h, k in a:
        grp = [x for x in b if x[0] == s]
        want = {x for g in grp for x in g[2]}
        if set(k) != want: return 'the nodes at %s were connected to %s, now to %s' % (s, sorted(want), sorted(set(k)))
        if h not in [g[1] for g in grp]: return 'the node at %s changed its height' % (s,)

# ---- C15
def gen_c15(rng, i):
    if i % 10 == 3: return dict(rng.choice(gen.corpus()[:150]), run=True)
    if rng.random() < .35:
        # nodes around the centre of an apse
        w, n = rng.randint(6, 12), rng.randint(8, 13)
        r = w / 2.
        L = 20.
        arc = [(L + r * math.sin(math.pi * k / n), r - r * math.cos(math.pi * k / n)) for k in range(n + 1)]
        cont = [(0., 0.)] + arc + [(0., float(w))]
        k = rng.randint(0, len(cont) - 1)
        cont = cont[k:] + cont[:k]
        c0 = (L, r)
        at = rng.choice([0., 1., 2., 2.8, 3.2, 4.5, 8.])
        nodes = []
        for _ in range(rng.randint(2, 5)):
            if rng.random() < .4 and nodes: s = (nodes[0][0][0] + rng.choice([.5, -.7, 1.5]), nodes[0][0][1])
            else: s = (c0[0] - at * rng.choice([1, .6]) + rng.uniform(-.03, .03), c0[1] + rng.uniform(-.03, .03))
            nodes.append([s, 1., [list(rng.choice(cont))] if rng.random() < .5 else []])
        return dict(unit=True, contour=cont, nodes=nodes, thresh=rng.choice([.1, .1, 3.]))
    k = rng.randint(4, 8)
    r = 20.
    cont = [(r * math.cos(2 * math.pi * j / k), r * math.sin(2 * math.pi * j / k)) for j in range(k)]
    if rng.random() < .6:   # details: vertices close together
        j = rng.randint(0, k - 1)
        d = rng.choice([.05, .12, .19, .21, .3])
        x, y = cont[j]
        cont.insert(j + 1, (x - y / r * d, y + x / r * d))
    base = [(rng.uniform(-8, 8), rng.uniform(-8, 8)) for _ in range(rng.randint(1, 3))]
    nodes = []
    for _ in range(rng.randint(2, 8)):
        b = rng.choice(base)
        s = (b[0] + rng.choice([0, .02, .045, .06, .09, .11]) * rng.choice([1, -1]), b[1] + rng.choice([0, .02, .045, .06, .09]) * rng.choice([1, -1]))
        k2 = rng.choice([0, 1, 1, 2])
        near = rng.random() < .6
        j = rng.randint(0, len(cont) - 1)
        sk = [list(cont[(j + t) % len(cont)]) for t in range(k2)] if near else [list(rng.choice(cont)) for _ in range(k2)]
        nodes.append([s, 1., sk])
    return dict(unit=True, contour=cont, nodes=nodes, thresh=rng.choice([.1, .1, .15]))

def apse_centres(pts):
    """circle centres of maximal circular runs of >= 6 corners with |sin| < 0.5"""
    n = len(pts)
    low, mar = [], []
    for i in range(n):
        a, b = unit(sub(pts[i], pts[i - 1])), unit(sub(pts[(i + 1) % n], pts[i]))
        low.append(abs(cr(a, b)) < .5); mar.append(abs(abs(cr(a, b)) - .5) < 1e-4)
    if all(low) or any(mar): return None
    out = []
    for i in range(n):
        if low[i] and not low[i - 1]:
            k = 0
            while low[(i + k) % n]: k += 1
            if k >= 6:
                run = [pts[(i + j) % n] for j in range(k)]
                p, q, s = run[0], run[k // 2], run[-1]
                D = 2 * cr(sub(q, p), sub(s, p))
                if abs(D) < 1e-2: continue
                b2, c2 = nrm(sub(q, p)) ** 2, nrm(sub(s, p)) ** 2
                bx, by = sub(q, p); cx, cy = sub(s, p)
                out.append((p[0] + (cy * b2 - by * c2) / D, p[1] + (bx * c2 - cx * b2) / D))
    return out

def check_clusters(skel, cand, contour, outer, thresh, res):
    seen = set()
    ap = apse_centres(outer) or []
    cs = set(contour)
    for cl in res:
        if len(cl) < 2: return 'a cluster of %d node' % len(cl)
        for i in cl:
            if i in seen: return 'node %d is in two clusters' % i
            if i not in cand: return 'node %d was no candidate' % i
            seen.add(i)
        r = skel[cl[0]][0]
        for i in cl:
            s = skel[i][0]
            if abs(s[0] - r[0]) + abs(s[1] - r[1]) > thresh * 1.0005 + 1e-6: return 'node %d at %s is %r from the first node of its cluster, threshold %r' % (i, s, abs(s[0] - r[0]) + abs(s[1] - r[1]), thresh)
            for a in ap:
                if abs(s[0] - a[0]) + abs(s[1] - a[1]) < 2.99: return 'cluster %s reported at the centre %s of an apse' % (cl, a)
        con = {x for i in cl for x in skel[i][2] if x in cs}
        con = sorted(con)
        for i in range(len(con)):
            for j in range(i):
                if nrm(sub(con[i], con[j])) < 2 * thresh * .9995: return 'cluster %s reported although connected to the contour vertices %s and %s, %r apart' % (cl, con[i], con[j], nrm(sub(con[i], con[j])))

def c15(env, case):
    env.need('B', 'findClusters')
    B = env.B
    f = B.findClusters
    def g(skel, cand, cv, contours, thresh):
        b, c = snap(skel), list(cand)
        r = f(skel, cand, cv, contours, thresh)
        m = check_clusters(b, c, [tuple(x) for x in cv], [tuple(e.p1) for e in contours[0]], thresh, [list(x) for x in r])
        if m: raise Found(m)
        if snap(skel) != b: raise Found('the skeleton was modified')
        return r
    if case.get('unit'):
        skel, contours = roof.build(env, case)
        try: g(skel, list(range(len(skel))), [e.p1 for c in contours for e in c], contours, case['thresh'])
        except Found as e: return str(e)
        return
    env.patch(B, 'findClusters', g)
    return contract_run(env, case)

# ---- C16
def gen_c16(rng, i):
    if i % 10 == 7: return dict(rng.choice(gen.corpus()), kind='detect')
    k = rng.random()
    if k < .65:
        for _ in range(40):
            p = gen.clean(gen.dormers(rng))
            if gen.simple(p): break
        if rng.random() < .5:
            j = rng.randint(0, len(p) - 1); p = p[j:] + p[:j]
        if rng.random() < .3: p = gen.rot(p, rng.uniform(0, 6.28), rng.uniform(-50, 50), 3.)
        if rng.random() < .3:     # slightly off the right angle
            j = rng.randint(0, len(p) - 1); p = list(p); p[j] = (p[j][0] + rng.choice([.05, .1, .3, .5]), p[j][1])
        p = gen.clean(p)
        return dict(gen.layout(rng, [(float(x), float(y)) for x, y in p], []), kind='detect')
    n = rng.randint(4, 14)
    ev = [rng.choice(['S', 'S', 'E', 'E', None]) for _ in range(n)]
    ds, j = [], rng.randint(0, 2)
    while j + 4 <= n:
        ds.append([[j, j + 1, j + 2, j + 3], rng.choice([1., 2.5, 4.])])
        if rng.random() < .8:
            ev[j], ev[j + 1], ev[j + 2], ev[j + 3] = 'S', 'E', rng.choice(['E', 'E', 'S', None]), 'S'
            if rng.random() < .3: ev[j + rng.randint(0, 3)] = rng.choice(['S', 'E', None])
        j += rng.randint(4, 6)
    rng.shuffle(ds)
    return dict(kind='process', events=ev, dormers=ds)

def c16(env, case):
    B, V, E = env.B, env.V, env.E
    if case['kind'] == 'process':
        env.need('B', 'processDormers', '_SplitEvent', '_EdgeEvent', 'DormerEvent')
        class VV: pass
        evs = []
        for j, k in enumerate(case['events']):
            v = VV(); v.bisector = E.Ray2(V((float(j), 0.)), V((.5 if j % 2 else -.5, 1.))); v.point = V((float(j), 0.))
            evs.append(None if k is None else B._SplitEvent(1. + j, V((j, 1.)), v, None) if k == 'S' else B._EdgeEvent(1. + j, V((j, 1.)), v, v))
        orig = list(evs)
        B.processDormers([(list(d), w) for d, w in case['dormers']], evs)
        use = []
        for d, w in case['dormers']:
            k = [case['events'][i] for i in d]
            if None not in k and k[0] == 'S' and k[1] == 'E' and k[3] == 'S': use.append((d, w))
        rem = [e for j, e in enumerate(orig) if not any(j in d for d, w in use)]
        got = [e for e in evs if not isinstance(e, B.DormerEvent)]
        if len(got) != len(rem) or any(a is not b for a, b in zip(got, rem)): return 'other events are not kept in order: %d of %d left' % (len(got), len(rem))
        de = [e for e in evs if isinstance(e, B.DormerEvent)]
        if len(de) != len(use): return '%d dormer events for %d genuine dormers' % (len(de), len(use))
        for d, w in use:
            m = [e for e in de if any(x is orig[d[0]] for x in e.eventList)]
            if len(m) != 1: return 'no dormer event for %s' % d
            e = m[0]
            if abs(e.distance - w / 2) > 1e-9: return 'dormer event at distance %r for a base of %r' % (e.distance, w)
            if not (len(e.eventList) == 3 and e.eventList[0] is orig[d[0]] and e.eventList[1] is orig[d[3]] and e.eventList[2] is orig[d[1]]): return 'dormer event with the wrong events'
        return
    env.need('B', 'detectDormers', '_SLAV')
    c = contours_of(env, case)
    try: res = B.detectDormers(B._SLAV(c), c)
    except Exception as e: return 'detectDormers raised %r' % e
    o = c[0]
    n = len(o)
    used = {}
    turn = [cr(o[i - 1].norm, o[i].norm) for i in range(n)]
    ln = [nrm(sub(e.p2, e.p1)) for e in o]
    for ids, w in res or []:
        ids = list(ids)
        if len(ids) != 4 or any(not 0 <= i < n for i in ids) or any((ids[k] + 1) % n != ids[k + 1] for k in range(3)): return 'dormer %s does not consist of four consecutive corners' % ids
        for i, s in zip(ids, (-1, 1, 1, -1)):
            if turn[i] * s < .99 - 1e-5: return 'corner %d of dormer %s turns by sin = %r' % (i, ids, turn[i])
        if ln[ids[1]] >= 10.001: return 'dormer %s has a base of %r' % (ids, ln[ids[1]])
        if abs(w - ln[ids[1]]) > 1e-3: return 'dormer %s reported with length %r, its base is %r' % (ids, w, ln[ids[1]])
        a, b = ln[ids[0]] ** 2, ln[ids[2]] ** 2
        if abs(a - b) / (a + b) > .3501: return 'dormer %s has sides of length %r and %r' % (ids, ln[ids[0]], ln[ids[2]])
        for nb in (ids[0] - 1, ids[3]):
            if ln[nb] ** 2 < .125 * w * w * .999: return 'dormer %s with a base of %r beside an edge of %r' % (ids, w, ln[nb])
        for i in ids:
            if i in used: return 'dormers %s and %s share the corner %d' % (used[i], ids, i)
            used[i] = ids
    if len(used) == n and n: return 'the dormers make up the whole contour'

# ---- C18
def state(slav):
    out = []
    for l in list(slav._lavs):
        v, k = l.head, 0
        row = []
        while k < 500:
            row.append((id(v), id(v.prev), id(v.next), v._valid))
            v = v.next; k += 1
            if v is l.head: break
        out.append((id(l), tuple(row)))
    return out

def loop(v):
    out, x = [], v
    while len(out) < 2000:
        out.append(x); x = x.next
        if x is v: return out
    return None

def c18(env, case):
    env.need('B', '_SLAV', '_LAVertex')
    B = env.B
    S, L = B._SLAV, B._LAVertex
    made, asked = [], []
    init, ask = L.__init__, L.next_event
    def i2(self, *a, **k):
        made.append(self); return init(self, *a, **k)
    def a2(self, *a, **k):
        asked.append(self); return ask(self, *a, **k)
    env.patch(L, '__init__', i2); env.patch(L, 'next_event', a2)
    def common(ev, arc, events, nm):
        if tuple(arc.source) != tuple(ev.intersection_point): raise Found('%s: node at %s, the event is at %s' % (nm, tuple(arc.source), tuple(ev.intersection_point)))
        if arc.height != ev.distance: raise Found('%s: node with height %r, the event has distance %r' % (nm, arc.height, ev.distance))
        for v in made:
            if tuple(v.point) != tuple(ev.intersection_point): raise Found('%s: a vertex was created at %s instead of %s' % (nm, tuple(v.point), tuple(ev.intersection_point)))
        for v in asked:
            if not v.is_valid: raise Found('%s: an event was asked for from the consumed vertex %s' % (nm, tuple(v.point)))
            if v.lav is None: raise Found('%s: an event was asked for from a vertex without a loop' % nm)
        for e in events:
            if e is None: raise Found('%s: an absent event was returned' % nm)
    if hasattr(S, 'handle_edge_event'):
        he = S.handle_edge_event
        def h1(self, ev):
            del made[:], asked[:]
            a, b = ev.vertex_a, ev.vertex_b
            if not (a.is_valid and b.is_valid): return he(self, ev)
            peak = a.prev is b.next
            lp = loop(a)
            pts = sorted(tuple(v.point) for v in lp) if lp else None
            outer = (a.prev, b.next)
            arc, events = he(self, ev)
            if arc is None: raise Found('edge event without a node')
            common(ev, arc, events, 'edge event')
            k = [tuple(x) for x in arc.sinks]
            if peak:
                if pts is not None and sorted(k) != pts: raise Found('peak event: sinks %s, the loop had the vertices %s' % (sorted(k), pts))
                for v in lp or []:
                    if v.is_valid: raise Found('peak event: vertex %s of the vanished loop is still valid' % (tuple(v.point),))
                if events or made: raise Found('peak event: new events or vertices')
            else:
                if sorted(k) != sorted([tuple(a.point), tuple(b.point)]): raise Found('edge event: sinks %s, the vertices were at %s and %s' % (k, tuple(a.point), tuple(b.point)))
                if a.is_valid or b.is_valid: raise Found('edge event: a consumed vertex is still valid')
                if len(made) != 1: raise Found('edge event: %d vertices were created' % len(made))
                v = made[0]
                if v.prev is not outer[0] or v.next is not outer[1] or outer[0].next is not v or outer[1].prev is not v: raise Found('edge event: the new vertex is not linked between its neighbours')
                if v.edge_prev is not a.edge_prev or v.edge_next is not b.edge_next: raise Found('edge event: the new vertex lies between the wrong edges')
            return arc, events
        env.patch(S, 'handle_edge_event', h1)
    if hasattr(S, 'handle_split_event'):
        hs = S.handle_split_event
        def h2(self, ev):
            del made[:], asked[:]
            v = ev.vertex
            if not v.is_valid: return hs(self, ev)
            st = state(self)
            pt = tuple(v.point)
            ep, en = v.edge_prev, v.edge_next
            vp, vn = v.prev, v.next
            arc, events = hs(self, ev)
            if arc is None:
                if events: raise Found('failed split event with events')
                if state(self) != st: raise Found('a split event without a node changed the wavefront')
                return arc, events
            common(ev, arc, events, 'split event')
            k = [tuple(x) for x in arc.sinks]
            if not k or k[0] != pt: raise Found('split event: sinks %s do not start with the split vertex %s' % (k, pt))
            if v.is_valid: raise Found('split event: the split vertex is still valid')
            for w in made:
                if w.is_reflex: raise Found('split event: a reflex vertex was created')
            prs = sorted((id(w.edge_prev), id(w.edge_next)) for w in made)
            if prs != sorted([(id(ep), id(ev.opposite_edge)), (id(ev.opposite_edge), id(en))]): raise Found('split event: the new vertices lie between the wrong edges')
            return arc, events
        env.patch(S, 'handle_split_event', h2)
    return contract_run(env, case)
