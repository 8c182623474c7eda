"""Oracles on polygonize(): C01 vertex list, C02 heights, C03 face list, C04 contours, C05 closure
and indices, C17 first edges.  polygonize() runs for real; skeletonize() is recorded, or replaced by
a stand-in that returns a small planar skeleton of chosen heights (any skeleton is allowed there)."""
import math
from . import gen
from .env import Skip

def inputs(env, case):
    V = env.V
    verts = [V(tuple(v)) for v in case['verts']]
    units = [V(tuple(u)) for u in case['units']] if case.get('units') else None
    holes = [tuple(h) for h in case['holes']] if case['holes'] else case['holes']
    faces = [list(f) for f in case['faces']] if case.get('faces') is not None else None
    return verts, units, holes, faces

class Rec: pass

def run(env, case, stub=None, want_graph=False):
    """-> record of one call; raises Skip if polygonize raises (termination is not claimed)"""
    env.need('B', 'polygonize', 'skeletonize')
    B = env.B
    r = Rec()
    r.verts, r.units, r.holes, r.faces_in = inputs(env, case)
    r.n0 = len(r.verts)
    r.before = [tuple(v) for v in r.verts]
    r.objs = list(r.verts)
    r.units_before = [tuple(u) for u in r.units] if r.units else None
    r.holes_before = [tuple(h) for h in r.holes] if r.holes is not None else None
    r.faces_before = [list(f) for f in r.faces_in] if r.faces_in is not None else None
    r.faces_objs = list(r.faces_in) if r.faces_in is not None else None
    real = B.skeletonize
    r.contours = r.skel = None
    def spy(contours, *a, **k):
        r.contours = [list(c) for c in contours]
        r.skel = real(contours, *a, **k) if stub is None else stub(contours)
        r.skel_copy = [(tuple(s.source), float(s.height), [tuple(x) for x in s.sinks]) for s in r.skel]
        return r.skel
    r.edges = []
    env.patch(B, 'skeletonize', spy)
    if want_graph and hasattr(B, 'poly2FacesGraph') and hasattr(B.poly2FacesGraph, 'add_edge'):
        base = B.poly2FacesGraph
        class G(base):
            def add_edge(self, e):
                e = tuple(e)
                r.edges.append(e)
                return base.add_edge(self, e)
        env.patch(B, 'poly2FacesGraph', G)
    try:
        r.exc = None
        kw = {}
        try:
            r.out = B.polygonize(r.verts, case['first'], case['num'], r.holes, case.get('height', 0.), case.get('tan', 0.), r.faces_in, r.units)
        except Exception as e:
            r.exc = e
    finally:
        env.restore()
    if r.skel is None and r.exc is None: raise Skip('skeletonize is not called')
    return r

def subtree(env, src, h, sinks): return env.B.Subtree(src, h, sinks)

def fan(env, rng_spec):
    """stand-in skeleton of a convex contour: nodes on the segment between two inner points"""
    V = env.V
    def f(contours):
        pts = [e.p1 for e in contours[0]]
        hs = rng_spec['heights']
        m = len(hs)
        # nodes on the x-axis through the centroid, between 30% of the extents
        xs = [p.x for p in pts]
        lo, hi = min(xs) * .3, max(xs) * .3
        nx = [lo + (hi - lo) * (i + .5) / m for i in range(m)]
        nodes = [V((x, 0.)) for x in nx]
        sinks = [[] for _ in nodes]
        for p in pts:
            i = min(range(m), key=lambda i: abs(nx[i] - p.x))
            sinks[i].append(p)
        for i in range(1, m): sinks[i].append(nodes[i - 1])
        order = rng_spec.get('order') or list(range(m))
        return [subtree(env, nodes[i], hs[i], sinks[i]) for i in order]
    return f

def stub_case(rng):
    """convex footprint, holes arbitrary blocks far away, stand-in skeleton"""
    n = rng.randint(3, 9)
    an = [2 * math.pi * (i + rng.uniform(-.2, .2)) / n for i in range(n)]
    r = rng.uniform(6, 30)
    p = [(r * math.cos(a), r * .6 * math.sin(a)) for a in an]
    p = gen.rot(p, 0, rng.uniform(-60, 60), rng.uniform(-60, 60))
    hs = []
    for k in range(rng.choice([0, 0, 1, 2, 3])):
        m = rng.randint(3, 6)
        hs.append([(100 * k + 3 * math.cos(-2 * math.pi * i / m), 300 + 3 * math.sin(-2 * math.pi * i / m)) for i in range(m)])
    c = gen.layout(rng, p, hs)
    m = rng.choice([1, 1, 2, 3])
    c['stub'] = dict(heights=[rng.choice([0., .5, 1., 2., 3.25, rng.uniform(.1, 9)]) for _ in range(m)], order=rng.sample(range(m), m))
    if max(c['stub']['heights']) == 0: c['stub']['heights'][0] = 1.
    k = rng.random()
    c['height'], c['tan'] = (0., rng.uniform(.1, 2)) if k < .3 else (0., 0.) if k < .45 else (rng.uniform(1, 9), 0.) if k < .7 else (rng.uniform(1, 9), rng.uniform(.1, 2)) if k < .9 else (-2.5, 0.)
    c['faces'] = rng.choice([None, None, [], [[0, 1, 2]], [[5, 4, 3, 2], [1, 0, 7]]])
    return c

def gen_roof(rng, i):
    if i % 2 == 0 or rng.random() < .3: return stub_case(rng)
    return gen.footprint(rng)

def do(env, case, **kw):
    r = run(env, case, fan(env, case['stub']) if case.get('stub') else None, **kw)
    return r

def usable(r):
    if r.exc is not None: raise Skip('polygonize raised %r' % r.exc)

def close(a, b, tol): return all(abs(x - y) <= tol for x, y in zip(a, b))

# ---- C01
def c01(env, case):
    r = do(env, case)
    n = r.n0
    for i in range(n):
        if i >= len(r.verts): return 'the vertex list lost entry %d' % i
        if tuple(r.verts[i]) != r.before[i]: return 'entry %d of the vertex list changed from %s to %s' % (i, r.before[i], tuple(r.verts[i]))
        if tuple(r.objs[i]) != r.before[i]: return 'vertex object %d was modified in place' % i
    if r.units_before and [tuple(u) for u in r.units] != r.units_before: return 'the unit vectors were modified'
    if r.holes_before is not None and [tuple(h) for h in r.holes] != r.holes_before: return 'holesInfo was modified'
    usable(r)
    if len(r.verts) != n + len(r.skel_copy): return '%d nodes, but the vertex list grew by %d' % (len(r.skel_copy), len(r.verts) - n)
    off = offset(r, case)
    for j, (s, h, _) in enumerate(r.skel_copy):
        v = r.verts[n + j]
        if len(v) != 3: return 'appended vertex %d is not 3D' % j
        if not close(v, (s[0] + off[0], s[1] + off[1]), tol(r)): return 'appended vertex %d is %s, but node %d is at %s (offset %s)' % (j, tuple(v), j, s, off)

def offset(r, case):
    e = r.contours[0][0].p1
    v = r.before[case['first']]
    return v[0] - e[0], v[1] - e[1]

def tol(r):
    m = max([1.] + [abs(x) for v in r.before for x in v[:2]] + [abs(x) for s in r.skel_copy for x in s[0]])
    return m * 2e-5

# ---- C02
def c02(env, case):
    r = do(env, case)
    usable(r)
    n = r.n0
    if len(r.verts) != n + len(r.skel_copy): raise Skip('C01')
    off = offset(r, case)
    z = r.before[case['first']][2]
    H = [h for _, h, _ in r.skel_copy]
    if case.get('height'):
        if not H or max(H) == 0: raise Skip('no height')
        sl = case['height'] / max(H)
    else: sl = case.get('tan', 0.)
    for j, (s, h, _) in enumerate(r.skel_copy):
        v = r.verts[n + j]
        if not close(v, (s[0] + off[0], s[1] + off[1]), tol(r)): return 'roof vertex %d at %s, its node is at %s + offset %s' % (j, tuple(v), s, off)
        want = z + sl * h
        if abs(v[2] - want) > 1e-4 * max(1, abs(want), abs(z)): return 'roof vertex %d has z = %r, expected %r' % (j, v[2], want)
    if case.get('height', 0) > 0 and H:
        top = max(v[2] for v in r.verts[n:]) - z
        if abs(top - case['height']) > 1e-4 * max(1, abs(z), case['height']): return 'the highest roof vertex is %r above the footprint, height is %r' % (top, case['height'])

# ---- C03
def c03(env, case):
    case = dict(case)
    if case.get('faces') is None and case.get('faces_alt') is None: pass
    r = do(env, case)
    usable(r)
    ref = dict(case); ref['faces'] = None
    q = do(env, ref)
    usable(q)
    if r.faces_in is None:
        if not isinstance(r.out, list): return 'no list returned'
        return None
    if r.out is not r.faces_in: return 'the list passed in is not the one returned'
    k = len(r.faces_before)
    if r.out[:k] != r.faces_before: return 'earlier faces changed: %s -> %s' % (r.faces_before, r.out[:k])
    if any(a is not b for a, b in zip(r.faces_objs, r.out)): return 'earlier face objects were replaced'
    new = [list(f) for f in r.out[k:]]
    if canon(new) != canon(q.out): return 'faces added %s, without a list %s' % (new[:4], [list(f) for f in q.out][:4])

def canon(fs):
    # tracing starts at an arbitrary edge; faces are compared as sets of cyclic sequences
    out = []
    for f in fs:
        f = list(f)
        i = f.index(min(f)) if f else 0
        out.append(tuple(f[i:] + f[:i]))
    return sorted(out)

# ---- C04
def c04(env, case):
    r = do(env, case)
    if r.contours is None: raise Skip('skeletonize not reached: %r' % r.exc)
    blocks = [(case['first'], case['num'])] + [tuple(h) for h in (case['holes'] or [])]
    if len(r.contours) != len(blocks): return '%d contours for %d blocks' % (len(r.contours), len(blocks))
    n = case['num']
    cx = sum(r.before[case['first'] + i][0] for i in range(n)) / n
    cy = sum(r.before[case['first'] + i][1] for i in range(n)) / n
    m = max([1.] + [abs(x) for v in r.before for x in v[:2]])
    t = 1e-5 * m
    k = 0
    for (b, (f, l)), c in zip(enumerate(blocks), r.contours):
        if len(c) != l: return 'contour %d has %d edges for %d vertices' % (b, len(c), l)
        for j, e in enumerate(c):
            i1, i2 = f + j, f + (j + 1) % l
            if (e.i1, e.i2) != (i1, i2): return 'edge %d of contour %d runs from %s to %s instead of %d to %d' % (j, b, e.i1, e.i2, i1, i2)
            for p, i in ((e.p1, i1), (e.p2, i2)):
                want = (r.before[i][0] - cx, r.before[i][1] - cy)
                if len(p) != 2 or not close(p, want, t): return 'edge %d of contour %d: point %s, expected %s' % (j, b, tuple(p), want)
            if r.units_before: want = r.units_before[k][:2]
            else:
                dx, dy = r.before[i2][0] - r.before[i1][0], r.before[i2][1] - r.before[i1][1]
                d = math.hypot(dx, dy)
                if d < 1e-2: k += 1; continue
                want = (dx / d, dy / d)
            tt = 1e-6 if r.units_before else max(1e-5, 4 * t / d)
            if not close(e.norm, want, tt): return 'edge %d of contour %d has direction %s, expected %s' % (j, b, tuple(e.norm), want)
            k += 1

def gen_c04(rng, i):
    c = stub_case(rng) if rng.random() < .6 else gen.footprint(rng, small=True)
    # unit vectors of the caller's own: any directions
    if c['units'] and rng.random() < .6:
        c['units'] = [(math.cos(a), math.sin(a), 0.) for a in [rng.uniform(0, 6.28) for _ in c['units']]] if c.get('stub') else c['units']
    return c

# ---- C05
def closed(skel, contour, what):
    src = {tuple(s.source) for s in skel}
    for j, s in enumerate(skel):
        for x in s.sinks:
            if x is None: return '%s: node %d has a sink without position' % (what, j)
            if tuple(x) not in src and tuple(x) not in contour: return '%s: sink %s of node %d (at %s) is neither a contour vertex nor a node' % (what, tuple(x), j, tuple(s.source))

def c05(env, case):
    B = env.B
    if case.get('unit'): return c05_unit(env, case)
    problems = []
    contour = set()
    def wrap(name, before, after):
        if not hasattr(B, name): return
        f = getattr(B, name)
        def g(*a, **k):
            if not problems and contour and before:
                m = closed(a[0], contour, 'before ' + name)
                if m: problems.append(m)
            r = f(*a, **k)
            if not problems and contour and after:
                m = closed(a[0], contour, 'after ' + name)
                if m: problems.append(m)
            return r
        env.patch(B, name, g)
    real = B.skeletonize
    def sk(contours, *a, **k):
        contour.update(tuple(e.p1) for c in contours for e in c)
        return real(contours, *a, **k)
    if not case.get('stub'): 
        env.patch(B, 'skeletonize', sk)
        wrap('mergeNodeClusters', True, True); wrap('mergeCluster', True, True); wrap('removeGhosts', True, True)
    r = do2(env, case)
    if problems: return problems[0]
    usable(r)
    if not case.get('stub'):
        m = closed(r.skel, contour, 'result of skeletonize')
        if m: return m
    # indices
    n = len(r.verts)
    for f in r.out if r.faces_in is None else r.out[len(r.faces_before):]:
        for v in f:
            if not (isinstance(v, int) and 0 <= v < n): return 'face %s has the index %r, there are %d vertices' % (f, v, n)
    # edges put into the graph
    if r.edges:
        pos = {}
        want = set()
        cont = [e for c in r.contours for e in c]
        byp = {}
        for e in cont: byp.setdefault(tuple(e.p1), []).append(e.i1)
        bys = {}
        for j, (s, h, _) in enumerate(r.skel_copy): bys.setdefault(s, []).append(r.n0 + j)
        allowed, need = set(), []
        for e in cont:
            allowed.add(frozenset((e.i1, e.i2))); need.append([frozenset((e.i1, e.i2))])
        for j, (s, h, sinks) in enumerate(r.skel_copy):
            for x in sinks:
                t = byp.get(x) or bys.get(x)
                if not t:
                    t = [e.i1 for e in cont if near(e.p1, x)] or [r.n0 + i for i, q in enumerate(r.skel_copy) if near(q[0], x)]
                if not t: return 'sink %s of node %d has no vertex' % (x, j)
                # vectors that compare equal may differ in the last bit: any of them is right
                t = set(t) | {e.i1 for e in cont if near(e.p1, x)} | {r.n0 + i for i, q in enumerate(r.skel_copy) if near(q[0], x)}
                alt = [frozenset((r.n0 + j, k)) for k in t]
                allowed.update(alt); need.append(alt)
        got = {frozenset(e) for e in r.edges}
        bad = got - allowed
        if bad: return 'graph edge %s connects vertices no skeleton edge or contour edge connects' % (sorted(list(bad)[0]),)
        for alt in need:
            if not any(a in got for a in alt if len(a) == 2) and any(len(a) == 2 for a in alt): return 'no graph edge for the skeleton or contour edge %s' % (sorted(alt[0]),)

def near(a, b): return abs(a[0] - b[0]) <= 1e-6 * max(1, abs(a[0])) and abs(a[1] - b[1]) <= 1e-6 * max(1, abs(a[1]))

def do2(env, case):
    # run() restores all patches at its end, ours included
    return run(env, case, fan(env, case['stub']) if case.get('stub') else None, want_graph=True)

def gen_c05(rng, i):
    if rng.random() < .35: return gen_unit(rng)
    c = stub_case(rng) if rng.random() < .25 else gen.footprint(rng)
    return c

def gen_unit(rng):
    """a closed skeleton, with clusters, repeated sources, loops, parallel sinks"""
    n = rng.randint(3, 9)
    k = rng.randint(3, 10)
    cont = [(float(rng.randint(-40, 40)), float(rng.randint(-40, 40))) for _ in range(k)]
    cont = list(dict.fromkeys(cont))
    src = []
    for _ in range(n):
        a = rng.random()
        if src and a < .3: b = rng.choice(src); src.append((b[0] + rng.choice([0, .03125]), b[1] + rng.choice([0, .03125, -.015625])))
        elif src and a < .38: src.append(rng.choice(src))
        elif src and a < .5: b = rng.choice(src); src.append((b[0] + rng.randint(1, 5), b[1]))
        else: src.append((rng.randint(-30, 30) + .5, rng.randint(-30, 30) + .25))
    nodes = []
    for s in src:
        sk = []
        for _ in range(rng.randint(1, 4)):
            x = rng.choice(cont) if rng.random() < .5 else rng.choice(src)
            if rng.random() < .9 and x == s: continue
            if x not in sk: sk.append(x)
        nodes.append([s, rng.randint(1, 40) / 4., sk])
    return dict(unit=True, contour=cont, nodes=nodes)

def build(env, case):
    V, B = env.V, env.B
    skel = [B.Subtree(V(tuple(s)), h, [V(tuple(x)) for x in k]) for s, h, k in case['nodes']]
    c = [tuple(x) for x in case['contour']]
    if len(c) < 3: raise Skip('no contour')
    contour = [env.E.Edge2(V(c[i]), V(c[(i + 1) % len(c)])) for i in range(len(c))]
    return skel, [contour]

def c05_unit(env, case):
    env.need('B', 'mergeNodeClusters', 'removeGhosts', 'Subtree')
    B = env.B
    skel, contours = build(env, case)
    con = {tuple(x) for x in case['contour']}
    if con & {tuple(s.source) for s in skel}: raise Skip('node on contour')
    try: out = B.mergeNodeClusters(skel, contours)
    except Exception as e: raise Skip('raised %r' % e)
    m = closed(out, con, 'after mergeNodeClusters')
    if m: return m
    try: B.removeGhosts(out)
    except Exception as e: raise Skip('raised %r' % e)
    return closed(out, con, 'after removeGhosts')

# ---- C17
def c17(env, case):
    r = do2(env, case)
    usable(r)
    if r.contours is None: raise Skip('contours')
    orig = {(e.i1, e.i2) for c in r.contours for e in c}
    for f in r.out if r.faces_in is None else r.out[len(r.faces_before):]:
        f = list(f)
        if len(f) < 2: continue
        if any((f[i - 1], f[i]) in orig for i in range(len(f))) and (f[0], f[1]) not in orig:
            return 'face %s has a footprint edge, but does not start with one' % f

def gen_c17(rng, i):
    if i % 6 == 1: return dict(gen.corpus()[rng.randint(0, len(gen.corpus()) - 1)], height=0., tan=.5, faces=None)
    return gen.footprint(rng) if rng.random() < .9 else stub_case(rng)
