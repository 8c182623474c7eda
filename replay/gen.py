"""Random footprints.  All coordinates are float32-exact multiples of 1/64 or plain floats."""
import math, json, gzip, os

def area2(p):
    return sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))

def rot(p, a, dx=0., dy=0.):
    c, s = math.cos(a), math.sin(a)
    return [(c * x - s * y + dx, s * x + c * y + dy) for x, y in p]

def star(rng, n=None, r0=5., r1=20.):
    n = n or rng.randint(3, 12)
    while True:
        an = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        gaps = [(an[(i + 1) % n] - an[i]) % (2 * math.pi) for i in range(n)]
        if min(gaps) > 0.12 and max(gaps) < 2.8: break
        if n > 14: n -= 1
    if rng.random() < .4: return [(r1 * math.cos(a), r1 * math.sin(a)) for a in an]
    return [(r * math.cos(a), r * math.sin(a)) for a in an for r in [rng.uniform(r0, r1)]]

def rect(rng, w=None, h=None):
    w, h = w or rng.randint(4, 30), h or rng.randint(4, 30)
    return [(0, 0), (w, 0), (w, h), (0, h)]

def lshape(rng):
    a, b = rng.randint(8, 24), rng.randint(8, 24)
    c, d = rng.randint(2, a - 3), rng.randint(2, b - 3)
    k = rng.randint(0, 3)
    if k == 0: return [(0, 0), (a, 0), (a, d), (c, d), (c, b), (0, b)]
    if k == 1:
        e = rng.randint(c + 1, a - 1)
        return [(0, 0), (a, 0), (a, d), (e, d), (e, b), (c, b), (c, d), (0, d)]      # T
    if k == 2:
        e = rng.randint(c + 1, a - 1)
        return [(0, 0), (a, 0), (a, b), (e, b), (e, d), (c, d), (c, b), (0, b)]      # U
    e, f = rng.randint(c, a - 1), rng.randint(1, b - 1)
    return [(0, 0), (a, 0), (a, f), (a + 5, f), (a + 5, b + 3), (c, b + 3), (c, b), (0, b)]

def dormers(rng, near=False):
    """rectangle with bumps of dormer size on its sides; bumps sometimes adjoining"""
    w, h = rng.randint(24, 60), rng.randint(14, 30)
    p = []
    def side(L, f):
        x, out = 0., [(0., 0.)]
        k = rng.randint(0, 3)
        for _ in range(k):
            g = rng.choice([0.5, 1.5, 2.5, 4., 6.])
            b = rng.choice([1., 2., 3., 4., 8., 11.])
            hgt = rng.choice([1., 1.5, 2., 3.])
            h2 = hgt if rng.random() < .8 else hgt * rng.choice([.5, 1.25])
            sg = 1. if rng.random() < .85 else -0.5
            if x + g + b + .5 > L: break
            x += g
            out += [(x, 0), (x, -sg * hgt), (x + b, -sg * h2), (x + b, 0)] if h2 == hgt else [(x, 0), (x, -sg * hgt), (x + b, -sg * hgt), (x + b, 0)]
            x += b
        return [f(q) for q in out]
    p += side(w, lambda q: (q[0], q[1]))
    p += side(h, lambda q: (w - q[1], q[0]))
    p += side(w, lambda q: (w - q[0], h - q[1]))
    p += side(h, lambda q: (q[1], h - q[0]))
    k = rng.randint(0, len(p) - 1)
    return p[k:] + p[:k]

def apse(rng):
    w, n = rng.randint(6, 14), rng.randint(7, 14)
    L = rng.randint(8, 30)
    r = w / 2.
    arc = [(L + r * math.sin(math.pi * i / n), r - r * math.cos(math.pi * i / n)) for i in range(n + 1)]
    return [(0., 0.)] + arc + [(0., float(w))]

def clean(p):
    """drop repeated points; simple and counterclockwise?"""
    q = []
    for x in p:
        if not q or abs(x[0] - q[-1][0]) + abs(x[1] - q[-1][1]) > 1e-3: q.append(x)
    while len(q) > 1 and abs(q[0][0] - q[-1][0]) + abs(q[0][1] - q[-1][1]) < 1e-3: q.pop()
    return q

def seg_cross(a, b, c, d):
    def o(p, q, r): return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    d1, d2, d3, d4 = o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b)
    return d1 * d2 <= 1e-9 and d3 * d4 <= 1e-9 and not (d1 * d2 > 0 or d3 * d4 > 0)

def simple(p):
    n = len(p)
    if n < 3: return False
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1): continue
            if seg_cross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]): return False
    return area2(p) > 0.5

def polygon(rng):
    for _ in range(50):
        k = rng.random()
        if k < .3: p = star(rng)
        elif k < .42: p = rect(rng)
        elif k < .62: p = lshape(rng)
        elif k < .85: p = dormers(rng)
        else: p = apse(rng)
        p = clean(p)
        if simple(p): break
    if rng.random() < .6:
        k = rng.randint(0, len(p) - 1); p = p[k:] + p[:k]
    if rng.random() < .5: p = rot(p, rng.uniform(0, 6.28), rng.uniform(-50, 50), rng.uniform(-50, 50))
    elif rng.random() < .5: p = rot(p, 0, rng.randint(-40, 40), rng.randint(-40, 40))
    return [(float(x), float(y)) for x, y in p]

def inside(q, p):
    r, n = False, len(p)
    for i in range(n):
        a, b = p[i - 1], p[i]
        if (a[1] > q[1]) != (b[1] > q[1]) and q[0] < (b[0] - a[0]) * (q[1] - a[1]) / (b[1] - a[1]) + a[0]: r = not r
    return r

def segdist(q, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = max(0., min(1., ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / (dx * dx + dy * dy)))
    return math.hypot(q[0] - a[0] - t * dx, q[1] - a[1] - t * dy)

def holes(rng, p, k):
    out = []
    xs, ys = [q[0] for q in p], [q[1] for q in p]
    for _ in range(k):
        for _ in range(30):
            c = (rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys)))
            if not inside(c, p): continue
            d = min([segdist(c, p[i - 1], p[i]) for i in range(len(p))] +
                    [segdist(c, h[i - 1], h[i]) for h in out for i in range(len(h))])
            if any(inside(c, h) for h in out) or d < 1.: continue
            r = d * rng.uniform(.3, .8)
            n = rng.choice([3, 4, 4, 5, 7])
            a0 = rng.uniform(0, 6.28)
            h = [(c[0] + r * math.cos(a0 - 2 * math.pi * i / n), c[1] + r * math.sin(a0 - 2 * math.pi * i / n)) for i in range(n)]
            out.append(h)
            break
    return out

def layout(rng, p, hs, z=None, units=None):
    """footprint in a vertex list: padding, holes before or after, any order of blocks"""
    z = rng.choice([0., 0., 2.5, -3.]) if z is None else z
    pad = lambda: [(rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-5, 9)) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    blocks = [('p', p)] + [('h%d' % i, h) for i, h in enumerate(hs)]
    order = blocks[:]
    if rng.random() < .4: rng.shuffle(order)
    verts, pos = [], {}
    for nm, b in order:
        verts += pad()
        pos[nm] = len(verts)
        verts += [(x, y, z) for x, y in b]
    verts += pad()
    case = dict(verts=verts, first=pos['p'], num=len(p), holes=[[pos['h%d' % i], len(h)] for i, h in enumerate(hs)] if hs else rng.choice([None, []]))
    if units is None: units = rng.random() < .4
    case['units'] = None
    if units:
        u = []
        for b in [p] + hs:
            for i in range(len(b)):
                a, c = b[i], b[(i + 1) % len(b)]
                l = math.hypot(c[0] - a[0], c[1] - a[1])
                u.append(((c[0] - a[0]) / l, (c[1] - a[1]) / l, 0.))
        case['units'] = u
    return case

_corpus = None
def corpus():
    global _corpus
    if _corpus is None:
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'corpus.json.gz')
        _corpus = json.load(gzip.open(f, 'rt'))
    return _corpus

def footprint(rng, n=None, small=False):
    """a polygonize() case"""
    if n is not None and n < len(corpus()):
        c = dict(corpus()[n])
    elif rng.random() < .06 and not small:
        c = dict(rng.choice(corpus()))
    else:
        p = polygon(rng)
        k = rng.choice([0, 0, 0, 1, 1, 2, 3])
        c = layout(rng, p, holes(rng, p, k))
    m = rng.random()
    c['height'], c['tan'] = (0., 0.5) if m < .4 else (0., 0.) if m < .5 else (rng.choice([1., 3.5, 7.]), 0.) if m < .75 else (rng.choice([2., 5.]), rng.choice([.3, 2.]))
    c['faces'] = rng.choice([None, None, [], [[0, 1, 2]], [[5, 4, 3, 2], [1, 0, 7]]])
    return c
