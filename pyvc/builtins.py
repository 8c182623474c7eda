"""Contracts of Python's builtins and of the libraries the code uses.  All of these are trusted:
they are the specifications the proofs assume of CPython, itertools, heapq, re and mathutils."""
import z3
from .values import *
from .engine import conj, disj, neg, qfree, NoMerge

NAMES = {'range', 'enumerate', 'zip', 'len', 'abs', 'min', 'max', 'sorted', 'sum', 'all', 'any', 'list', 'set', 'tuple', 'dict',
         'next', 'iter', 'isinstance', 'complex', 'print', 'reversed', 'map', 'filter', 'float', 'int', 'bool', 'str', 'repr',
         'frozenset', 'True', 'False', 'None', 'Exception', 'RuntimeError', 'ValueError', 'round', 'slice', 'divmod', 'id', 'type', 'callable', 'getattr', 'hasattr', 'object'}

def setup(engine):
    engine.trusted_used = set()

def strlist(e, c):
    if isinstance(c, SeqStr): return c.lst
    if isinstance(c, CharV): return e.list_of([c])
    if isinstance(c, StrV): 
        return e.list_of([CharV(z3.IntVal(ord(x))) for x in c.s])
    raise Unsupported('string operation on %r' % (c,))

# ---- helpers --------------------------------------------------------------------

def content(e, st, v):
    return e.read(st, v)

def iter_to_list(e, st, v):
    """pure list of the elements of an iterable (consumes iterators)"""
    c = e.read(st, v)
    if isinstance(c, ListC): return e.purify(st, v, True) if isinstance(v, (LocV, PathV)) else c
    g = st.ghost.get('%%gen%d' % v.id) if isinstance(v, LocV) else None
    if g is not None and isinstance(c, IterC) and const_int(c.pos) == 0:
        st.heap[v.id] = IterC(c.n, c.get, c.n)
        return g
    view = e.iter_view(st, v)
    if view.n is None: raise Unsupported('list of an infinite iterator')
    if view.lst is not None: return view.lst
    cn = const_int(view.n)
    if cn is not None and cn <= 12:
        return e.list_of([e.purify(st, view.get(e, st, z3.IntVal(i)), True) for i in range(cn)])
    k = e.fresh(st, 'c', I)
    u0 = uid()
    w = st.copy(); w.ctx = list(st.ctx) + [k]
    w.assume(0 <= k, k < view.n)
    hp, hf = len(w.pc), len(w.facts)
    x = view.get(e, w, k)
    val = e.purify(w, x, True)
    facts = w.facts[hf:] + w.pc[hp:]
    e.trace_fact(st, k, view.n, facts)
    return e.list_map(view.n, st, k, val, e.relevant_facts(val, facts, u0))

def set_from_list(e, st, l):
    n = const_int(l.n)
    if n is not None and n <= 8:
        vals = []
        for i in range(n):
            x, f = l.get(i); st.fact(*f); vals.append(x)
        return e.set_of(vals)
    et = type_of(l).a[0]
    if l.cnt is not None and l.cnt(e.bound_vals(et)[0]) is not None:
        s = SetC(lambda x: l.cnt(x) >= 1, None, et)
        return s
    s = e.fresh_set(st, et, 'set')
    j = z3.Int('j?%d' % uid())
    x, f = l.get(j)
    st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l.n, *f), s.has(x))))
    b, vs = e.bound_vals(et)
    w = e.fresh_fun(st, 'at', *([v.sort() for v in vs] + [I]))
    y, g = l.get(w(*vs))
    st.fact(z3.ForAll(vs, z3.Implies(s.has(b), z3.And(0 <= w(*vs), w(*vs) < l.n, e.veq0(y, b), *g))))
    return s

def map_fn(e, st, n, get, fn, node):
    """evaluate a callable at a generic index: -> (k, value, facts)"""
    k = e.fresh(st, 'c', I)
    u0 = uid()
    w = st.copy(); w.ctx = list(st.ctx) + [k]
    w.assume(0 <= k, k < n)
    hp, hf = len(w.pc), len(w.facts)
    x = get(e, w, k)
    w2, y = e.single(hp, hf, e.call(w, fn, [x], {}, node), 'a key function')
    val = e.purify(w2, y)
    facts = w2.facts[hf:] + w2.pc[hp:]
    e.trace_fact(st, k, n, facts)
    return k, val, e.relevant_facts(val, facts, u0)

def num_leq(a, b):
    x, y = unify(a.t, b.t)
    return x <= y

def num_lt(a, b):
    x, y = unify(a.t, b.t)
    return x < y

def alloc_list(e, st, l, flags=()):
    return e.alloc(st, l, flags)

def fold_pair(e, st, vals, lt):
    r = vals[0]
    for v in vals[1:]:
        v, r = e.num(v), e.num(r)
        if not (isinstance(v, Num) and isinstance(r, Num)): raise Unsupported('min/max of non-numbers')
        a, b = unify(v.t, r.t)
        r = Num(z3.If(a < b if lt else a > b, a, b))
    return r

def minmax(e, st, args, kw, node, ismin):
    key = kw.get('key')
    if key is NONE: key = None
    if len(args) > 1:
        if key is not None: raise Unsupported('min with key over arguments')
        out = [(st, [])]
        for a in args:
            nxt = []
            for s, vs in out:
                for s2, x in e.split(s, a): nxt.append((s2, vs + [x]))
            out = nxt
        return [(s, fold_pair(e, s, vs, ismin)) for s, vs in out]
    out = []
    for s, it in e.split(st, args[0]):
        view = e.iter_view(s, it)
        n = view.n
        if n is None: raise Unsupported('min of an infinite iterator')
        rs = []
        if 'default' in kw:
            for s2, b in e.branch(s, n > 0):
                if b: rs.append(s2)
                else: out.append((s2, kw['default']))
        else:
            s = e.safety(s, n > 0, 'ValueError', node, 'min/max of an empty sequence')
            if s is None: continue
            rs = [s]
        for s in rs:
            if const_int(n) == 1:
                out.append((s, view.get(e, s, z3.IntVal(0)))); continue
            if key is not None and view.lst is not None:
                base, tail = tail_of(view.lst)
                if tail:
                    out += min_by_piece(e, s, base, tail, key, ismin, node)
                    continue
            if key is not None:
                k, val, facts = map_fn(e, s, n, view.get, key, node)
            else:
                k, val, facts = map_fn(e, s, n, view.get, PartialV(lambda en, s2, a, kw2: [(s2, a[0])]), node)
            val = e.num(val)
            if not isinstance(val, Num): raise Unsupported('key of min/max is not a number')
            w = e.fresh(s, 'best', I)
            j = z3.Int('j?%d' % uid())
            kw_, kj = substf([(k, w)]), substf([(k, j)])
            s.fact(0 <= w, w < n, *[kw_(f) for f in facts])
            a, b = kw_(val.t), kj(val.t)
            hyp = [0 <= j, j < n] + [kj(f) for f in facts]
            s.fact(z3.ForAll([j], z3.Implies(z3.And(*hyp), a <= b if ismin else a >= b)))
            s.fact(z3.ForAll([j], z3.Implies(z3.And(*(hyp + [j < w])), a < b if ismin else a > b)))
            x = view.get(e, s, w)
            out.append((s, x))
    return out

def tail_of(l, most=4):
    """the list as a list and the elements appended to it one by one"""
    tail = []
    while l.prov is not None and l.prov[0] in ('append', 'copy') and len(tail) < most:
        if l.prov[0] == 'append': tail.insert(0, l.prov[2])
        l = l.prov[1]
    n = const_int(l.n)
    if n is not None and n + len(tail) <= most:
        if n == 0: return None, tail
        vals = [l.get(z3.IntVal(i)) for i in range(n)]
        if not any(f for _, f in vals): return None, [v for v, _ in vals] + tail
    return l, tail

def min_by_piece(e, st, base, tail, key, ismin, node):
    """the first element with the least key: in the base list or one of those appended, one state each"""
    better = (lambda a, b: a <= b) if ismin else (lambda a, b: a >= b)
    strictly = (lambda a, b: a < b) if ismin else (lambda a, b: a > b)
    s0 = st.copy()
    ks = []
    for x in tail:
        hp, hf = len(s0.pc), len(s0.facts)
        s0, y = e.single(hp, hf, e.call(s0, key, [x], {}, node), 'a key function')
        y = e.num(e.purify(s0, y))
        if not isinstance(y, Num): raise Unsupported('key of min/max is not a number')
        ks.append(to_real(y.t))
    b = None
    if base is not None:
        k, val, facts = map_fn(e, s0, base.n, lambda en, s, i: en.get_fact(s, base, i), key, node)
        val = e.num(val)
        if not isinstance(val, Num): raise Unsupported('key of min/max is not a number')
        b = k, to_real(val.t), facts
    out = []
    j = z3.Int('j?%d' % uid())
    if b is not None:
        s = s0.copy()
        w = e.fresh(s, 'best', I)
        kw_, kj = substf([(b[0], w)]), substf([(b[0], j)])
        s.assume(0 <= w); s.assume(w < base.n)
        s.fact(*[kw_(f) for f in b[2]])
        a, o = kw_(b[1]), kj(b[1])
        s.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < base.n, *[kj(f) for f in b[2]]), better(a, o))))
        s.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w, *[kj(f) for f in b[2]]), strictly(a, o))))
        for t in ks: s.assume(better(a, t))
        x, f = base.get(w); s.fact(*f)
        out.append((s, x))
    for i, t in enumerate(ks):
        s = s0.copy()
        for m, u in enumerate(ks):
            if m != i: s.assume(strictly(t, u) if m < i else better(t, u))
        if b is not None:
            kj = substf([(b[0], j)])
            s.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < base.n, *[kj(f) for f in b[2]]), strictly(t, kj(b[1])))))
        out.append((s, tail[i]))
    return out

def do_sorted(e, st, v, kw, node):
    """-> (st, ListC): a permutation of the elements, ordered by the key"""
    l = iter_to_list(e, st, v)
    n = l.n
    key, rev = kw.get('key'), kw.get('reverse')
    if key is NONE: key = None
    r = False
    if rev is not None:
        if not isinstance(rev, BoolV) or not (z3.is_true(rev.t) or z3.is_false(rev.t)): raise Unsupported('reverse=')
        r = z3.is_true(rev.t)
    if const_int(n) is not None and const_int(n) <= 1: return st, l
    pi = e.fresh_fun(st, 'perm', I, I)
    inv = e.fresh_fun(st, 'iperm', I, I)
    i, j = z3.Int('i?%d' % uid()), z3.Int('j?%d' % uid())
    st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pi(i), pi(i) < n, inv(pi(i)) == i)), patterns=[pi(i)]))
    st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, pi(inv(i)) == i)), patterns=[inv(i)]))
    el = l.get(i)[0]
    if isinstance(el, Num) and el.is_int and z3.is_app(el.t) and el.t.decl().kind() == z3.Z3_OP_UNINTERPRETED and el.t.num_args() and el.t.arg(el.t.num_args() - 1).eq(i):
        # where a given element of the list went
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, pi(inv(i)) == i)), patterns=[el.t]))
    res = ListC(n, lambda i: (l.get(pi(i))[0], [z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= pi(i), pi(i) < n, inv(pi(i)) == i))] + l.get(pi(i))[1]), prov=('sorted', l, pi, inv), cnt=l.cnt, etype=l.etype)
    def get(en, s, i): 
        x, f = l.get(i); s.fact(*f)
        return en.to_env(s, x, ('borrowed',))
    if isinstance(key, PartialV) and key.meta and key.meta[0] == 'cmp':
        cmp = key.meta[1]
        # the comparison of two generic elements
        a, b = e.fresh(st, 'ca', I), e.fresh(st, 'cb', I)
        u0 = uid()
        w = st.copy(); w.ctx = list(st.ctx) + [a, b]
        w.assume(0 <= a, a < n, 0 <= b, b < n, a != b)
        hp, hf = len(w.pc), len(w.facts)
        w2, y = e.single(hp, hf, e.call(w, cmp, [get(e, w, a), get(e, w, b)], {}, node), 'a comparison function')
        y = e.num(e.purify(w2, y))
        facts = w2.facts[hf:] + w2.pc[hp:]
        lt = y.t < 0
        g = lambda t, p, q: z3.substitute(t, (a, p), (b, q))
        x, yv, z = z3.Int('x?%d' % uid()), z3.Int('y?%d' % uid()), z3.Int('z?%d' % uid())
        for f in facts:
            st.fact(z3.ForAll([x, yv], z3.Implies(z3.And(0 <= x, x < n, 0 <= yv, yv < n, x != yv), g(f, x, yv))))
        rng = lambda *q: [z3.And(0 <= t, t < n) for t in q] + [z3.Distinct(*q)]
        hx = lambda p, q: [g(f, p, q) for f in facts if qfree(f)]
        e.oblige(st, 'sort order is transitive', z3.ForAll([x, yv, z], z3.Implies(z3.And(*(rng(x, yv, z) + hx(x, yv) + hx(yv, z) + hx(x, z) + [g(lt, x, yv), g(lt, yv, z)])), g(lt, x, z))), node, 'contract')
        e.oblige(st, 'sort order is negatively transitive', z3.ForAll([x, yv, z], z3.Implies(z3.And(*(rng(x, yv, z) + hx(x, yv) + hx(yv, z) + hx(x, z) + [z3.Not(g(lt, x, yv)), z3.Not(g(lt, yv, z))])), z3.Not(g(lt, x, z)))), node, 'contract')
        body = z3.Not(z3.And(g(lt, pi(j), pi(i)), z3.Not(g(lt, pi(i), pi(j))))) if not r else z3.Not(z3.And(g(lt, pi(i), pi(j)), z3.Not(g(lt, pi(j), pi(i)))))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(*([body] + hx(pi(j), pi(i)) + hx(pi(i), pi(j))))), patterns=[z3.MultiPattern(pi(i), pi(j))]))
        e.trusted_used.add('sorted() with cmp_to_key: a permutation in which no later element precedes an earlier one strictly, for a transitive, negatively transitive comparison (ties in any order)')
        return st, res
    if key is None: key = PartialV(lambda en, s2, a, kw2: [(s2, a[0])])
    k, val, facts = map_fn(e, st, n, get, key, node)
    val = e.num(val)
    if not isinstance(val, Num):
        if isinstance(val, TupleV):
            return st, res          # some permutation
        raise Unsupported('sort key')
    si, sj = substf([(k, pi(i))]), substf([(k, pi(j))])
    a, b = si(val.t), sj(val.t)
    body = a <= b if not r else a >= b
    st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(*([body] + [si(f) for f in facts] + [sj(f) for f in facts]))), patterns=[z3.MultiPattern(pi(i), pi(j))]))
    # stability
    st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, a == b), pi(i) < pi(j)), patterns=[z3.MultiPattern(pi(i), pi(j))]))
    e.trusted_used.add('sorted(): a stable permutation ordered by the key')
    return st, res

def bool_list(e, st, v):
    """list of truth values of an iterable -> (n, k -> Bool term, facts)"""
    l = iter_to_list(e, st, v)
    def at(i):
        x, f = l.get(i)
        return e.truth(st, x), f
    return l, at

UNIT = {d: [z3.Function('unit%d.%s' % (d, 'xyzw'[i]), *([R] * (d + 1))) for i in range(d)] for d in (2, 3, 4)}

def unit(e, st, xs):
    """normalised vector; the zero vector stays zero"""
    d = len(xs)
    us = [UNIT[d][i](*xs) for i in range(d)]
    l = mk_sqrt(z3.Sum([x * x for x in xs]))
    zero = z3.And(*[x == 0 for x in xs])
    st.fact(z3.Implies(zero, z3.And(*[u == 0 for u in us])))
    st.fact(z3.Implies(z3.Not(zero), z3.And(z3.Sum([u * u for u in us]) == 1, l > 0, *[u * l == x for u, x in zip(us, xs)])))
    return us

def circ(e, st, i, n):
    """i mod n for 0 <= i, 0 < n"""
    i = z3.simplify(i)
    if not e.light:
        if not e.feasible(st, i >= n): return i
        if not e.feasible(st, i < n): 
            if not e.feasible(st, i >= 2 * n): return z3.simplify(i - n)
        if not e.feasible(st, i >= 2 * n): return z3.simplify(z3.If(i < n, i, i - n))
    m = mk_mod(i, n)
    from .interp import mod_facts
    if m.decl().eq(PMod): st.fact(*mod_facts(i, n))
    return m

# ---- functions ---------------------------------------------------------------------

def call(e, st, name, args, kw, node):
    f = FUNCS.get(name)
    if f is None: raise Unsupported('call of %s' % name)
    return f(e, st, args, kw, node)

FUNCS = {}
def fn(*names):
    def deco(f):
        for n in names: FUNCS[n] = f
        return f
    return deco

def split1(f):
    def g(e, st, args, kw, node):
        out = []
        for s, x in e.split(st, args[0]): out += f(e, s, [x] + list(args[1:]), kw, node)
        return out
    return g

@fn('range')
def _range(e, st, args, kw, node):
    ts = []
    for a in args:
        a = e.num(a)
        if not (isinstance(a, Num) and a.is_int): raise Unsupported('range argument')
        ts.append(a.t)
    lo, hi, step = z3.IntVal(0), ts[0], 1
    if len(ts) >= 2: lo, hi = ts[0], ts[1]
    if len(ts) == 3: 
        step = const_int(ts[2])
        if step not in (1, -1): raise Unsupported('range step')
    d = z3.simplify(hi - lo) if step == 1 else z3.simplify(lo - hi)
    cd = const_int(d)
    if cd is not None: n = z3.IntVal(max(cd, 0))
    elif not e.light and not e.feasible(st, d < 0): n = d
    else: n = z3.If(d < 0, z3.IntVal(0), d)
    if step == 1: l = ListC(n, lambda i: (Num(z3.simplify(lo + i)), []), etype=TInt, prov=('range', lo, n), cnt=lambda x: z3.If(z3.And(lo <= x.t, x.t < lo + n), 1, 0))
    else: l = ListC(n, lambda i: (Num(z3.simplify(lo - i)), []), etype=TInt, prov=('rrange', lo, n), cnt=lambda x: z3.If(z3.And(lo - n < x.t, x.t <= lo), 1, 0))
    return [(st, e.alloc(st, l))]

@fn('len')
def _len(e, st, args, kw, node):
    from .interp import SetLen
    out = []
    for s, v in e.split(st, args[0]):
        c = e.read(s, v)
        if isinstance(c, ListC): 
            s.fact(c.n >= 0) if const_int(c.n) is None else None
            out.append((s, Num(c.n)))
        elif isinstance(c, TupleV): out.append((s, Num(len(c.items))))
        elif isinstance(c, RecV): out.append((s, Num(len(c.fields))))
        elif isinstance(c, StrV): out.append((s, Num(len(c.s))))
        elif isinstance(c, SeqStr): out.append((s, Num(c.lst.n)))
        elif isinstance(c, VecC): out.append((s, Num(len(c.xs))))
        elif isinstance(c, SetC): out.append((s, SetLen(c)))
        elif isinstance(c, DictC) and c.keys is not None: out.append((s, Num(c.keys.n)))
        elif isinstance(c, (ObjC, SymV)):
            m = e.method(c.cls, '__len__')
            if m is None: raise Unsupported('len of %s' % c.cls)
            out += e.call_func(s, m, [v], {}, node)
        else: raise Unsupported('len of %r' % (c,))
    return out

@fn('abs', 'math.fabs')
def _abs(e, st, args, kw, node):
    out = []
    for s, v in e.split(st, args[0]):
        v = e.num(v)
        if isinstance(v, Num): out.append((s, Num(z3.If(v.t >= 0, v.t, -v.t))))
        elif isinstance(v, CplxV): out.append((s, Num(mk_sqrt(v.re * v.re + v.im * v.im))))
        else: raise Unsupported('abs')
    return out

@fn('math.sqrt')
def _sqrt(e, st, args, kw, node):
    t = to_real(e.num(args[0]).t)
    st = e.safety(st, t >= 0, 'ValueError', node)
    return [(st, Num(mk_sqrt(t)))] if st is not None else []

@fn('math.hypot')
def _hypot(e, st, args, kw, node):
    return [(st, Num(mk_sqrt(z3.Sum([to_real(a.t) * to_real(a.t) for a in args]))))]

@fn('min')
def _min(e, st, args, kw, node): return minmax(e, st, args, kw, node, True)
@fn('max')
def _max(e, st, args, kw, node): return minmax(e, st, args, kw, node, False)

@fn('sorted')
@split1
def _sorted(e, st, args, kw, node):
    st, l = do_sorted(e, st, args[0], kw, node)
    return [(st, e.alloc(st, l))]

@fn('sum')
@split1
def _sum(e, st, args, kw, node):
    l = iter_to_list(e, st, args[0])
    n = const_int(l.n)
    start = args[1] if len(args) > 1 else kw.get('start', Num(0))
    if n is not None and n <= 8:
        t = start.t
        for i in range(n):
            x, f = l.get(i); st.fact(*f)
            a, b = unify(t, e.num(x).t); t = a + b
        return [(st, Num(t))]
    k = e.fresh(st, 'c', I)
    x, f = l.get(k)
    x = e.num(x)
    if not isinstance(x, Num): raise Unsupported('sum of non-numbers')
    S = e.mk_prefix(st, k, x.t, nonneg=e.nonneg(z3.simplify(x.t)))
    a, b = unify(start.t, S(l.n))
    return [(st, Num(z3.simplify(a + b)))]

@fn('all', 'any')
@split1
def _all(e, st, args, kw, node, isall=True):
    return _quant(e, st, args, isall, node)

def _quant(e, st, args, isall, node):
    l, at = bool_list(e, st, args[0])
    n = const_int(l.n)
    if n is not None and n <= 8:
        ts = []
        for i in range(n):
            t, f = at(z3.IntVal(i)); st.fact(*f); ts.append(t)
        return [(st, BoolV(conj(ts) if isall else disj(ts)))]
    b = e.fresh(st, 'all' if isall else 'any', B)
    w = e.fresh(st, 'wit', I)
    tw, fw = at(w)
    if isall:
        st.fact(z3.Implies(b, e.forall(l.n, at)), *[z3.Implies(b, x) for x in e.forall_parts(l.n, at)])
        st.fact(z3.Implies(z3.Not(b), z3.And(0 <= w, w < l.n, z3.Not(tw), *fw)))
    else:
        no = lambda j: (z3.Not(at(j)[0]), at(j)[1])
        st.fact(z3.Implies(z3.Not(b), e.forall(l.n, no)), *[z3.Implies(z3.Not(b), x) for x in e.forall_parts(l.n, no)])
        st.fact(z3.Implies(b, z3.And(0 <= w, w < l.n, tw, *fw)))
    return [(st, BoolV(b))]
FUNCS['all'] = split1(lambda e, st, args, kw, node: _quant(e, st, args, True, node))
FUNCS['any'] = split1(lambda e, st, args, kw, node: _quant(e, st, args, False, node))

@fn('list')
def _list(e, st, args, kw, node):
    if not args: return [(st, e.alloc(st, e.list_of([])))]
    out = []
    for s, v in e.split(st, args[0]):
        l = iter_to_list(e, s, v)
        r = ListC(l.n, l.fn, prov=('copy', l), cnt=l.cnt, etype=l.etype)
        if e.is_empty_lit(l): r = e.list_of([])
        out.append((s, e.alloc(s, r)))
    return out

@fn('tuple')
def _tuple(e, st, args, kw, node):
    if not args: return [(st, TupleV([]))]
    out = []
    for s, v in e.split(st, args[0]):
        c = e.read(s, v)
        if isinstance(c, TupleV): out.append((s, c)); continue
        if isinstance(c, VecC): out.append((s, TupleV([Num(x) for x in c.xs]))); continue
        l = iter_to_list(e, s, v)
        n = const_int(l.n)
        if n is None: 
            out.append((s, e.alloc(s, l))); continue
        vs = []
        for i in range(n):
            x, f = l.get(i); s.fact(*f); vs.append(e.to_env(s, x, ('borrowed',)))
        out.append((s, TupleV(vs)))
    return out

@fn('set', 'frozenset')
def _set(e, st, args, kw, node):
    if not args: return [(st, e.alloc(st, SetC(lambda x: z3.BoolVal(False), [], TAny)))]
    out = []
    for s, v in e.split(st, args[0]):
        c = e.read(s, v)
        if isinstance(c, SetC): out.append((s, e.alloc(s, SetC(c.has, c.concrete, c.etype)))); continue
        if isinstance(c, TupleV): out.append((s, e.alloc(s, e.set_of([e.purify(s, x) for x in c.items])))); continue
        if isinstance(c, RecV): out.append((s, e.alloc(s, e.set_of([e.purify(s, x) for x in c.fields.values()])))); continue
        out.append((s, e.alloc(s, set_from_list(e, s, iter_to_list(e, s, v)))))
    return out

@fn('dict')
def _dict(e, st, args, kw, node):
    if args or kw: raise Unsupported('dict(...)')
    return [(st, e.alloc(st, DictC(lambda k: z3.BoolVal(False), lambda k: (OpaqueV(z3.Int('nokey')), []), keys=e.list_of([]))))]

@fn('collections.defaultdict')
def _defaultdict(e, st, args, kw, node):
    if not args or not isinstance(args[0], BuiltinV) or args[0].name not in ('list', 'int', 'set'): raise Unsupported('defaultdict factory')
    d = {'list': lambda: e.list_of([]), 'int': lambda: Num(0), 'set': lambda: e.set_of([])}[args[0].name]
    return [(st, e.alloc(st, DictC(lambda k: z3.BoolVal(False), lambda k: (d(), []), keys=None, default=args[0].name)))]

@fn('collections.Counter')
def _counter(e, st, args, kw, node):
    l = iter_to_list(e, st, args[0]) if args else e.list_of([])
    et = type_of(l).a[0]
    if l.cnt is not None:
        return [(st, e.alloc(st, DictC(lambda k: l.cnt(k) > 0, lambda k: (Num(l.cnt(k)), []), default='int')))]
    flat = e.flat_sorts(et) if et != TAny else [I]
    f = e.fresh_fun(st, 'count', *(flat + [I]))
    return [(st, e.alloc(st, DictC(lambda k: f(*e.flat(k)) > 0, lambda k: (Num(f(*e.flat(k))), [f(*e.flat(k)) >= 0]), default='int')))]

@fn('functools.cmp_to_key')
def _cmp(e, st, args, kw, node):
    return [(st, PartialV(None, ('cmp', args[0])))]

@fn('operator.itemgetter')
def _ig(e, st, args, kw, node):
    return [(st, PartialV(lambda en, s, a, k: en.getitem(s, a[0], args[0], node)))]

@fn('operator.attrgetter')
def _ag(e, st, args, kw, node):
    return [(st, PartialV(lambda en, s, a, k: en.getattr(s, a[0], args[0].s, node)))]

@fn('enumerate')
@split1
def _enumerate(e, st, args, kw, node):
    view = e.iter_view(st, args[0])
    start = args[1] if len(args) > 1 else kw.get('start', Num(0))
    it = IterC(view.n, lambda en, s, i: TupleV([Num(z3.simplify(i + start.t)), view.get(en, s, i)]))
    return [(st, e.alloc(st, it))]

@fn('zip')
def _zip(e, st, args, kw, node):
    cur = [(st, [])]
    for a in args:
        cur = [(s2, vs + [x]) for s, vs in cur for s2, x in e.split(s, a)]
    out = []
    for s, vs in cur:
        views = [e.iter_view(s, v) for v in vs]
        n = None
        for w in views:
            if w.n is None: continue
            if n is None: n = w.n
            elif z3.simplify(n).eq(z3.simplify(w.n)): pass
            elif not e.light and not e.feasible(s, n > w.n): pass
            elif not e.light and not e.feasible(s, w.n > n): n = w.n
            else: n = z3.If(n < w.n, n, w.n)
        out.append((s, e.alloc(s, IterC(n, lambda en, s2, i, views=views: TupleV([w.get(en, s2, i) for w in views])))))
    return out

@fn('reversed')
@split1
def _reversed(e, st, args, kw, node):
    view = e.iter_view(st, args[0])
    n = view.n
    return [(st, e.alloc(st, IterC(n, lambda en, s, i: view.get(en, s, z3.simplify(n - 1 - i)))))]

@fn('map')
def _map(e, st, args, kw, node):
    if len(args) != 2: raise Unsupported('map')
    out = []
    for s, v in e.split(st, args[1]):
        view = e.iter_view(s, v)
        def get(en, s2, i):
            bp, bf = len(s2.pc), len(s2.facts)
            r = en.call(s2, args[0], [view.get(en, s2, i)], {}, node)
            if len(r) > 1: r = en.merge_list(bp, bf, r, withval=True)
            if len(r) != 1 or r[0][0] is not s2: raise Unsupported('map with a branching function')
            return r[0][1]
        out.append((s, e.alloc(s, IterC(view.n, get))))
    return out

@fn('iter')
@split1
def _iter(e, st, args, kw, node):
    c = e.read(st, args[0])
    if isinstance(c, IterC): return [(st, args[0])]
    view = e.iter_view(st, args[0])
    return [(st, e.alloc(st, IterC(view.n, view.get)))]

@fn('next')
@split1
def _next(e, st, args, kw, node):
    c = e.read(st, args[0])
    if not isinstance(c, IterC): raise Unsupported('next of %r' % (c,))
    out = []
    if c.n is None: ok = [(st, True)]
    elif len(args) > 1: ok = e.branch(st, c.pos < c.n)
    else:
        s = e.safety(st, c.pos < c.n, 'StopIteration', node)
        ok = [(s, True)] if s is not None else []
    for s, b in ok:
        if not b: out.append((s, args[1])); continue
        x = c.get(e, s, c.pos)
        if isinstance(args[0], LocV): s.heap[args[0].id] = IterC(c.n, c.get, z3.simplify(c.pos + 1))
        out.append((s, x))
    return out

@fn('itertools.tee')
def _tee(e, st, args, kw, node):
    n = const_int(args[1].t) if len(args) > 1 else 2
    view = e.iter_view(st, args[0])
    return [(st, TupleV([e.alloc(st, IterC(view.n, view.get)) for _ in range(n)]))]

@fn('itertools.cycle')
@split1
def _cycle(e, st, args, kw, node):
    view = e.iter_view(st, args[0])
    n = view.n
    if n is None: return [(st, e.alloc(st, IterC(None, view.get)))]
    out = []
    for s, b in e.branch(st, n > 0):
        if not b: out.append((s, e.alloc(s, IterC(0, view.get))))
        else:
            out.append((s, e.alloc(s, IterC(None, lambda en, s2, i: view.get(en, s2, circ(en, s2, i, n))))))
    return out

@fn('itertools.islice')
@split1
def _islice(e, st, args, kw, node):
    view = e.iter_view(st, args[0])
    lo, hi = z3.IntVal(0), None
    if len(args) == 2: hi = args[1]
    else: 
        lo = z3.IntVal(0) if args[1] is NONE else e.num(args[1]).t
        hi = args[2]
    if len(args) > 3: raise Unsupported('islice step')
    st = e.safety(st, lo >= 0, 'ValueError', node, 'islice start')
    if st is None: return []
    if hi is NONE or hi is None: 
        if view.n is None: n = None
        else:
            d = z3.simplify(view.n - lo)
            n = d if not e.light and not e.feasible(st, d < 0) else z3.If(d < 0, 0, d)
    else:
        h = e.num(hi).t
        if view.n is not None: h = z3.If(view.n < h, view.n, h) if e.light or e.feasible(st, view.n < h) else h
        d = z3.simplify(h - lo)
        n = d if not e.light and not e.feasible(st, d < 0) else z3.If(d < 0, 0, d)
    return [(st, e.alloc(st, IterC(n, lambda en, s, i: view.get(en, s, z3.simplify(i + lo)))))]

@fn('itertools.chain')
def _chain(e, st, args, kw, node):
    l = e.list_of([])
    for a in args: l = e.list_concat(l, iter_to_list(e, st, a))
    return [(st, e.alloc(st, l))]

@fn('itertools.chain.from_iterable')
@split1
def _chain_from(e, st, args, kw, node):
    v = args[0]
    h = getattr(e, 'chain_summary', None)
    if h is not None:
        r = h(e, st, v)
        if r is not None: return r
    l = iter_to_list(e, st, v)
    n = const_int(l.n)
    if n is not None and n <= 6:
        r = e.list_of([])
        for i in range(n):
            x, f = l.get(i); st.fact(*f)
            if isinstance(x, TupleV): x = e.list_of(x.items)
            r = e.list_concat(r, x)
        return [(st, e.alloc(st, r))]
    k = e.fresh(st, 'c', I)
    x, f = l.get(k)
    if not isinstance(x, ListC): raise Unsupported('chain.from_iterable of %r' % (x,))
    e.trace_fact(st, k, l.n, [z3.Implies(conj(f), x.n >= 0)])
    r, O, b = e.mk_flatten(st, l.n, k, e.with_facts(x, f))
    return [(st, e.alloc(st, r))]

@fn('itertools.combinations')
@split1
def _combinations(e, st, args, kw, node):
    r = const_int(args[1].t)
    if r != 2: raise Unsupported('combinations')
    l = iter_to_list(e, st, args[0])
    n = const_int(l.n)
    def pair(en, s, i, j):
        x, f = l.get(i); y, g = l.get(j)
        s.fact(*f); s.fact(*g)
        return TupleV([en.to_env(s, x, ('borrowed',)), en.to_env(s, y, ('borrowed',))])
    if n is not None and n <= 4:
        ps = [(i, j) for i in range(n) for j in range(i + 1, n)]
        return [(st, e.alloc(st, IterC(len(ps), lambda en, s, i: pair(en, s, z3.IntVal(ps[const_int(i)][0]), z3.IntVal(ps[const_int(i)][1])))))]
    N, A, Bf, P = pair_index(e, st, l.n)
    def get(en, s, p):
        s.fact(z3.Implies(z3.And(0 <= p, p < N), z3.And(0 <= A(p), A(p) < Bf(p), Bf(p) < l.n, P(A(p), Bf(p)) == p)))
        return pair(en, s, A(p), Bf(p))
    e.trusted_used.add('itertools.combinations(x, 2): every unordered pair of positions once')
    return [(st, e.alloc(st, IterC(N, get)))]

PA = z3.Function('pair.a', I, I, I); PB = z3.Function('pair.b', I, I, I); PI = z3.Function('pair.ix', I, I, I, I); PN = z3.Function('pair.n', I, I)
def pair_index(e, st, n):
    """the enumeration of the pairs of positions below n (a function of n only)"""
    A, Bf, P = (lambda p: PA(n, p)), (lambda p: PB(n, p)), (lambda i, j: PI(n, i, j))
    N = PN(n)
    p, i, j = z3.Int('p?%d' % uid()), z3.Int('i?%d' % uid()), z3.Int('j?%d' % uid())
    st.fact(N >= 0)
    st.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < N), z3.And(0 <= A(p), A(p) < Bf(p), Bf(p) < n, P(A(p), Bf(p)) == p)), patterns=[A(p)]))
    st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(0 <= P(i, j), P(i, j) < N, A(P(i, j)) == i, Bf(P(i, j)) == j)), patterns=[P(i, j)]))
    return N, A, Bf, P

@fn('isinstance')
@split1
def _isinstance(e, st, args, kw, node):
    v, c = args
    if isinstance(c, TupleV):
        out = [(st, BoolV(False))]
        ts = []
        for x in c.items:
            r = _isinstance(e, st, [v, x], kw, node)
            ts.append(r[0][1].t)
        return [(st, BoolV(disj(ts)))]
    x = e.read(st, v)
    if isinstance(c, ClassV):
        name = c.name
        if isinstance(x, (RecV, ObjC)):
            return [(st, BoolV(subclass(e, x.cls, name)))]
        if isinstance(x, SymV):
            tag = getattr(e, 'kind_test', None)
            if tag is not None:
                t = tag(e, st, x, name)
                if t is not None: return [(st, BoolV(t))]
            return [(st, BoolV(z3.And(x.t != 0, z3.BoolVal(subclass(e, x.cls, name)))))]
        return [(st, BoolV(False))]
    if isinstance(c, BuiltinV):
        t = {'list': ListC, 'tuple': (TupleV, RecV), 'int': Num, 'float': Num, 'str': (StrV, CharV, SeqStr), 'dict': DictC, 'set': SetC, 'mathutils.Vector': VecC, 'bool': BoolV}.get(c.name)
        if t is None: raise Unsupported('isinstance of %s' % c.name)
        r = isinstance(x, t)
        if r and c.name == 'int': r = isinstance(x, Num) and x.is_int
        if r and c.name == 'float': r = isinstance(x, Num) and not x.is_int
        return [(st, BoolV(r))]
    raise Unsupported('isinstance')

def subclass(e, a, b):
    if a == b: return True
    ci = e.class_info(a)
    if ci is None or ci[0] is None: return False
    for base in ci[0].bases:
        if getattr(base, 'id', None) and subclass(e, base.id, b): return True
    return False

@fn('complex')
def _complex(e, st, args, kw, node):
    a = [to_real(e.num(x).t) for x in args] + [z3.RealVal(0)]
    return [(st, CplxV(a[0], a[1]))]

@fn('float')
def _float(e, st, args, kw, node): return [(st, Num(to_real(e.num(args[0]).t)))]
@fn('int')
def _int(e, st, args, kw, node):
    x = e.num(args[0])
    if isinstance(x, Num) and x.is_int: return [(st, x)]
    raise Unsupported('int()')
@fn('bool')
@split1
def _bool(e, st, args, kw, node): return [(st, BoolV(e.truth(st, args[0])))]
@fn('print')
def _print(e, st, args, kw, node): return [(st, NONE)]
@fn('str', 'repr')
def _str(e, st, args, kw, node): return [(st, StrV('<text>'))]

# ---- heapq ------------------------------------------------------------------------------

@fn('heapq.heappush')
def _push(e, st, args, kw, node):
    h = e.heap_contract
    if h is None: raise Unsupported('heapq')
    return h.push(e, st, args[0], args[1], node)

@fn('heapq.heappop')
def _pop(e, st, args, kw, node):
    h = e.heap_contract
    if h is None: raise Unsupported('heapq')
    return h.pop(e, st, args[0], node)

@fn('heapq.heapify')
def _heapify(e, st, args, kw, node):
    h = e.heap_contract
    if h is None: raise Unsupported('heapq')
    return h.heapify(e, st, args[0], node)

# ---- mathutils -----------------------------------------------------------------------------

@fn('mathutils.Vector')
@split1
def _vector(e, st, args, kw, node):
    v = args[0]
    c = e.read(st, v)
    if isinstance(c, VecC): return [(st, e.alloc(st, VecC(c.xs)))]
    if isinstance(c, RecV): c = TupleV(list(c.fields.values()))
    if isinstance(c, ListC):
        n = const_int(c.n)
        if n is None: raise Unsupported('Vector of a list')
        c = TupleV([c.get(i)[0] for i in range(n)])
    if isinstance(c, IterC):
        l = iter_to_list(e, st, v); n = const_int(l.n)
        if n is None: raise Unsupported('Vector of an iterator')
        c = TupleV([l.get(i)[0] for i in range(n)])
    if not isinstance(c, TupleV) or not 2 <= len(c.items) <= 4: raise Unsupported('Vector argument')
    outs = [(st, [])]
    for x in c.items:
        outs = [(s2, xs + [y]) for s, xs in outs for s2, y in e.split(s, x)]
    res = []
    for s, xs in outs:
        ts = []
        for y in xs:
            y = e.num(y)
            if not isinstance(y, Num): raise Unsupported('Vector component')
            ts.append(to_real(y.t))
        res.append((s, e.alloc(s, VecC(ts))))
    e.trusted_used.add('mathutils.Vector arithmetic, dot, cross, length, normalized as over the reals; == exact')
    return res

@fn('mathutils.geometry.intersect_point_line')
def _ipl(e, st, args, kw, node):
    p, a, b = [e.read(st, x) for x in args]
    d = [y - x for x, y in zip(a.xs, b.xs)]
    dd = z3.Sum([x * x for x in d])
    t = e.fresh(st, 'ipl', R)
    st.fact(z3.Implies(dd != 0, t * dd == z3.Sum([(q - x) * y for q, x, y in zip(p.xs, a.xs, d)])), z3.Implies(dd == 0, t == 0))
    e.trusted_used.add('mathutils.geometry.intersect_point_line: foot of the perpendicular')
    return [(st, TupleV([e.alloc(st, VecC([x + t * y for x, y in zip(a.xs, d)])), Num(t)]))]

# ---- re ---------------------------------------------------------------------------------------

@fn('re.compile')
def _recompile(e, st, args, kw, node):
    if not isinstance(args[0], StrV): raise Unsupported('re.compile')
    return [(st, e.alloc(st, ObjC('%regex', {'pattern': args[0]})))]

@fn('re.finditer')
def _refinditer(e, st, args, kw, node):
    return finditer(e, st, args[0].s, args[1], node)

def finditer(e, st, pattern, s, node):
    import re
    l = strlist(e, s)
    n = l.n
    m = re.fullmatch(r'\(\?=\(?([A-Za-z0-9]+)\)?\)', pattern)
    k = e.fresh(st, 'c', I)
    def ch(i, c):
        x, f = l.get(i)
        return e.veq0(x, StrV(c)), f
    if m:
        word = m.group(1)
        cs, facts = [k + len(word) <= n], []
        for j, c in enumerate(word):
            t, f = ch(z3.simplify(k + j), c); cs.append(t); facts += f
        cond = z3.And(*cs)
        res, mm, src = e.mk_filter(st, n, k, cond, TupleV([Num(k), Num(k)]), [z3.Implies(k + len(word) <= n, q) for q in facts])
        e.trusted_used.add('re: a lookahead of a word matches exactly where the word occurs, with an empty span')
    else:
        m = re.fullmatch(r'\(?([A-Za-z0-9])\)?(?:\{(\d+),\}|(\+))', pattern)
        if not m: raise Unsupported('regular expression %s' % pattern)
        c, cnt = m.group(1), int(m.group(2) or 1)
        cs, facts = [k + cnt <= n], []
        for j in range(cnt):
            t, f = ch(z3.simplify(k + j), c); cs.append(t); facts += f
        pt, pf = ch(z3.simplify(k - 1), c)
        cs.append(z3.Or(k == 0, z3.Not(pt)))
        cond = z3.And(*cs)
        end = e.fresh_fun(st, 'runend', I, I)
        j, i = z3.Int('j?%d' % uid()), z3.Int('i?%d' % uid())
        ci = z3.substitute(cond, (k, i))
        tj, fj = ch(j, c)
        te, fe = ch(end(i), c)
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, ci), z3.And(i + cnt <= end(i), end(i) <= n, z3.Or(end(i) == n, z3.Not(te)))), patterns=[end(i)]))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, ci, i <= j, j < end(i)), tj)))
        res, mm, src = e.mk_filter(st, n, k, cond, TupleV([Num(k), Num(end(k))]), [z3.And(k + cnt <= end(k), end(k) <= n)])
        e.trusted_used.add('re: a greedy run pattern matches exactly the maximal runs that are long enough')
    r = ListC(res.n, lambda i: (ObjC('%match', {'span': res.get(i)[0]}), res.get(i)[1]), prov=res.prov, etype=TObj('%match', {'span': TTuple(TInt, TInt)}))
    return [(st, e.alloc(st, r))]

# ---- methods ------------------------------------------------------------------------------------

def method(e, st, o, name, args, kw, node):
    c = e.read(st, o)
    if isinstance(c, ListC): return list_method(e, st, o, c, name, args, kw, node)
    if isinstance(c, VecC): return vec_method(e, st, o, c, name, args, kw, node)
    if isinstance(c, SetC): return set_method(e, st, o, c, name, args, kw, node)
    if isinstance(c, DictC): return dict_method(e, st, o, c, name, args, kw, node)
    if isinstance(c, (StrV, SeqStr, CharV)): return str_method(e, st, o, c, name, args, kw, node)
    if isinstance(c, ObjC) and c.cls == '%regex' and name == 'finditer': return finditer(e, st, c.fields['pattern'].s, args[0], node)
    if isinstance(c, ObjC) and c.cls == '%match':
        if name == 'span': return [(st, c.fields['span'])]
        if name == 'start': return [(st, c.fields['span'].items[0])]
        if name == 'end': return [(st, c.fields['span'].items[1])]
    if isinstance(c, CplxV) and name == 'conjugate': return [(st, CplxV(c.re, -c.im))]
    if isinstance(c, RecV):
        if name == '_replace':
            f = dict(c.fields); f.update(kw)
            return [(st, RecV(c.cls, f))]
    if o is NONE:
        if not e.allowed('AttributeError', st, node): e.oblige(st, 'no-AttributeError(None.%s)' % name, z3.BoolVal(False), node, 'safety')
        return []
    raise Unsupported('method %s of %s' % (name, type(c).__name__))

def first_index(e, st, c, px, node, exc='ValueError'):
    """index of the first element equal to px -> (st, w) ; the element must exist"""
    n = const_int(c.n)
    if n is not None and n <= 4:
        eqs = []
        for i in range(n):
            y, f = c.get(i); st.fact(*f); eqs.append(e.veq0(y, px))
        st = e.safety(st, disj(eqs), exc, node, 'element present')
        if st is None: return None, None
        w = z3.IntVal(n - 1)
        for i in range(n - 2, -1, -1): w = z3.If(eqs[i], z3.IntVal(i), w)
        return st, z3.simplify(w)
    b = e.contains(st, c, px)
    for t in getattr(e, 'member_hints', lambda *a: [])(st, c, px):
        y, f = c.get(t)
        st.fact(z3.Implies(z3.And(0 <= t, t < c.n, e.veq0(y, px), *f), b))
    st = e.safety(st, b, exc, node, 'element present')
    if st is None: return None, None
    # `b` has been assumed: now name the first position
    w = e.fresh(st, 'first', I)
    y, f = c.get(w)
    st.fact(0 <= w, w < c.n, e.veq0(y, px), *f)
    st.fact(e.forall(w, lambda j: (z3.Not(e.veq0(c.get(j)[0], px)), c.get(j)[1])))
    return st, w

def list_method(e, st, o, c, name, args, kw, node):
    if name == 'append':
        v = e.purify(st, args[0], True)
        e.write(st, o, e.list_append(c, v))
        return [(st, NONE)]
    if name == 'extend':
        out = []
        for s, x in e.split(st, args[0]):
            l = iter_to_list(e, s, x)
            e.write(s, o, e.list_concat(e.read(s, o), l))
            out.append((s, NONE))
        return out
    if name == 'copy':
        r = ListC(c.n, c.fn, prov=('copy', c), cnt=c.cnt, etype=c.etype)
        if e.is_empty_lit(c): r = e.list_of([])
        return [(st, e.alloc(st, r, ('snapshot',) if e.has_mutable(c) else ()))]
    if name == 'clear':
        e.write(st, o, e.list_of([]), structural=True)
        return [(st, NONE)]
    if name == 'index':
        out = []
        for s, x in e.split(st, args[0]):
            px = e.purify(s, x)
            s, w = first_index(e, s, c, px, node)
            if s is not None: out.append((s, Num(w)))
        return out
    if name == 'remove':
        out = []
        for s, x in e.split(st, args[0]):
            px = e.purify(s, x)
            s, w = first_index(e, s, c, px, node)
            if s is None: continue
            e.write(s, o, e.list_del(c, w), structural=True)
            out.append((s, NONE))
        return out
    if name == 'pop':
        i = args[0] if args else Num(-1)
        st, t = e.index(st, c.n, e.num(i).t, node, 'pop')
        if st is None: return []
        x, f = c.get(t); st.fact(*f)
        v = e.to_env(st, x)
        e.write(st, o, e.list_del(c, t), structural=True)
        return [(st, v)]
    if name == 'count':
        px = e.purify(st, args[0])
        if c.cnt is not None: return [(st, Num(c.cnt(px)))]
        n = const_int(c.n)
        if n is not None and n <= 8: return [(st, Num(z3.simplify(z3.Sum([z3.IntVal(0)] + [z3.If(e.veq0(c.get(i)[0], px), 1, 0) for i in range(n)]))))]
        k = e.fresh(st, 'c', I)
        x, f = c.get(k)
        S = e.mk_prefix(st, k, z3.If(e.veq0(x, px), z3.IntVal(1), z3.IntVal(0)), nonneg=True)
        return [(st, Num(S(c.n)))]
    if name == 'reverse':
        n = c.n
        e.write(st, o, ListC(n, lambda i: c.get(z3.simplify(n - 1 - i)), prov=('rev', c), cnt=c.cnt, etype=c.etype), structural=True)
        return [(st, NONE)]
    if name == 'sort':
        l0 = e.alloc(st, ListC(c.n, c.fn, prov=c.prov, cnt=c.cnt, etype=c.etype))
        st, l = do_sorted(e, st, l0, kw, node)
        e.write(st, o, l, structural=True)
        return [(st, NONE)]
    if name == 'insert':
        t = e.num(args[0]).t
        v = e.purify(st, args[1], True)
        if const_int(t) == 0:
            e.write(st, o, e.list_concat(e.list_of([v]), c), structural=True)
            return [(st, NONE)]
        raise Unsupported('list.insert')
    raise Unsupported('list.%s' % name)

def vec_method(e, st, o, c, name, args, kw, node):
    xs = c.xs
    if name in ('dot', 'cross'):
        out = []
        for s, a in e.split(st, args[0]):
            d = e.read(s, a)
            if not isinstance(d, VecC) or len(d.xs) != len(xs):
                if a is NONE and not e.allowed('TypeError', s, node): e.oblige(s, 'no-TypeError', z3.BoolVal(False), node, 'safety')
                elif a is not NONE: raise Unsupported('vector operand')
                continue
            if name == 'dot': out.append((s, Num(z3.Sum([x * y for x, y in zip(xs, d.xs)]))))
            elif len(xs) == 2: out.append((s, Num(xs[0] * d.xs[1] - xs[1] * d.xs[0])))
            elif len(xs) == 3:
                a_, b_ = xs, d.xs
                out.append((s, e.alloc(s, VecC([a_[1] * b_[2] - a_[2] * b_[1], a_[2] * b_[0] - a_[0] * b_[2], a_[0] * b_[1] - a_[1] * b_[0]]))))
        return out
    if name == 'normalized':
        return [(st, e.alloc(st, VecC(unit(e, st, xs))))]
    if name == 'normalize':
        us = VecC(unit(e, st, xs))
        return [(s, NONE) for s in e.vec_write(st, o, us, node)]
    if name in ('copy', 'to_tuple') and not args:
        if name == 'to_tuple': return [(st, TupleV([Num(x) for x in xs]))]
        return [(st, e.alloc(st, VecC(xs)))]
    if name == 'to_2d': return [(st, e.alloc(st, VecC(xs[:2])))]
    if name == 'to_3d': return [(st, e.alloc(st, VecC((list(xs) + [z3.RealVal(0)])[:3])))]
    if name == 'negate': return [(s, NONE) for s in e.vec_write(st, o, VecC([-x for x in xs]), node)]
    raise Unsupported('Vector.%s' % name)

def set_method(e, st, o, c, name, args, kw, node):
    if name == 'add':
        p = e.purify(st, args[0])
        conc = c.concrete + [p] if c.concrete is not None else None
        s = e.set_of(conc) if conc is not None else SetC(lambda x: z3.Or(c.has(x), e.veq0(p, x)), None, join(c.etype, type_of(p)))
        e.write(st, o, s)
        return [(st, NONE)]
    if name in ('discard', 'remove'):
        p = e.purify(st, args[0])
        if name == 'remove':
            st = e.safety(st, c.has(p), 'KeyError', node)
            if st is None: return []
        e.write(st, o, SetC(lambda x: z3.And(c.has(x), z3.Not(e.veq0(p, x))), None, c.etype))
        return [(st, NONE)]
    if name in ('update', 'union', 'difference', 'intersection', 'difference_update'):
        cur = c
        for a in args:
            d = e.read(st, a)
            if isinstance(d, TupleV): d = e.set_of([e.purify(st, x) for x in d.items])
            elif not isinstance(d, SetC): d = set_from_list(e, st, iter_to_list(e, st, a))
            et = join(cur.etype or TAny, d.etype or TAny)
            if name in ('update', 'union'): 
                conc = cur.concrete + d.concrete if cur.concrete is not None and d.concrete is not None else None
                cur = e.set_of(conc) if conc is not None else SetC(lambda x, a=cur, b=d: z3.Or(a.has(x), b.has(x)), None, et)
            elif name == 'intersection': cur = SetC(lambda x, a=cur, b=d: z3.And(a.has(x), b.has(x)), None, et)
            else: cur = SetC(lambda x, a=cur, b=d: z3.And(a.has(x), z3.Not(b.has(x))), None, et)
        if name.endswith('update'):
            e.write(st, o, cur)
            return [(st, NONE)]
        return [(st, e.alloc(st, cur))]
    if name == 'pop':
        if c.concrete is not None:
            vs = c.concrete
            if not vs:
                if not e.allowed('KeyError', st, node): e.oblige(st, 'no-KeyError(pop)', z3.BoolVal(False), node, 'safety')
                return []
            if len(vs) == 1:
                e.write(st, o, e.set_of([]))
                return [(st, e.to_env(st, vs[0]))]
            if len(vs) == 2:
                same = e.veq0(vs[0], vs[1])
                out = []
                for s, b in e.branch(st, same):
                    if b:
                        e.write(s, o, e.set_of([])); out.append((s, e.to_env(s, vs[0])))
                    else:
                        q = e.fresh(s, 'order', B)
                        e.write(s, o, e.set_of([e.vite(q, vs[1], vs[0])]))
                        out.append((s, e.to_env(s, e.vite(q, vs[0], vs[1]))))
                return out
        st2 = e.safety(st, e.set_nonempty(st, c), 'KeyError', node, 'pop')
        if st2 is None: return []
        st = st2
        w = e.fresh_val(st, c.etype, 'popped')
        st.fact(c.has(w))
        e.write(st, o, SetC(lambda x: z3.And(c.has(x), z3.Not(e.veq0(w, x))), None, c.etype))
        return [(st, e.to_env(st, w))]
    if name == 'copy': return [(st, e.alloc(st, SetC(c.has, c.concrete, c.etype)))]
    raise Unsupported('set.%s' % name)

def dict_method(e, st, o, c, name, args, kw, node):
    if name == 'get':
        k = e.purify(st, args[0])
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, b in e.branch(st, c.has(k)):
            if b:
                x, f = c.get(k); s.fact(*f)
                out.append((s, e.to_env(s, x, ('borrowed',))))
            else: out.append((s, d))
        return out
    if name == 'keys' and c.keys is not None: return [(st, e.alloc(st, c.keys))]
    if name == 'items' and c.keys is not None:
        l = c.keys
        def get(en, s, i):
            k, f = l.get(i); s.fact(*f)
            return TupleV([en.to_env(s, k, ('borrowed',)), en.getitem(s, o, k, node)[0][1]])
        return [(st, e.alloc(st, IterC(l.n, get)))]
    if name == 'values' and c.keys is not None:
        l = c.keys
        def get(en, s, i):
            k, f = l.get(i); s.fact(*f)
            return en.getitem(s, o, k, node)[0][1]
        return [(st, e.alloc(st, IterC(l.n, get)))]
    if name == 'setdefault':
        k = e.purify(st, args[0])
        out = []
        for s, b in e.branch(st, c.has(k)):
            if not b: e.write(s, o, e.dict_set(c, k, e.purify(s, args[1], True)))
            out += e.getitem(s, o, k, node)
        return out
    raise Unsupported('dict.%s' % name)

def str_method(e, st, o, c, name, args, kw, node):
    if name == 'join' and isinstance(c, StrV) and c.s == '':
        l = iter_to_list(e, st, args[0])
        t = type_of(l).a[0]
        if t not in (TChar, TAny): raise Unsupported('join of %s' % t)
        return [(st, SeqStr(l))]
    if name == 'format': return [(st, StrV('<text>'))]
    if name == 'join': return [(st, StrV('<text>'))]
    raise Unsupported('str.%s' % name)
