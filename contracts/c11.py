"""C11: the event queue."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

EV = TSym('Event')

class Heap:
    """The contract of heapq assumed of CPython: given that < on the elements is a strict weak order,
    push adds one element and pop removes the first one, both keep the heap order, and in a heap no element is less
    than the first one.  The units below prove that < compares distances, whatever the kinds of event."""
    def __init__(self, c): self.c = c
    def known(self, l): return l.prov is not None and l.prov[0] == 'heap' or const_int(l.n) is not None and const_int(l.n) <= 1
    def dist(self, e, st, t): return e.sym_get(st, SymV('Event', t), 'distance').t
    def need(self, e, st, l, node):
        """the list handed to heapq has the heap order"""
        if self.known(l): return
        i = z3.Int('i?%d' % uid())
        a, f = l.get((i - 1) / 2); b, g = l.get(i)
        if not isinstance(a, SymV) or not isinstance(b, SymV): raise Unsupported('heap of %r' % (a,))
        st2 = st.copy(); st2.fact(*f, *g)
        e.oblige(st2, 'the list is in heap order', z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < l.n), self.dist(e, st, a.t) <= self.dist(e, st, b.t))), node, 'pre')
    def fresh(self, e, st, et, n=None, cnt=None):
        n = n if n is not None else e.fresh(st, 'heap.len', I)
        el = e.fresh_fun(st, 'heap[]', I, I)
        if cnt is None:
            cf = e.fresh_fun(st, 'heap.cnt', I, I)
        else:
            cf = e.fresh_fun(st, 'heap.cnt', I, I)
            x = z3.Int('x?%d' % uid())
            st.fact(forall(x, cf(x) == cnt(SymV('Event', x)), cf(x)))
        pos = e.fresh_fun(st, 'heap.pos', I, I)
        x, i = z3.Int('x?%d' % uid()), z3.Int('i?%d' % uid())
        d = lambda t: self.dist(e, st, t)
        st.fact(n >= 0)
        st.fact(forall(x, cf(x) >= 0, cf(x)))
        st.fact(forall(i, z3.Implies(z3.And(0 <= i, i < n), z3.And(cf(el(i)) >= 1)), el(i)))
        st.fact(forall(x, z3.Implies(cf(x) >= 1, z3.And(n > 0, x > 0, d(x) >= d(el(z3.IntVal(0))), 0 <= pos(x), pos(x) < n, el(pos(x)) == x)), cf(x)))
        st.fact(z3.Implies(n > 0, cf(el(z3.IntVal(0))) >= 1))
        return ListC(n, lambda j: (SymV('Event', el(j)), [z3.Implies(z3.And(0 <= j, j < n), cf(el(j)) >= 1)]), prov=('heap',), cnt=lambda v: cf(v.t), etype=EV)
    def get(self, e, st, ref):
        l = e.read(st, ref)
        if not isinstance(l, ListC): raise Unsupported('heapq on %r' % l)
        if l.cnt is None: raise Unsupported('heapq on a list of unknown contents')
        return l
    def push(self, e, st, ref, item, node):
        l = self.get(e, st, ref)
        out = []
        for s, x in e.split(st, item):
            x = e.purify(s, x)
            if not isinstance(x, SymV): raise Unsupported('heappush of %r' % (x,))
            self.need(e, s, l, node)
            r = self.fresh(e, s, EV, l.n + 1, lambda v, x=x: l.cnt(v) + z3.If(v.t == x.t, 1, 0))
            e.oblige(s, 'None is not queued', x.t != 0, node, 'pre')
            s.fact(x.t > 0)
            e.write(s, ref, r, structural=True)
            out.append((s, NONE))
        return out
    def pop(self, e, st, ref, node):
        l = self.get(e, st, ref)
        self.need(e, st, l, node)
        st = e.safety(st, l.n > 0, 'IndexError', node, 'heappop from an empty queue')
        if st is None: return []
        x, f = l.get(z3.IntVal(0)); st.fact(*f)
        r = self.fresh(e, st, EV, l.n - 1, lambda v: l.cnt(v) - z3.If(v.t == x.t, 1, 0))
        e.write(st, ref, r, structural=True)
        return [(st, x)]
    def heapify(self, e, st, ref, node):
        l = self.get(e, st, ref)
        r = self.fresh(e, st, EV, l.n, l.cnt)
        e.write(st, ref, r, structural=True)
        return [(st, NONE)]

def setup(c):
    e = c.e
    e.symclasses = {'Event': {'distance': TReal}}
    e.multisets = True
    h = e.heap_contract = Heap(c)
    # a queue built by the code itself, then filled with any events
    q = c.new('_EventQueue', [])
    if len(q) != 1: raise Unsupported('several outcomes')
    c.st, q = q[0]
    o = c.st.heap[q.id]
    lists = [(k, v) for k, v in o.fields.items() if isinstance(v, LocV) and isinstance(c.st.heap[v.id], ListC)]
    if len(o.fields) != 1 or len(lists) != 1: raise Unsupported('the queue holds more than one list')
    data = lists[0][1]
    l = h.fresh(e, c.st, EV)
    c.st.heap[data.id] = l
    c.inv = lambda st: st.heap[data.id]
    return q, data, l

def D(c, st, t): return c.e.sym_get(st, SymV('Event', t), 'distance').t

def kept(c, st, data, name='the list is still a heap'):
    l = st.heap[data.id]
    if not isinstance(l, ListC) or l.cnt is None: c.ensure(st, name, z3.BoolVal(False)); return None
    if not c.e.heap_contract.known(l):
        n0 = len(c.e.obls)
        c.e.heap_contract.need(c.e, st, l, None)
    return l

@contract('C11', 'comparison of events', ['_SplitEvent.__lt__', '_EdgeEvent.__lt__', 'DormerEvent.__lt__'])
def lt(c):
    mk = {'_SplitEvent': lambda d: [d, NONE, NONE, NONE], '_EdgeEvent': lambda d: [d, NONE, NONE, NONE], 'DormerEvent': lambda d: [d, NONE, c.alloc(c.e.list_of([]))]}
    for a in mk:
        for b in mk:
            x, y = c.real('d' + a), c.real('e' + b)
            (st, u), = c.new(a, mk[a](x), st=c.st.copy())
            (st, v), = c.new(b, mk[b](y), st=st)
            for s, r in c.method(st.copy(), u, '__lt__', [v]):
                if not isinstance(r, BoolV): c.ensure(s, 'a truth value', z3.BoolVal(False)); continue
                c.ensure(s, '%s < %s compares the distances' % (a, b), r.t == (x.t < y.t))

@contract('C11', 'put', ['_EventQueue.put', '_EventQueue.__init__'])
def put(c):
    q, data, l = setup(c)
    x = z3.Int('x*')
    for none in (False, True):
        it = z3.Int('item')
        arg = NONE if none else SymV('Event', it)
        st = c.st.copy()
        if not none: st.fact(it > 0)
        for s, r in c.method(st, q, 'put', [arg]):
            k = kept(c, s, data)
            if k is None: continue
            c.ensure(s, 'None is not queued' if none else 'the event is queued once more, nothing else changes',
                     k.cnt(SymV('Event', x)) == l.cnt(SymV('Event', x)) + (0 if none else z3.If(x == it, 1, 0)))

@contract('C11', 'put_all', ['_EventQueue.put_all'])
def put_all(c):
    e = c.e
    q, data, l = setup(c)
    items, ref = c.list(EV, 'items')
    at = lambda j: items.get(j)[0].t
    j, x = z3.Int('j'), z3.Int('x')
    c.assume(forall(j, z3.Implies(z3.And(0 <= j, j < items.n), at(j) > 0), at(j)))
    # occurrences among the first j items
    occ = z3.Function('occ', I, I, I)
    c.assume(forall(x, occ(x, 0) == 0, occ(x, 0)))
    c.assume(forall([x, j], z3.Implies(z3.And(0 <= j, j < items.n), occ(x, j + 1) == occ(x, j) + z3.If(at(j) == x, 1, 0)), occ(x, j + 1)))
    items.cnt = lambda v: occ(v.t, items.n)
    def hint(info):
        cell = ('loc', data.id)
        if cell not in info.inits: return []
        init = info.inits[cell]
        def inv(v, k):
            m = v(cell)
            return forall(x, m.cnt(SymV('Event', x)) == init.cnt(SymV('Event', x)) + occ(x, k), m.cnt(SymV('Event', x)))
        return [('the first items are queued', inv)]
    e.hints.append(hint)
    y = z3.Int('x*')
    for s, r in c.method(c.st.copy(), q, 'put_all', [ref]):
        k = kept(c, s, data)
        if k is None: continue
        c.ensure(s, 'every event is queued as often as given, nothing else changes', k.cnt(SymV('Event', y)) == l.cnt(SymV('Event', y)) + occ(y, items.n))

@contract('C11', 'get', ['_EventQueue.get'])
def get(c):
    q, data, l = setup(c)
    c.assume(l.n > 0)
    x = z3.Int('x*')
    for s, r in c.method(c.st.copy(), q, 'get', []):
        k = kept(c, s, data)
        if k is None: continue
        if not isinstance(r, SymV): c.ensure(s, 'an event', z3.BoolVal(False)); continue
        c.ensure(s, 'an event of the queue', l.cnt(r) >= 1)
        c.ensure(s, 'no event is nearer', z3.Implies(l.cnt(SymV('Event', x)) >= 1, D(c, s, r.t) <= D(c, s, x)))
        c.ensure(s, 'it is taken out once, nothing else changes', k.cnt(SymV('Event', x)) == l.cnt(SymV('Event', x)) - z3.If(x == r.t, 1, 0))

@contract('C11', 'getAllEqualDistance', ['_EventQueue.getAllEqualDistance'])
def batch(c):
    e = c.e
    q, data, l = setup(c)
    c.assume(l.n > 0)
    x, i, j = z3.Int('x'), z3.Int('i'), z3.Int('j')
    first = l.get(z3.IntVal(0))[0].t
    EVS = lambda t: SymV('Event', t)
    def hint(info):
        # the list that collects the batch
        cells = [cc for cc in info.inits if isinstance(info.inits[cc], ListC) and cc != ('loc', data.id)]
        if ('loc', data.id) not in info.inits or len(cells) != 1: return []
        out = cells[0]
        st = info.st
        d = lambda t: D(c, st, t)
        rest = lambda v: v(('loc', data.id))
        b = lambda v: v(out)
        at = lambda v, m: b(v).get(m)[0].t
        last = lambda v: at(v, z3.simplify(b(v).n - 1))
        return [
            ('a batch', lambda v, k: z3.And(b(v).n >= 1, at(v, z3.IntVal(0)) == first)),
            ('every event is in the batch or in the queue', lambda v, k: forall(x, b(v).cnt(EVS(x)) + rest(v).cnt(EVS(x)) == l.cnt(EVS(x)), b(v).cnt(EVS(x)), rest(v).cnt(EVS(x)))),
            ('in order', lambda v, k: forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < b(v).n), d(at(v, i)) <= d(at(v, j))), (at(v, i), at(v, j)))),
            ('the batch is nearer than the queue', lambda v, k: forall(x, z3.Implies(rest(v).cnt(EVS(x)) >= 1, d(last(v)) <= d(x)), rest(v).cnt(EVS(x)))),
            ('close to the first', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < b(v).n), d(at(v, i)) < d(first) + z3.Q(1, 1000)), at(v, i))),
            ('from the queue', lambda v, k: forall(i, z3.Implies(z3.And(0 <= i, i < b(v).n), z3.And(at(v, i) > 0, l.cnt(EVS(at(v, i))) >= 1)), at(v, i))),
        ]
    e.hints.append(hint)
    y, a, b_ = z3.Int('x*'), z3.Int('a*'), z3.Int('b*')
    for s, r in c.method(c.st.copy(), q, 'getAllEqualDistance', []):
        k = kept(c, s, data)
        if k is None: continue
        L = c.pure(s, r)
        if not isinstance(L, ListC) or L.cnt is None: c.ensure(s, 'a list', z3.BoolVal(False)); continue
        c.ensure(s, 'not empty', L.n >= 1)
        x0, f0 = L.get(z3.IntVal(0))
        s0 = s.copy(); s0.fact(*f0)
        c.ensure(s0, 'starts with a nearest event', z3.Implies(l.cnt(EVS(y)) >= 1, D(c, s, x0.t) <= D(c, s, y)))
        s2 = s0.copy(); s2.fact(0 <= a, a < b_, b_ < L.n)
        (xa, fa), (xb, fb) = L.get(a), L.get(b_); s2.fact(*fa, *fb)
        c.ensure(s2, 'in order of distance', D(c, s, xa.t) <= D(c, s, xb.t))
        c.ensure(s2, 'less than 0.001 farther', D(c, s, xb.t) - D(c, s, x0.t) < z3.Q(1, 1000))
        c.ensure(s2, 'from the queue', l.cnt(EVS(xb.t)) >= 1)
        c.ensure(s0, 'all others are at least 0.001 farther', z3.Implies(k.cnt(EVS(y)) >= 1, D(c, s, y) - D(c, s, x0.t) >= z3.Q(1, 1000)))
        c.ensure(s0, 'every event is handed out or stays, once', L.cnt(EVS(y)) + k.cnt(EVS(y)) == l.cnt(EVS(y)))

@contract('C11', 'empty and peek', ['_EventQueue.empty', '_EventQueue.peek'])
def empty(c):
    q, data, l = setup(c)
    for s, r in c.method(c.st.copy(), q, 'empty', []):
        c.ensure(s, 'empty exactly if there is no event', (r.t if isinstance(r, BoolV) else z3.BoolVal(False)) == (l.n == 0))
        c.ensure(s, 'unchanged', z3.BoolVal(s.heap[data.id] is c.st.heap[data.id]))
    c.assume(l.n > 0)
    x = z3.Int('x*')
    for s, r in c.method(c.st.copy(), q, 'peek', []):
        c.ensure(s, 'a nearest event', z3.Implies(l.cnt(SymV('Event', x)) >= 1, D(c, s, r.t) <= D(c, s, x)) if isinstance(r, SymV) else z3.BoolVal(False))
        c.ensure(s, 'unchanged', z3.BoolVal(s.heap[data.id] is c.st.heap[data.id]))
