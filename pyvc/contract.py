"""Contract units: a unit sets up the precondition of a function of /repo symbolically, runs the
function's current text through the executor and states the postcondition as obligations."""
import sys, time, traceback
import z3
from .values import *
from .engine import State, conj, disj, neg, Obligation, Budget, NoMerge
from .interp import Interp
from . import loops, solve

class Unit:
    def __init__(self, pid, name, fn, targets, timeout, budget):
        self.pid, self.name, self.fn, self.targets, self.timeout, self.budget = pid, name, fn, targets, timeout, budget

REGISTRY = []

def contract(pid, name, targets, timeout=150, budget=30):
    def deco(f):
        REGISTRY.append(Unit(pid, name, f, targets, timeout, budget))
        return f
    return deco

class Ctx:
    def __init__(self, repo, unit=None):
        loops._prefix_cache.clear()
        self.e = Interp(repo)
        self.st = State()
        self.st.frame = ('bpypolyskel', None, '<contract>')
        self.unit = unit
        self.e.curfn = unit.targets[0] if unit else ''

    # ---- symbolic inputs
    def real(self, name): return Num(z3.Real(name))
    def int(self, name): return Num(z3.Int(name))
    def vec(self, name, n=2):
        v = VecC([z3.Real('%s.%s' % (name, 'xyz'[i])) for i in range(n)])
        return self.e.alloc(self.st, v, ('frozen',))
    def vecc(self, name, n=2): return VecC([z3.Real('%s.%s' % (name, 'xyz'[i])) for i in range(n)])
    def alloc(self, v, flags=()): return self.e.alloc(self.st, v, flags)
    def assume(self, *cs):
        for c in cs: self.st.fact(c)
    def list(self, t, name, flags=()):
        l = self.e.fresh_val(self.st, TList(t), name)
        self.st.fact(l.n >= 0)
        return l, self.e.alloc(self.st, l, flags)

    # ---- calls
    def _done(self, outs, node=None):
        res = []
        for s, v in outs:
            if isinstance(v, RaiseV):
                if not self.e.allowed(v.exc, s, v.node):
                    self.e.oblige(s, 'no uncaught %s' % v.exc, z3.BoolVal(False), v.node, 'safety')
                else: self.e.assumed.add('%s ends the path (partial correctness)' % v.exc)
                continue
            for s2, x in self.e.split(s, v): res.append((s2, x))
        return res
    def call(self, mod, fn, args, kw={}, st=None, node=None):
        st = st or self.st
        f = self.e.lookup_global(mod, fn)
        if f is None: raise Unsupported('function %s is gone' % fn)
        if isinstance(f, tuple): raise Unsupported('%s is not a function' % fn)
        return self._done(self.e.call(st, f, list(args), dict(kw), NODE))
    def new(self, cls, args, kw={}, st=None):
        return self.call('bpypolyskel', cls, args, kw, st)
    def method(self, st, obj, name, args=(), kw={}):
        out = []
        for s, f in self.e.getattr(st, obj, name, NODE):
            if isinstance(f, RaiseV): out.append((s, f)); continue
            out += self.e.call(s, f, list(args), dict(kw), NODE)
        return self._done(out)
    def attr(self, st, obj, name):
        r = self._done(self.e.getattr(st, obj, name, NODE))
        return r
    def attr1(self, st, obj, name):
        r = self.e.getattr(st, obj, name, NODE)
        if len(r) != 1: raise Unsupported('attribute %s' % name)
        return r[0][1]
    def ensure(self, st, name, goal, inst=None):
        """inst: terms at which universally quantified hypotheses are of use (a hint, not an assumption)"""
        n = len(self.e.obls)
        self.e.oblige(st, name, goal, None, 'post')
        if inst and len(self.e.obls) > n: self.e.obls[-1].hints['inst'] = list(inst)
    def pure(self, st, v): return self.e.purify(st, v)

def forall(vs, body, *pats):
    """ForAll with patterns where they are admissible"""
    vs = list(vs) if isinstance(vs, (list, tuple)) else [vs]
    ok = []
    for p in pats:
        ps = p if isinstance(p, (list, tuple)) else [p]
        free = set().union(*[solve.symbols(x) for x in ps])
        if not all(v.decl().name() in free for v in vs): continue
        if all(pattern_ok(x) for x in ps): ok.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
    try: return z3.ForAll(vs, body, patterns=ok)
    except z3.Z3Exception: return z3.ForAll(vs, body)

BAD = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES}
def pattern_ok(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if not z3.is_app(x) or x.decl().kind() in BAD: return False
        stack += x.children()
    return True

class _N:
    lineno = 0
NODE = _N()

def run_unit(unit, repo, budget=None, workers=4, keep=False):
    """-> result dictionary"""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    budget = budget or unit.budget
    r = dict(unit=unit.name, targets=unit.targets, obligations=[], status='ok', detail='', notes=[])
    c = Ctx(repo, unit)
    c.e.deadline = t0 + unit.timeout
    try:
        unit.fn(c)
    except Unsupported as ex:
        r['status'], r['detail'] = 'outside', 'outside the verified subset: %s' % ex
        r['trace'] = traceback.format_exc()[-1500:]
    except loops.DeadRead as ex:
        r['status'], r['detail'] = 'outside', 'outside the verified subset: value of %s' % ex.name
    except NoMerge as ex:
        r['status'], r['detail'] = 'outside', 'outside the verified subset: states do not merge'
        r['trace'] = traceback.format_exc()[-1500:]
    except Budget:
        r['status'], r['detail'] = 'outside', 'time budget of VC generation exhausted'
    except RecursionError:
        r['status'], r['detail'] = 'outside', 'recursion limit'
    except Exception as ex:
        r['status'], r['detail'] = 'outside', 'internal error of the VC generator: %r' % ex
        r['trace'] = traceback.format_exc()[-3000:]
    r['gen_s'] = time.time() - t0
    obls = c.e.obls
    r['inlined'] = sorted(c.e.inlined)
    r['assumed'] = sorted(c.e.assumed)
    r['trusted'] = sorted(getattr(c.e, 'trusted_used', ()))
    r['loops'] = c.e.loop_log
    if r['status'] == 'ok' and not obls:
        r['status'], r['detail'] = 'outside', 'no obligations generated'
    # vacuity: the hypotheses of every postcondition must be satisfiable (as far as the solver can tell)
    if obls:
        # identical obligations are discharged once
        seen, uniq = {}, []
        for o in obls:
            key = (o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
            if key in seen: continue
            seen[key] = o; uniq.append(o)
        obls = uniq
        solve.discharge(obls, budget, workers, total=max(60, unit.timeout * 3))
    for o in obls:
        r['obligations'].append(dict(name=o.name, kind=o.kind, where=o.where, status=o.status, backend=o.backend, time=round(o.time, 3),
                                     model=o.model, why=o.hints.get('why')))
    if r['status'] == 'ok':
        posts = [o for o in obls if o.kind == 'post']
        r['vacuous'] = False
        if posts:
            cov = set()
            step = max(1, len(posts) // 40)
            for o in posts[:20] + posts[20::step]:
                x = solve.cover(o, 1500)
                cov.add(x)
                if x != 'unsat': break
            if cov == {'unsat'}: r['vacuous'] = True; r['status'] = 'outside'; r['detail'] = 'vacuous: every path contradictory'
        else:
            r['vacuous'] = True
    r['wall_s'] = time.time() - t0
    if keep: r['_ctx'] = c; r['_obls'] = obls
    return r

def slim(st, *words):
    """forget hypotheses that talk about symbols with these words in their names (sound: fewer hypotheses)"""
    ok = lambda h: not any(w in n for n in map(str, solve.symbols(h)) for w in words)
    st.facts[:] = [h for h in st.facts if ok(h)]
    st.pc[:] = [h for h in st.pc if ok(h)]

# ---- sums ---------------------------------------------------------------------------
def sum_equal(c, st, got, n, dspec, name):
    """obligation: the number `got` is the sum of dspec(j) for j in [0, n).
    Rule (equal terms have equal sums, by induction on n): got must be built by the code as a
    prefix sum; its terms are compared one by one."""
    e = c.e
    t = z3.simplify(got)
    for key, (f, dc, ctx) in list(loops._prefix_cache.items()):
        if key[0] in ('src', 'blk') or ctx: continue
        S = f(n)
        a, b = unify(t, S)
        if z3.is_true(z3.simplify(a == b)):
            j = z3.Int('j?%d' % uid())
            dj = z3.substitute(dc, (z3.Const('K!canon', I), j))
            d2, facts = dspec(j)
            x, y = unify(dj, d2)
            c.ensure(st, name, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, *facts), x == y)))
            return
    cn = const_int(n)
    if cn == 0:
        c.ensure(st, name, t == 0); return
    # no closed form recognised: the solver has to find it from the definition of the sum
    k = z3.Int('sumk')
    d, facts = dspec(k)
    s2 = st.copy()
    S = e.mk_prefix(s2, k, d)
    c.ensure(s2, name, got == S(n))

def linked_sum(c, st, n, dspec, nonneg=False):
    """the sum of dspec(j), j < n, as a term; sums built by the code with the same terms are equal to it
    (equal terms have equal sums, by induction on n; the terms are compared by the solver)"""
    e = c.e
    k = z3.Int('sumk?%d' % uid())
    d, facts = dspec(k)
    s0 = st.copy(); s0.ctx = []
    f = e.mk_prefix(s0, k, d)
    for h in s0.facts[len(st.facts):]: st.fact(h)
    sy = solve.symbols(d)
    for key, (g, dc, ctx) in list(loops._prefix_cache.items()):
        if key[0] in ('src', 'blk') or ctx or not (sy & solve.symbols(dc)) or g(z3.IntVal(0)).eq(f(z3.IntVal(0))) or dc.sort() != d.sort(): continue
        j = z3.Int('j?%d' % uid())
        s1 = st.copy()
        s1.fact(0 <= j, j < n)
        d1, fs = dspec(j)
        s1.fact(*fs)
        if e.entails(s1, z3.substitute(dc, (z3.Const('K!canon', I), j)) == d1, 1500):
            i = z3.Int('i?%d' % uid())
            st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), g(i) == f(i)), patterns=[g(i)]))
            st.fact(g(n) == f(n))
    if nonneg:
        # sums of non-negative terms grow (by induction on the upper end); the sign of a term is an obligation
        j, i = z3.Int('j?%d' % uid()), z3.Int('i?%d' % uid())
        s1 = st.copy()
        s1.fact(0 <= j, j < n)
        d1, fs = dspec(j)
        s1.fact(*fs)
        c.ensure(s1, 'lemma: terms of the sum are not negative', d1 >= 0)
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), f(i) >= 0), patterns=[f(i)]))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j <= n), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    return f

def instantiate(st, terms, keep=lambda h: False):
    """the state with its universally quantified hypotheses taken at the given index terms only
    (sound: instances of hypotheses)"""
    s = st.copy()
    def go(hs):
        out = []
        for h in hs:
            if solve.qfree(h) or keep(h): out.append(h); continue
            if not (z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1): continue
            if h.var_sort(0) != I: continue
            for t in terms:
                x = z3.simplify(z3.substitute_vars(h.body(), t))
                if not z3.is_true(x): out.append(x)
        seen, res = set(), []
        for h in out:
            if h.get_id() not in seen: seen.add(h.get_id()); res.append(h)
        return res
    s.facts, s.pc = go(s.facts), go(s.pc)
    return s
