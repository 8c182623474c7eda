"""Discharging proof obligations: z3 (with and without the nonlinear solver), cvc5 as a second
back end, in forked workers."""
import os, sys, time, pickle, select, signal, struct
import z3
from .values import Sqrt, PMod, I, R, symbols

def qfree(t):
    from .engine import qfree as q
    return q(t)

# ---- axiomatised functions ---------------------------------------------------

_app_memo = {}

def _interesting():
    from .builtins import UNIT
    return {Sqrt.name(), PMod.name()} | {f.name() for fs in UNIT.values() for f in fs}

def _apps(ts, decl):
    """applications of an axiomatised function in the terms"""
    nm = decl.name()
    names = _interesting()
    if nm not in names: return _apps0(ts, decl)
    out = {}
    for t in ts:
        i = t.get_id()
        m = _app_memo.get(i)
        if m is None:
            m = (t, {})
            stack, seen = [t], set()
            while stack:
                x = stack.pop()
                j = x.get_id()
                if j in seen: continue
                seen.add(j)
                if z3.is_quantifier(x): stack.append(x.body()); continue
                if not z3.is_app(x): continue
                n = x.num_args()
                if n:
                    k = x.decl()
                    if k.kind() == z3.Z3_OP_UNINTERPRETED and k.name() in names: m[1].setdefault(k.name(), []).append(x)
                    for q in range(n): stack.append(x.arg(q))
            if len(_app_memo) > 60000: _app_memo.clear()
            _app_memo[i] = m
        for x in m[1].get(nm, ()): out[x.get_id()] = x
    return list(out.values())

def _apps0(ts, decl):
    out, seen, stack = {}, set(), list(ts)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body()); continue
        if z3.is_var(x): continue
        if z3.is_app(x):
            stack.extend(x.children())
            if x.decl().eq(decl): out[i] = x
    return list(out.values())

_hv_memo = {}
def _has_var(t):
    m = _hv_memo.get(t.get_id())
    if m is None:
        if len(_hv_memo) > 60000: _hv_memo.clear()
        m = _hv_memo[t.get_id()] = (t, _has_var0(t))
    return m[1]

def _has_var0(t):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return True
        if z3.is_quantifier(x): return True
        stack.extend(x.children())
    return False

def unit_axioms(ts):
    """the normalised vector at the ground terms it is applied to"""
    from .builtins import UNIT
    ax = []
    for d, fs in UNIT.items():
        args = {}
        for f in fs:
            for x in _apps(ts, f):
                if not _has_var(x): args[tuple(c.get_id() for c in x.children())] = x.children()
        for xs in args.values():
            us = [f(*xs) for f in fs]
            l = Sqrt(z3.simplify(z3.Sum([x * x for x in xs])))
            zero = z3.And(*[x == 0 for x in xs])
            ax += [z3.Implies(zero, z3.And(*[u == 0 for u in us])),
                   z3.Implies(z3.Not(zero), z3.And(z3.Sum([u * u for u in us]) == 1, l > 0, l * l == z3.Sum([x * x for x in xs]), *[u * l == x for u, x in zip(us, xs)]))]
    return ax

def axioms(ts):
    ax = unit_axioms(ts)
    bound_sqrt = bound_mod = False
    for s in _apps(ts, Sqrt):
        if _has_var(s): bound_sqrt = True; continue
        a = s.arg(0)
        ax += [s >= 0, z3.Implies(a >= 0, s * s == a), z3.Implies(a <= 0, z3.Implies(a == 0, s == 0))]
    sq = _apps(ts, Sqrt)
    if bound_sqrt:
        x = z3.Real('sq!x')
        ax.append(z3.ForAll([x], z3.And(Sqrt(x) >= 0, z3.Implies(x >= 0, Sqrt(x) * Sqrt(x) == x)), patterns=[Sqrt(x)]))
    ms = _apps(ts, PMod)
    for m in ms:
        if _has_var(m): bound_mod = True; continue
        from .interp import mod_facts
        ax += mod_facts(m.arg(0), m.arg(1))
    if bound_mod:
        x, y = z3.Ints('pm!x pm!y')
        from .interp import mod_facts
        ax.append(z3.ForAll([x, y], z3.And(*mod_facts(x, y)), patterns=[PMod(x, y)]))
    return ax

# ---- relevance -------------------------------------------------------------------

def relevant(hyps, goal, rounds=3):
    """hypotheses connected to the goal through shared symbols (growing)"""
    syms = [(h, symbols(h)) for h in hyps]
    cur = set(symbols(goal))
    keep = [False] * len(hyps)
    for _ in range(rounds):
        add = set()
        for i, (h, s) in enumerate(syms):
            if keep[i]: continue
            if not s or (s & cur):
                keep[i] = True; add |= s
        if not add - cur: break
        cur |= add
    return [h for i, h in enumerate(hyps) if keep[i]]

COUNTING = ('cnt!', 'fcnt!', 'pos!', 'fpos!', 'epos!', 'mem.', 'mem!', 'card!')
_step_memo = {}
def steps(h):
    """a quantified fact about a sum or count that unfolds it by one"""
    m = _step_memo.get(h.get_id())
    if m is not None: return m[1]
    r = False
    stack, seen = [h], set()
    while stack and not r:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.num_args() and x.decl().name().startswith('psum!'):
            a = x.arg(x.num_args() - 1)
            if z3.is_add(a) and any(z3.is_var(y) for y in a.children()): r = True
        stack.extend(x.children())
    if len(_step_memo) > 60000: _step_memo.clear()
    _step_memo[h.get_id()] = (h, r)
    return r

def lean(hyps, goal):
    """-> [hypotheses without the quantified facts about multiplicities that the goal does not
    mention and without unfoldings of sums]"""
    g = symbols(goal)
    a = [h for h in hyps if qfree(h) or not any(x.startswith(COUNTING) and x not in g for x in symbols(h))]
    b = [h for h in a if qfree(h) or not steps(h)]
    c = [h for h in hyps if qfree(h) or not steps(h)]
    out = []
    for l in (c, b, a):
        if len(l) < len(hyps) and not any(len(l) == len(q) for q in out): out.append(l)
    return out

def subset_syms(hyps, goal):
    """hypotheses that only talk about symbols of the goal (closed under one expansion)"""
    g = symbols(goal)
    return [h for h in hyps if symbols(h) <= g]

# ---- z3 ----------------------------------------------------------------------------

def dedup(hyps):
    out, seen = [], set()
    for h in hyps:
        i = h.get_id()
        if i in seen: continue
        seen.add(i); out.append(h)
    return out

def flatten(ts):
    out = []
    for t in ts:
        if z3.is_and(t): out += flatten(t.children())
        elif z3.is_true(t): pass
        else: out.append(t)
    return out

def skolem_goal(goal):
    """strip universal quantifiers / implications / conjunctions: list of (extra hyps, goal)"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.FreshConst(goal.var_sort(i), 'sk') for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        return skolem_goal(body)
    if z3.is_implies(goal):
        return [([goal.arg(0)] + h, g) for h, g in skolem_goal(goal.arg(1))]
    if z3.is_and(goal):
        r = []
        done = []
        for c in goal.children():
            r += [(list(done) + h, g) for h, g in skolem_goal(c)]
        return r
    return [([], goal)]

def z3_check(hyps, goal, timeout, nl=False, seed=0, mbqi=True):
    ts = dedup(hyps) + [goal]
    ax = axioms(ts)
    if nl:
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'smt').solver() if False else z3.Solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout))
    if seed: s.set('random_seed', seed)
    if not mbqi: s.set('smt.mbqi', False)
    for h in dedup(hyps): s.add(h)
    for a in ax: s.add(a)
    s.add(z3.Not(goal))
    return s.check(), s

_ack_n = [0]
def ackermann(ts):
    """replace Sqrt applications and other uninterpreted applications of real/int sort by
    constants (sound for proving: forgets congruence)"""
    cache, subst = {}, []
    seen, order = set(), []
    def walk(x):
        stack = [(x, False)]
        while stack:
            y, d = stack.pop()
            if d: order.append(y); continue
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            stack.append((y, True))
            for c in y.children(): stack.append((c, False))
    for t in ts: walk(t)
    # outermost applications only: they are replaced as a whole
    pairs = []
    for y in order:
        if z3.is_app(y) and y.num_args() > 0 and (y.decl().kind() == z3.Z3_OP_UNINTERPRETED or y.decl().kind() == z3.Z3_OP_SELECT):
            _ack_n[0] += 1
            pairs.append((y, z3.FreshConst(y.sort(), 'ack')))
    pairs.reverse()   # larger terms last in `order` -> replace them first
    out = []
    for t in ts:
        out.append(z3.substitute(t, *pairs) if pairs else t)
    return out

def nl_check(hyps, goal, timeout):
    """pure nonlinear arithmetic over the quantifier-free hypotheses"""
    hs = [h for h in flatten(dedup(hyps)) if qfree(h)]
    ts = hs + [goal]
    ts = ts + axioms(ts)
    ts = ackermann(ts)
    hs2, g2 = ts[:len(hs)] + ts[len(hs) + 1:], ts[len(hs)]
    for tac in ('qfnra-nlsat', None):
        try:
            if tac:
                s = z3.Then('simplify', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'tseitin-cnf', tac).solver() if False else z3.Tactic('qfnra').solver()
            else: s = z3.Solver()
            s.set('timeout', int(timeout))
            for h in hs2: s.add(h)
            s.add(z3.Not(g2))
            r = s.check()
            if r == z3.unsat: return True
        except z3.Z3Exception:
            pass
    return False

SCALE = float(os.environ.get('PYVC_SCALE', '1'))

def quick_prove(hyps, goal, timeout=2000):
    for extra, g in skolem_goal(goal):
        if z3.is_true(z3.simplify(g)): continue
        hs = list(hyps) + extra
        if any(h.eq(g) for h in hs): continue
        r = None
        q = [h for h in hs if qfree(h)]
        if qfree(g):
            r, _ = z3_check(q, g, min(timeout, 700) * SCALE)
            if r == z3.unsat: continue
            if r == z3.sat and len(q) == len(hs): return False
        if len(q) < len(hs) or r != z3.sat:
            r, _ = z3_check(relevant(hs, g, 4), g, timeout * SCALE, mbqi=False)
            if r == z3.unsat: continue
        return False
    return True

def split_goal(extra, g, depth, ground=None):
    """conditionals in the goal and the hypotheses that came with it are split"""
    g = z3.simplify(g)
    if z3.is_true(g): return []
    if ground is not None and extra:
        z = z3.Solver(); z.set('timeout', 300); z.add(*ground); z.add(*[x for x in extra if qfree(x)])
        if z.check() == z3.unsat: return []
    ex = z3.And(*extra) if extra else z3.BoolVal(True)
    cs = [c for c in ite_conds(z3.And(ex, g)) if not has_ite(c)]
    if not cs or depth == 0: return [(extra, g)]
    out = []
    for val, x in ((True, cs[0]), (False, z3.Not(cs[0]))):
        sub = lambda t: z3.simplify(z3.substitute(t, (cs[0], z3.BoolVal(val))))
        out += split_goal([x] + [sub(t) for t in extra], sub(g), depth - 1, ground)
    return out

def hint_prove(hyps, few, goal, timeout):
    """a step of a suggested invariant: conditionals in the goal are split first; `few` are the
    hypotheses it usually follows from"""
    for extra, g in skolem_goal(goal):
        for ex, g2 in split_goal(extra, g, 2):
            if any(z3.is_false(x) for x in ex): continue
            for hs, t in [(l, 1500) for l in lean(list(few) + ex, g2)[::-1]] + [(list(few) + ex, 1500), (list(hyps) + ex, timeout)]:
                if quick_prove(hs, g2, t): break
            else:
                if cvc5_prove(dedup(list(few) + ex), g2, timeout) != 'unsat': return False
    return True

# ---- cvc5 -----------------------------------------------------------------------------

def cvc5_prove(hyps, goal, timeout):
    """second back end, as a subprocess on SMT-LIB text"""
    import subprocess, tempfile, shutil
    exe = shutil.which('cvc5')
    if not exe: return None
    s = z3.Solver()
    hs = dedup(hyps)
    for h in hs: s.add(h)
    for a in axioms(hs + [goal]): s.add(a)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run([exe, '--tlimit=%d' % timeout, '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
    except Exception:
        return None
    out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    return out if out in ('sat', 'unsat') else None

# ---- one obligation -------------------------------------------------------------------

def model_values(s):
    try: m = s.model()
    except z3.Z3Exception: return None
    vals = {}
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v): vals[d.name()] = v.as_long()
            elif z3.is_rational_value(v): vals[d.name()] = float(v.as_fraction())
            elif z3.is_algebraic_value(v): vals[d.name()] = float(v.approx(12).as_fraction())
            elif z3.is_true(v): vals[d.name()] = True
            elif z3.is_false(v): vals[d.name()] = False
    return vals

def ground_subterms(ts):
    seen, out, stack = set(), [], list(ts)
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args(): out.append(x)
            stack += x.children()
    return out

def pmatch(p, t, b):
    """pattern with de Bruijn variables against a ground term"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in b: return b[i].eq(t)
        if p.sort() != t.sort(): return False
        b[i] = t; return True
    if not z3.is_app(t) or not p.decl().eq(t.decl()) or p.num_args() != t.num_args(): return p.eq(t)
    return all(pmatch(x, y, b) for x, y in zip(p.children(), t.children()))

def instances(hyps, ts, rounds=2, limit=300):
    """ground instances of the quantified hypotheses by their patterns"""
    out, seen = [], set()
    ts = list(ts)
    for _ in range(rounds):
        g = ground_subterms(ts)
        new = []
        for h in hyps:
            if not (z3.is_quantifier(h) and h.is_forall()): continue
            n = h.num_vars()
            for k in range(h.num_patterns()):
                mp = h.pattern(k).children()
                bs = [{}]
                for p in mp:
                    nb = []
                    for b in bs:
                        for t in g:
                            b2 = dict(b)
                            if pmatch(p, t, b2): nb.append(b2)
                        if len(nb) > 60: break
                    bs = nb
                for b in bs[:60]:
                    if len(b) < n: continue
                    x = z3.substitute_vars(h.body(), *[b[i] for i in range(n)])
                    if x.get_id() in seen or not qfree(x): continue
                    seen.add(x.get_id()); new.append(x); out.append(x)
                    if len(out) >= limit: return out
        if not new: break
        ts = new
    return out

def witness(hyps, terms, limit=4000):
    """instances of universally quantified hypotheses (also nested ones) at terms a contract names; instantiating is
    sound whatever the terms are"""
    out = []
    def pos(h, depth):          # quantifier-free or smaller consequences of h
        if len(out) > limit or depth > 4: return []
        if z3.is_quantifier(h):
            if not h.is_forall(): return [h]
            n = h.num_vars()
            if n > 2: return []
            r = []
            import itertools
            for ts in itertools.product(terms, repeat=n):
                if any(t.sort() != h.var_sort(i) for i, t in enumerate(ts)): continue
                r += pos(z3.simplify(z3.substitute_vars(h.body(), *reversed(ts))) if False else z3.substitute_vars(h.body(), *reversed(ts)), depth + 1)
            return r
        if z3.is_and(h): return [x for c in h.children() for x in pos(c, depth)]
        if z3.is_implies(h): return [z3.Implies(h.arg(0), x) for x in pos(h.arg(1), depth)]
        if z3.is_not(h) or z3.is_or(h):
            if qfree(h): return [h]
            if z3.is_or(h):
                ds = h.children()
                for i, d in enumerate(ds):
                    if not qfree(d):
                        return [z3.Or(*ds[:i], x, *ds[i + 1:]) for x in pos(d, depth)]
            a = h.arg(0)
            if z3.is_quantifier(a) and a.is_exists():
                n = a.num_vars()
                if n > 2: return [h]
                import itertools
                r = []
                for ts in itertools.product(terms, repeat=n):
                    if any(t.sort() != a.var_sort(i) for i, t in enumerate(ts)): continue
                    r += pos(z3.Not(z3.substitute_vars(a.body(), *reversed(ts))), depth + 1)
                return r
            if z3.is_and(a): return pos(z3.Or(*[z3.Not(c) for c in a.children()]), depth)
            if z3.is_or(a): return [x for c in a.children() for x in pos(z3.Not(c), depth)]
            if z3.is_not(a): return pos(a.arg(0), depth)
            if z3.is_implies(a): return pos(a.arg(0), depth) + pos(z3.Not(a.arg(1)), depth)
            return [h]
        return [h]
    for h in hyps:
        if qfree(h): continue
        for x in pos(h, 0):
            if qfree(x): out.append(x)
    return dedup(out)

def ite_conds(g):
    conds, seen, stack = {}, set(), [g]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and qfree(x.arg(0)): conds.setdefault(x.arg(0).get_id(), x.arg(0))
        stack += x.children()
    return list(conds.values())

def resolve_ites(hyps, g, limit=12, ms=400):
    """decide conditions of conditionals in g (sound: each replaced only when entailed)"""
    q0 = [h for h in hyps if qfree(h)]
    for _ in range(limit):
        q = flatten(q0 + instances(hyps, [g]))
        subs = []
        conds = ite_conds(g)
        s = z3.Solver(); s.set('timeout', ms); s.add(*q)
        for c in reversed(conds):
            for val, neg_ in ((True, z3.Not(c)), (False, c)):
                s.push(); s.add(neg_)
                r = s.check()
                s.pop()
                if r == z3.unsat: subs.append((c, z3.BoolVal(val))); break
        if not subs: return g
        g = z3.simplify(z3.substitute(g, *subs))
    return g

def split_cases(hyps, g, depth=3):
    """-> [(extra hypotheses, goal without conditionals)] or None"""
    g = resolve_ites(hyps, g)
    if z3.is_true(g): return []
    cs = ite_conds(g)
    if not cs: return [([], g)]
    if depth == 0: return None
    # an innermost condition (without conditionals in it)
    c = next((c for c in cs if not has_ite(c)), None)
    if c is None: return None
    out = []
    for val, x in ((True, c), (False, z3.Not(c))):
        r = split_cases(hyps + [x], z3.simplify(z3.substitute(g, (c, z3.BoolVal(val)))), depth - 1)
        if r is None: return None
        out += [([x] + e, y) for e, y in r]
    return out

def has_ite(g):
    seen, stack = set(), [g]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE): return True
        stack += x.children()
    return False

_mono = {}
def _factors(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL: return [y for x in t.children() for y in _factors(x)]
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 < t.arg(1).numerator_as_long() < 9:
        return _factors(t.arg(0)) * t.arg(1).numerator_as_long()
    return [t]

def linear(t, memo):
    """products and quotients of variables as constants of their own (equal monomials, equal constants)"""
    i = t.get_id()
    r = memo.get(i)
    if r is not None: return r[1]
    if not z3.is_app(t) or t.num_args() == 0: res = t
    else:
        k = t.decl().kind()
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER) and (t.sort() == R or t.sort() == I):
            fs = [linear(x, memo) for x in _factors(t)]
            num = [x for x in fs if z3.is_rational_value(x) or z3.is_int_value(x)]
            oth = sorted([x for x in fs if not (z3.is_rational_value(x) or z3.is_int_value(x))], key=lambda x: x.get_id())
            if len(oth) <= 1 or k == z3.Z3_OP_POWER and len(_factors(t)) == 1: 
                cs = [linear(x, memo) for x in t.children()]
                res = t.decl()(*cs)
            else:
                key = tuple(x.get_id() for x in oth)
                e = _mono.get(key)
                if e is None: e = _mono[key] = (oth, z3.Const('mono!%d' % len(_mono), t.sort()))
                res = e[1]
                for x in num: res = x * res
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            a, b = linear(t.arg(0), memo), linear(t.arg(1), memo)
            key = ('/', a.get_id(), b.get_id())
            e = _mono.get(key)
            if e is None: e = _mono[key] = ([a, b], z3.Const('mono!%d' % len(_mono), t.sort()))
            res = e[1]
        else:
            cs = [linear(x, memo) for x in t.children()]
            res = t if all(a.eq(b) for a, b in zip(cs, t.children())) else t.decl()(*cs)
    memo[i] = (t, res)
    return res

def symbols_of(ts):
    out = set()
    for t in ts: out |= set(map(str, symbols(t)))
    return out

def linear_prove(hyps, goal, timeout):
    """with products as unknowns: sound, and enough where the products need not be understood"""
    from .engine import nonlinear
    ts = [h for h in hyps if qfree(h)] + [goal]
    if not any(nonlinear(t) for t in ts): return False
    memo = {}
    ts = [h for h in axioms(ts) if qfree(h)] + ts
    ts = [linear(z3.simplify(t, som=True, push_to_real=False), memo) for t in ts]
    s = z3.Solver()
    s.set('timeout', timeout)
    used = symbols_of(ts)
    for oth, c in _mono.values():          # squares are not negative
        if c.decl().name() in used and not isinstance(oth, tuple) and len(oth) % 2 == 0 and all(oth[i].eq(oth[i + 1]) for i in range(0, len(oth), 2)): s.add(c >= 0)
    s.add(*ts[:-1]); s.add(z3.Not(ts[-1]))
    try: return s.check() == z3.unsat
    except z3.Z3Exception: return False

def prove_one(o, budget=20.0, case=False):
    """-> (status, backend, time, model or None); status proved | refuted | unknown"""
    t0 = time.time()
    used = set()
    model = None
    subs = skolem_goal(o.goal)
    for extra, g in subs:
        hs = flatten(list(o.hyps) + extra)
        terms = getattr(o, 'hints', {}).get('inst')
        if z3.is_true(z3.simplify(g)): used.add('simplifier'); continue
        if any(h.eq(g) for h in hs): used.add('syntactic'); continue
        if any(z3.is_false(h) for h in hs): used.add('syntactic'); continue
        ok = False
        if z3.is_quantifier(g) and g.is_exists() and g.num_vars() == 1:      # with the known witnesses
            cand = {}
            for h in hs:
                if qfree(h):
                    for x in ground_subterms([h]):
                        if z3.is_app(x) and x.sort() == g.var_sort(0) and x.decl().name().startswith(('wit!', 'where!', 'first!')): cand[x.get_id()] = x
            if 0 < len(cand) <= 6:
                g2 = z3.Or(*[z3.substitute_vars(g.body(), x) for x in cand.values()])
                o2 = type('O', (), dict(hyps=hs, goal=g2, name=getattr(o, 'name', '')))
                r = prove_one(o2, budget / 2)
                if r[0] == 'proved': used.update(r[1].split('+')); continue
        q = [h for h in hs if qfree(h)]
        rel = relevant(hs, g, 2)
        stages = []
        if case: stages += [('z3', [], 1000, {}), ('nl', [], 1500, {})]
        if qfree(g): stages.append(('z3', q, 2000, {}))
        if qfree(g) and z3.is_eq(g) and g.arg(0).sort() == R: stages.append(('rat', hs, 30000, {}))
        if qfree(g): stages.append(('nl', hs, 3000, {}))
        if len(q) < len(hs) or not qfree(g):
            stages += [('z3', rel, 4000, dict(mbqi=False)), ('z3', hs, 8000, dict(mbqi=False)), ('z3', rel, 8000, dict(seed=7)),
                       ('z3', hs, 8000, dict(seed=3)), ('cvc5', rel, 8000, {})]
        else:
            stages += [('z3', q, 8000, {}), ('cvc5', q, 8000, {}), ('nl', rel, 12000, {})]
        refuted = False
        if terms:
            wit = witness(hs, terms)
            stages.insert(1, ('z3', q + wit, 6000, {}))
            stages.insert(4, ('z3', hs + wit, 6000, dict(mbqi=False)))
        if qfree(g) and not case and linear_prove(hs, g, 3000): used.add('z3'); continue
        ln = lean(hs, g)
        if ln and not case:
            good = True
            for ex, g2 in split_goal(extra, g, 8, q) if qfree(g) else [([], g)]:
                if any(z3.is_false(x) for x in ex): continue
                if os.environ.get('PYVC_DBG'): print(time.time()-t0,'SPLIT', o.name, len(ex), str(g2)[:300], ex)
                if not any(quick_prove(l + ex, g2, t) for t in (600, 4000) for l in ln): good = False; break
            if good: used.add('z3'); continue
        if qfree(g) and has_ite(g) and not case:
            r, s = z3_check(q, g, 1500)
            if r == z3.unsat: used.add('z3'); continue
            r, s = z3_check(rel, g, 2000, mbqi=False)
            if r == z3.unsat: used.add('z3'); continue
            cases = split_cases(hs, g)
            if cases is not None:
                good = True
                for ex, g2 in cases:
                    o2 = type('O', (), dict(hyps=hs + ex, goal=g2))
                    st, be, tm, md, why = prove_one(o2, min(8.0, budget), True)
                    if st != 'proved': good = False; model = md or model; break
                    used.update(be.split('+'))
                if good: continue
        for be, h, to, kw in stages:
            left = budget - (time.time() - t0)
            if left <= 0.3: break
            to = int(min(to, left * 1000))
            if be == 'z3':
                r, s = z3_check(h, g, to, **kw)
                if r == z3.unsat: ok = True; used.add('z3'); break
                if r == z3.sat:
                    if model is None: model = model_values(s)
                    if len(h) == len(hs) and all(qfree(x) for x in h) and qfree(g): refuted = True; break
            elif be == 'rat':
                from . import ratid
                side = lambda hh, gg: quick_prove([x for x in hh if qfree(x)], gg, 3000) or nl_check(hh, gg, 5000)
                if ratid.prove(h, g, side): ok = True; used.add('polynomial identity (sympy)+z3'); break
            elif be == 'nl':
                if nl_check(h, g, to): ok = True; used.add('z3-nlsat'); break
            else:
                r = cvc5_prove(h, g, to)
                if r == 'unsat': ok = True; used.add('cvc5'); break
        if not ok:
            return ('refuted' if refuted else 'unknown', 'z3', time.time() - t0, model, str(g)[:1500])
    return ('proved', '+'.join(sorted(used)) or 'simplifier', time.time() - t0, None, None)

def cover(o, timeout=3000):
    """hypotheses not contradictory? -> 'sat' | 'unsat' | 'unknown'"""
    s = z3.Solver(); s.set('timeout', timeout)
    hs = [h for h in dedup(o.hyps)]
    for h in hs: s.add(h)
    for a in axioms(hs): s.add(a)
    r = s.check()
    return str(r)

# ---- parallel discharge -------------------------------------------------------------------

def discharge(obls, budget=20.0, workers=8, total=600.0):
    """forked workers; obligations are shared by copy-on-write"""
    res = {}
    todo = list(range(len(obls)))
    t0 = time.time()
    procs = {}
    def spawn(i):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try: out = prove_one(obls[i], budget)
                except Exception as e: out = ('unknown', 'error', 0.0, None, repr(e))
                data = pickle.dumps(out)
                with os.fdopen(w, 'wb') as f: f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        procs[r] = (pid, i, b'', time.time())
    # cheap ones first, in this process
    rest = []
    for i in todo:
        o = obls[i]
        g = o.goal
        if z3.is_true(g) or any(h.eq(g) for h in o.hyps): res[i] = ('proved', 'syntactic', 0.0, None, None)
        else: rest.append(i)
    # chunking: several obligations per fork would be cheaper, but isolation is worth more
    rest.reverse()
    while rest or procs:
        while rest and len(procs) < workers:
            if time.time() - t0 > total:
                for i in rest: res[i] = ('unknown', 'budget', 0.0, None, 'total time budget exhausted')
                rest = []
                break
            spawn(rest.pop())
        if not procs: break
        rd, _, _ = select.select(list(procs), [], [], 1.0)
        for r in rd:
            pid, i, buf, t = procs[r]
            d = os.read(r, 1 << 16)
            if d: procs[r] = (pid, i, buf + d, t); continue
            os.close(r)
            os.waitpid(pid, 0)
            del procs[r]
            try: res[i] = pickle.loads(buf)
            except Exception: res[i] = ('unknown', 'crash', time.time() - t, None, 'solver process died')
        for r in list(procs):
            pid, i, buf, t = procs[r]
            if time.time() - t > budget + 30:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r); del procs[r]
                res[i] = ('unknown', 'timeout', time.time() - t, None, 'killed after %ds' % (budget + 30))
    for i, o in enumerate(obls):
        o.status, o.backend, o.time, o.model, extra = res[i]
        o.hints['why'] = extra
    return obls
