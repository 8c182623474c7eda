"""Forward symbolic executor for a Python subset, producing proof obligations.

The executed text is the AST parsed from /repo's current files on every run.  Numbers are
mathematical (ints unbounded, floats as reals); see DESIGN.md for what is trusted."""
import ast, os, itertools, time
import z3
from .values import *

def qfree(t, _cache={}):
    i = t.get_id()
    r = _cache.get(i)
    if r is not None and r[0].eq(t): return r[1]
    res, stack, seen = True, [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): res = False; break
        stack.extend(x.children())
    _cache[i] = (t, res)
    return res

def nonlinear(t, _cache={}):
    """contains a product or quotient of variables"""
    i = t.get_id()
    r = _cache.get(i)
    if r is not None and r[0].eq(t): return r[1]
    res, stack, seen = False, [t], set()
    while stack and not res:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(y) or z3.is_int_value(y)) for y in x.children()) > 1: res = True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): res = True
        stack.extend(x.children())
    _cache[i] = (t, res)
    return res

def dag_size(t, limit):
    stack, seen = [t], set()
    while stack and len(seen) < limit:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        stack.extend(x.children())
    return len(seen)

def literals(ts, _cache={}):
    """the literals a list of formulas consists of -> {id: literal}"""
    out = {}
    for t in ts:
        r = _cache.get(t.get_id())
        if r is None or not r[0].eq(t):
            fl, stack = {}, [(t, True)]
            while stack:
                x, pos = stack.pop()
                if z3.is_not(x): stack.append((x.arg(0), not pos)); continue
                if z3.is_and(x) and pos or z3.is_or(x) and not pos: stack += [(y, pos) for y in x.children()]; continue
                fl[(x.get_id(), pos)] = x
            r = _cache[t.get_id()] = (t, fl)
        out.update(r[1])
    return out

def conj(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs: return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)

def disj(cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if not cs: return z3.BoolVal(False)
    return cs[0] if len(cs) == 1 else z3.Or(*cs)

def neg(c):
    if z3.is_not(c): return c.arg(0)
    if z3.is_true(c): return z3.BoolVal(False)
    if z3.is_false(c): return z3.BoolVal(True)
    return z3.Not(c)

class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'where', 'kind', 'status', 'backend', 'time', 'model', 'fn', 'hints')
    def __init__(self, name, hyps, goal, where='', kind='post', fn=''):
        self.name, self.hyps, self.goal, self.where, self.kind, self.fn = name, hyps, goal, where, kind, fn
        self.status = self.backend = self.model = None
        self.time = 0.0
        self.hints = {}

class State:
    def __init__(self):
        self.env, self.heap, self.epoch, self.flags = {}, {}, {}, {}
        self.pc, self.facts, self.ctx = [], [], []
        self.sym, self.alloc = {}, None
        self.ghost = {}
        self.wpath = {}        # location -> (content, the content before, steps): it differs only below the steps
        self.frame = None      # (module, class name, function name)
    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.epoch, s.flags = dict(self.env), dict(self.heap), dict(self.epoch), dict(self.flags)
        s.pc, s.facts, s.ctx = list(self.pc), list(self.facts), self.ctx
        s.sym, s.alloc = dict(self.sym), self.alloc
        s.ghost, s.frame, s.wpath = dict(self.ghost), self.frame, dict(self.wpath)
        return s
    def assume(self, *cs):
        for c in cs:
            if z3.is_true(c): continue
            self.pc.append(c)
    def fact(self, *cs):
        for c in cs:
            if z3.is_true(c): continue
            self.facts.append(c)
    def hyps(self):
        return self.facts + self.pc

def same_step(s, t): return s[0] == t[0] and (s[1].eq(t[1]) if s[0] == 'i' and z3.is_expr(s[1]) and z3.is_expr(t[1]) else s[1] is t[1] or (not z3.is_expr(s[1]) and not z3.is_expr(t[1]) and s[1] == t[1]))

def common_steps(a, b):
    out = []
    for s, t in zip(a, b):
        if not same_step(s, t): break
        out.append(s)
    return tuple(out)

def merge_wpath(s1, s2, out, l):
    x, y = s1.heap[l], s2.heap[l]
    r1, r2 = s1.wpath.get(l), s2.wpath.get(l)
    r1 = r1 if r1 is not None and r1[0] is x else None
    r2 = r2 if r2 is not None and r2[0] is y else None
    out.wpath.pop(l, None)
    if r1 and r2 and r1[1] is r2[1]: out.wpath[l] = (out.heap[l], r1[1], common_steps(r1[2], r2[2]))
    elif r1 and r1[1] is y: out.wpath[l] = (out.heap[l], y, r1[2])
    elif r2 and r2[1] is x: out.wpath[l] = (out.heap[l], x, r2[2])

class PathKey:
    """part of a location: the cell of a loop that changes only this part of it"""
    def __init__(self, root, steps): self.root, self.steps = root, tuple(steps)
    def __eq__(self, o): return isinstance(o, PathKey) and self.root == o.root and len(self.steps) == len(o.steps) and len(common_steps(self.steps, o.steps)) == len(self.steps)
    def __hash__(self): return hash((self.root, tuple(s[0] for s in self.steps)))
    def __repr__(self): return '%s%s' % (self.root, ''.join('[]' if s[0] in 'ik' else '.%s' % s[1] for s in self.steps))

class NoMerge(Exception):
    pass

class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src, path)
        self.names = {}          # name -> ('func',node)|('class',node)|('nt',fields)|('const',node)|('import',..)|('star',..)
        self.stars = []
        for n in self.tree.body:
            self.top(n)
    def top(self, n):
        if isinstance(n, ast.FunctionDef): self.names[n.name] = ('func', n)
        elif isinstance(n, ast.ClassDef): self.names[n.name] = ('class', n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): self.names[t.id] = ('const', n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            self.names[n.target.id] = ('const', n.value)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == '*': self.stars.append((n.module or '', n.level))
                else: self.names[a.asname or a.name] = ('from', (n.module or ''), n.level, a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.names[a.asname or a.name.split('.')[0]] = ('import', a.name)

def nt_fields(call):
    """fields of a namedtuple(...) call expression, or None"""
    if isinstance(call, ast.Call) and (getattr(call.func, 'id', None) == 'namedtuple' or getattr(call.func, 'attr', None) == 'namedtuple'):
        a = call.args[1]
        if isinstance(a, ast.Constant): return a.value.replace(',', ' ').split()
        if isinstance(a, (ast.List, ast.Tuple)): return [x.value for x in a.elts]
    return None

class Budget(Exception):
    pass

class Engine:
    MAXDEPTH = 30
    def __init__(self, repo, modules=('bpyeuclid', 'poly2FacesGraph', 'bpypolyskel')):
        self.repo = repo
        self.mods = {m: Module(m, os.path.join(repo, 'bpypolyskel', m + '.py')) for m in modules}
        self.obls = []
        self.record = True
        self.light = 0
        self.htrace = None
        self.summaries = {}
        self.name_conditions = 0            # conditions of branches larger than this get names
        self.keep_apart = None              # (state, state) -> not to be merged
        self.linear_feasibility = False     # branches are pruned without looking at products of variables
        self.allowed = lambda exc, st, node: False     # exceptions that may end a path
        self.hints = []            # callables for loop invariants
        self.heap_contract = None  # contract of heapq, over the elements of a queue
        self.havoc = False         # over-approximate loops outside the subset by their frame
        self.havoc_if = None       # (node, state) -> such a loop is over-approximated without looking into it
        self.strict_closing = False   # a closed form may not use what is only described in terms of cells without one
        self.multisets = False     # track the multiplicities of list elements through loops
        self.cuts = []
        self.hint_ms = 3000
        self.unique_positions = False     # elements that occur at most once have one position
        self.symclasses = {}       # class name -> {field: T}
        self.depth = 0
        self.curfn = ''
        self.assumed = set()       # textual log of assumptions used
        self.inlined = set()
        self.kept = {}             # loop cache for houdini
        self.deadline = None
        self.feas_cache = {}
        self.stats = dict(paths=0, feas=0, houdini=0, loops=0)
        self.loop_log = []
        self.maxstates = 4000
        from . import builtins as bi
        self.bi = bi
        bi.setup(self)

    # ---- fresh symbols ----------------------------------------------------
    def fresh(self, st, name, sort):
        nm = '%s!%d' % (name, uid())
        if st is not None and st.ctx:
            f = z3.Function(nm, *([c.sort() for c in st.ctx] + [sort]))
            return f(*st.ctx)
        return z3.Const(nm, sort)

    def fresh_fun(self, st, name, *sorts):
        """fresh function over the given argument sorts (+ the index context)"""
        nm = '%s!%d' % (name, uid())
        ctx = list(st.ctx) if st is not None else []
        f = z3.Function(nm, *([c.sort() for c in ctx] + list(sorts)))
        if ctx: return lambda *a: f(*(ctx + list(a)))
        return lambda *a: f(*a)

    def fresh_val(self, st, t, name, idx=()):
        """fresh pure value of type t; idx: index terms it depends on besides the context"""
        def leaf(sort, nm):
            f = self.fresh_fun(st, nm, *([i.sort() for i in idx] + [sort]))
            return f(*idx)
        k = t.k
        if k == 'int': return Num(leaf(I, name))
        if k == 'real': return Num(leaf(R, name))
        if k == 'bool': return BoolV(leaf(B, name))
        if k == 'char': return CharV(leaf(I, name))
        if k == 'none': return NONE
        if k == 'opaque': return OpaqueV(leaf(I, name))
        if k == 'const': return StrV(t.a[0])
        if k == 'cplx': return CplxV(leaf(R, name + '.re'), leaf(R, name + '.im'))
        if k == 'sym':
            return SymV(t.a[0], leaf(I, name))
        if k == 'vec': return VecC([leaf(R, name + '.' + 'xyz'[i]) for i in range(t.a[0])])
        if k == 'tuple': return TupleV([self.fresh_val(st, x, '%s.%d' % (name, i), idx) for i, x in enumerate(t.a)])
        if k == 'rec': return RecV(t.a[0], {f: self.fresh_val(st, x, name + '.' + f, idx) for f, x in t.a[1]})
        if k == 'obj': return ObjC(t.a[0], {f: self.fresh_val(st, x, name + '.' + f, idx) for f, x in t.a[1]})
        if k == 'any': return OpaqueV(leaf(I, name))
        if k == 'union':
            tag = leaf(I, name + '.tag')
            alts = []
            m = len(t.a)
            for i, x in enumerate(t.a):
                c = tag == i if i < m - 1 else z3.And(*[tag != j for j in range(m - 1)])
                alts.append((c, self.fresh_val(st, x, '%s.%d' % (name, i), idx)))
            return Guarded(alts)
        if k in ('list', 'str'):
            et = TChar if k == 'str' else t.a[0]
            nf = self.fresh_fun(st, name + '.len', *([i.sort() for i in idx] + [I]))
            n = nf(*idx)
            cons = self.elem_ctor(st, et, name + '[]', [i.sort() for i in idx] + [I])
            lst = ListC(n, lambda j: (cons(*(list(idx) + [j])), [n >= 0]), etype=None if k == 'str' else et)
            return SeqStr(lst) if k == 'str' else lst
        if k == 'set':
            et = t.a[0]
            return self.fresh_set(st, et, name)
        if k == 'dict':
            kt, vt, default, dn = t.a
            if kt == TAny or idx: raise Unsupported('fresh dictionary')
            flat = self.flat_sorts(kt)
            has = self.fresh_fun(st, name + '.has', *(flat + [B]))
            cons = self.elem_ctor(st, vt, name + '.val', flat)
            return DictC(lambda x: has(*self.flat(x)), lambda x: (cons(*self.flat(x)), []), None, default, dn, None, kt, vt)
        raise Unsupported('fresh value of type %s' % t)

    def elem_ctor(self, st, t, name, sorts):
        """constructor idx -> pure value; the function symbols are made once"""
        vars_ = [z3.Const('ix!%d' % uid(), s) for s in sorts]
        v = self.fresh_val(st, t, name, tuple(vars_))
        def cons(*a):
            return vmap(v, substf(zip(vars_, a)))
        return cons

    def fresh_set(self, st, et, name):
        flat = self.flat_sorts(et)
        f = self.fresh_fun(st, name, *(flat + [B]))
        return SetC(lambda x: f(*self.flat(x)), None, et)

    def flat_sorts(self, t):
        if t.k == 'int' or t.k == 'char' or t.k == 'sym': return [I]
        if t.k == 'real': return [R]
        if t.k == 'bool': return [B]
        if t.k == 'vec': return [R] * t.a[0]
        if t.k == 'tuple': return [s for x in t.a for s in self.flat_sorts(x)]
        if t.k in ('rec', 'obj'): return [s for _, x in t.a[1] for s in self.flat_sorts(x)]
        raise Unsupported('set/multiset over %s' % t)

    def flat(self, v):
        if isinstance(v, (Num, BoolV, CharV, SymV, OpaqueV)): return [v.t]
        if isinstance(v, VecC): return list(v.xs)
        if isinstance(v, TupleV): return [s for x in v.items for s in self.flat(x)]
        if isinstance(v, (RecV, ObjC)): return [s for x in v.fields.values() for s in self.flat(x)]
        if isinstance(v, StrV) and len(v.s) == 1: return [z3.IntVal(ord(v.s))]
        raise Unsupported('flatten %r' % (v,))

    # ---- solver for feasibility --------------------------------------------
    def feasible(self, st, cond, timeout=250, force=False):
        if self.light and not force: return True
        if self.deadline and time.time() > self.deadline: raise Budget()
        hyps = [h for h in st.facts + st.pc if qfree(h)]
        if self.linear_feasibility:
            if nonlinear(cond): return True
            hyps = [h for h in hyps if not nonlinear(h)]
        key = (tuple(sorted({h.get_id() for h in hyps})), cond.get_id())
        r = self.feas_cache.get(key)
        if r is not None: return r[0]
        self.stats['feas'] += 1
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*hyps); s.add(cond)
        r = s.check() != z3.unsat
        self.feas_cache[key] = (r, hyps, cond)
        return r

    def entails(self, st, goal, timeout=3000, quant=True):
        """quick entailment test (loop inference only)"""
        if self.deadline and time.time() > self.deadline: raise Budget()
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        from .solve import quick_prove
        self.stats['houdini'] += 1
        return quick_prove(st.facts + st.pc, goal, timeout)

    def branch(self, st, cond):
        """-> [(state, bool)]"""
        c = z3.simplify(cond)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        n = neg(c)
        for p in st.pc:
            if p.eq(c): return [(st, True)]
            if p.eq(n): return [(st, False)]
        out = []
        t, f = self.feasible(st, c), self.feasible(st, n)
        if t and f:
            a, b = st.copy(), st
            a.assume(c); b = st.copy(); b.assume(n)
            return [(a, True), (b, False)]
        if t: 
            st.fact(c); return [(st, True)]
        if f:
            st.fact(n); return [(st, False)]
        return []

    # ---- obligations ----------------------------------------------------------
    def oblige(self, st, name, goal, node=None, kind='post'):
        if not self.record: return
        where = ''
        if node is not None and hasattr(node, 'lineno') and st.frame:
            where = '%s:%d' % (st.frame[0], node.lineno)
        self.obls.append(Obligation(name, st.facts + st.pc, goal, where, kind, self.curfn))

    def safety(self, st, cond, exc, node, what=''):
        """the operation raises `exc` unless cond; -> state in which cond holds, or None"""
        c = z3.simplify(cond)
        if z3.is_true(c): return st
        if not self.allowed(exc, st, node):
            fn = st.frame[2] if st.frame else ''
            self.oblige(st, 'no-%s(%s)%s' % (exc, fn, ' ' + what if what else ''), cond, node, 'safety')
        else:
            self.assumed.add('%s ends the path (partial correctness) in %s' % (exc, st.frame[2] if st.frame else '?'))
        if z3.is_false(c): return None
        st.assume(c)
        return st

    # ---- heap ------------------------------------------------------------------
    def alloc(self, st, content, flags=()):
        l = LocV(uid())
        st.heap[l.id] = content
        st.epoch[l.id] = 0
        if flags: st.flags[l.id] = frozenset(flags)
        return l

    def read(self, st, v):
        """content of a value"""
        if isinstance(v, LocV):
            if 'stale' in st.flags.get(v.id, ()): raise Unsupported('read of a list that was changed through its container')
            return st.heap[v.id]
        if isinstance(v, PathV):
            if self.epochs(st, v.root, v.steps) != v.epoch: raise Unsupported('reference into a restructured list')
            return self.navigate(st, st.heap[v.root], v.steps)
        return v

    # how often a list was restructured, by the depth of the list in the object its root is: a path is
    # good as long as no list it goes through was restructured
    def path_depth(self, steps): return sum(s[0] in 'ik' for s in steps)
    def epochs(self, st, root, steps): return tuple(st.epoch.get((root, d) if d else root, 0) for d in range(self.path_depth(steps)))
    def path(self, st, root, steps): return PathV(root, steps, self.epochs(st, root, steps))
    def restructure(self, st, v):
        d = self.path_depth(v.steps) if isinstance(v, PathV) else 0
        root = v.root if isinstance(v, PathV) else v.id
        key = (root, d) if d else root
        st.epoch[key] = st.epoch.get(key, 0) + 1

    def navigate(self, st, c, steps):
        for s in steps:
            if s[0] == 'i':
                if isinstance(c, (TupleV,)): c = c.items[s[1]]; continue
                c, facts = c.get(s[1])
                st.fact(*facts)
            elif s[0] == 'f':
                c = c.fields[s[1]]
            elif s[0] == 't':
                c = c.items[s[1]]
            elif s[0] == 'k':
                c, facts = c.get(s[1])
                st.fact(*facts)
            if isinstance(c, LocV): c = self.read(st, c)
        return c

    def write(self, st, v, content, structural=False):
        if isinstance(v, LocV):
            fl = st.flags.get(v.id, ())
            if 'shared' in fl: raise Unsupported('mutation of a value that is also stored elsewhere')
            if 'borrowed' in fl: raise Unsupported('mutation of a borrowed value')
            st.heap[v.id] = content
            if structural: self.restructure(st, v)
        elif isinstance(v, PathV):
            if self.epochs(st, v.root, v.steps) != v.epoch: raise Unsupported('reference into a restructured list')
            if structural: self.restructure(st, v)
            self.put_at(st, v.root, v.steps, content)
            for l, f in list(st.flags.items()):
                if 'shared' in f: st.flags[l] = f | {'stale'}
        else:
            raise Unsupported('write to %r' % (v,))

    def put_at(self, st, root, steps, content):
        old = st.heap[root]
        rec = st.wpath.get(root)
        new = st.heap[root] = self.rebuild(st, old, steps, content)
        if new is old: return
        if rec is not None and rec[0] is old: st.wpath[root] = (new, rec[1], common_steps(rec[2], steps))
        else: st.wpath[root] = (new, old, tuple(steps))

    def rebuild(self, st, c, steps, content):
        if not steps: return content
        s, rest = steps[0], steps[1:]
        if s[0] == 'i':
            old, facts = c.get(s[1])
            st.fact(*facts)
            return self.list_set(c, s[1], self.rebuild(st, old, rest, content))
        if s[0] == 'f':
            f = dict(c.fields)
            if isinstance(f[s[1]], LocV):
                st.heap[f[s[1]].id] = self.rebuild(st, st.heap[f[s[1]].id], rest, content)
                return c
            f[s[1]] = self.rebuild(st, f[s[1]], rest, content)
            return RecV(c.cls, f) if isinstance(c, RecV) else ObjC(c.cls, f)
        if s[0] == 't':
            it = list(c.items); it[s[1]] = self.rebuild(st, it[s[1]], rest, content)
            return TupleV(it)
        if s[0] == 'k':
            old, facts = c.get(s[1]); st.fact(*facts)
            return self.dict_set(c, s[1], self.rebuild(st, old, rest, content))
        raise Unsupported('write path %r' % (s,))

    def purify(self, st, v, share=False):
        """pure value of an environment value"""
        if isinstance(v, LocV):
            c = st.heap[v.id]
            if share and isinstance(c, (ListC, DictC, SetC, VecC, ObjC)):
                st.flags[v.id] = frozenset(st.flags.get(v.id, ())) | {'shared'}
            return self.purify(st, self.read(st, v), share)
        if isinstance(v, PathV): return self.purify(st, self.read(st, v), share)
        if isinstance(v, TupleV): return TupleV([self.purify(st, x, share) for x in v.items])
        if isinstance(v, RecV): return RecV(v.cls, {k: self.purify(st, x, share) for k, x in v.fields.items()})
        if isinstance(v, ObjC): return ObjC(v.cls, {k: self.purify(st, x, share) for k, x in v.fields.items()})
        if isinstance(v, Guarded): return Guarded([(c, self.purify(st, x, share)) for c, x in v.alts])
        if isinstance(v, IterC):
            raise Unsupported('iterator stored in a container')
        return v

    def to_env(self, st, v, flags=()):
        """environment value of a pure value (fresh identity)"""
        if isinstance(v, (VecC, ListC, DictC, SetC, ObjC, IterC)): return self.alloc(st, v, flags)
        if isinstance(v, TupleV): return TupleV([self.to_env(st, x, flags) for x in v.items])
        if isinstance(v, RecV): return RecV(v.cls, {k: self.to_env(st, x, flags) for k, x in v.fields.items()})
        if isinstance(v, Guarded): return Guarded([(c, self.to_env(st, x, flags)) for c, x in v.alts])
        return v

    def elem(self, st, base, i):
        """environment value of element i of the list `base` denotes"""
        c = self.read(st, base)
        v, facts = c.get(i)
        st.fact(*facts)
        if isinstance(base, LocV): root, steps = base.id, ()
        elif isinstance(base, PathV): root, steps = base.root, base.steps
        else: return self.to_env(st, v, ('borrowed',))
        i = z3.IntVal(i) if isinstance(i, int) else i
        return self.wrap(st, v, root, steps + (('i', i),))

    def wrap(self, st, v, root, steps):
        if isinstance(v, (ListC, DictC, SetC, ObjC)): return self.path(st, root, steps)
        if isinstance(v, VecC): return self.alloc(st, v, ('borrowed',))
        if isinstance(v, RecV): return RecV(v.cls, {k: self.wrap(st, x, root, steps + (('f', k),)) for k, x in v.fields.items()})
        if isinstance(v, TupleV): return TupleV([self.wrap(st, x, root, steps + (('t', k),)) for k, x in enumerate(v.items)])
        if isinstance(v, Guarded): return Guarded([(c, self.wrap(st, x, root, steps)) for c, x in v.alts])
        return v

    # ---- lists -----------------------------------------------------------------
    def vite(self, c, a, b):
        """if-then-else on pure values"""
        if a is b: return a
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        return self.merge_pure(c, a, b)

    def list_of(self, vals):
        vals = list(vals)
        if not vals: return ListC(0, lambda i: (_ for _ in ()).throw(Unsupported('element of an empty list')), etype=TAny, cnt=lambda x: z3.IntVal(0), prov=('lit', []))
        def fn(i):
            ci = const_int(i)
            if ci is not None and 0 <= ci < len(vals): return vals[ci], []
            v = vals[-1]
            for j in range(len(vals) - 2, -1, -1): v = self.vite(i == j, vals[j], v)
            return v, []
        et = TAny
        for v in vals: et = join(et, type_of(v))
        return ListC(len(vals), fn, etype=et, prov=('lit', vals), cnt=self.lit_cnt(vals))

    def lit_cnt(self, vals):
        def cnt(x):
            try: return z3.Sum([z3.IntVal(0)] + [z3.If(self.veq0(v, x), 1, 0) for v in vals])
            except Unsupported: return None
        return cnt

    def is_empty_lit(self, l):
        return l.prov is not None and l.prov[0] == 'lit' and not l.prov[1]

    def flat_cnt(self, l):
        """of a list of lists: (multiplicity of an element in all of them together, their total length)"""
        if l.fcnt: return l.fcnt, l.flen
        p = l.prov
        def all_(xs):
            if not all(isinstance(x, ListC) and x.cnt for x in xs): return None
            return (lambda y: z3.Sum([z3.IntVal(0)] + [x.cnt(y) for x in xs])), z3.Sum([z3.IntVal(0)] + [x.n for x in xs])
        if not p: return None
        if p[0] == 'lit': return all_(p[1])
        if p[0] == 'copy': return self.flat_cnt(p[1])
        if p[0] in ('append', 'concat'):
            a, b = self.flat_cnt(p[1]), all_([p[2]]) if p[0] == 'append' else self.flat_cnt(p[2])
            return (lambda y: a[0](y) + b[0](y), a[1] + b[1]) if a and b else None
        if p[0] == 'ite':
            a, b = self.flat_cnt(p[2]), self.flat_cnt(p[3])
            return (lambda y: z3.If(p[1], a[0](y), b[0](y)), z3.If(p[1], a[1], b[1])) if a and b else None
        return None

    def list_append(self, l, v):
        n = l.n
        if self.is_empty_lit(l):
            r = self.list_of([v])
            r.prov = ('append', l, v)
            return r
        if l.prov and l.prov[0] == 'lit' and const_int(n) is not None and len(l.prov[1]) < 12:
            r = self.list_of(l.prov[1] + [v])
            return r
        def fn(i):
            c = z3.simplify(i == n)
            if z3.is_true(c): return v, []
            x, facts = l.get(i)
            if z3.is_false(c): return x, facts
            return self.vite(i == n, v, x), [z3.Implies(i != n, f) for f in facts]
        cnt = None
        if l.cnt: cnt = lambda x: l.cnt(x) + z3.If(self.veq0(v, x), 1, 0)
        return ListC(z3.simplify(n + 1), fn, prov=('append', l, v), cnt=cnt, etype=join(l.etype if l.etype is not None else type_of(l).a[0], type_of(v)))

    def list_concat(self, a, b):
        if self.is_empty_lit(b): return a
        if self.is_empty_lit(a):
            return ListC(b.n, b.fn, prov=('concat', a, b), cnt=b.cnt, etype=b.etype)
        na = a.n
        def fn(i):
            c = z3.simplify(i < na)
            if z3.is_true(c): return a.get(i)
            j = z3.simplify(i - na)
            if z3.is_false(c): return b.get(j)
            x, f = a.get(i); y, g = b.get(j)
            return self.vite(i < na, x, y), [z3.Implies(i < na, q) for q in f] + [z3.Implies(i >= na, q) for q in g]
        cnt = None
        if a.cnt and b.cnt: cnt = lambda x: a.cnt(x) + b.cnt(x)
        r = ListC(z3.simplify(na + b.n), fn, prov=('concat', a, b), cnt=cnt, etype=join(type_of(a).a[0], type_of(b).a[0]))
        # rotation x[k:] + x[:k]
        if a.prov and b.prov and a.prov[0] == 'drop' and b.prov[0] == 'take' and a.prov[1] is b.prov[1] and a.prov[2].eq(b.prov[2]):
            r.cnt = a.prov[1].cnt
            r.prov = ('rot', a.prov[1], a.prov[2])
        return r

    def list_set(self, l, i, v):
        i = z3.IntVal(i) if isinstance(i, int) else i
        def fn(j):
            c = z3.simplify(i == j)
            if z3.is_true(c): return v, []
            x, facts = l.get(j)
            if z3.is_false(c): return x, facts
            return self.vite(c, v, x), [z3.Implies(neg(c), f) for f in facts]
        return ListC(l.n, fn, prov=('set', l, i, v), etype=join(type_of(l).a[0], type_of(v)))

    def list_slice(self, l, lo, hi):
        """lo <= hi already clipped to [0, n]"""
        def fn(i): return l.get(z3.simplify(i + lo))
        prov = ('slice', l, lo, hi)
        if const_int(lo) == 0: prov = ('take', l, hi)
        elif z3.simplify(hi).eq(z3.simplify(l.n)): prov = ('drop', l, lo)
        return ListC(z3.simplify(hi - lo), fn, prov=prov, etype=l.etype)

    def list_del(self, l, i):
        def fn(j):
            c = z3.simplify(j < i)
            if z3.is_true(c): return l.get(j)
            if z3.is_false(c): return l.get(z3.simplify(j + 1))
            x, f = l.get(j); y, g = l.get(z3.simplify(j + 1))
            return self.vite(c, x, y), [z3.Implies(c, q) for q in f] + [z3.Implies(neg(c), q) for q in g]
        cnt = None
        if l.cnt: cnt = lambda x: l.cnt(x) - z3.If(self.veq0(l.get(i)[0], x), 1, 0)
        return ListC(z3.simplify(l.n - 1), fn, prov=('del', l, i), cnt=cnt, etype=l.etype)

    def list_map(self, src_n, st, k, val, facts):
        """list of `val` (mentions index k) for k in [0, n)"""
        def fn(i):
            s = substf([(k, i)])
            return vmap(val, s), [s(f) for f in facts]
        return ListC(src_n, fn, etype=type_of(val), prov=('map', k, val))

    def forall(self, n, body, st=None, lo=None, name='j'):
        """forall j in [lo, n): body(j) -> (goal term, facts)"""
        j = z3.Int('%s?%d' % (name, uid()))
        g, facts = body(j)
        lo = z3.IntVal(0) if lo is None else lo
        return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < n, *facts), g))

    def forall_parts(self, n, body):
        """consequences of forall j in [0, n): body(j) that can be matched: the index is shifted so that
        the elements of a slice or rotation are terms of the list it was made from"""
        from .solve import ite_conds
        out = []
        j, i = z3.Int('j?%d' % uid()), z3.Int('i?%d' % uid())
        g, facts = body(j)
        h = z3.Implies(z3.And(0 <= j, j < n, *facts), g)
        cs = [c for c in ite_conds(g) if j.decl().name() in symbols(c)]
        if len(cs) > 2 or any(z3.is_quantifier(f) for f in facts): return []
        cases = [[]]
        for c in cs: cases = [x + [(c, b)] for x in cases for b in (True, False)]
        for case in cases:
            q = z3.substitute(h, *[(c, z3.BoolVal(b)) for c, b in case]) if case else h
            q = z3.simplify(z3.Implies(z3.And(*[c if b else z3.Not(c) for c, b in case]), q))
            # the first application that mentions the index
            stack, seen, done = [q], set(), set()
            while stack:
                x = stack.pop()
                if x.get_id() in seen or z3.is_quantifier(x): continue
                seen.add(x.get_id())
                if not z3.is_app(x): continue
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and j.decl().name() in symbols(x):
                    for a in x.children():
                        d = z3.simplify(a - j) if a.sort() == I else None
                        if d is None or j.decl().name() in symbols(d) or d.get_id() in done: continue
                        done.add(d.get_id())
                        if len(done) > 3: break
                        sub = [(j, i - d)]
                        t = z3.simplify(z3.substitute(x, *sub))
                        if i.decl().name() not in symbols(t): continue
                        try: out.append(z3.ForAll([i], z3.simplify(z3.substitute(q, *sub)), patterns=[t]))
                        except z3.Z3Exception: pass
                stack += x.children()
        return out

    def exists(self, n, body, lo=None):
        j = z3.Int('e?%d' % uid())
        g, facts = body(j)
        lo = z3.IntVal(0) if lo is None else lo
        return z3.Exists([j], z3.And(lo <= j, j < n, *(list(facts) + [g])))

    # ---- equality -----------------------------------------------------------------
    def veq0(self, a, b):
        """structural equality of pure values as a term (no facts)"""
        if a is b: return z3.BoolVal(True)
        if isinstance(a, Guarded):
            return disj([z3.And(c, self.veq0(x, b)) for c, x in a.alts])
        if isinstance(b, Guarded): return self.veq0(b, a)
        if isinstance(a, BoolV) and isinstance(b, BoolV): return a.t == b.t
        if isinstance(a, BoolV) and isinstance(b, Num): a = Num(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(b, BoolV) and isinstance(a, Num): b = Num(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(a, Num) and isinstance(b, Num):
            x, y = unify(a.t, b.t)
            return x == y
        if isinstance(a, StrV) and isinstance(b, StrV): return z3.BoolVal(a.s == b.s)
        if isinstance(a, (CharV, StrV)) and isinstance(b, (CharV, StrV)):
            if isinstance(a, StrV): a, b = b, a
            if isinstance(b, StrV):
                if len(b.s) != 1: return z3.BoolVal(False)
                return a.t == ord(b.s)
            return a.t == b.t
        if isinstance(a, VecC) and isinstance(b, VecC):
            if len(a.xs) != len(b.xs): return z3.BoolVal(False)
            return conj([x == y for x, y in zip(a.xs, b.xs)])
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items): return z3.BoolVal(False)
            return conj([self.veq0(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, RecV) and isinstance(b, RecV):
            if a.cls != b.cls and len(a.fields) != len(b.fields): return z3.BoolVal(False)
            return conj([self.veq0(x, y) for x, y in zip(a.fields.values(), b.fields.values())])
        if isinstance(a, ObjC) and isinstance(b, ObjC):
            if a.cls != b.cls: return z3.BoolVal(False)
            return conj([self.veq0(x, y) for x, y in zip(a.fields.values(), b.fields.values())])
        if isinstance(a, SymV) and isinstance(b, SymV): return a.t == b.t
        if isinstance(a, SymV) and b is NONE: return a.t == 0
        if a is NONE and isinstance(b, SymV): return b.t == 0
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV): return a.t == b.t
        if isinstance(a, CplxV) and isinstance(b, CplxV): return z3.And(a.re == b.re, a.im == b.im)
        if isinstance(a, ListC) and isinstance(b, ListC):
            def body(j):
                x, f = a.get(j); y, g = b.get(j)
                return self.veq0(x, y), f + g
            ca, cb = const_int(a.n), const_int(b.n)
            if ca == 0 or cb == 0: return a.n == b.n
            if ca is not None and cb is not None:
                if ca != cb: return z3.BoolVal(False)
                return conj([body(z3.IntVal(j))[0] for j in range(ca)])
            return z3.And(a.n == b.n, self.forall(a.n, body))
        if a is NONE or b is NONE: return z3.BoolVal(a is b)
        ta, tb = type(a).__name__, type(b).__name__
        if ta != tb: return z3.BoolVal(False)
        raise Unsupported('equality of %s and %s' % (ta, tb))

    def veq(self, st, a, b):
        return self.veq0(self.purify(st, a), self.purify(st, b))

    def contains(self, st, container, x):
        """Bool term: x in container (container: content)"""
        c = self.read(st, container)
        if isinstance(c, ObjC):
            raise Unsupported('in on an object')
        px = self.purify(st, x)
        if isinstance(c, TupleV): return disj([self.veq(st, y, px) for y in c.items])
        if isinstance(c, DictC): return c.has(px)
        if isinstance(c, SetC): return c.has(px)
        if isinstance(c, IterC): raise Unsupported('in on an iterator')
        if isinstance(c, ListC):
            if isinstance(px, SetC) and c.etype is not None and c.etype.k in ('tuple', 'int', 'real', 'vec', 'bool', 'char'): return z3.BoolVal(False)      # a set equals none of these
            n = const_int(c.n)
            if n is not None and n <= 8:
                r = []
                for j in range(n):
                    y, facts = c.get(j); st.fact(*facts)
                    r.append(self.veq0(y, px))
                return disj(r)
            if c.cnt:
                q = c.cnt(px)
                if q is not None:
                    b = q >= 1
                    w = self.fresh(st, 'where', I)
                    y, facts = c.get(w)
                    st.fact(z3.Implies(b, z3.And(0 <= w, w < c.n, self.veq0(y, px), *facts)))
                    st.fact(z3.Implies(z3.Not(b), self.forall(c.n, lambda j: (z3.Not(self.veq0(c.get(j)[0], px)), c.get(j)[1]))))
                    return b
            b = self.fresh(st, 'in', B)
            w = self.fresh(st, 'where', I)
            y, facts = c.get(w)
            st.fact(z3.Implies(b, z3.And(0 <= w, w < c.n, self.veq0(y, px), *facts)))
            st.fact(z3.Implies(z3.Not(b), self.forall(c.n, lambda j: (z3.Not(self.veq0(c.get(j)[0], px)), c.get(j)[1]))))
            return b
        if isinstance(c, StrV) and isinstance(px, StrV): return z3.BoolVal(px.s in c.s)
        raise Unsupported('in on %r' % (c,))

    # ---- merging ----------------------------------------------------------------
    def merge_pure(self, c, a, b):
        if a is b: return a
        if isinstance(a, Num) and isinstance(b, Num):
            x, y = unify(a.t, b.t)
            return Num(x if x.eq(y) else z3.If(c, x, y))
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return BoolV(a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t))
        if isinstance(a, StrV) and isinstance(b, StrV) and a.s == b.s: return a
        if isinstance(a, (StrV, CharV)) and isinstance(b, (StrV, CharV)):
            def ch(v):
                if isinstance(v, CharV): return v.t
                if len(v.s) == 1: return z3.IntVal(ord(v.s))
                raise NoMerge()
            return CharV(z3.If(c, ch(a), ch(b)))
        if isinstance(a, VecC) and isinstance(b, VecC) and len(a.xs) == len(b.xs):
            return VecC([x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, CplxV) and isinstance(b, CplxV): return CplxV(z3.If(c, a.re, b.re), z3.If(c, a.im, b.im))
        if isinstance(a, SymV) and isinstance(b, SymV) and a.cls == b.cls: return SymV(a.cls, a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t))
        if isinstance(a, SymV) and b is NONE: return SymV(a.cls, z3.If(c, a.t, 0))
        if a is NONE and isinstance(b, SymV): return SymV(b.cls, z3.If(c, z3.IntVal(0), b.t))
        if isinstance(a, OpaqueV) and isinstance(b, OpaqueV): return OpaqueV(z3.If(c, a.t, b.t))
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_pure(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, RecV) and isinstance(b, RecV) and a.cls == b.cls:
            return RecV(a.cls, {k: self.merge_pure(c, a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, ObjC) and isinstance(b, ObjC) and a.cls == b.cls and set(a.fields) == set(b.fields):
            return ObjC(a.cls, {k: self.merge_pure(c, a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, ListC) and isinstance(b, ListC):
            if getattr(self, 'keep_lengths', False) and const_int(a.n) is not None and const_int(b.n) is not None and const_int(a.n) != const_int(b.n): raise NoMerge()
            n = a.n if a.n.eq(b.n) else z3.If(c, a.n, b.n)
            def fn(i):
                if self.is_empty_lit(a): y, g = b.get(i); return y, [z3.Implies(neg(c), q) for q in g]
                if self.is_empty_lit(b): x, f = a.get(i); return x, [z3.Implies(c, q) for q in f]
                x, f = a.get(i); y, g = b.get(i)
                return self.merge_pure(c, x, y), [z3.Implies(c, q) for q in f] + [z3.Implies(neg(c), q) for q in g]
            cnt = None
            if a.cnt and b.cnt:
                cnt = lambda x: z3.If(c, a.cnt(x), b.cnt(x))
            return ListC(n, fn, prov=('ite', c, a, b), cnt=cnt, etype=join(type_of(a).a[0], type_of(b).a[0]))
        if isinstance(a, SeqStr) and isinstance(b, SeqStr): return SeqStr(self.merge_pure(c, a.lst, b.lst))
        if isinstance(a, SetC) and isinstance(b, SetC):
            return SetC(lambda x: z3.If(c, a.has(x), b.has(x)), None, join(a.etype or TAny, b.etype or TAny))
        if isinstance(a, DictC) and isinstance(b, DictC):
            def get(k):
                x, f = a.get(k); y, g = b.get(k)
                return self.merge_pure(c, x, y), [z3.Implies(c, q) for q in f] + [z3.Implies(neg(c), q) for q in g]
            kt = join(a.kt or TAny, b.kt or TAny); vt = join(a.vt or TAny, b.vt or TAny)
            return DictC(lambda k: z3.If(c, a.has(k), b.has(k)), get, None, a.default, a.name, ('ite', c, a, b), kt, vt)
        if isinstance(a, PathV) and isinstance(b, PathV) and a.root == b.root and a.epoch == b.epoch and len(a.steps) == len(b.steps):
            steps = []
            for s, t in zip(a.steps, b.steps):
                if s[0] != t[0]: raise NoMerge()
                if s[0] == 'i': steps.append(('i', s[1] if s[1].eq(t[1]) else z3.If(c, s[1], t[1])))
                elif s[0] in ('f', 't') and s[1] == t[1]: steps.append(s)
                else: raise NoMerge('ghost %s' % k)
            return PathV(a.root, steps, a.epoch)
        if isinstance(a, ClassV) and isinstance(b, ClassV) and a.name == b.name: return a
        if isinstance(a, (FuncV, BuiltinV, ModV, PartialV)) : 
            if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node: return a
            raise NoMerge()
        if isinstance(a, UnboundT) and isinstance(b, UnboundT): return a
        # different kinds: a guarded union
        ok = (NoneT, Num, BoolV, VecC, TupleV, RecV, ObjC, ListC, SymV, Guarded, LocV, UnboundT, StrV, CharV, PathV)
        if isinstance(a, ok) and isinstance(b, ok):
            alts = []
            for cc, v in ((c, a), (neg(c), b)):
                if isinstance(v, Guarded): alts += [(z3.And(cc, d), x) for d, x in v.alts]
                else: alts.append((cc, v))
            merged = []
            for d, x in alts:       # fuse alternatives of the same kind
                for i, (e, y) in enumerate(merged):
                    if x is NONE and y is NONE or (isinstance(x, RecV) and isinstance(y, RecV) and x.cls == y.cls) or (type(x) is type(y) and isinstance(x, (VecC, ListC, Num, BoolV))) or (isinstance(x, SymV) and isinstance(y, SymV) and x.cls == y.cls):
                        try:
                            merged[i] = (z3.Or(e, d), self.merge_pure(e, y, x)); break
                        except NoMerge: pass
                else: merged.append((d, x))
            return Guarded(merged) if len(merged) > 1 else merged[0][1]
        raise NoMerge()

    def merge(self, base_pc, base_facts, s1, s2):
        """join two states that share the first base_pc / base_facts hypotheses"""
        c1, c2 = s1.pc[base_pc:], s2.pc[base_pc:]
        common = []
        while c1 and c2 and c1[0].eq(c2[0]):
            common.append(c1.pop(0)); c2.pop(0)
        if any(not qfree(x) for x in c1): 
            if any(not qfree(x) for x in c2): raise NoMerge()
            c = neg(conj(c2))
        else:
            c = conj(c1)
        if s1.ctx is not s2.ctx and not (len(s1.ctx) == len(s2.ctx) and all(a.eq(b) for a, b in zip(s1.ctx, s2.ctx))): raise NoMerge()
        c = z3.simplify(c) if qfree(c) else c
        out = s1.copy()
        out.pc = s1.pc[:base_pc] + common
        defs = []
        def named(t):
            if not self.name_conditions or not qfree(t) or dag_size(t, self.name_conditions) < self.name_conditions: return t
            b = self.fresh(s1, 'path', B)
            defs.append(b == t)
            return b
        if self.name_conditions and all(qfree(x) for x in c1 + c2):
            x1 = c = named(c); x2 = named(z3.simplify(conj(c2)))
            d = z3.simplify(z3.Or(x1, x2))
        else: d = z3.simplify(z3.Or(conj(c1), conj(c2))) if all(qfree(x) for x in c1 + c2) else z3.Or(conj(c1), conj(c2))
        if not z3.is_true(d):
            complementary = len(c1) == 1 and len(c2) == 1 and neg(c1[0]).eq(c2[0])
            if not complementary: out.pc.append(d)
        out.facts = list(s1.facts[:base_facts]) + defs
        f1, f2 = s1.facts[base_facts:], s2.facts[base_facts:]
        ids2 = {f.get_id() for f in f2}
        ids1 = {f.get_id() for f in f1}
        out.facts += [f if f.get_id() in ids2 else z3.Implies(c, f) for f in f1]
        out.facts += [z3.Implies(neg(c), f) for f in f2 if f.get_id() not in ids1]
        # environment and reachable heap
        pair = {}
        def loc(a, b):
            if a.id == b.id:
                if (a.id, a.id) not in pair:
                    pair[(a.id, a.id)] = a
                    x, y = s1.heap[a.id], s2.heap[a.id]
                    if s1.epoch[a.id] != s2.epoch[a.id]: out.epoch[a.id] = max(s1.epoch[a.id], s2.epoch[a.id]) + 1
                    if x is not y: out.heap[a.id] = content(x, y); merge_wpath(s1, s2, out, a.id)
                return a
            if (a.id, b.id) in pair: return pair[(a.id, b.id)]
            for (p, q) in pair:
                if p == a.id or q == b.id: raise NoMerge()
            if a.id in s2.heap or b.id in s1.heap: raise NoMerge()   # an older object against another one
            n = LocV(uid())
            pair[(a.id, b.id)] = n
            out.heap[n.id] = content(s1.heap[a.id], s2.heap[b.id])
            out.epoch[n.id] = 0
            fl = frozenset(s1.flags.get(a.id, ())) | frozenset(s2.flags.get(b.id, ()))
            if fl: out.flags[n.id] = fl
            return n
        def content(x, y):
            if x is y: return x
            if isinstance(x, ObjC) and isinstance(y, ObjC):
                if x.cls != y.cls or set(x.fields) != set(y.fields): raise NoMerge()
                return ObjC(x.cls, {k: val(x.fields[k], y.fields[k]) for k in x.fields})
            if isinstance(x, IterC) or isinstance(y, IterC): raise NoMerge()
            return self.merge_pure(c, x, y)
        def val(a, b):
            if a is b: return a
            if isinstance(a, LocV) and isinstance(b, LocV): return loc(a, b)
            if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
                return TupleV([val(x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, RecV) and isinstance(b, RecV) and a.cls == b.cls:
                return RecV(a.cls, {k: val(a.fields[k], b.fields[k]) for k in a.fields})
            if isinstance(a, LocV) or isinstance(b, LocV) or isinstance(a, Guarded) or isinstance(b, Guarded):
                # keep as a union, but only over objects that both states can see safely
                alts = []
                for cc, v, s in ((c, a, s1), (neg(c), b, s2)):
                    for d, x in (v.alts if isinstance(v, Guarded) else [(z3.BoolVal(True), v)]):
                        alts.append((conj([cc, d]), x, s))
                for d, x, s in alts:
                    for l in locs_in(x):
                        if l not in out.heap: out.heap[l] = s.heap[l]; out.epoch[l] = s.epoch[l]; out.flags[l] = s.flags.get(l, frozenset())
                        self_copy(s, l, out)
                return self.fuse_alts([(d, x) for d, x, s in alts])
            return self.merge_pure(c, a, b)
        def locs_in(x):
            if isinstance(x, LocV): return [x.id]
            if isinstance(x, TupleV): return [l for y in x.items for l in locs_in(y)]
            if isinstance(x, (RecV, ObjC)): return [l for y in x.fields.values() for l in locs_in(y)]
            return []
        def self_copy(s, l, out, seen=None):
            for m in locs_in(s.heap[l]):
                if m not in out.heap:
                    out.heap[m] = s.heap[m]; out.epoch[m] = s.epoch[m]; out.flags[m] = s.flags.get(m, frozenset())
                    self_copy(s, m, out)
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, UNBOUND), s2.env.get(k, UNBOUND)
            if type(a).__name__ == 'DeadV' or type(b).__name__ == 'DeadV':
                if a is b: env[k] = a
                else:
                    d = a if type(a).__name__ == 'DeadV' else b
                    env[k] = type(d)(k, None)
                continue
            if a is UNBOUND or b is UNBOUND:
                v = a if b is UNBOUND else b
                s = s1 if b is UNBOUND else s2
                cc = c if b is UNBOUND else neg(c)
                for l in locs_in(v):
                    if l not in out.heap: out.heap[l] = s.heap[l]; out.epoch[l] = s.epoch[l]; out.flags[l] = s.flags.get(l, frozenset())
                    self_copy(s, l, out)
                if isinstance(v, Guarded) : 
                    for d, x in v.alts:
                        for l in locs_in(x):
                            if l not in out.heap: out.heap[l] = s.heap[l]; out.epoch[l] = s.epoch[l]; out.flags[l] = s.flags.get(l, frozenset())
                            self_copy(s, l, out)
                env[k] = Guarded([(cc, v), (neg(cc), UNBOUND)]) if not isinstance(v, Guarded) else self.fuse_alts([(z3.And(cc, d), x) for d, x in v.alts] + [(neg(cc), UNBOUND)])
            else: env[k] = val(a, b)
        out.env = env
        for l in set(s1.heap) & set(s2.heap):
            x, y = s1.heap[l], s2.heap[l]
            if (l, l) in pair: continue
            pair[(l, l)] = LocV(l)
            if x is not y: out.heap[l] = content(x, y); merge_wpath(s1, s2, out, l)
            if s1.epoch[l] != s2.epoch[l]: out.epoch[l] = max(s1.epoch[l], s2.epoch[l]) + 1
        for key in set(s1.epoch) | set(s2.epoch):
            if isinstance(key, tuple) and s1.epoch.get(key, 0) != s2.epoch.get(key, 0): out.epoch[key] = max(s1.epoch.get(key, 0), s2.epoch.get(key, 0)) + 1
        for l in set(s1.heap) & set(s2.heap):
            f = frozenset(s1.flags.get(l, ())) | frozenset(s2.flags.get(l, ()))
            if f: out.flags[l] = f
        # symbolic object heap
        for key in set(s1.sym) | set(s2.sym):
            a, b = s1.sym.get(key), s2.sym.get(key)
            if a is None: a = self.sym_arrays(s1, *key)     # never touched: the arrays of the start
            if b is None: b = self.sym_arrays(s2, *key)
            if True: out.sym[key] = [x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a, b)]
        if s1.alloc is not None and s2.alloc is not None:
            out.alloc = s1.alloc if s1.alloc.eq(s2.alloc) else z3.If(c, s1.alloc, s2.alloc)
        g = {}
        for k in set(s1.ghost) | set(s2.ghost):
            a, b = s1.ghost.get(k), s2.ghost.get(k)
            if a is b: g[k] = a
            elif isinstance(a, V) and isinstance(b, V): g[k] = self.merge_pure(c, a, b)
            elif a == b: g[k] = a
            elif k.startswith('%gen') and (a is None or b is None): g[k] = b if a is None else a      # of an iterator that only one of the states has
            else: raise NoMerge('ghost %s' % k)
        out.ghost = g
        return out, c, val

    def fuse_alts(self, alts):
        merged = []
        for d, x in alts:
            for i, (e, y) in enumerate(merged):
                if isinstance(x, SymV) and isinstance(y, SymV) and x.cls == y.cls:
                    merged[i] = (z3.Or(e, d), x if x.t.eq(y.t) else SymV(x.cls, z3.If(e, y.t, x.t))); break
                if x is NONE and y is NONE or x is UNBOUND and y is UNBOUND or x is y or (isinstance(x, LocV) and isinstance(y, LocV) and x.id == y.id):
                    merged[i] = (z3.Or(e, d), y); break
            else: merged.append((d, x))
        return merged[0][1] if len(merged) == 1 else Guarded(merged)

    def merge_list(self, base_pc, base_facts, outs, withval=False):
        """outs: [(st, v)] or [st]; merge greedily"""
        res = []
        for o in outs:
            done = False
            for i, r in enumerate(res):
                try:
                    if self.keep_apart is not None and self.keep_apart(*((r[0], o[0]) if withval else (r, o))): continue
                    if withval:
                        s1, s2 = r[0].copy(), o[0].copy()
                        s1.env = dict(s1.env); s2.env = dict(s2.env)
                        s1.env['%ret'], s2.env['%ret'] = r[1], o[1]
                        m, c, val = self.merge(base_pc, base_facts, s1, s2)
                        v = m.env.pop('%ret')
                        res[i] = (m, v)
                    else:
                        m, c, val = self.merge(base_pc, base_facts, r, o)
                        res[i] = m
                    done = True
                    break
                except (NoMerge, Unsupported):
                    continue
            if not done: res.append(o)
        return res

    # ---- guarded values -----------------------------------------------------------
    def narrow(self, st, v):
        """v without the alternatives the path excludes"""
        if not isinstance(v, Guarded): return v
        known = literals(st.pc)
        live = [(c, x) for c, x in v.alts if not any((i, not p) in known for i, p in literals([z3.simplify(c)]))]
        return live[0][1] if len(live) == 1 else v

    def split(self, st, v):
        """-> [(st, concrete alternative)]"""
        if not isinstance(v, Guarded): return [(st, v)]
        out = []
        pcs = {p.get_id() for p in st.pc} 
        live = []
        for c, x in v.alts:
            cs = z3.simplify(c)
            if z3.is_false(cs): continue
            live.append((cs, x))
        if len(live) > 1:
            known = literals(st.pc)
            live = [(cs, x) for cs, x in live if not any((i, not p) in known for i, p in literals([cs]))]
        for cs, x in live:
            if z3.is_true(cs): return self.split(st, x) if isinstance(x, Guarded) else [(st, x)]
        for cs, x in live:
            if not self.feasible(st, cs, force=self.light and x is NONE): continue
            s = st.copy()
            if cs.get_id() not in pcs: s.assume(cs)
            if isinstance(x, Guarded): out += self.split(s, x)
            else: out.append((s, x))
        return out

    # ---- symbolic objects ------------------------------------------------------------
    def sym_arrays(self, st, cls, field):
        key = (cls, field)
        if key not in st.sym:
            t = self.symclasses[cls][field]
            st.sym[key] = [z3.Const('%s.%s.%d' % (cls, field, i), z3.ArraySort(I, s)) for i, s in enumerate(self.leaf_sorts(t))]
        return st.sym[key]

    def leaf_sorts(self, t):
        if t.k in ('int', 'sym', 'char', 'opaque'): return [I]
        if t.k == 'real': return [R]
        if t.k == 'bool': return [B]
        if t.k == 'vec': return [R] * t.a[0]
        if t.k in ('rec', 'obj'): return [s for _, x in t.a[1] for s in self.leaf_sorts(x)]
        if t.k == 'host': return []
        raise Unsupported('field type %s' % t)

    def build_leaf(self, t, it):
        if t.k == 'int': return Num(next(it))
        if t.k == 'real': return Num(next(it))
        if t.k == 'bool': return BoolV(next(it))
        if t.k == 'sym': return SymV(t.a[0], next(it))
        if t.k == 'opaque': return OpaqueV(next(it))
        if t.k == 'vec': return VecC([next(it) for _ in range(t.a[0])])
        if t.k == 'rec': return RecV(t.a[0], {f: self.build_leaf(x, it) for f, x in t.a[1]})
        if t.k == 'obj': return ObjC(t.a[0], {f: self.build_leaf(x, it) for f, x in t.a[1]})
        if t.k == 'host': return t.a[0]
        raise Unsupported(str(t))

    def sym_get(self, st, obj, field, ref=None):
        t = self.symclasses[obj.cls][field]
        arrs = self.sym_arrays(st, obj.cls, field)
        it = iter([z3.Select(a, obj.t) for a in arrs])
        return self.build_leaf(t, it)

    def sym_leafvals(self, t, v):
        if t.k == 'host': return []
        if t.k in ('int', 'bool', 'opaque'): return [v.t]
        if t.k == 'real': return [to_real(v.t)]
        if t.k == 'sym':
            if v is NONE: return [z3.IntVal(0)]
            if isinstance(v, SymV): return [v.t]
            if isinstance(v, Guarded):
                r = None
                for c, x in reversed(v.alts):
                    y = self.sym_leafvals(t, x)[0]
                    r = y if r is None else z3.If(c, y, r)
                return [r]
        if t.k == 'vec' and isinstance(v, VecC): return list(v.xs)
        if t.k in ('rec', 'obj'):
            return [s for f, x in t.a[1] for s in self.sym_leafvals(x, v.fields[f])]
        raise Unsupported('store %r as %s' % (v, t))

    def sym_set(self, st, obj, field, v):
        if field not in self.symclasses[obj.cls]: raise Unsupported('field %s.%s' % (obj.cls, field))
        t = self.symclasses[obj.cls][field]
        arrs = self.sym_arrays(st, obj.cls, field)
        if t.k == 'sym' and isinstance(v, LocV) and isinstance(st.heap.get(v.id), ObjC) and st.heap[v.id].cls == t.a[0]:
            v = SymV(t.a[0], z3.Int('object&%d' % v.id))        # the identity of an object outside the symbolic heap
        vals = self.sym_leafvals(t, self.purify(st, v, share=True))
        st.sym[(obj.cls, field)] = [z3.Store(a, obj.t, x) for a, x in zip(arrs, vals)]
        log = st.ghost.get('%written')
        if log is not None: st.ghost['%written'] = log | {(obj.cls, field)}

    def sym_alloc(self, st):
        if st.alloc is None: st.alloc = z3.Int('alloc0'); st.fact(st.alloc > 0)
        return st.alloc

    def sym_new(self, st, cls):
        if st.alloc is None: st.alloc = z3.Int('alloc0'); st.fact(st.alloc > 0)
        r = st.alloc
        st.alloc = z3.simplify(st.alloc + 1)
        return SymV(cls, r)
    def dict_set(self, d, key, val):
        def get(k):
            c = z3.simplify(self.veq0(k, key))
            if z3.is_true(c): return val, []
            x, f = d.get(k)
            if z3.is_false(c): return x, f
            return self.vite(c, val, x), [z3.Implies(neg(c), q) for q in f]
        kt, vt = type_of(key), type_of(val)
        if d.kt is not None: kt = join(kt, d.kt)
        if d.vt is not None: vt = join(vt, d.vt)
        return DictC(lambda k: z3.Or(self.veq0(k, key), d.has(k)), get, None, d.default, d.name, ('set', d, key, val), kt, vt)
