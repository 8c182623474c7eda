"""Loops and comprehensions: closed forms where the loop builds a list or sums up, inferred and
supplied invariants (checked for inductiveness) for everything else."""
import ast, os
import z3
from .values import *
from .engine import State, NoMerge, PathKey, common_steps, conj, disj, neg, qfree

DEBUG = bool(os.environ.get('PYVC_HINTS'))
SCALE = float(os.environ.get('PYVC_SCALE', '1'))

class DeadV(V):
    """a name whose value at this point is not tracked; reading it restarts or aborts the analysis"""
    __slots__ = ('name', 'thunk')
    def __init__(self, name, thunk=None): self.name, self.thunk = name, thunk

class DeadRead(Exception):
    def __init__(self, name): self.name = name

class IterView:
    __slots__ = ('n', 'get', 'live', 'lst', 'reads')
    def __init__(self, n, get, live=None, lst=None): self.n, self.get, self.live, self.lst, self.reads = n, get, live, lst, ()

class LoopInfo:
    """what invariant hints see"""
    def __init__(self): pass

def pats(v, *ts):
    from .contract import pattern_ok
    return dict(patterns=[t for t in ts if pattern_ok(t) and v.decl().name() in symbols(t)])

def deltat(t, h):
    """t - h, pushed through conditionals"""
    if t.eq(h): return z3.IntVal(0) if t.sort() == I else z3.RealVal(0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), deltat(t.arg(1), h), deltat(t.arg(2), h))
    return z3.simplify(t - h)

_prefix_cache = {}

class Loops:
    UNROLL = 5

    # ---- prefix sums, filters, flattening -------------------------------------------
    def mk_prefix(self, st, k, d, nonneg=False):
        """function S with S(0)=0, S(j+1)=S(j)+d(j)"""
        d = z3.simplify(d) if not z3.is_quantifier(d) else d
        canon = z3.Const('K!canon', I)
        dc = z3.substitute(d, (k, canon))
        key = (dc.get_id(), tuple(c.get_id() for c in st.ctx))
        r = _prefix_cache.get(key)
        if r is None:
            f = self.fresh_fun(st, 'psum', I, d.sort())
            r = (f, dc, list(st.ctx))
            _prefix_cache[key] = r
        f = r[0]
        j = z3.Int('j?%d' % uid())
        dj = z3.substitute(d, (k, j))
        st.fact(f(z3.IntVal(0)) == (0 if d.sort() == I else z3.RealVal(0)))
        st.fact(z3.ForAll([j], z3.Implies(j >= 0, f(j + 1) == f(j) + dj), patterns=[f(j + 1)]))
        st.fact(z3.ForAll([j], z3.Implies(j >= 0, f(j + 1) == f(j) + dj), patterns=[f(j)]))
        if nonneg:
            i = z3.Int('i?%d' % uid())
            st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), f(i) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
            st.fact(z3.ForAll([j], z3.Implies(0 <= j, f(j) >= 0), patterns=[f(j)]))
        return f

    def mk_filter(self, st, n, k, c, val, facts):
        """elements val(k) for the k in [0,n) with c(k), in order"""
        d = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        m = self.mk_prefix(st, k, d, nonneg=True)
        canon = z3.Const('K!canon', I)
        ct = z3.substitute(c, (k, canon))
        key = ('src', ct.get_id(), tuple(x.get_id() for x in st.ctx))
        r = _prefix_cache.get(key)
        if r is None:
            r = (self.fresh_fun(st, 'fsrc', I, I), ct, list(st.ctx))
            _prefix_cache[key] = r
        s = r[0]
        p, q, i = z3.Int('p?%d' % uid()), z3.Int('q?%d' % uid()), z3.Int('i?%d' % uid())
        ci = z3.substitute(c, (k, i))
        cs = z3.substitute(c, (k, s(p)))
        st.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < m(n)), z3.And(0 <= s(p), s(p) < n, cs, m(s(p)) == p)), patterns=[s(p)]))
        st.fact(z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < m(n)), s(p) < s(q)), patterns=[z3.MultiPattern(s(p), s(q))]))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, ci), z3.And(m(i) < m(n), s(m(i)) == i)), patterns=[m(i)]))
        # also triggered by the condition itself when it has a pattern
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), m(i) <= i), patterns=[m(i)]))
        w = self.fresh(st, 'fwit', I)
        st.fact(z3.Implies(m(n) == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(ci)))))
        def fn(idx):
            sub = substf([(k, s(idx))])
            return vmap(val, sub), [z3.Implies(z3.And(0 <= idx, idx < m(n)), z3.And(0 <= s(idx), s(idx) < n, sub(c), m(s(idx)) == idx))] + [sub(f) for f in facts]
        return ListC(m(n), fn, prov=('filter', n, k, c, val, m, s), etype=type_of(val)), m, s

    def mk_flatten(self, st, n, k, inner):
        """concatenation of the lists inner(k), k in [0,n)"""
        l = inner.n
        O = self.mk_prefix(st, k, l, nonneg=True)
        canon = z3.Const('K!canon', I)
        ct = z3.substitute(z3.simplify(l), (k, canon))
        key = ('blk', ct.get_id(), tuple(x.get_id() for x in st.ctx))
        r = _prefix_cache.get(key)
        if r is None:
            r = (self.fresh_fun(st, 'blk', I, I), ct, list(st.ctx))
            _prefix_cache[key] = r
        b = r[0]
        p, i, j = z3.Int('p?%d' % uid()), z3.Int('i?%d' % uid()), z3.Int('j?%d' % uid())
        li = z3.substitute(l, (k, i))
        st.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < O(n)), z3.And(0 <= b(p), b(p) < n, O(b(p)) <= p, p < O(b(p)) + z3.substitute(l, (k, b(p))))), patterns=[b(p)]))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < li), z3.And(O(i) + j < O(n), b(O(i) + j) == i)), patterns=[b(O(i) + j)]))
        st.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), O(i) + li <= O(n)), patterns=[O(i)]))
        def fn(idx):
            bi = b(idx)
            x, f = inner.get(z3.simplify(idx - O(k)))
            # substitute the block number
            sub = substf([(k, bi)])
            return vmap(x, sub), [z3.Implies(z3.And(0 <= idx, idx < O(n)), z3.And(0 <= bi, bi < n, O(bi) <= idx, idx < O(bi) + sub(l)))] + [sub(q) for q in f]
        et = type_of(inner).a[0]
        return ListC(O(n), fn, prov=('flatten', n, k, inner, O, b), etype=et), O, b

    # ---- iterables ---------------------------------------------------------------------
    def iter_view(self, st, v):
        """-> IterView (v already split)"""
        for cut in self.cuts: cut(self, st, v)      # assertions the contract places before the iteration
        if isinstance(v, TupleV):
            items = v.items
            return IterView(z3.IntVal(len(items)), lambda eng, s, i: items[const_int(i)])
        if isinstance(v, RecV):
            items = list(v.fields.values())
            return IterView(z3.IntVal(len(items)), lambda eng, s, i: items[const_int(i)])
        if isinstance(v, (StrV, SeqStr)):
            l = self.bi.strlist(self, v)
            return IterView(l.n, lambda eng, s, i: eng.get_fact(s, l, i), lst=l)
        c = self.read(st, v)
        if isinstance(c, ListC):
            def get(eng, s, i):
                if isinstance(v, LocV) and 'snapshot' in s.flags.get(v.id, ()):
                    return eng.elem(s, v, i)
                return eng.elem(s, v, i)
            return IterView(c.n, get, live=v, lst=c)
        if isinstance(c, VecC):
            xs = c.xs
            return IterView(z3.IntVal(len(xs)), lambda eng, s, i: Num(xs[const_int(i)]))
        if isinstance(c, IterC):
            pos = c.pos
            n = None if c.n is None else z3.simplify(c.n - pos)
            if isinstance(v, LocV):
                st.heap[v.id] = IterC(c.n, c.get, c.n if c.n is not None else pos)
            return IterView(n, lambda eng, s, i: c.get(eng, s, z3.simplify(pos + i)))
        if isinstance(c, DictC):
            if c.keys is None: raise Unsupported('iteration over a dictionary')
            l = c.keys
            return IterView(l.n, lambda eng, s, i: eng.get_fact(s, l, i), lst=l)
        if isinstance(c, SetC):
            l = self.set_enum(st, c)
            return IterView(l.n, lambda eng, s, i: eng.get_fact(s, l, i), lst=l)
        if isinstance(c, (ObjC, SymV)):
            h = getattr(self, 'iter_summaries', {}).get(c.cls)
            if h is not None: return h(self, st, v)
        raise Unsupported('iteration over %s' % type(c).__name__)

    def get_fact(self, st, l, i):
        x, f = l.get(i); st.fact(*f)
        return self.to_env(st, x, ('borrowed',))

    def set_enum(self, st, c):
        """some enumeration of a set"""
        n = self.fresh(st, 'card', I)
        cons = self.elem_ctor(st, c.etype, 'mem', [I])
        st.fact(n >= 0)
        j, i = z3.Int('j?%d' % uid()), z3.Int('i?%d' % uid())
        st.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), c.has(cons(j)))))
        st.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(self.veq0(cons(i), cons(j))))))
        x, vs = self.bound_vals(c.etype)
        pos = self.fresh_fun(st, 'pos', *([v.sort() for v in vs] + [I]))
        st.fact(z3.ForAll(vs, z3.Implies(c.has(x), z3.And(0 <= pos(*vs), pos(*vs) < n, self.veq0(cons(pos(*vs)), x)))))
        return ListC(n, lambda i: (cons(i), [z3.Implies(z3.And(0 <= i, i < n), c.has(cons(i)))]), etype=c.etype, prov=('enum', c))

    # ---- comprehensions ----------------------------------------------------------------
    def single(self, bp, bf, outs, what):
        """merge to one state"""
        for s, v in outs:
            if isinstance(v, RaiseV): raise Unsupported('exception inside ' + what)
        if len(outs) > 1: outs = self.merge_list(bp, bf, outs, withval=True)
        if len(outs) != 1: raise Unsupported('%s with %d outcomes' % (what, len(outs)))
        return outs[0]

    def comp(self, elt, gens, st):
        """-> [(st, ListC)]"""
        g = gens[0]
        out = []
        for s0, itv in self.ev(g.iter, st):
            if isinstance(itv, RaiseV): out.append((s0, itv)); continue
            for s, it in self.split(s0, itv):
                view = self.iter_view(s, it)
                if view.n is None: raise Unsupported('comprehension over an infinite iterator')
                cn = const_int(view.n)
                saved = dict(s.env)
                if cn is not None and cn <= self.UNROLL:
                    res = self.comp_unroll(elt, g, gens, s, view, cn)
                else:
                    res = [self.comp_sym(elt, g, gens, s, view)]
                for s2, l in res:
                    s2.env = dict(saved)
                    out.append((s2, l))
        return out

    def comp_cond(self, ifs, s):
        """conjunction of the conditions -> (state, term)"""
        c = z3.BoolVal(True)
        for e in ifs:
            bp, bf = len(s.pc), len(s.facts)
            r = [(a, BoolV(b) if not isinstance(b, RaiseV) else b) for a, b in self.ev_cond(e, s)]
            s, b = self.single(bp, bf, r, 'a comprehension condition')
            c = z3.And(c, b.t) if not z3.is_true(c) else b.t
            # later conditions are evaluated only if this one holds
            if len(ifs) > 1: s.assume(b.t)
        return s, c

    def comp_unroll(self, elt, g, gens, s, view, cn):
        cur = [(s, self.list_of([]))]
        for i in range(cn):
            nxt = []
            for s1, acc in cur:
                v = view.get(self, s1, z3.IntVal(i))
                for s2 in self.assign(s1, g.target, v):
                    states = [(s2, True)]
                    for e in g.ifs:
                        r = []
                        for s3, ok in states:
                            if not ok: r.append((s3, False)); continue
                            for s4, c in self.ev_cond(e, s3):
                                if isinstance(c, RaiseV): raise Unsupported('exception in comprehension')
                                r += self.branch(s4, c)
                        states = r
                    for s3, ok in states:
                        if not ok: nxt.append((s3, acc)); continue
                        if len(gens) > 1:
                            for s4, l in self.comp(elt, gens[1:], s3):
                                nxt.append((s4, self.list_concat(acc, l)))
                        else:
                            for s4, x in self.ev(elt, s3):
                                if isinstance(x, RaiseV): raise Unsupported('exception in comprehension')
                                nxt.append((s4, self.list_append(acc, self.purify(s4, x, True))))
            if len(nxt) > 1 and len(cur) == 1:
                nxt = self.merge_list(len(s.pc), len(s.facts), nxt, withval=True)
            cur = nxt
            if len(cur) > 64: raise Unsupported('comprehension unrolling')
        return cur

    def comp_sym(self, elt, g, gens, s, view):
        n = view.n
        k = self.fresh(s, 'c', I)
        octx = s.ctx
        bp0, bf0 = len(s.pc), len(s.facts)
        u0 = uid()
        w = s.copy()
        w.ctx = list(octx) + [k]
        w.assume(0 <= k, k < n)
        hp, hf = len(w.pc), len(w.facts)
        v = view.get(self, w, k)
        r = self.assign(w, g.target, v)
        if len(r) != 1: raise Unsupported('comprehension target')
        w = r[0]
        w, c = self.comp_cond(g.ifs, w)
        cond_fact = (len(w.pc), len(w.facts))
        c = z3.simplify(c) if qfree(c) else c
        facts_pre = [f for f in w.facts[hf:]] + [f for f in w.pc[hp:]] if len(g.ifs) <= 1 else [f for f in w.facts[hf:]]
        filt = not z3.is_true(c)
        if filt: w.assume(c)
        if z3.is_false(c): 
            return s, self.list_of([])
        bp, bf = len(w.pc), len(w.facts)
        if len(gens) > 1:
            r = self.comp(elt, gens[1:], w)
            w, inner = self.single(bp, bf, r, 'a nested comprehension')
            val = inner
        else:
            w, x = self.single(bp, bf, self.ev(elt, w), 'a comprehension element')
            val = self.purify(w, x, True)
        facts_post = w.facts[bf:] + w.pc[bp:]
        for l in s.heap:
            if w.heap.get(l) is not s.heap[l] and not isinstance(s.heap[l], IterC):
                raise Unsupported('side effect in a comprehension')
        for l, f in w.flags.items():
            if l in s.heap: s.flags[l] = f
        for l in w.heap:      # locations made while evaluating (constants of the module etc.)
            if l not in s.heap: s.heap[l] = w.heap[l]; s.epoch[l] = w.epoch[l]; s.flags.setdefault(l, w.flags.get(l, frozenset()))
        s.ghost.update({a: b for a, b in w.ghost.items() if a not in s.ghost})
        for key, arr in w.sym.items(): s.sym.setdefault(key, arr)
        self.trace_fact(s, k, n, facts_pre)
        allf = self.relevant_facts(val, facts_pre + facts_post, u0)
        if len(gens) > 1:
            if filt:
                e = self.list_of([])
                inner2 = ListC(z3.If(c, inner.n, 0), inner.fn, etype=inner.etype)
                inner = inner2
            self.trace_fact(s, k, n, facts_post, c if filt else None)
            inner = self.with_facts(inner, allf)
            l, O, b = self.mk_flatten(s, n, k, inner)
            return s, l
        self.trace_fact(s, k, n, facts_post, c if filt else None)
        if filt:
            l, m, src = self.mk_filter(s, n, k, c, val, allf)
            if view.lst is not None and val is not None: l.prov = l.prov + (view.lst,)
            return s, l
        l = self.list_map(n, s, k, val, allf)
        s.fact(n >= 0) if not z3.is_int_value(n) else None
        # identity map keeps the multiset view
        if view.lst is not None and view.lst.cnt is not None:
            y, _ = view.lst.get(k)
            try:
                if z3.is_true(z3.simplify(self.veq0(val, y))): l.cnt = view.lst.cnt; l.prov = ('copy', view.lst)
            except Unsupported: pass
        return s, l

    def with_facts(self, l, facts):
        if not facts: return l
        return ListC(l.n, lambda i: (l.get(i)[0], l.get(i)[1] + facts), prov=l.prov, cnt=l.cnt, etype=l.etype)

    def relevant_facts(self, val, facts, u0, quant=False):
        """the facts that constrain symbols of val made after u0"""
        def new(t):
            r = set()
            for s in symbols(t):
                if '!' in s:
                    try:
                        if int(s.rsplit('!', 1)[1]) >= u0: r.add(s)
                    except ValueError: pass
            return r
        cur = set()
        try:
            for t in leaves(val): cur |= new(t)
        except Unsupported: pass
        if not cur: return []
        fs = [(f, new(f)) for f in facts if quant or qfree(f)]
        keep, changed = [], True
        used = set()
        while changed:
            changed = False
            for i, (f, sy) in enumerate(fs):
                if i in used: continue
                if sy & cur:
                    used.add(i); keep.append(f)
                    if not sy <= cur: cur |= sy; changed = True
        return keep

    def trace_fact(self, st, k, n, facts, cond=None, lo=None):
        """forall k in [0,n): facts(k)"""
        kn = symbols(k)
        for f in facts:
            if not (kn & symbols(f)):
                if cond is None and qfree(f) and False: pass
                # does not depend on the index: holds if there is an iteration
                hyp = [n > 0]
                if cond is not None: continue
                st.fact(z3.Implies(conj(hyp), f))
                continue
            j = z3.Int('t?%d' % uid())
            gd = z3.substitute(z3.And(0 <= k, k < n, *( [cond] if cond is not None else [])), (k, j))
            b = z3.substitute(f, (k, j))
            if not has_fun_of(z3.Implies(gd, b), j): continue
            st.fact(forall_flat(j, gd, b))

    # ---- cells -----------------------------------------------------------------------
    def changed_cells(self, a, b, names):
        """cells of state a that differ in state b"""
        out = set()
        for n in set(a.env) | set(b.env):
            if n.startswith('%'): continue
            x, y = a.env.get(n, UNBOUND), b.env.get(n, UNBOUND)
            if x is y: continue
            if isinstance(x, LocV) and isinstance(y, LocV) and x.id == y.id: continue
            if isinstance(x, PathV) and isinstance(y, PathV) and x.root == y.root and x.epoch == y.epoch and len(x.steps) == len(y.steps) and \
                all(s[0] == t[0] and (s[1].eq(t[1]) if s[0] == 'i' else s[1] is t[1] or s[1] == t[1]) for s, t in zip(x.steps, y.steps)): continue
            if isinstance(x, (Num, BoolV, SymV)) and type(x) is type(y) and x.t.eq(y.t): continue
            out.add(('env', n))
        for l in a.heap:
            if l not in b.heap: continue
            if a.heap[l] is not b.heap[l]:
                rec = b.wpath.get(l)
                steps = self.settled(rec[2]) if rec is not None and rec[0] is b.heap[l] and rec[1] is a.heap[l] else ()
                out.add(('at', PathKey(l, steps)) if steps else ('loc', l))
        for key in b.sym:
            x, y = a.sym.get(key), b.sym[key]
            if x is None: 
                x = [z3.Const('%s.%s.%d' % (key[0], key[1], i), t.sort()) for i, t in enumerate(y)]
            if any(not p.eq(q) for p, q in zip(x, y)): out.add(('sym', key))
        if a.alloc is not b.alloc and not (a.alloc is not None and b.alloc is not None and a.alloc.eq(b.alloc)): out.add(('alloc', 0))
        for g in set(a.ghost) | set(b.ghost):
            if g.startswith('%'): continue
            if a.ghost.get(g) is not b.ghost.get(g): out.add(('ghost', g))
        return out

    def settled(self, steps):
        """the part of a path that is the same in every iteration of the current loop"""
        out = []
        for s in steps:
            if s[0] == 'k' or s[0] == 'i' and any('!' in x and (not x.rsplit('!', 1)[1].isdigit() or int(x.rsplit('!', 1)[1]) >= self.loop_u0) for x in symbols(s[1])): break
            out.append(s)
        return tuple(out)

    def regroup(self, ch, cells):
        """parts of the same location that contain each other are one cell; cells drops what is contained"""
        by = {}
        for c in list(ch) + list(cells):
            if c[0] == 'loc': by.setdefault(c[1], []).append(())
            elif c[0] == 'at': by.setdefault(c[1].root, []).append(c[1].steps)
        to = {}
        for root, ps in by.items():
            p = ps[0]
            for q in ps[1:]: p = common_steps(p, q)
            to[root] = ('at', PathKey(root, p)) if p else ('loc', root)
        f = lambda c: to[c[1]] if c[0] == 'loc' else to[c[1].root] if c[0] == 'at' else c
        for c in list(cells):
            if f(c) != c: del cells[c]
        return {f(c) for c in ch}

    def cell_pure(self, st, cell):
        """pure value of a cell, or None if it has none"""
        kind, key = cell
        if kind == 'env':
            v = st.env.get(key, UNBOUND)
            if isinstance(v, DeadV) or v is UNBOUND: return None
            if isinstance(v, Guarded) and any(x is UNBOUND or isinstance(x, DeadV) for _, x in v.alts): return None
            if isinstance(v, (FuncV, ClassV, BuiltinV, ModV, PartialV, BoundV)): return None
            try: return self.purify(st, v)
            except Unsupported: return None
        if kind == 'loc': 
            c = st.heap[key]
            if isinstance(c, IterC): return None
            try: return self.purify(st, c)
            except Unsupported: return None
        if kind == 'at':
            try: return self.purify(st, self.navigate(st, st.heap[key.root], key.steps))
            except Unsupported: return None
        if kind == 'sym': return st.sym.get(key)
        if kind == 'alloc': return st.alloc
        if kind == 'ghost': return st.ghost.get(key)

    def cell_set(self, st, cell, v, ref=None):
        """ref: a state whose heap shows which fields are references"""
        kind, key = cell
        if kind == 'env': st.env[key] = self.to_env(st, v) if not isinstance(v, DeadV) else v
        elif kind == 'loc':
            old = st.heap[key]
            if isinstance(old, ObjC) and isinstance(v, ObjC):
                f = {}
                for n, x in v.fields.items():
                    o = old.fields.get(n)
                    if n in v.fields and isinstance(o, (LocV,)) and (ref is None or not isinstance(ref.heap[key].fields.get(n), LocV) or ref.heap[key].fields[n].id == o.id):
                        f[n] = o       # same reference; its content is its own cell
                    elif isinstance(o, (LocV, PathV)) or isinstance(x, (ListC, VecC, DictC, SetC, ObjC)):
                        f[n] = self.to_env(st, x)
                    else: f[n] = x
                v = ObjC(v.cls, f)
            st.heap[key] = v
        elif kind == 'at': self.put_at(st, key.root, key.steps, v)
        elif kind == 'sym': st.sym[key] = v
        elif kind == 'alloc': st.alloc = v
        elif kind == 'ghost': st.ghost[key] = v

    def fresh_like(self, st, t, name, hint=None):
        return self.fresh_val(st, t, name)

    # ---- for / while -------------------------------------------------------------------
    def st_For(self, n, st):
        from .interp import Outcome
        out = []
        for s0, v in self.ev(n.iter, st):
            if isinstance(v, RaiseV): out.append(Outcome('raise', s0, v)); continue
            for s, it in self.split(s0, v):
                view = self.iter_view(s, it)
                cn = const_int(view.n) if view.n is not None else None
                if cn is not None and cn <= self.UNROLL:
                    out += self.for_unroll(n, s, view, cn)
                else:
                    out += self.loop(n, s, view)
        return out

    def for_unroll(self, n, s, view, cn):
        from .interp import Outcome
        cur, out = [s], []
        bp, bf = len(s.pc), len(s.facts)
        for i in range(cn):
            nxt = []
            for s1 in cur:
                if view.live is not None:
                    c = self.read(s1, view.live)
                    if not z3.simplify(c.n).eq(z3.simplify(view.n)): raise Unsupported('list changes while it is iterated')
                v = view.get(self, s1, z3.IntVal(i))
                for s2 in self.assign(s1, n.target, v):
                    for o in self.block(n.body, s2):
                        if o.kind in ('next', 'continue'): nxt.append(o.st)
                        else: out.append(o)
            if len(nxt) > 1: nxt = self.merge_list(bp, bf, nxt)
            cur = nxt
        res = [o for o in out if o.kind != 'break']
        for s1 in cur: res += self.block(n.orelse, s1) if n.orelse else [Outcome('next', s1)]
        res += [Outcome('next', o.st) for o in out if o.kind == 'break']
        return res

    def st_While(self, n, st):
        return self.loop(n, st, None)

    def loop(self, node, st, view):
        restarts = 0
        live = set()
        if self.havoc_if is not None and self.havoc_if(node, st):
            return self.havoc_loop(node, st, view, Unsupported('by choice of the contract'))
        while True:
            try:
                u = len(self.obls)
                return self.loop1(node, st.copy(), view, live)
            except (Unsupported, NoMerge) as e:
                if not self.havoc: raise
                del self.obls[u:]
                return self.havoc_loop(node, st, view, e)
            except DeadRead as e:
                del self.obls[u:]
                if isinstance(st.env.get(e.name), DeadV): raise
                if e.name in live: raise Unsupported('value of %s at the loop head' % e.name)
                live.add(e.name)
                restarts += 1
                if restarts > 12: raise Unsupported('loop analysis does not settle')

    def digest(self, st, v):
        """text of a value: the same text means the same value"""
        if isinstance(v, DeadV): return 'unset'
        try: x = self.purify(st, v)
        except Unsupported: x = v
        if isinstance(x, ListC):
            k = z3.Int('k!digest')
            y, f = x.get(k)
            return 'list %s %s %s' % (x.n.sexpr(), self.digest(st, y), sorted(g.sexpr() for g in f))
        if isinstance(x, TupleV): return 'tuple %s' % [self.digest(st, y) for y in x.items]
        if isinstance(x, (RecV, ObjC)): return '%s %s' % (getattr(x, 'cls', ''), [(n, self.digest(st, y)) for n, y in sorted(x.fields.items())])
        if isinstance(x, VecC): return 'vec %s' % [t.sexpr() for t in x.xs]
        if isinstance(x, Num): return x.t.sexpr()
        if isinstance(x, BoolV): return x.t.sexpr() if hasattr(x.t, 'sexpr') else str(x.t)
        if isinstance(x, Guarded): return 'alt %s' % [(c.sexpr(), self.digest(st, y)) for c, y in x.alts]
        if isinstance(x, LocV): return 'loc%d' % x.id
        if isinstance(x, OpaqueV): return 'opaque %s' % x.t.sexpr()
        if isinstance(x, (DictC, SetC)):
            kt = getattr(x, 'kt', None) or getattr(x, 'etype', None) or TInt
            key = self.named_val(kt, 'k!digest')
            if key is None: return repr(x)
            try: h = x.has(key)
            except Exception: return repr(x)
            if isinstance(x, SetC): return 'set %s' % h.sexpr()
            y, f = x.get(key)
            return 'dict %s %s %s' % (h.sexpr(), self.digest(st, y), sorted(g.sexpr() for g in f))
        if isinstance(x, FuncV): return 'function %s' % id(x.node)
        if isinstance(x, (ModV, BuiltinV, ClassV, StrV)): return '%s %s' % (type(x).__name__, getattr(x, 'name', getattr(x, 's', getattr(x, 'v', ''))))
        if x is NONE: return 'None'
        return repr(x)

    def named_val(self, t, name):
        if t == TInt: return Num(z3.Int(name))
        if t == TReal: return Num(z3.Real(name))
        if t.k == 'vec': return VecC([z3.Real('%s.%d' % (name, i)) for i in range(t.a[0])])
        if t.k == 'tuple':
            r = [self.named_val(x, '%s.%d' % (name, i)) for i, x in enumerate(t.a)]
            return None if any(x is None for x in r) else TupleV(r)
        return None

    def havoc_loop(self, node, st, view, why):
        """a loop outside the subset: everything it may change becomes arbitrary (of the same type); what it
        may change is over-approximated from its text (frame.py)"""
        from .interp import Outcome
        from . import frame
        fr = frame.analyse(self, st, node)
        if fr is None or node.orelse: raise why
        s = st.copy()
        if self.htrace is not None:
            reads = sorted(frame.names_in(node) & set(st.env))
            self.htrace.append(('loop', node.lineno, [(x, self.digest(st, st.env[x])) for x in reads], sorted(fr.mutated)))
        for l in sorted(fr.mutated):
            c = s.heap.get(l)
            if c is None: continue
            if isinstance(c, IterC): raise why
            t = type_of(self.purify(s, c))
            new = self.fresh_val(s, t, 'havoc')
            if isinstance(new, ListC): s.fact(new.n >= 0)
            if isinstance(c, ObjC): self.cell_set(s, ('loc', l), new, st)
            else: s.heap[l] = new
            s.epoch[l] = s.epoch.get(l, 0) + 1
        for n in fr.assigned:
            def th(eng, s2, n=n): raise Unsupported('value of %s after a loop outside the subset' % n)
            s.env[n] = DeadV(n, th)
        self.loop_log.append(dict(fn=st.frame[2] if st.frame else '', line=node.lineno, havoc=sorted(fr.assigned), reason=str(why)))
        self.assumed.add('a loop outside the subset (line %d of %s) is over-approximated by its frame: it may change only %s; element types are kept' % (node.lineno, st.frame[2] if st.frame else '', ', '.join(sorted(fr.names)) or 'nothing'))
        return (self.block(node.orelse, s) if node.orelse else [Outcome('next', s)])

    def run_body(self, node, s, view, k):
        """one iteration from state s -> outcomes; kind 'exit' when a while test fails"""
        from .interp import Outcome
        if view is not None:
            v = view.get(self, s, k)
            outs = []
            for s2 in self.assign(s, node.target, v):
                outs += self.block(node.body, s2)
            return outs
        outs = []
        for s1, c in self.ev_cond(node.test, s):
            if isinstance(c, RaiseV): outs.append(Outcome('raise', s1, c)); continue
            for s2, b in self.branch(s1, c):
                if b: outs += self.block(node.body, s2)
                else: outs.append(Outcome('exit', s2))
        return outs

    def target_names(self, node):
        return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}

    def loop1(self, node, st, view, live):
        from .interp import Outcome
        self.stats['loops'] += 1
        rec, light = self.record, self.light
        self.loop_u0 = lu0 = uid()
        k = self.fresh(st, 'k', I)
        n = view.n if view is not None else None
        octx = st.ctx
        tnames = self.target_names(node.target) if view is not None else set()
        u0 = uid()
        tfacts = []         # what holds of the templates of changed cells by construction

        def head(cells):
            """generic iteration state"""
            s = st.copy()
            s.ctx = list(octx) + [k]
            s.fact(*tfacts)
            s.assume(0 <= k)
            if n is not None: s.assume(k < n)
            for t in tnames: 
                if t not in live: s.env[t] = DeadV(t)
            for c, v in cells.items():
                if v is None: 
                    if c[0] == 'env': s.env[c[1]] = DeadV(c[1])
                    else: raise Unsupported('loop changes a value that cannot be abstracted')
                else: self.cell_set(s, c, v, st)
            keep_flags(s)
            s.wpath = {}
            return s

        sticky = {}         # what the body shares with containers stays shared in later iterations
        torn = set()        # lists the body restructures: paths through them taken before are no longer good
        def note_flags(nx):
            new = False
            for s2 in nx:
                for key, x in s2.epoch.items():
                    if (key[0] if isinstance(key, tuple) else key) in st.heap and x != st.epoch.get(key, 0) + (key in torn) and key not in torn: torn.add(key); new = True
                for l in st.heap:
                    f = set(s2.flags.get(l, ())) & {'shared'}
                    if f - set(st.flags.get(l, ())) - sticky.get(('loc', l), set()): sticky.setdefault(('loc', l), set()).update(f); new = True
                for nm, y in s2.env.items():
                    if isinstance(y, LocV) and y.id not in st.heap:
                        f = set(s2.flags.get(y.id, ())) & {'shared'}
                        if f - sticky.get(('env', nm), set()): sticky.setdefault(('env', nm), set()).update(f); new = True
            return new
        def keep_flags(s):
            for key in torn: s.epoch[key] = max(s.epoch.get(key, 0), st.epoch.get(key, 0)) + 1
            for (kd, key), f in sticky.items():
                l = key if kd == 'loc' else s.env[key].id if isinstance(s.env.get(key), LocV) else None
                if l is not None: s.flags[l] = frozenset(set(s.flags.get(l, ())) | f)

        def mk_opaque(c, new_states):
            """fresh template for a cell"""
            if c[0] == 'env' and (c[1] in tnames or c[1] not in st.env or isinstance(st.env.get(c[1]), DeadV)) and c[1] not in live: return None
            if c[0] == 'env' and c[1] not in live: return None
            init = self.cell_pure(st, c)
            hs = st.copy(); hs.ctx = list(octx) + [k]
            if c[0] == 'sym':
                init = init or None
                arrs = new_states[0].sym[c[1]]
                r = [self.fresh(hs, '%s.%s.%d' % (c[1][0], c[1][1], i), a.sort()) for i, a in enumerate(arrs)]
                return r
            if c[0] == 'alloc':
                return self.fresh(hs, 'alloc', I)
            if init is None:
                if c[0] == 'env' and (c[1] not in st.env or st.env[c[1]] is UNBOUND):
                    raise Unsupported('%s may be read before it is set in a loop' % c[1])
                raise Unsupported('loop changes %s' % (c,))
            t = type_of(init)
            for s2 in new_states:
                p = self.cell_pure(s2, c)
                if p is not None: t = join(t, type_of(p))
            if isinstance(init, ObjC):
                f = {}
                for fn_, x in init.fields.items():
                    same = all(self.same_pure(st, s2, c, fn_) for s2 in new_states)
                    f[fn_] = x if same else self.fresh_val(hs, dict(t.a[1])[fn_], fn_)
                return ObjC(init.cls, f)
            return template(hs, t, c[1] if c[0] == 'env' else 'h%s' % (c[1],), init, [self.cell_pure(s2, c) for s2 in new_states])

        def template(hs, t, name, init, news):
            h = len(hs.facts)
            v = None
            if self.heap_contract is not None and isinstance(init, ListC) and all(isinstance(x, ListC) and self.heap_contract.known(x) for x in [init] + news):
                v = self.heap_contract.fresh(self, hs, t.a[0])
            if v is None:
                v = self.fresh_val(hs, t, name)
                if self.multisets and isinstance(v, ListC) and all(isinstance(x, ListC) and x.cnt for x in [init] + news): self.give_cnt(hs, v)
                if self.multisets and isinstance(v, ListC) and v.etype.k == 'list' and all(isinstance(x, ListC) and self.flat_cnt(x) for x in [init] + news): self.give_fcnt(hs, v)
            tfacts.extend(hs.facts[h:])
            return v

        # 1. which cells change (to a fixed point, everything feasible)
        self.record = False
        self.light = light + 1
        cells = {}
        try:
            for rnd in range(8):
                s = head(cells)
                h0 = s.copy()
                outs = self.run_body(node, s, view, k)
                nx = [o.st for o in outs if o.kind in ('next', 'continue')]
                ch = set()
                self.loop_u0 = lu0
                for o in outs:
                    if o.kind in ('next', 'continue'): ch |= self.changed_cells(h0, o.st, None)
                ch = {c for c in ch if not (c[0] == 'env' and c[1] in tnames and c[1] not in live)}
                # objects that only exist since the head of the loop are contents of variables
                ch = {c for c in ch if not (c[0] == 'loc' and c[1] not in st.heap or c[0] == 'at' and c[1].root not in st.heap)}
                ch = self.regroup(ch, cells)
                more = note_flags(nx)
                new = {c for c in ch if c not in cells or (c[0] == 'env' and c[1] in live and cells[c] is None)}
                # types may widen
                for c in ch:
                    if c in cells and cells[c] is not None and c[0] in ('env', 'loc', 'at'):
                        for s2 in nx:
                            p = self.cell_pure(s2, c)
                            if p is not None:
                                t0 = type_of(cells[c]); t1 = join(t0, type_of(p))
                                if t1 != t0: new.add(c)
                if not new and not more: break
                for c in new:
                    old = cells.get(c)
                    if old is not None and c[0] in ('env', 'loc', 'at') and not isinstance(old, ObjC):
                        t = type_of(old)
                        for s2 in nx:
                            p = self.cell_pure(s2, c)
                            if p is not None: t = join(t, type_of(p))
                        hs = st.copy(); hs.ctx = list(octx) + [k]
                        cells[c] = template(hs, t, str(c[1]) if c[0] == 'env' else 'h', self.cell_pure(st, c), [self.cell_pure(s2, c) for s2 in nx])
                    else: cells[c] = mk_opaque(c, nx)
            else: raise Unsupported('loop: changed state does not settle')
        finally:
            self.record, self.light = rec, light
        if not nx:
            return self.at_most_once(node, st, view, k)
        if view is not None and view.live is not None:
            l = view.live
            root = l.id if isinstance(l, LocV) else l.root
            if any(c[0] == 'loc' and c[1] == root or c[0] == 'at' and c[1].root == root for c in cells):
                for s2 in nx:
                    try: c1, c2 = self.read(h0, l), self.read(s2, l)
                    except Unsupported: raise Unsupported('list changes while it is iterated')
                    if not (isinstance(c2, ListC) and (z3.is_true(z3.simplify(c1.n == c2.n)) or self.entails(s2, c1.n == c2.n, 1000))):
                        raise Unsupported('list changes its length while it is iterated')
        for r in getattr(view, 'reads', ()):
            if ('sym', r) in cells: raise Unsupported('what is iterated over changes in between')
        inits = {c: self.cell_pure(st, c) for c in cells}
        for c in cells:
            if c[0] == 'sym' and inits[c] is None: inits[c] = self.sym_arrays(st, *c[1])
            if c[0] == 'alloc' and inits[c] is None:
                st.alloc = z3.Int('alloc0'); st.fact(st.alloc > 0); inits[c] = st.alloc
        if light:
            return self.light_exit(node, st, view, k, head, cells, outs, inits)

        # 2. closed forms
        closed = set()
        self.record = False
        tried_inplace = set()
        defs = []           # facts about closed forms, valid in every state of the loop
        ctrace = []         # facts about the conditions of filters, valid for all iterations after the loop
        try:
            nxt = None
            for rnd in range(12):
                s = head(cells)
                for f in defs: s.fact(f)
                hp, hf = len(s.pc), len(s.facts)
                ub = uid()
                outs = self.run_body(node, s, view, k)
                nx = [o.st for o in outs if o.kind in ('next', 'continue')]
                if not nx: 
                    return self.restore(rec) or self.at_most_once(node, st, view, k)
                if len(nx) > 1: nx = self.merge_list(hp, hf, nx)
                if len(nx) != 1: nxt = None; break
                nxt = nx[0]
                prog = False
                opq = set()
                for c, v in cells.items():
                    if c in closed or v is None: continue
                    for t in self.cell_leaves(c, v): opq |= {x for x in symbols(t) if '!' in x and not x.startswith('probe!')}
                opq -= symbols(k)
                for oc in octx: opq -= symbols(oc)
                for c, v in cells.items():
                    for t in self.cell_leaves(c, inits[c]) if inits[c] is not None else []: opq -= symbols(t)
                if self.strict_closing: self.taint(opq, nxt.facts[hf:], ub)
                for c in list(cells):
                    if c in closed or cells[c] is None or c[0] in ('sym', 'alloc'): continue
                    newv = self.cell_pure(nxt, c)
                    if newv is None: continue
                    post = nxt.facts[hf:] + nxt.pc[hp:]
                    self.loop_n, self.ctrace, self.loop_view, self.loop_st = n, ctrace, view, st
                    ds = st.copy(); ds.facts = []; ds.ctx = list(octx)
                    r = self.classify(ds, st, inits[c], cells[c], newv, k, opq, post, u0)
                    if r is None and isinstance(newv, ListC) and c not in tried_inplace and isinstance(inits[c], ListC):
                        sp = self.set_prov(newv, cells[c], k)
                        if sp is not None:
                            tried_inplace.add(c)
                            r = self.inplace(ds, inits[c], k, c, node, view, head, cells, defs)
                    if r is not None:
                        cells[c] = r[0]
                        if r[1]: closed.add(c)
                        defs += ds.facts
                        prog = True
                        if r[1] is False: break
                        break
                if not prog: break
        finally:
            self.record = rec
        # 3. invariants for the rest
        opaque = [c for c in cells if c not in closed and cells[c] is not None]
        trace = []
        if nxt is not None:
            fs = nxt.facts[hf:] + nxt.pc[hp:]
            trace = [f for f in fs]
            for c in opaque:
                newv = self.cell_pure(nxt, c)
                try:
                    for a, b in zip(self.scalar_leaves(c, cells[c]), self.scalar_leaves(c, newv)):
                        if a.sort() == b.sort(): trace.append(z3.substitute(a, (k, k + 1)) == b)
                except (Unsupported, TypeError): pass
        def view_at(s):
            return lambda c: self.cell_pure(s, c)
        info = LoopInfo()
        info.node, info.eng, info.st, info.k, info.n, info.view = node, self, st, k, n, view
        info.cells, info.closed, info.opaque, info.inits, info.templates = list(cells), closed, opaque, inits, cells
        info.frame = st.frame
        cands = self.candidates(info) if opaque or True else []
        inv = []
        if cands:
            # head without invariants
            self.record = False
            try:
                s = head(cells)
                for f in defs: s.fact(f)
                self.add_trace(s, k, k, trace)
                base = []
                s0 = st.copy()
                for f in defs: s0.fact(f)
                s0.fact(*( [n >= 0] if n is not None else []))
                v0 = lambda c: inits[c]
                for nm, fn in cands:
                    try: t = fn(v0, z3.IntVal(0))
                    except (Unsupported, NoMerge, AttributeError): continue
                    if t is None: continue
                    if self.entails(s0, t): base.append((nm, fn))
                    elif DEBUG and not nm.startswith('len '): print('hint does not hold at the start:', node.lineno, nm)
                headst = s.copy()
                hv = view_at(headst)
                good = []
                for nm, fn in base:
                    try: t = fn(hv, k)
                    except (Unsupported, NoMerge, AttributeError): continue
                    if t is not None and not z3.is_false(z3.simplify(t)): good.append((nm, fn, t))
                sr = s.copy()
                nexts = None
                for rnd in range(10):
                    if not good: break
                    if nexts is None:
                        try:
                            outs2 = self.run_body(node, sr.copy(), view, k)
                        except Unsupported:
                            q = sr.copy()
                            for nm, fn, t in good: q.fact(t)
                            outs2 = self.run_body(node, q, view, k)
                            nexts = ('dep', [o.st for o in outs2 if o.kind in ('next', 'continue')])
                        else: nexts = ('indep', [o.st for o in outs2 if o.kind in ('next', 'continue')])
                    bad = []
                    for i, (nm, fn, t) in enumerate(good):
                        ok = True
                        for s2 in nexts[1]:
                            try: g = fn(view_at(s2), k + 1)
                            except (Unsupported, NoMerge, AttributeError): ok = False; break
                            if g is None: ok = False; break
                            s3 = s2.copy()
                            s4 = s3.copy()      # often it follows from itself and the quantifier-free ones
                            for j_, (_, _, t2) in enumerate(good):
                                s3.fact(t2)
                                if j_ == i or qfree(t2): s4.fact(t2)
                            if self.hint_ms > 3000 and not qfree(t):
                                from .solve import hint_prove
                                self.stats['houdini'] += 1
                                if hint_prove(s3.facts + s3.pc, s4.facts + s4.pc, g, self.hint_ms): continue
                                ok = False; break
                            if not self.entails(s3, g, int(self.hint_ms * SCALE)): ok = False; break
                        if not ok: bad.append(i)
                        if not ok and DEBUG and not nm.startswith('len '): print('hint is not kept:', node.lineno, nm)
                    if not bad: break
                    good = [g for i, g in enumerate(good) if i not in bad]
                    if nexts[0] == 'dep': nexts = None
                inv = good
            finally:
                self.record = rec
        self.loop_log.append(dict(fn=st.frame[2] if st.frame else '', line=node.lineno,
                                  closed=['%s' % (c[1],) for c in closed], opaque=['%s' % (c[1],) for c in opaque],
                                  invariants=[nm for nm, _, _ in inv], single=nxt is not None))
        # 4. the recorded run
        s = head(cells)
        for f in defs: s.fact(f)
        self.add_trace(s, k, k, trace)
        for nm, fn, t in inv: s.fact(t)
        if self.record:
            s0 = st.copy()
            for f in defs: s0.fact(f)
            s0.fact(*( [n >= 0] if n is not None else []))
            for nm, fn, t in inv:
                self.oblige(s0, 'invariant holds initially: ' + nm, fn(lambda c: inits[c], z3.IntVal(0)), node, 'invariant')
        hp, hf = len(s.pc), len(s.facts)
        hook = getattr(self, 'loop_hook', None)
        outs = self.run_body(node, s.copy(), view, k)
        res = []
        breaks, exits, nexts = [], [], []
        for o in outs:
            o.st.ctx = octx if o.kind not in ('next', 'continue') else o.st.ctx
            if o.kind in ('next', 'continue'): nexts.append(o.st)
            elif o.kind == 'break': breaks.append(o.st)
            elif o.kind == 'exit': exits.append(o.st)
            else: res.append(o)
        if self.record:
            for s2 in nexts:
                for nm, fn, t in inv:
                    self.oblige(s2, 'invariant is preserved: ' + nm, fn(view_at(s2), k + 1), node, 'invariant')
                if hook: hook(self, info, s2)
        # 5. exit
        if view is not None and n is not None:
            e = st.copy()
            e.ctx = octx
            e.fact(n >= 0)
            for f in defs: e.fact(f)
            sub = substf([(k, n)])
            e.fact(*[sub(f) for f in tfacts])
            for c, v in cells.items():
                if v is None: continue
                if c[0] == 'sym': e.sym[c[1]] = [sub(a) for a in v]
                elif c[0] == 'alloc': e.alloc = sub(v)
                else: self.cell_set(e, c, vmap(v, sub), st)
            keep_flags(e)
            self.add_trace(e, k, n, trace + ctrace)
            for nm, fn, t in inv: e.fact(sub(t))
            # element-wise facts of the last iteration for names assigned in the body
            dead = {c[1] for c, v in cells.items() if c[0] == 'env' and v is None} | {t for t in tnames if t not in live}
            for d in dead:
                e.env[d] = self.exit_value(st, d, nxt, k, n)
            exits.append(e)
        for e in exits:
            if view is None:
                pass
            res += self.block(node.orelse, e) if node.orelse else [Outcome('next', e)]
        if getattr(self, 'merge_breaks', False) and len(breaks) > 1: breaks = self.merge_list(hp, hf, breaks)
        for b in breaks: res.append(Outcome('next', b))
        return res

    def give_cnt(self, st, l):
        """name the multiplicities of the elements of a list"""
        try: x, vs = self.bound_vals(l.etype)
        except Unsupported: return
        cnt = self.fresh_fun(st, 'cnt', *([v.sort() for v in vs] + [I]))
        pos = self.fresh_fun(st, 'pos', *([v.sort() for v in vs] + [I]))
        l.cnt = lambda y: cnt(*self.flat(y))
        i = z3.Int('i?%d' % uid())
        xi, f = l.get(i)
        from .contract import forall
        st.fact(forall(vs, cnt(*vs) >= 0, cnt(*vs)))
        st.fact(forall(i, z3.Implies(z3.And(0 <= i, i < l.n), l.cnt(xi) >= 1), self.flat(xi)[0]))
        st.fact(forall(vs, z3.Implies(cnt(*vs) >= 1, z3.And(0 <= pos(*vs), pos(*vs) < l.n, self.veq0(l.get(pos(*vs))[0], x))), cnt(*vs)))

        if self.unique_positions: st.fact(forall(i, z3.Implies(z3.And(0 <= i, i < l.n, l.cnt(xi) <= 1), pos(*self.flat(xi)) == i), self.flat(xi)[0]))

    def give_fcnt(self, st, l):
        """the same for the elements of all lists in a list"""
        try: x, vs = self.bound_vals(l.etype.a[0])
        except Unsupported: return
        so = [v.sort() for v in vs]
        cnt, pf, pi = [self.fresh_fun(st, nm, *(so + [I])) for nm in ('fcnt', 'fpos', 'epos')]
        l.fcnt = lambda y: cnt(*self.flat(y))
        l.flen = self.fresh(st, 'flen', I)
        i, j = z3.Int('i?%d' % uid()), z3.Int('i?%d' % uid())
        li, f = l.get(i)
        xi, g = li.get(j)
        at, _ = l.get(pf(*vs)); at, _ = at.get(pi(*vs))
        from .contract import forall
        l.prov = l.prov or ('places', pf, pi)
        st.fact(forall(vs, cnt(*vs) >= 0, cnt(*vs)))
        inside = z3.And(0 <= i, i < l.n, 0 <= j, j < li.n)
        st.fact(forall([i, j], z3.Implies(inside, z3.And(l.fcnt(xi) >= 1, z3.Implies(l.fcnt(xi) <= 1, z3.And(pf(*self.flat(xi)) == i, pi(*self.flat(xi)) == j)))), self.flat(xi)[0]))
        st.fact(forall(vs, z3.Implies(cnt(*vs) >= 1, z3.And(0 <= pf(*vs), pf(*vs) < l.n, 0 <= pi(*vs), pi(*vs) < l.get(pf(*vs))[0].n, self.veq0(at, x))), cnt(*vs)))

    def restore(self, rec):
        self.record = rec
        return None

    def exit_value(self, st, name, nxt, k, n):
        init = st.env.get(name, UNBOUND)
        if nxt is None: return DeadV(name, None)
        v = nxt.env.get(name, UNBOUND)
        def thunk(eng, s):
            last = v
            if isinstance(last, DeadV) or last is UNBOUND: raise Unsupported('value of %s after the loop' % name)
            if isinstance(last, PathV):
                if eng.epochs(nxt, last.root, last.steps) != last.epoch: raise Unsupported('reference into a restructured list')
                p = vmap(last, substf([(k, n - 1)]))
                x = eng.path(s, p.root, p.steps)
            else:
                x = eng.to_env(s, vmap(eng.purify(nxt, last), substf([(k, z3.simplify(n - 1))])), ('borrowed',))
            ini = init
            if isinstance(ini, DeadV): ini = UNBOUND
            return Guarded([(n > 0, x), (n <= 0, ini)])
        return DeadV(name, thunk)

    def same_pure(self, a, b, cell, field):
        x, y = a.heap[cell[1]].fields.get(field), b.heap[cell[1]].fields.get(field)
        if x is y: return True
        if isinstance(x, LocV) and isinstance(y, LocV) and x.id == y.id: return True
        if isinstance(x, (Num, BoolV, SymV)) and type(x) is type(y): return x.t.eq(y.t)
        return False

    def cell_leaves(self, c, v):
        if c[0] == 'sym': return list(v)
        if c[0] == 'alloc': return [v]
        try: return list(leaves(v))
        except Unsupported: return []

    def scalar_leaves(self, c, v):
        if c[0] == 'sym' : return []
        if c[0] == 'alloc': return []
        if isinstance(v, (Num, BoolV, SymV, CharV)): return [v.t]
        if isinstance(v, VecC): return list(v.xs)
        if isinstance(v, TupleV): return [t for x in v.items for t in self.scalar_leaves(c, x)]
        if isinstance(v, ListC): return [v.n]
        return []

    def add_trace(self, st, k, upto, trace):
        for f in trace:
            if not (symbols(k) & symbols(f)): 
                if qfree(f): st.fact(z3.Implies(upto > 0, f))
                continue
            j = z3.Int('t?%d' % uid())
            b = z3.substitute(f, (k, j))
            if not has_fun_of(b, j): continue
            st.fact(forall_flat(j, z3.And(0 <= j, j < upto), b))

    def at_most_once(self, node, st, view, k):
        """the body never reaches its end: zero or one iteration"""
        from .interp import Outcome
        res = []
        if view is not None:
            for s, b in (self.branch(st, view.n > 0) if view.n is not None else [(st, True)]):
                if b:
                    for o in self.run_body(node, s, view, z3.IntVal(0)):
                        if o.kind == 'break': res.append(Outcome('next', o.st))
                        elif o.kind in ('next', 'continue'): 
                            if z3.is_true(z3.simplify(view.n <= 1)) or not self.feasible(o.st, view.n > 1):
                                res += self.block(node.orelse, o.st) if node.orelse else [Outcome('next', o.st)]
                            else: raise Unsupported('loop analysis (second iteration)')
                        else: res.append(o)
                else: res += self.block(node.orelse, s) if node.orelse else [Outcome('next', s)]
            return res
        for o in self.run_body(node, st, view, z3.IntVal(0)):
            if o.kind == 'break': res.append(Outcome('next', o.st))
            elif o.kind == 'exit': res += self.block(node.orelse, o.st) if node.orelse else [Outcome('next', o.st)]
            elif o.kind in ('next', 'continue'): raise Unsupported('loop analysis (second iteration)')
            else: res.append(o)
        return res

    def light_exit(self, node, st, view, k, head, cells, outs, inits):
        from .interp import Outcome
        res = []
        octx = st.ctx
        for o in outs:
            if o.kind in ('return', 'raise'): o.st.ctx = octx; res.append(o)
        s = head(cells)
        s.ctx = octx
        for c, v in cells.items():
            if c[0] == 'env' and v is None: s.env[c[1]] = DeadV(c[1], lambda eng, s2, c=c: self.light_value(s2, c, outs))
        if view is not None:
            for t in self.target_names(node.target):
                s.env[t] = DeadV(t, lambda eng, s2, t=t: self.light_value(s2, ('env', t), outs))
        res += self.block(node.orelse, s) if node.orelse else [Outcome('next', s)]
        bs = [o.st for o in outs if o.kind == 'break']
        for b in bs:
            b.ctx = octx
            res.append(Outcome('next', b))
        return res

    def light_value(self, s, c, outs):
        for o in outs:
            v = o.st.env.get(c[1])
            if v is not None and not isinstance(v, DeadV) and v is not UNBOUND:
                if isinstance(v, PathV):
                    if self.epochs(o.st, v.root, v.steps) != v.epoch: raise Unsupported('reference into a restructured list')
                    return self.path(s, v.root, v.steps)
                return self.to_env(s, self.purify(o.st, v), ('borrowed',))
        raise Unsupported('value of %s after a loop' % c[1])

    # ---- closed forms ---------------------------------------------------------------------
    def free_of(self, v, opq):
        try:
            for t in leaves(v):
                if symbols(t) & opq: return False
        except Unsupported:
            return False
        return True

    def classify(self, ds, st, init, h, new, k, opq, post, u0):
        """closed form of a cell: (value at iteration k, fully closed) or None.  Facts go to ds."""
        if new is h: return init, True
        if isinstance(h, Num) and isinstance(new, Num) and isinstance(init, Num):
            a, b = unify(new.t, h.t)
            if a.eq(b) or z3.simplify(a == b).eq(z3.BoolVal(True)): return init, True
            d = deltat(a, b)
            if not (symbols(d) & opq):
                d = z3.simplify(d)
                dk = symbols(d) & (symbols(k) | {x for x in symbols(d) if '!' in x and x.rsplit('!', 1)[1].isdigit() and int(x.rsplit('!', 1)[1]) >= u0})
                i0 = init.t if d.sort() == I else to_real(init.t)
                if not dk: return Num(z3.simplify(i0 + (k if d.sort() == I else z3.ToReal(k)) * d)), True
                S = self.mk_prefix(ds, k, d, nonneg=self.nonneg(d))
                if d.sort() == R and init.t.sort() == R or d.sort() == I:
                    return Num(z3.simplify(i0 + S(k)) if z3.is_int_value(i0) else i0 + S(k)), True
                return Num(i0 + S(k)), True
            if not (symbols(new.t) & opq):
                prev = z3.substitute(new.t, (k, k - 1))
                p, q = unify(prev, init.t)
                return Num(z3.If(k == 0, q, p)), True
            return None
        if isinstance(h, BoolV) and isinstance(new, BoolV):
            if new.t.eq(h.t): return init, True
            if not (symbols(new.t) & opq) and qfree(new.t):
                return BoolV(z3.If(k == 0, init.t, z3.substitute(new.t, (k, k - 1)))), True
            return None
        if isinstance(h, VecC) and isinstance(new, VecC) and isinstance(init, VecC):
            xs, full, any_ = [], True, False
            for a, b, c in zip(init.xs, h.xs, new.xs):
                r = self.classify(ds, st, Num(a), Num(b), Num(c), k, opq, post, u0)
                if r is None: xs.append(b); full = False
                else: xs.append(r[0].t); any_ = True
            if full: return VecC(xs), True
            return None
        if isinstance(h, (TupleV,)) and isinstance(new, TupleV) and isinstance(init, TupleV):
            it = []
            for a, b, c in zip(init.items, h.items, new.items):
                r = self.classify(ds, st, a, b, c, k, opq, post, u0)
                if r is None or not r[1]: return None
                it.append(r[0])
            return TupleV(it), True
        if isinstance(h, ObjC) and isinstance(new, ObjC) and isinstance(init, ObjC) and h.cls == new.cls:
            f = {}
            for n in h.fields:
                if n not in new.fields or n not in init.fields: return None
                if new.fields[n] is h.fields[n]: f[n] = init.fields[n]; continue
                r = self.classify(ds, st, init.fields[n], h.fields[n], new.fields[n], k, opq, post, u0)
                if r is None or not r[1]: return None
                f[n] = r[0]
            return ObjC(h.cls, f), True
        if isinstance(h, SymV) and isinstance(new, SymV):
            if new.t.eq(h.t): return init, True
            return None
        if isinstance(h, ListC) and isinstance(new, ListC) and isinstance(init, ListC):
            return self.classify_list(ds, st, init, h, new, k, opq, post, u0)
        if isinstance(h, DictC) and isinstance(new, DictC) and isinstance(init, DictC):
            return self.classify_dict(ds, st, init, h, new, k, opq, post, u0)
        return None

    def classify_dict(self, ds, st, init, h, new, k, opq, post, u0):
        """d[key(k)] = val(k) in every iteration, with pairwise different keys"""
        p = new.prov
        if p is None or p[0] != 'set' or p[1] is not h: return None
        key, val = p[2], p[3]
        if not self.free_of(key, opq) or not self.free_of(val, opq): return None
        try: flat = self.flat(key)
        except Unsupported: return None
        kf = self.relevant_facts(key, post, u0)
        facts = kf + self.relevant_facts(val, post, u0)
        # injective?
        bound = self.loop_n
        up = (lambda t: [t < bound]) if bound is not None else (lambda t: [])
        i, j = z3.Int('i?%d' % uid()), z3.Int('j?%d' % uid())
        t = st.copy(); t.fact(*ds.facts)
        si, sj = substf([(k, i)]), substf([(k, j)])
        t.fact(0 <= i, i < j, *up(j), *[si(f) for f in kf + post if symbols(k) & symbols(f)])
        t.fact(*[sj(f) for f in kf + post if symbols(k) & symbols(f)])
        if not self.entails(t, disj([si(a) != sj(a) for a in flat])): return None
        pos = self.fresh_fun(ds, 'kpos', *([a.sort() for a in flat] + [I]))
        rng = [f for f in kf + post if symbols(k) & symbols(f) and qfree(f)]
        ds.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, *up(i), *[si(f) for f in rng]), pos(*[si(a) for a in flat]) == i)))
        # what the quantified facts of an iteration say about the new symbols in its value
        mine_ = set()
        for f in facts + [z3.BoolVal(True)]: mine_ |= symbols(f)
        for v in (key, val):
            for u in leaves(v): mine_ |= symbols(u)
        new_ = {x for x in mine_ if '!' in x and x.rsplit('!', 1)[1].isdigit() and int(x.rsplit('!', 1)[1]) > u0}
        for f in post:
            if not qfree(f) and symbols(f) & new_ and not symbols(f) & opq:
                ds.fact(forall_flat(i, z3.And(0 <= i, *up(i)), si(f)))
        def at(x):
            q = pos(*self.flat(x))
            return q, substf([(k, q)])
        def mine(x):
            q, sub = at(x)
            return z3.And(0 <= q, q < k, *[sub(a) == b for a, b in zip(flat, self.flat(x))])
        def get(x):
            q, sub = at(x)
            c = mine(x)
            y, f = init.get(x)
            if isinstance(y, OpaqueV): return vmap(val, sub), [z3.Implies(c, sub(g)) for g in facts]
            return self.vite(c, vmap(val, sub), y), [z3.Implies(c, sub(g)) for g in facts] + [z3.Implies(neg(c), g) for g in f]
        keys = None
        if init.keys is not None and const_int(init.keys.n) == 0:
            keys = ListC(k, lambda m: (vmap(key, substf([(k, m)])), [substf([(k, m)])(f) for f in kf]), etype=type_of(key))
        return DictC(lambda x: z3.Or(mine(x), init.has(x)), get, keys, init.default, init.name, None, type_of(key), type_of(val)), True

    def nonneg(self, d):
        if z3.is_int_value(d): return d.as_long() >= 0
        if z3.is_rational_value(d): return d.as_fraction() >= 0
        if z3.is_app_of(d, z3.Z3_OP_ITE): return self.nonneg(d.arg(1)) and self.nonneg(d.arg(2))
        return False

    def list_delta(self, new, h):
        """the list appended to h, or None"""
        if new is h: return self.list_of([])
        p = new.prov
        if p is None: return None
        if p[0] == 'append':
            d = self.list_delta(p[1], h)
            if d is None: return None
            return self.list_append(d, p[2])
        if p[0] == 'concat':
            d = self.list_delta(p[1], h)
            if d is None: return None
            return self.list_concat(d, p[2])
        if p[0] == 'ite':
            a, b = self.list_delta(p[2], h), self.list_delta(p[3], h)
            if a is None or b is None: return None
            if self.is_empty_lit(a) and self.is_empty_lit(b): return a
            if self.is_empty_lit(b) and a.prov and a.prov[0] == 'gated': return self.gated(z3.And(p[1], a.prov[1]), a.prov[2])
            if self.is_empty_lit(a) and b.prov and b.prov[0] == 'gated': return self.gated(z3.And(neg(p[1]), b.prov[1]), b.prov[2])
            if self.is_empty_lit(b): return self.gated(p[1], a)
            if self.is_empty_lit(a): return self.gated(neg(p[1]), b)
            if a.prov and b.prov and a.prov[0] == b.prov[0] == 'gated' and const_int(a.prov[2].n) == const_int(b.prov[2].n) == 1:
                v = self.vite(a.prov[1], a.prov[2].get(0)[0], b.prov[2].get(0)[0])
                return self.gated(z3.simplify(z3.If(p[1], a.prov[1], b.prov[1])), self.list_of([self.vite(p[1], a.prov[2].get(0)[0], b.prov[2].get(0)[0])]))
            return self.vite(p[1], a, b)
        return None

    def gated(self, c, l):
        """l if c else []"""
        return ListC(z3.If(c, l.n, z3.IntVal(0)), lambda i: (l.get(i)[0], [z3.Implies(c, q) for q in l.get(i)[1]]), prov=('gated', c, l), etype=l.etype)

    def deletions(self, ds, init, h, new, k):
        """`del xs[d]` for the d of a strictly descending list of indices: what is left, in order.
        Rule (induction over the iterations): deleting at d leaves everything before d where it was."""
        view, st = self.loop_view, self.loop_st
        if view is None or view.lst is None or new.prov is None or new.prov[0] != 'del' or new.prov[1] is not h or const_int(view.n) is not None: return None
        d = lambda t: view.lst.get(t)
        x, _ = d(k)
        if not isinstance(x, Num) or not x.is_int: return None
        ix = new.prov[2]
        if not (ix.eq(x.t) or z3.is_app(ix) and ix.decl().kind() == z3.Z3_OP_ITE and ix.arg(1).eq(x.t)): return None
        n0, m = init.n, view.n
        a, b = z3.Int('a?%d' % uid()), z3.Int('b?%d' % uid())
        s = st.copy(); s.fact(0 <= a, a < b, b < m)
        (xa, fa), (xb, fb) = d(a), d(b)
        s.fact(*fa, *fb)
        if not self.entails(s, z3.And(xb.t < xa.t, 0 <= xb.t, xa.t < n0), 3000): return None
        if not self.entails(st, z3.Implies(m >= 1, z3.And(0 <= d(z3.IntVal(0))[0].t, d(z3.IntVal(0))[0].t < n0)), 2000): return None
        src, rank = self.fresh_fun(ds, 'dsrc', I, I, I), self.fresh_fun(ds, 'drank', I, I, I)
        pos = self.fresh_fun(ds, 'dpos', I, I)
        gone = lambda k_, i: z3.And(0 <= pos(i), pos(i) < k_, d(pos(i))[0].t == i)
        t, p, q, i = [z3.Int('%s?%d' % (z, uid())) for z in 'tpqi']
        ds.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < m), z3.And(pos(d(a)[0].t) == a, 0 <= d(a)[0].t, d(a)[0].t < n0 - a, *[f for f in d(a)[1] if qfree(f)])), **pats(a, d(a)[0].t)))
        ds.fact(z3.ForAll([t, p], z3.Implies(z3.And(0 <= t, t <= m, 0 <= p, p < n0 - t), z3.And(p <= src(t, p), src(t, p) < n0, rank(t, src(t, p)) == p, z3.Not(gone(t, src(t, p))))), patterns=[src(t, p)]))
        ds.fact(z3.ForAll([t, p, q], z3.Implies(z3.And(0 <= t, t <= m, 0 <= p, p < q, q < n0 - t), src(t, p) < src(t, q)), patterns=[z3.MultiPattern(src(t, p), src(t, q))]))
        ds.fact(z3.ForAll([t, i], z3.Implies(z3.And(0 <= t, t <= m, 0 <= i, i < n0, z3.Not(gone(t, i))), z3.And(0 <= rank(t, i), rank(t, i) < n0 - t, src(t, rank(t, i)) == i)), patterns=[rank(t, i)]))
        def fn(j):
            y, f = init.get(src(k, j))
            return y, f + [z3.Implies(z3.And(0 <= k, k <= m, 0 <= j, j < n0 - k), z3.And(j <= src(k, j), src(k, j) < n0, rank(k, src(k, j)) == j, z3.Not(gone(k, src(k, j)))))]
        r = ListC(n0 - k, fn, prov=('ranks', lambda i: z3.Not(gone(k, i)), lambda i: rank(k, i), lambda p: src(k, p)), etype=init.etype or type_of(init).a[0])
        return r, True

    def classify_list(self, ds, st, init, h, new, k, opq, post, u0):
        r = self.deletions(ds, init, h, new, k)
        if r is not None: return r
        d = self.list_delta(new, h)
        if d is None:
            if new.prov is None or not self.mentions(new, h):
                if self.free_of(new, opq): 
                    prev = vmap(new, substf([(k, k - 1)]))
                    return self.vite(k == 0, init, prev), True
            return None
        if self.is_empty_lit(d): return init, True
        if not self.free_of(d, opq): return None
        n1 = const_int(d.n)
        if d.prov and d.prov[0] == 'gated' and const_int(d.prov[2].n) == 1:
            c = d.prov[1]
            if symbols(c) & opq: return None
            v, f = d.prov[2].get(0)
            facts = f + self.relevant_facts(v, post, u0)
            self.ctrace += self.relevant_facts(BoolV(c), post, u0, True)
            # the filter over [0, k) for a symbolic k
            l, m, s = self.mk_filter_upto(ds, k, c, v, facts)
            return self.list_concat(init, l), True
        if n1 == 1:
            v, f = d.get(0)
            facts = f + self.relevant_facts(v, post, u0)
            def fn(i):
                s = substf([(k, i)])
                return vmap(v, s), [s(q) for q in facts]
            l = ListC(k, fn, etype=type_of(v), prov=('map', k, v))
            return self.list_concat(init, l), True
        facts = self.relevant_facts(d, post, u0)
        l, O, b = self.mk_flatten_upto(ds, k, self.with_facts(d, facts))
        return self.list_concat(init, l), True

    def mentions(self, l, h, depth=0):
        if l is h: return True
        if l.prov is None or depth > 6: return False
        return any(isinstance(x, ListC) and self.mentions(x, h, depth + 1) for x in l.prov[1:])

    def mk_filter_upto(self, ds, k, c, v, facts):
        d = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        m = self.mk_prefix(ds, k, d, nonneg=True)
        canon = z3.Const('K!canon', I)
        ct = z3.substitute(c, (k, canon))
        key = ('src', ct.get_id(), tuple(x.get_id() for x in ds.ctx))
        r = _prefix_cache.get(key)
        if r is None:
            r = (self.fresh_fun(ds, 'fsrc', I, I), ct, list(ds.ctx))
            _prefix_cache[key] = r
        s = r[0]
        # s(p) = the p-th index that satisfies c; defined for every p below some m(j)
        i = z3.Int('i?%d' % uid()); p, q, j = z3.Int('p?%d' % uid()), z3.Int('q?%d' % uid()), z3.Int('j?%d' % uid())
        ci = z3.substitute(c, (k, i))
        ds.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, ci), s(m(i)) == i), patterns=[m(i)]))
        ds.fact(z3.ForAll([p, j], z3.Implies(z3.And(0 <= p, 0 <= j, p < m(j)), z3.And(0 <= s(p), s(p) < j, z3.substitute(c, (k, s(p))), m(s(p)) == p)), patterns=[z3.MultiPattern(s(p), m(j))]))
        ds.fact(z3.ForAll([p, q, j], z3.Implies(z3.And(0 <= p, p < q, 0 <= j, q < m(j)), s(p) < s(q)), patterns=[z3.MultiPattern(s(p), s(q), m(j))]))
        ds.fact(z3.ForAll([j], z3.Implies(0 <= j, m(j) <= j), patterns=[m(j)]))
        def fn(idx, k=k):
            sub = substf([(k, s(idx))])
            return vmap(v, sub), [z3.Implies(z3.And(0 <= idx, 0 <= k, idx < m(k)), z3.And(0 <= s(idx), s(idx) < k, sub(c), m(s(idx)) == idx))] + [sub(f) for f in facts]
        return ListC(m(k), fn, prov=('filter', k, k, c, v, m, s), etype=type_of(v)), m, s

    def mk_flatten_upto(self, ds, k, inner):
        l = z3.simplify(inner.n)
        O = self.mk_prefix(ds, k, l, nonneg=True)
        canon = z3.Const('K!canon', I)
        ct = z3.substitute(l, (k, canon))
        key = ('blk', ct.get_id(), tuple(x.get_id() for x in ds.ctx))
        r = _prefix_cache.get(key)
        if r is None:
            r = (self.fresh_fun(ds, 'blk', I, I), ct, list(ds.ctx))
            _prefix_cache[key] = r
        b = r[0]
        p, i, j = z3.Int('p?%d' % uid()), z3.Int('i?%d' % uid()), z3.Int('j?%d' % uid())
        ds.fact(z3.ForAll([p, j], z3.Implies(z3.And(0 <= p, 0 <= j, p < O(j)), z3.And(0 <= b(p), b(p) < j, O(b(p)) <= p, p < O(b(p)) + z3.substitute(l, (k, b(p))))), patterns=[z3.MultiPattern(b(p), O(j))]))
        li = z3.substitute(l, (k, i))
        ds.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, 0 <= j, j < li), b(O(i) + j) == i), patterns=[b(O(i) + j)]))
        def fn(idx, k=k):
            bi = b(idx)
            x, f = inner.get(z3.simplify(idx - O(k)))
            sub = substf([(k, bi)])
            return vmap(x, sub), [z3.Implies(z3.And(0 <= idx, 0 <= k, idx < O(k)), z3.And(0 <= bi, bi < k, O(bi) <= idx, idx < O(bi) + sub(l)))] + [sub(q) for q in f]
        return ListC(O(k), fn, prov=('flatten', k, k, inner, O, b), etype=type_of(inner).a[0]), O, b

    def set_prov(self, new, h, k):
        """does `new` arise from h by changing only element k?"""
        if new is h: return True
        p = new.prov
        if p is None: return None
        if p[0] == 'set':
            if not z3.simplify(p[2] == k).eq(z3.BoolVal(True)): return None
            return self.set_prov(p[1], h, k)
        if p[0] == 'ite':
            return self.set_prov(p[2], h, k) and self.set_prov(p[3], h, k)
        return None

    def taint(self, opq, facts, u0):
        """adds the symbols made since u0 that facts describe in terms of opq"""
        defd = [{x for x in symbols(f) if '!' in x} for f in facts]
        grow = True
        while grow:
            grow = False
            for sy in defd:
                if sy & opq:
                    for x in sy - opq:
                        if x.rsplit('!', 1)[1].isdigit() and int(x.rsplit('!', 1)[1]) >= u0: opq.add(x); grow = True

    def inplace(self, ds, init, k, c, node, view, head, cells, defs):
        """try: element i < k is a function of init[i], element i >= k untouched"""
        et = type_of(init).a[0]
        hs = ds.copy()
        V_ = self.elem_ctor(hs, et, 'upd', [I])
        def fn(i):
            x, f = init.get(i)
            cc = z3.simplify(i < k)
            if z3.is_false(cc): return x, f
            y = V_(i)
            if z3.is_true(cc): return y, []
            return self.vite(cc, y, x), [z3.Implies(neg(cc), q) for q in f]
        trial = dict(cells)
        trial[c] = ListC(init.n, fn, etype=et)
        s = head(trial)
        for f in defs: s.fact(f)
        hp, hf = len(s.pc), len(s.facts)
        u0 = uid()
        outs = self.run_body(node, s, view, k)
        nx = [o.st for o in outs if o.kind in ('next', 'continue')]
        if len(nx) > 1: nx = self.merge_list(hp, hf, nx)
        if len(nx) != 1: return None
        new = self.cell_pure(nx[0], c)
        v, f = new.get(k)
        probe = set()
        for t in leaves(V_(k)): probe |= {x for x in symbols(t) if '!' in x and not x.startswith('probe!')}
        probe -= symbols(k)
        for cx in ds.ctx: probe -= symbols(cx)
        if self.strict_closing: self.taint(probe, nx[0].facts[hf:], u0)
        for t in leaves(v):
            if symbols(t) & probe: return None
        opq = set()
        facts = f + self.relevant_facts(v, nx[0].facts[hf:] + nx[0].pc[hp:], u0, self.strict_closing)
        def fn2(i):
            x, g = init.get(i)
            cc = z3.simplify(i < k)
            if z3.is_false(cc): return x, g
            sub = substf([(k, i)])
            y, yf = vmap(v, sub), [sub(q) for q in facts]
            if z3.is_true(cc): return y, yf
            return self.vite(cc, y, x), [z3.Implies(neg(cc), q) for q in g] + [z3.Implies(cc, q) for q in yf]
        return ListC(init.n, fn2, etype=et, prov=('inplace', init, k, v)), True

    # ---- invariant candidates -----------------------------------------------------------------
    def candidates(self, info):
        out = []
        for c in info.opaque:
            init = info.inits[c]
            if c[0] == 'alloc':
                out.append(('alloc grows', lambda v, k, c=c, init=init: v(c) >= init)); continue
            if c[0] == 'sym': continue
            nm = str(c[1])
            if init is NONE:
                out.append((nm + ' stays None', lambda v, k, c=c: is_none(v(c)))); continue
            if isinstance(init, Num) and isinstance(info.templates[c], Num):
                tm = info.templates[c]
                out.append((nm + ' >= initial', lambda v, k, c=c, init=init: geq(v(c).t, init.t)))
                out.append((nm + ' <= initial', lambda v, k, c=c, init=init: geq(init.t, v(c).t)))
                if init.is_int and tm.is_int:
                    out.append((nm + ' >= 0', lambda v, k, c=c: v(c).t >= 0))
                    out.append((nm + ' <= initial + k', lambda v, k, c=c, init=init: v(c).t <= init.t + k))
            elif isinstance(init, BoolV):
                out.append((nm + ' -> initial', lambda v, k, c=c, init=init: z3.Implies(v(c).t, init.t)))
                out.append(('initial -> ' + nm, lambda v, k, c=c, init=init: z3.Implies(init.t, v(c).t)))
            elif isinstance(init, ListC):
                out.append(('len %s >= 0' % nm, lambda v, k, c=c: v(c).n >= 0))
                out.append(('len %s = initial' % nm, lambda v, k, c=c, init=init: v(c).n == init.n))
                out.append(('len %s <= initial' % nm, lambda v, k, c=c, init=init: v(c).n <= init.n))
                out.append(('len %s >= initial' % nm, lambda v, k, c=c, init=init: v(c).n >= init.n))
                out.append(('len %s <= initial + k' % nm, lambda v, k, c=c, init=init: v(c).n <= init.n + k))
        for h in self.hints:
            r = h(info)
            if r: out += r
        return out

def forall_flat(j, guard, b):
    """ForAll j. guard -> b; a universal b is merged into one quantifier so that its patterns survive"""
    b0, g0 = b, [guard]
    while z3.is_implies(b0):
        g0.append(b0.arg(0)); b0 = b0.arg(1)
    if z3.is_quantifier(b0) and b0.is_forall():
        guard, b, whole, g = z3.And(*g0), b0, b, guard
        n = b.num_vars()
        vs = [z3.Const('%s?%d' % (b.var_name(i).split('?')[0], uid()), b.var_sort(i)) for i in range(n)]
        rv = list(reversed(vs))
        body = z3.substitute_vars(b.body(), *rv)
        pats = []
        for i in range(b.num_patterns()):
            ts = [z3.substitute_vars(x, *rv) for x in b.pattern(i).children()]
            if any(symbols(j) & symbols(t) for t in ts): pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        try: return z3.ForAll([j] + vs, z3.Implies(guard, body), patterns=pats)
        except z3.Z3Exception: pass
        guard, b = g, whole
    return z3.ForAll([j], z3.Implies(guard, b))

def is_none(v):
    if v is NONE: return z3.BoolVal(True)
    if isinstance(v, Guarded): return disj([z3.And(c, is_none(x)) for c, x in v.alts])
    if v is None: return None
    return z3.BoolVal(False)

def geq(a, b):
    a, b = unify(a, b)
    return a >= b

def has_fun_of(t, j):
    """does t apply an uninterpreted function or select to something that mentions j?"""
    jid = j.get_id()
    memo = {}
    def mentions(x):
        i = x.get_id()
        if i in memo: return memo[i]
        if i == jid: r = True
        elif z3.is_quantifier(x): r = mentions(x.body())
        else: r = any(mentions(c) for c in x.children()) if z3.is_app(x) else False
        memo[i] = r
        return r
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            if x.num_args() and (x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)):
                if any(mentions(c) for c in x.children()): return True
            stack.extend(x.children())
    return False
