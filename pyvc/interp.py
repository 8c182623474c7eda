"""Statements, expressions, calls."""
import ast
import z3
from .values import *
from .engine import Engine, State, NoMerge, conj, disj, neg, nt_fields, qfree
from . import loops

class Outcome:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val

class Interp(loops.Loops, Engine):

    # ---- names -----------------------------------------------------------------
    def lookup_global(self, mod, name, seen=None):
        m = self.mods.get(mod)
        if m is None: return None
        if name in m.names:
            d = m.names[name]
            if d[0] == 'func': return FuncV(d[1], mod)
            if d[0] == 'class': return ClassV(name, mod)
            if d[0] == 'const':
                f = nt_fields(d[1])
                if f is not None: return ClassV(name, mod)
                return ('const', mod, name, d[1])
            if d[0] == 'from':
                src, level, orig = d[1], d[2], d[3]
                short = src.split('.')[-1]
                if short in self.mods and (level or src.startswith('bpypolyskel')):
                    return self.lookup_global(short, orig)
                if not src and orig in self.mods: return ModV(orig)
                return BuiltinV(src + '.' + orig)
            if d[0] == 'import': return ModV(d[1])
        for src, level in m.stars:
            short = src.split('.')[-1]
            if short in self.mods:
                r = self.lookup_global(short, name)
                if r is not None: return r
            elif src == 'itertools' and name in ('tee', 'islice', 'cycle', 'chain', 'combinations', 'zip_longest', 'product', 'count', 'repeat', 'pairwise', 'accumulate', 'starmap', 'takewhile', 'dropwhile', 'permutations'):
                return BuiltinV('itertools.' + name)
        return None

    def class_info(self, cls):
        """(node or None, mod, namedtuple fields or None, bases)"""
        for mn, m in self.mods.items():
            d = m.names.get(cls)
            if d is None: continue
            if d[0] == 'const':
                f = nt_fields(d[1])
                if f is not None: return None, mn, f
            if d[0] == 'class':
                node = d[1]
                f = None
                for b in node.bases:
                    g = nt_fields(b)
                    if g is not None: f = g
                    elif isinstance(b, ast.Name) and b.id in m.names:
                        sub = self.class_info(b.id)
                        if sub and sub[2]: f = sub[2]
                return node, mn, f
        return None

    def method(self, cls, name):
        ci = self.class_info(cls)
        if not ci or ci[0] is None: return None
        node, mod, _ = ci
        for n in node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                kind = 'method'
                for d in n.decorator_list:
                    dn = getattr(d, 'id', None)
                    if dn in ('property', 'classmethod', 'staticmethod'): kind = dn
                return FuncV(n, mod, cls, None, kind)
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and name != '__slots__':
                if isinstance(n.value, ast.Name): return self.method(cls, n.value.id)
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = self.method(b.id, name)
                if r is not None: return r
        return None

    def const_global(self, st, d):
        _, mod, name, node = d
        key = '%' + mod + '.' + name
        if key in st.ghost: return st.ghost[key]
        if isinstance(node, ast.Dict) and not node.keys:
            # a module-level dictionary the caller controls
            v = self.alloc(st, DictC(lambda k, f=z3.Function('has!' + name, z3.StringSort(), z3.BoolSort()): f(z3.StringVal(k.s)) , lambda k: (OpaqueV(z3.Int('dictval')), []), name=name))
            st.ghost[key] = v
            return v
        sub = State()
        sub.frame = (mod, None, '<module>')
        sub.heap, sub.epoch, sub.flags, sub.facts, sub.pc = st.heap, st.epoch, st.flags, st.facts, st.pc
        r = self.ev(node, sub)
        if len(r) != 1 or isinstance(r[0][1], RaiseV): raise Unsupported('module constant ' + name)
        v = r[0][1]
        if isinstance(v, LocV):
            st.heap[v.id] = r[0][0].heap[v.id]; st.epoch[v.id] = 0
            st.ghost[key] = v
        return v

    def name(self, st, n, node):
        if n in st.env:
            v = st.env[n]
            if v is UNBOUND: return [(st, RaiseV('UnboundLocalError', node))]
            if isinstance(v, loops.DeadV):
                if v.thunk is None: raise loops.DeadRead(n)
                v = v.thunk(self, st)
                st.env[n] = v
                return self.name(st, n, node)
            if isinstance(v, Guarded) and any(x is UNBOUND for _, x in v.alts):
                out = []
                for s, x in self.split(st, v):
                    if x is UNBOUND:
                        if not self.allowed('UnboundLocalError', s, node):
                            self.oblige(s, 'no-UnboundLocalError(%s)' % n, z3.BoolVal(False), node, 'safety')
                        continue
                    s.env[n] = x
                    out.append((s, x))
                return out
            return [(st, v)]
        mod = st.frame[0]
        d = self.lookup_global(mod, n)
        if d is None:
            if n in self.bi.NAMES: return [(st, BuiltinV(n))]
            if n == 'self' : pass
            raise Unsupported('unknown name %s' % n)
        if isinstance(d, tuple): return [(st, self.const_global(st, d))]
        return [(st, d)]

    # ---- expressions ---------------------------------------------------------------
    def bind(self, res, f):
        out = []
        for st, v in res:
            if isinstance(v, RaiseV): out.append((st, v))
            else: out.extend(f(st, v))
        if len(out) > self.maxstates: raise Unsupported('too many states')
        return out

    def evs(self, nodes, st):
        """evaluate several expressions left to right -> [(st, [values])]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if isinstance(vs, RaiseV): nxt.append((s, vs)); continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        if isinstance(v, RaiseV): nxt.append((s2, v)); continue
                        c = self.read(s2, v)
                        if isinstance(c, TupleV): nxt.append((s2, vs + c.items)); continue
                        if isinstance(c, ListC) and const_int(c.n) is not None:
                            nxt.append((s2, vs + [self.elem(s2, v, i) for i in range(const_int(c.n))])); continue
                        if isinstance(c, VecC):
                            nxt.append((s2, vs + [Num(x) for x in c.xs])); continue
                        nxt.append((s2, vs + [StarredV(v)]))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, v if isinstance(v, RaiseV) else vs + [v]))
            res = nxt
        return res

    def ev(self, e, st):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st)

    def ev1(self, e, st):
        r = self.ev(e, st)
        if len(r) != 1 or isinstance(r[0][1], RaiseV): raise Unsupported('single-valued expression expected')
        return r[0]

    def ev_Constant(self, e, st):
        v = e.value
        if v is None: return [(st, NONE)]
        if isinstance(v, bool): return [(st, BoolV(v))]
        if isinstance(v, (int, float)): return [(st, Num(v))]
        if isinstance(v, str): return [(st, StrV(v))]
        if isinstance(v, complex): return [(st, CplxV(real_of_float(v.real), real_of_float(v.imag)))]
        raise Unsupported('constant %r' % (v,))

    def ev_Name(self, e, st): return self.name(st, e.id, e)

    def ev_Yield(self, e, st):
        ref = st.ghost.get('%yield')
        if ref is None or e.value is None: raise Unsupported('yield')
        def f(s, v):
            out = []
            for s1, a in self.getattr(s, ref, 'append', e):
                out += [(s2, NONE) for s2, _ in self.call(s1, a, [v], {}, e)]
            return out
        return self.bind(self.ev(e.value, st), f)

    def ev_JoinedStr(self, e, st): return [(st, StrV('<f-string>'))]

    def ev_NamedExpr(self, e, st):
        def f(s, v):
            s.env[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(e.value, st), f)

    def ev_Tuple(self, e, st):
        return self.bind(self.evs(e.elts, st), lambda s, vs: [(s, TupleV(vs))])

    def ev_List(self, e, st):
        def f(s, vs):
            return [(s, self.alloc(s, self.list_of([self.purify(s, v, share=True) for v in vs])))]
        return self.bind(self.evs(e.elts, st), f)

    def ev_Set(self, e, st):
        def f(s, vs):
            ps = [self.purify(s, v) for v in vs]
            return [(s, self.alloc(s, self.set_of(ps)))]
        return self.bind(self.evs(e.elts, st), f)

    def set_of(self, ps):
        et = TAny
        for p in ps: et = join(et, type_of(p))
        return SetC(lambda x: disj([self.veq0(p, x) for p in ps]), ps, et)

    def ev_Dict(self, e, st):
        if not e.keys:
            return [(st, self.alloc(st, DictC(lambda k: z3.BoolVal(False), lambda k: (OpaqueV(z3.Int('nokey')), []), keys=self.list_of([]))))]
        def f(s, vs):
            n = len(e.keys)
            ks = [self.purify(s, v) for v in vs[:n]]; xs = [self.purify(s, v, True) for v in vs[n:]]
            def get(k):
                v = xs[-1]
                for a, b in list(zip(ks, xs))[-2::-1]: v = self.vite(self.veq0(k, a), b, v)
                return v, []
            return [(s, self.alloc(s, DictC(lambda k: disj([self.veq0(a, k) for a in ks]), get)))]
        return self.bind(self.evs(list(e.keys) + list(e.values), st), f)

    def ev_Lambda(self, e, st):
        return [(st, FuncV(e, st.frame[0], st.frame[1], dict(st.env), 'lambda'))]

    def ev_IfExp(self, e, st):
        outs = []
        for s, c in self.ev_cond(e.test, st):
            if isinstance(c, RaiseV): outs.append((s, c)); continue
            bp, bf = len(s.pc), len(s.facts)
            res = []
            for s2, b in self.branch(s, c):
                res += self.ev(e.body if b else e.orelse, s2)
            ok = [r for r in res if not isinstance(r[1], RaiseV)]
            outs += [r for r in res if isinstance(r[1], RaiseV)]
            outs += self.merge_list(bp, bf, ok, withval=True) if len(ok) > 1 else ok
        return outs

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        def go(s, nodes):
            if len(nodes) == 1: return self.ev(nodes[0], s)
            out = []
            for s1, v in self.ev(nodes[0], s):
                if isinstance(v, RaiseV): out.append((s1, v)); continue
                for s1, v in self.split(s1, v):
                    t = self.truth(s1, v)
                    bp, bf = len(s1.pc), len(s1.facts)
                    res = []
                    for s2, b in self.branch(s1, t):
                        if b == isand: res += go(s2, nodes[1:])
                        else:
                            res.append((s2, v if not isinstance(v, BoolV) else BoolV(b)))
                    ok = [r for r in res if not isinstance(r[1], RaiseV)]
                    out += [r for r in res if isinstance(r[1], RaiseV)]
                    if len(ok) > 1: ok = self.merge_list(bp, bf, ok, withval=True)
                    out += ok
            return out
        return go(st, e.values)

    def ev_cond(self, e, st):
        """-> [(st, Bool term)]"""
        # pure boolean combinations are kept as one term
        def f(s, v):
            out = []
            for s2, x in ([(s, v)] if not isinstance(v, Guarded) else self.split_guard_truth(s, v)):
                out.append((s2, x if z3.is_expr(x) else self.truth(s2, x)))
            return out
        return self.bind(self.ev(e, st), f)

    def split_guard_truth(self, s, v):
        t = self.truth(s, v)
        return [(s, t)]

    def truth(self, st, v):
        if isinstance(v, BoolV): return v.t
        if isinstance(v, Num): return v.t != 0
        if v is NONE: return z3.BoolVal(False)
        if isinstance(v, SymV): return v.t != 0
        if isinstance(v, Guarded): return disj([z3.And(c, self.truth(st, x)) for c, x in v.alts])
        if isinstance(v, StrV): return z3.BoolVal(bool(v.s))
        if isinstance(v, (LocV, PathV)):
            c = self.read(st, v)
            if isinstance(c, ListC): return c.n > 0
            if isinstance(c, VecC): return z3.BoolVal(True)
            if isinstance(c, ObjC):
                if self.method(c.cls, '__len__') or self.method(c.cls, '__bool__'): raise Unsupported('truth of %s' % c.cls)
                return z3.BoolVal(True)
            if isinstance(c, SetC): return self.set_nonempty(st, c)
            raise Unsupported('truth of %r' % c)
        if isinstance(v, RecV): return z3.BoolVal(True)
        if isinstance(v, TupleV): return z3.BoolVal(bool(v.items))
        if isinstance(v, SeqStr): return v.lst.n > 0
        if isinstance(v, ListC): return v.n > 0
        if isinstance(v, SetLen): return self.set_nonempty(st, v.s)
        raise Unsupported('truth of %r' % (v,))

    def set_nonempty(self, st, c):
        if c.concrete is not None and not c.concrete: return z3.BoolVal(False)
        b = self.fresh(st, 'nonempty', B)
        w = self.fresh_val(st, c.etype, 'member')
        st.fact(z3.Implies(b, c.has(w)))
        vs = self.bound_vals(c.etype)
        st.fact(z3.Implies(z3.Not(b), z3.ForAll(vs[1], z3.Not(c.has(vs[0])))))
        return b

    def bound_vals(self, t):
        """(pure value over bound variables, [vars])"""
        vs = []
        def mk(t):
            if t.k in ('int', 'char', 'opaque'):
                v = z3.Int('b?%d' % uid()); vs.append(v); return Num(v) if t.k == 'int' else CharV(v)
            if t.k == 'real':
                v = z3.Real('b?%d' % uid()); vs.append(v); return Num(v)
            if t.k == 'bool':
                v = z3.Bool('b?%d' % uid()); vs.append(v); return BoolV(v)
            if t.k == 'sym':
                v = z3.Int('b?%d' % uid()); vs.append(v); return SymV(t.a[0], v)
            if t.k == 'tuple': return TupleV([mk(x) for x in t.a])
            if t.k == 'vec':
                xs = [z3.Real('b?%d' % uid()) for _ in range(t.a[0])]; vs.extend(xs); return VecC(xs)
            if t.k in ('rec', 'obj'):
                f = {k: mk(x) for k, x in t.a[1]}
                return RecV(t.a[0], f) if t.k == 'rec' else ObjC(t.a[0], f)
            raise Unsupported('bound value of %s' % t)
        v = mk(t)
        return v, vs

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return self.bind(self.ev_cond(e.operand, st), lambda s, t: [(s, BoolV(neg(t)))])
        def f(s, v):
            if isinstance(e.op, ast.UAdd): return [(s, v)]
            if isinstance(e.op, ast.USub):
                if isinstance(v, BoolV): v = self.num(v)
                if isinstance(v, Num): return [(s, Num(z3.simplify(-v.t)))]
                if isinstance(v, CplxV): return [(s, CplxV(-v.re, -v.im))]
                c = self.read(s, v)
                if isinstance(c, VecC): return [(s, self.alloc(s, VecC([-x for x in c.xs])))]
            raise Unsupported('unary operator')
        return self.bind(self.ev(e.operand, st), lambda s, v: self.each(s, v, f))

    def each(self, st, v, f):
        """apply f to every alternative of a guarded value"""
        if not isinstance(v, Guarded): return f(st, v)
        bp, bf = len(st.pc), len(st.facts)
        out = []
        for s, x in self.split(st, v): out += f(s, x)
        return out

    def num(self, v):
        if isinstance(v, BoolV): return Num(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v

    def ev_BinOp(self, e, st):
        def f(s, vs):
            return self.each(s, vs[0], lambda s1, a: self.each(s1, vs[1], lambda s2, b: self.binop(s2, e.op, a, b, e)))
        return self.bind(self.evs([e.left, e.right], st), f)

    def binop(self, st, op, a, b, node):
        a, b = self.num(a), self.num(b)
        if isinstance(a, CplxV) or isinstance(b, CplxV): return self.cplx_op(st, op, a, b, node)
        if isinstance(a, Num) and isinstance(b, Num): return self.num_op(st, op, a, b, node)
        ca, cb = self.read(st, a), self.read(st, b)
        if isinstance(ca, VecC) and isinstance(cb, VecC):
            if len(ca.xs) != len(cb.xs):
                if not self.allowed('ValueError', st, node): self.oblige(st, 'vector-dimensions', z3.BoolVal(False), node, 'safety')
                return []
            if isinstance(op, ast.Add): return [(st, self.alloc(st, VecC([x + y for x, y in zip(ca.xs, cb.xs)])))]
            if isinstance(op, ast.Sub): return [(st, self.alloc(st, VecC([x - y for x, y in zip(ca.xs, cb.xs)])))]
            if isinstance(op, ast.Mult): return [(st, self.alloc(st, VecC([x * y for x, y in zip(ca.xs, cb.xs)])))]
            if isinstance(op, ast.MatMult): return [(st, Num(z3.Sum([x * y for x, y in zip(ca.xs, cb.xs)])))]
        if isinstance(ca, VecC) and isinstance(cb, Num):
            t = to_real(cb.t)
            if isinstance(op, ast.Mult): return [(st, self.alloc(st, VecC([x * t for x in ca.xs])))]
            if isinstance(op, ast.Div):
                st = self.safety(st, t != 0, 'ZeroDivisionError', node)
                if st is None: return []
                return [(st, self.alloc(st, VecC([x / t for x in ca.xs])))]
        if isinstance(ca, Num) and isinstance(cb, VecC) and isinstance(op, ast.Mult):
            return [(st, self.alloc(st, VecC([x * to_real(ca.t) for x in cb.xs])))]
        if isinstance(op, ast.Add):
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return [(st, self.alloc(st, self.list_concat(self.purify(st, a, True), self.purify(st, b, True))))]
            if isinstance(ca, SeqStr) and isinstance(cb, SeqStr): return [(st, SeqStr(self.list_concat(ca.lst, cb.lst)))]
            if isinstance(ca, StrV) and isinstance(cb, StrV): return [(st, StrV(ca.s + cb.s))]
            if isinstance(ca, TupleV) and isinstance(cb, TupleV): return [(st, TupleV(ca.items + cb.items))]
            if isinstance(ca, (StrV, SeqStr, CharV)) and isinstance(cb, (StrV, SeqStr, CharV)):
                return [(st, SeqStr(self.list_concat(self.bi.strlist(self, ca), self.bi.strlist(self, cb))))]
        if isinstance(op, ast.Mult):
            l, n = (ca, cb) if isinstance(ca, (ListC, SeqStr)) else (cb, ca)
            if isinstance(n, Num) and const_int(n.t) is not None and isinstance(l, (ListC, SeqStr)):
                c = const_int(n.t)
                lst = l.lst if isinstance(l, SeqStr) else l
                r = self.list_of([])
                for _ in range(c): r = self.list_concat(r, lst)
                return [(st, SeqStr(r) if isinstance(l, SeqStr) else self.alloc(st, r))]
        if isinstance(ca, SetC) and isinstance(cb, SetC):
            et = join(ca.etype or TAny, cb.etype or TAny)
            if isinstance(op, ast.Sub): return [(st, self.alloc(st, SetC(lambda x: z3.And(ca.has(x), z3.Not(cb.has(x))), None, et)))]
            if isinstance(op, ast.BitOr):  return [(st, self.alloc(st, SetC(lambda x: z3.Or(ca.has(x), cb.has(x)), None, et)))]
            if isinstance(op, ast.BitAnd): return [(st, self.alloc(st, SetC(lambda x: z3.And(ca.has(x), cb.has(x)), None, et)))]
        if isinstance(op, ast.Mod) and isinstance(a, StrV): return [(st, StrV('<formatted>'))]
        raise Unsupported('operator %s on %s, %s' % (type(op).__name__, type(ca).__name__, type(cb).__name__))

    def num_op(self, st, op, a, b, node):
        x, y = a.t, b.t
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x, y = unify(x, y)
            r = x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y
            return [(st, Num(z3.simplify(r) if x.sort() == I else r))]
        if isinstance(op, ast.Div):
            st = self.safety(st, y != 0, 'ZeroDivisionError', node)
            if st is None: return []
            return [(st, Num(to_real(x) / to_real(y)))]
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and x.sort() == I and y.sort() == I:
            st = self.safety(st, y != 0, 'ZeroDivisionError', node)
            if st is None: return []
            cy = const_int(y)
            if isinstance(op, ast.Mod):
                if cy is None and not self.light and self.feasible(st, y < 0):
                    raise Unsupported('mod by a possibly negative number')
                if cy is not None and cy < 0: raise Unsupported('mod by a negative number')
                m = mk_mod(x, y)
                if m.decl().eq(PMod): st.fact(*mod_facts(x, y))
                return [(st, Num(m))]
            if cy is None or cy <= 0: raise Unsupported('floor division by a variable')
            return [(st, Num(x / y))]
        if isinstance(op, ast.Pow):
            c = const_int(y) if y.sort() == I else (int(y.as_fraction()) if z3.is_rational_value(y) and y.as_fraction().denominator == 1 else None)
            if c is not None and 0 <= c <= 4:
                s = sqrt_arg(x)
                if c == 2 and s is not None: return [(st, Num(s))]   # sqrt is only taken of sums of squares
                r = z3.IntVal(1) if x.sort() == I else z3.RealVal(1)
                for _ in range(c): r = r * x
                return [(st, Num(r))]
            if y.sort() == R and z3.is_rational_value(y) and y.as_fraction() == __import__('fractions').Fraction(1, 2):
                st = self.safety(st, to_real(x) >= 0, 'ValueError', node)
                return [(st, Num(mk_sqrt(to_real(x))))] if st is not None else []
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)): raise Unsupported('bit operator')
        raise Unsupported('numeric operator %s' % type(op).__name__)

    def cplx_op(self, st, op, a, b, node):
        def up(v):
            if isinstance(v, CplxV): return v
            if isinstance(v, Num): return CplxV(to_real(v.t), z3.RealVal(0))
            raise Unsupported('complex operand')
        a0, b0 = a, b
        a, b = up(a), up(b)
        if isinstance(op, ast.Add): return [(st, CplxV(a.re + b.re, a.im + b.im))]
        if isinstance(op, ast.Sub): return [(st, CplxV(a.re - b.re, a.im - b.im))]
        if isinstance(op, ast.Mult): return [(st, CplxV(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))]
        if isinstance(op, ast.Div):
            d = b.re * b.re + b.im * b.im
            st = self.safety(st, z3.Not(z3.And(b.re == 0, b.im == 0)), 'ZeroDivisionError', node)
            if st is None: return []
            if isinstance(b0, Num): return [(st, CplxV(a.re / b.re, a.im / b.re))]
            return [(st, CplxV((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d))]
        raise Unsupported('complex operator')

    def ev_Compare(self, e, st):
        def f(s, vs):
            def go(s, i):
                if i == len(e.ops): return [(s, BoolV(True))]
                out = []
                for s1, t in self.compare(s, e.ops[i], vs[i], vs[i + 1], e):
                    if isinstance(t, RaiseV): out.append((s1, t)); continue
                    if i + 1 == len(e.ops): out.append((s1, BoolV(t)))
                    else:
                        for s2, r in go(s1, i + 1):
                            out.append((s2, BoolV(z3.And(t, r.t))))
                return out
            return go(s, 0)
        return self.bind(self.evs([e.left] + e.comparators, st), f)

    def compare(self, st, op, a, b, node):
        """-> [(st, Bool term)]"""
        if isinstance(op, (ast.Is, ast.IsNot)):
            t = self.identical(st, a, b)
            return [(st, t if isinstance(op, ast.Is) else neg(t))]
        if isinstance(op, (ast.In, ast.NotIn)):
            out = []
            for s, c in self.split(st, b):
                t = self.contains(s, c, a)
                out.append((s, t if isinstance(op, ast.In) else neg(t)))
            return out
        if isinstance(op, (ast.Eq, ast.NotEq)):
            out = []
            for s, x in self.split(st, a):
                for s2, y in self.split(s, b):
                    for s3, t in self.equal(s2, x, y, node):
                        out.append((s3, t if isinstance(op, ast.Eq) else neg(t)))
            return out
        out = []
        for s, x in self.split(st, a):
            for s2, y in self.split(s, b):
                out += self.order(s2, op, x, y, node)
        return out

    def order(self, st, op, x, y, node):
        x, y = self.num(x), self.num(y)
        if isinstance(x, SetLen) or isinstance(y, SetLen): return self.setlen_cmp(st, op, x, y)
        if isinstance(x, Num) and isinstance(y, Num):
            a, b = unify(x.t, y.t)
            t = {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            return [(st, t)]
        cx = self.read(st, x); cy = self.read(st, y)
        cls = cx.cls if isinstance(cx, (RecV, ObjC)) else None
        nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[type(op)]
        if cls:
            m = self.method(cls, nm)
            if m is not None:
                return self.bind(self.call_func(st, m, [x, y], {}, node), lambda s, v: [(s, self.truth(s, v))])
        if isinstance(cx, TupleV) and isinstance(cy, TupleV) and len(cx.items) == len(cy.items) and isinstance(op, (ast.Lt, ast.Gt)):
            r = z3.BoolVal(False)
            for a, b in reversed(list(zip(cx.items, cy.items))):
                if not (isinstance(a, Num) and isinstance(b, Num)): raise Unsupported('tuple order')
                p, q = unify(a.t, b.t)
                lt = p < q if isinstance(op, ast.Lt) else p > q
                r = z3.Or(lt, z3.And(p == q, r))
            return [(st, r)]
        raise Unsupported('comparison of %r and %r' % (type(cx), type(cy)))

    def setlen_cmp(self, st, op, x, y):
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if isinstance(y, SetLen): x, y, o = y, x, flip[type(op)]
        else: o = type(op)
        c = const_int(y.t) if isinstance(y, Num) else None
        s = x.s
        if s.concrete is not None:
            d = self.card(s.concrete)
            a, b = d, y.t
            t = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[o]
            return [(st, t)]
        if (o is ast.Gt and c == 0) or (o is ast.GtE and c == 1) or (o is ast.NotEq and c == 0): return [(st, self.set_nonempty(st, s))]
        if (o is ast.Eq and c == 0) or (o is ast.LtE and c == 0) or (o is ast.Lt and c == 1): return [(st, neg(self.set_nonempty(st, s)))]
        # otherwise an abstract cardinality
        n = self.fresh(st, 'card', I)
        st.fact(n >= 0)
        ne = self.set_nonempty(st, s)
        st.fact((n > 0) == ne)
        a, b = n, y.t
        return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[o])]

    def card(self, ps):
        n = z3.IntVal(0)
        for i, p in enumerate(ps):
            dup = disj([self.veq0(p, q) for q in ps[:i]])
            n = n + z3.If(dup, 0, 1)
        return z3.simplify(n)

    def equal(self, st, x, y, node):
        """user-level ==  -> [(st, Bool)]"""
        if isinstance(x, SetLen) or isinstance(y, SetLen): return self.setlen_cmp(st, ast.Eq(), x, y)
        cx, cy = self.read(st, x), self.read(st, y)
        if isinstance(cx, ObjC) or isinstance(cy, ObjC):
            for c, v, w in ((cx, x, y), (cy, y, x)):
                if isinstance(c, ObjC):
                    m = self.method(c.cls, '__eq__')
                    if m is not None:
                        return self.bind(self.call_func(st, m, [v, w], {}, node), lambda s, r: [(s, self.truth(s, r))])
            return [(st, self.identical(st, x, y))]
        if isinstance(cx, SymV) and isinstance(cy, SymV) or (isinstance(cx, SymV) and cy is NONE) or (isinstance(cy, SymV) and cx is NONE):
            return [(st, self.veq0(cx, cy))]
        if isinstance(cx, TupleV) and isinstance(cy, TupleV) and len(cx.items) == len(cy.items):
            res = [(st, z3.BoolVal(True))]
            for p, q in zip(cx.items, cy.items):
                nxt = []
                for s, t in res:
                    for s2, u in self.equal(s, p, q, node): nxt.append((s2, z3.And(t, u)))
                res = nxt
            return res
        if isinstance(cx, SetC) and isinstance(cy, SetC):
            if cx.concrete is not None and cy.concrete is not None:
                return [(st, conj([cy.has(p) for p in cx.concrete] + [cx.has(p) for p in cy.concrete]))]
            raise Unsupported('set equality')
        if isinstance(cx, SeqStr) or isinstance(cy, SeqStr):
            a, b = self.bi.strlist(self, cx), self.bi.strlist(self, cy)
            return [(st, self.veq0(a, b))]
        return [(st, self.veq(st, x, y))]

    def identical(self, st, a, b):
        if isinstance(a, Guarded): return disj([z3.And(c, self.identical(st, x, b)) for c, x in a.alts])
        if isinstance(b, Guarded): return self.identical(st, b, a)
        if a is NONE or b is NONE:
            o = b if a is NONE else a
            if isinstance(o, SymV): return o.t == 0
            return z3.BoolVal(o is NONE)
        if isinstance(a, SymV) and isinstance(b, SymV): return a.t == b.t
        if isinstance(a, LocV) and isinstance(b, LocV): return z3.BoolVal(a.id == b.id)
        if isinstance(a, BoolV) and isinstance(b, BoolV): return a.t == b.t
        if isinstance(a, ClassV) and isinstance(b, ClassV): return z3.BoolVal(a.name == b.name)
        if isinstance(a, PathV) and isinstance(b, PathV) and a.root == b.root and len(a.steps) == len(b.steps):
            cs = []
            for s, t in zip(a.steps, b.steps):
                if s[0] != t[0]: raise Unsupported('identity')
                if s[0] == 'i': cs.append(s[1] == t[1])
                elif s[1] != t[1]: return z3.BoolVal(False)
            return conj(cs)
        if isinstance(a, LocV) and isinstance(b, PathV) or isinstance(b, LocV) and isinstance(a, PathV):
            raise Unsupported('identity of a stored object')
        if type(a) is not type(b): return z3.BoolVal(False)
        raise Unsupported('identity of %r, %r' % (a, b))

    # ---- attributes and items -------------------------------------------------------
    def mangle(self, st, attr):
        if attr.startswith('__') and not attr.endswith('__') and st.frame and st.frame[1]:
            return '_' + st.frame[1].lstrip('_') + attr
        return attr

    def ev_Attribute(self, e, st):
        attr = self.mangle(st, e.attr)
        return self.bind(self.ev(e.value, st), lambda s, v: self.each(s, v, lambda s2, x: self.getattr(s2, x, attr, e)))

    def getattr(self, st, v, attr, node):
        if isinstance(v, ModV):
            if v.name in self.mods:
                d = self.lookup_global(v.name, attr)
                if isinstance(d, tuple): return [(st, self.const_global(st, d))]
                if d is not None: return [(st, d)]
            if v.name == 'mathutils' and attr == 'geometry': return [(st, ModV('mathutils.geometry'))]
            if v.name == 'math' and attr in ('pi', 'e', 'inf', 'tau'):
                raise Unsupported('math constant')
            return [(st, BuiltinV(v.name + '.' + attr))]
        if isinstance(v, BuiltinV) and v.name == 'itertools.chain' and attr == 'from_iterable': return [(st, BuiltinV('itertools.chain.from_iterable'))]
        if v is NONE:
            if not self.allowed('AttributeError', st, node):
                self.oblige(st, 'no-AttributeError(%s of None) in %s' % (attr, st.frame[2]), z3.BoolVal(False), node, 'safety')
            return []
        if isinstance(v, RecV):
            if attr in v.fields: return [(st, v.fields[attr])]
            m = self.method(v.cls, attr)
            if m is not None: return self.bound(st, v, m, node)
            return [(st, BoundV(v, attr))]
        if isinstance(v, SymV):
            st = self.safety(st, v.t != 0, 'AttributeError', node, attr)
            if st is None: return []
            if attr in self.symclasses.get(v.cls, {}):
                x = self.sym_get(st, v, attr)
                return [(st, self.to_env(st, x, ('borrowed',)))]
            m = self.method(v.cls, attr)
            if m is not None: return self.bound(st, v, m, node)
            raise Unsupported('attribute %s.%s' % (v.cls, attr))
        if isinstance(v, ClassV):
            m = self.method(v.name, attr)
            if m is not None:
                if m.kind == 'classmethod': return [(st, PartialV(lambda eng, s, a, k, v=v, m=m: eng.call_func(s, m, [v] + a, k, node)))]
                return [(st, m)]
            raise Unsupported('class attribute %s' % attr)
        if isinstance(v, CplxV):
            if attr == 'real': return [(st, Num(v.re))]
            if attr == 'imag': return [(st, Num(v.im))]
            return [(st, BoundV(v, attr))]
        c = self.read(st, v)
        if isinstance(c, VecC):
            if attr in 'xyzw' and len(attr) == 1:
                i = 'xyzw'.index(attr)
                if i < len(c.xs): return [(st, Num(c.xs[i]))]
                if not self.allowed('AttributeError', st, node): self.oblige(st, 'vector-component', z3.BoolVal(False), node, 'safety')
                return []
            if attr in ('xy', 'xz', 'yx') : return [(st, self.alloc(st, VecC([c.xs['xyz'.index(q)] for q in attr])))]
            if attr == 'xyz' and len(c.xs) >= 3: return [(st, self.alloc(st, VecC(c.xs[:3])))]
            if attr in ('length', 'magnitude'): return [(st, Num(mk_sqrt(z3.Sum([x * x for x in c.xs]))))]
            if attr == 'length_squared': return [(st, Num(z3.Sum([x * x for x in c.xs])))]
            return [(st, BoundV(v, attr))]
        if isinstance(c, ObjC):
            if attr in c.fields:
                if isinstance(v, LocV):
                    return [(st, c.fields[attr])]
                f = c.fields[attr]
                return [(st, self.wrap(st, f, v.root, v.steps + (('f', attr),)) if isinstance(v, PathV) else self.to_env(st, f, ('borrowed',)))]
            m = self.method(c.cls, attr)
            if m is not None: return self.bound(st, v, m, node)
            if c.cls == '%match': return [(st, BoundV(v, attr))]
            if not self.allowed('AttributeError', st, node):
                self.oblige(st, 'no-AttributeError(%s.%s)' % (c.cls, attr), z3.BoolVal(False), node, 'safety')
            return []
        return [(st, BoundV(v, attr))]

    def bound(self, st, obj, m, node):
        if m.kind == 'property': return self.call_func(st, m, [obj], {}, node)
        if m.kind == 'staticmethod': return [(st, m)]
        if m.kind == 'classmethod':
            return [(st, PartialV(lambda eng, s, a, k: eng.call_func(s, m, [ClassV(m.cls, m.mod)] + a, k, node)))]
        return [(st, PartialV(lambda eng, s, a, k: eng.call_func(s, m, [obj] + a, k, node), ('method', obj, m)))]

    def setattr(self, st, v, attr, val, node):
        if isinstance(v, SymV):
            st = self.safety(st, v.t != 0, 'AttributeError', node, attr)
            if st is None: return []
            self.sym_set(st, v, attr, val)
            return [st]
        if isinstance(v, Guarded):
            out = []
            for s, x in self.split(st, v): out += self.setattr(s, x, attr, val, node)
            return out
        if v is NONE:
            if not self.allowed('AttributeError', st, node):
                self.oblige(st, 'no-AttributeError(None.%s=)' % attr, z3.BoolVal(False), node, 'safety')
            return []
        c = self.read(st, v)
        if isinstance(c, ObjC):
            f = dict(c.fields)
            if isinstance(v, LocV): f[attr] = val
            else: f[attr] = self.purify(st, val, True)
            if isinstance(v, LocV) and 'frozen' in st.flags.get(v.id, ()):
                self.oblige(st, 'frame: %s.%s is not assigned' % (c.cls, attr), z3.BoolVal(False), node, 'frame')
            fl = st.flags.get(v.id) if isinstance(v, LocV) else None
            if fl and ('shared' in fl): raise Unsupported('assignment to a field of a stored object')
            self.write(st, v, ObjC(c.cls, f))
            return [st]
        if isinstance(c, VecC) and attr in 'xyzw':
            i = 'xyzw'.index(attr)
            return self.vec_write(st, v, VecC(list(c.xs[:i]) + [to_real(val.t)] + list(c.xs[i + 1:])), node)
        raise Unsupported('attribute assignment')

    def vec_write(self, st, v, content, node):
        if isinstance(v, LocV) and ({'borrowed', 'shared', 'frozen'} & set(st.flags.get(v.id, ()))):
            old = st.heap[v.id]
            self.oblige(st, 'frame: a vector that is stored elsewhere is changed in place', self.veq0(old, content), node, 'frame')
            if 'shared' in st.flags.get(v.id, ()): raise Unsupported('in-place change of a stored vector')
            s = st; s.heap[v.id] = content
            return [s]
        st.heap[v.id] = content
        return [st]

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            return self.bind(self.ev(e.value, st), lambda s, v: self.each(s, v, lambda s2, x: self.slice(s2, x, e.slice, e)))
        def f(s, vs):
            return self.each(s, vs[0], lambda s1, a: self.each(s1, vs[1], lambda s2, b: self.getitem(s2, a, b, e)))
        return self.bind(self.evs([e.value, e.slice], st), f)

    def index(self, st, c_n, i, node, what='index'):
        """normalise a list index -> (st, term in [0,n)) or (None, None)"""
        t = i
        ci = const_int(t)
        if ci is not None and ci < 0: t = c_n + ci
        elif ci is None and z3.is_true(z3.simplify(t < 0)): t = c_n + t
        elif ci is None and not self.light and self.feasible(st, t < 0):
            t = z3.If(t < 0, c_n + t, t)
        t = z3.simplify(t)
        st = self.safety(st, z3.And(t >= 0, t < c_n), 'IndexError', node, what)
        return st, t

    def getitem(self, st, v, i, node):
        i = self.num(i)
        if isinstance(v, TupleV):
            ci = const_int(i.t)
            if ci is None: raise Unsupported('tuple index')
            if not -len(v.items) <= ci < len(v.items): 
                if not self.allowed('IndexError', st, node): self.oblige(st, 'no-IndexError(tuple)', z3.BoolVal(False), node, 'safety')
                return []
            return [(st, v.items[ci])]
        if isinstance(v, RecV):
            return self.getitem(st, TupleV(list(v.fields.values())), i, node)
        if isinstance(v, (SeqStr, StrV, CharV)):
            if isinstance(v, StrV) and const_int(i.t) is not None and -len(v.s) <= const_int(i.t) < len(v.s): return [(st, StrV(v.s[const_int(i.t)]))]
            l = self.bi.strlist(self, v)
            st, t = self.index(st, l.n, i.t, node)
            if st is None: return []
            x, facts = l.get(t); st.fact(*facts)
            return [(st, x)]
        if v is NONE:
            if not self.allowed('TypeError', st, node): self.oblige(st, 'no-TypeError(None[...])', z3.BoolVal(False), node, 'safety')
            return []
        c = self.read(st, v)
        if isinstance(c, VecC):
            if isinstance(i, Num):
                ci = const_int(i.t)
                if ci is None: raise Unsupported('vector index')
                if not -len(c.xs) <= ci < len(c.xs):
                    if not self.allowed('IndexError', st, node): self.oblige(st, 'no-IndexError(vector)', z3.BoolVal(False), node, 'safety')
                    return []
                return [(st, Num(c.xs[ci]))]
        if isinstance(c, ListC):
            if not (isinstance(i, Num) and i.is_int): raise Unsupported('list index type')
            st, t = self.index(st, c.n, i.t, node)
            if st is None: return []
            return [(st, self.elem(st, v, t))]
        if isinstance(c, TupleV): return self.getitem(st, c, i, node)
        if isinstance(c, DictC):
            k = self.purify(st, i)
            if c.default is None:
                st = self.safety(st, c.has(k), 'KeyError', node)
                if st is None: return []
            x, facts = c.get(k)
            st.fact(*facts)
            if isinstance(x, (ListC, ObjC)):
                if isinstance(v, LocV): return [(st, self.path(st, v.id, (('k', k),)))]
                if isinstance(v, PathV): return [(st, self.path(st, v.root, v.steps + (('k', k),)))]
            return [(st, self.to_env(st, x, ('borrowed',)))]
        raise Unsupported('subscript of %r' % (c,))

    def slice_bounds(self, st, n, sl, node):
        """-> [(st, lo, hi)] clipped; step must be absent"""
        def one(s, e, default):
            if e is None: return [(s, default)]
            out = []
            for s2, v in self.ev(e, s):
                if isinstance(v, RaiseV): raise Unsupported('exception in slice bound')
                for s3, x in self.split(s2, v):
                    if x is NONE: out.append((s3, default)); continue
                    t = self.num(x).t
                    ct = const_int(t)
                    if ct is not None and ct >= 0:
                        t = z3.IntVal(ct)
                        if not z3.is_true(z3.simplify(t <= n)) and (self.light or self.feasible(s3, t > n)): t = z3.If(t > n, n, t)
                    elif ct is not None: 
                        t = z3.simplify(n + ct)
                        if self.light or self.feasible(s3, t < 0): t = z3.If(t < 0, 0, t)
                    else:
                        if self.light or self.feasible(s3, t < 0): t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), t)
                        if self.light or self.feasible(s3, t > n): t = z3.If(t > n, n, t)
                    out.append((s3, t))
            return out
        res = []
        for s, lo in one(st, sl.lower, z3.IntVal(0)):
            for s2, hi in one(s, sl.upper, n):
                if not z3.is_true(z3.simplify(lo <= hi)) and (self.light or self.feasible(s2, hi < lo)): hi = z3.If(hi < lo, lo, hi)
                res.append((s2, lo, hi))
        return res

    def slice(self, st, v, sl, node):
        c = self.read(st, v)
        step = sl.step
        if isinstance(c, (StrV, CharV, SeqStr)): lst = self.bi.strlist(self, c)
        elif isinstance(c, ListC): lst = c
        elif isinstance(c, TupleV) and all(x is None or isinstance(x, ast.Constant) or isinstance(x, ast.UnaryOp) for x in (sl.lower, sl.upper, sl.step)):
            f = lambda x: None if x is None else ast.literal_eval(x)
            return [(st, TupleV(c.items[f(sl.lower):f(sl.upper):f(sl.step)]))]
        elif isinstance(c, VecC):
            f = lambda x: None if x is None else ast.literal_eval(x)
            return [(st, TupleV([Num(x) for x in c.xs[f(sl.lower):f(sl.upper):f(sl.step)]]))]   # mathutils: a list of floats
        else: raise Unsupported('slice of %r' % (c,))
        if step is not None:
            if isinstance(step, ast.UnaryOp) and isinstance(step.op, ast.USub) and getattr(step.operand, 'value', None) == 1 and sl.lower is None and sl.upper is None:
                n = lst.n
                r = ListC(n, lambda i: lst.get(z3.simplify(n - 1 - i)), prov=('rev', lst), cnt=lst.cnt, etype=lst.etype)
                return [(st, SeqStr(r) if not isinstance(c, ListC) else self.alloc(st, r))]
            raise Unsupported('slice step')
        out = []
        for s, lo, hi in self.slice_bounds(st, lst.n, sl, node):
            if isinstance(c, ListC) and isinstance(v, LocV) and self.has_mutable(lst):
                pass      # elements are copied by value; nested lists become snapshots
            r = self.list_slice(lst, z3.simplify(lo), z3.simplify(hi))
            if sl.lower is None and sl.upper is None: r.cnt = lst.cnt
            out.append((s, SeqStr(r) if not isinstance(c, ListC) else self.alloc(s, r, ('snapshot',) if self.has_mutable(lst) else ())))
        return out

    def has_mutable(self, lst):
        t = lst.etype
        return t is not None and t.k in ('list', 'rec', 'obj')

    # ---- comprehensions --------------------------------------------------------------
    def ev_ListComp(self, e, st):
        return self.bind(self.comp(e.elt, e.generators, st), lambda s, l: [(s, self.alloc(s, l))])

    def ev_GeneratorExp(self, e, st):
        def f(s, l):
            def get(eng, s2, i):
                x, facts = l.get(i); s2.fact(*facts)
                return eng.to_env(s2, x, ('borrowed',))
            it = IterC(l.n, get)
            loc = self.alloc(s, it)
            s.ghost['%%gen%d' % loc.id] = l
            return [(s, loc)]
        return self.bind(self.comp(e.elt, e.generators, st), f)

    def ev_SetComp(self, e, st):
        def f(s, l):
            return [(s, self.alloc(s, self.bi.set_from_list(self, s, l)))]
        return self.bind(self.comp(e.elt, e.generators, st), f)

    # ---- calls ------------------------------------------------------------------------
    def ev_Call(self, e, st):
        # method call: evaluate receiver, then arguments
        kws = [k for k in e.keywords if k.arg]
        if any(k.arg is None for k in e.keywords): raise Unsupported('** arguments')
        def f(s, fn):
            def g(s2, vs):
                args, kw = vs[:len(vs) - len(kws)], {k.arg: v for k, v in zip(kws, vs[len(vs) - len(kws):])}
                return self.call(s2, fn, args, kw, e)
            return self.bind(self.evs(list(e.args) + [k.value for k in kws], s), g)
        return self.bind(self.ev(e.func, st), f)

    def call(self, st, fn, args, kw, node):
        if isinstance(fn, Guarded):
            return self.each(st, fn, lambda s, x: self.call(s, x, args, kw, node))
        if isinstance(fn, FuncV): return self.call_func(st, fn, args, kw, node)
        if isinstance(fn, PartialV): return fn.fn(self, st, args, kw)
        if isinstance(fn, ClassV): return self.construct(st, fn, args, kw, node)
        if isinstance(fn, BuiltinV): return self.bi.call(self, st, fn.name, args, kw, node)
        if isinstance(fn, BoundV): 
            out = []
            for s, o in self.split(st, fn.obj): out += self.bi.method(self, s, o, fn.name, args, kw, node)
            return out
        raise Unsupported('call of %r' % (fn,))

    def qual(self, fn):
        n = getattr(fn.node, 'name', '<lambda>')
        return (fn.cls + '.' + n) if fn.cls and fn.kind != 'lambda' else n

    def bind_args(self, st, fn, args, kw, node):
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if any(isinstance(x, StarredV) for x in args):
            raise Unsupported('symbolic * arguments')
        if len(args) > len(params) and not a.vararg:
            raise Unsupported('too many arguments for %s' % self.qual(fn))
        for p, v in zip(params, args): env[p] = v
        if a.vararg: env[a.vararg.arg] = TupleV(args[len(params):])
        for k, v in kw.items():
            if k in env: raise Unsupported('argument given twice')
            env[k] = v
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defaults[p.arg] = d
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p in env: continue
            if p not in defaults: raise Unsupported('missing argument %s of %s' % (p, self.qual(fn)))
            sub = st.copy(); sub.env = {}; sub.frame = (fn.mod, fn.cls, '<default>')
            r = self.ev(defaults[p], sub)
            s2, v = r[0]
            for l in s2.heap:
                if l not in st.heap:
                    st.heap[l] = s2.heap[l]; st.epoch[l] = s2.epoch[l]
                    if l in s2.flags: st.flags[l] = s2.flags[l]
            if isinstance(v, LocV): st.flags[v.id] = frozenset({'borrowed'})
            env[p] = v
        return env

    def call_func(self, st, fn, args, kw, node):
        q = self.qual(fn)
        if q in self.summaries and not getattr(self, 'bypass', None) == q:
            r = self.summaries[q](self, st, fn, args, kw, node)
            if r is not None: return r
        if self.depth > self.MAXDEPTH: raise Unsupported('call depth (recursion?) in %s' % q)
        self.inlined.add(q)
        env = self.bind_args(st, fn, args, kw, node)
        saved, frame = st.env, st.frame
        bp, bf = len(st.pc), len(st.facts)
        if fn.kind == 'lambda' or fn.env is not None:
            base = dict(fn.env or {})
            base.update(env)
            env = base
        st.env = env
        st.frame = (fn.mod, fn.cls, q)
        self.depth += 1
        try:
            if isinstance(fn.node, ast.Lambda):
                outs = [Outcome('raise' if isinstance(v, RaiseV) else 'return', s, v) for s, v in self.ev(fn.node.body, st)]
            else:
                gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node))
                if gen:
                    # run to its end at once: only where the contract says that nothing changes in between
                    if not getattr(self, 'eager_generators', False): raise Unsupported('generator function %s' % q)
                    yref = self.alloc(st, self.list_of([]))
                    saved_y = st.ghost.get('%yield')
                    st.ghost['%yield'] = yref
                outs = self.block(fn.node.body, st)
                if gen:
                    for o in outs:
                        o.st.ghost['%yield'] = saved_y
                        if o.kind in ('return', 'next'): o.kind, o.val = 'return', yref
        finally:
            self.depth -= 1
        rets, out = [], []
        for o in outs:
            if o.kind == 'raise': 
                o.st.env, o.st.frame = saved, frame
                out.append((o.st, o.val))
            else:
                o.st.env, o.st.frame = saved, frame
                rets.append((o.st, o.val if o.kind == 'return' else NONE))
        for s, v in rets: s.env = dict(saved)
        if len(rets) > 1: rets = self.merge_list(bp, bf, rets, withval=True)
        return rets + out

    def construct(self, st, cls, args, kw, node):
        ci = self.class_info(cls.name)
        if ci is None:
            raise Unsupported('class %s' % cls.name)
        cnode, mod, fields = ci
        if fields is not None:
            vals = dict(zip(fields, args)); vals.update(kw)
            if set(vals) != set(fields): raise Unsupported('namedtuple arguments')
            return [(st, RecV(cls.name, {f: self.narrow(st, vals[f]) for f in fields}))]
        if cls.name in self.summaries:
            r = self.summaries[cls.name](self, st, cls, args, kw, node)
            if r is not None: return r
        if cls.name in self.symclasses:
            obj = self.sym_new(st, cls.name)
        else:
            obj = self.alloc(st, ObjC(cls.name, {}))
        m = self.method(cls.name, '__init__')
        if m is None: return [(st, obj)]
        return self.bind(self.call_func(st, m, [obj] + args, kw, node), lambda s, v: [(s, obj)])

    # ---- statements ---------------------------------------------------------------------
    def block(self, stmts, st):
        """-> [Outcome]; states that reach the same point are merged where possible"""
        cur, done = [st], []
        for n in stmts:
            nxt = []
            bp, bf = min([len(s.pc) for s in cur] or [0]), min([len(s.facts) for s in cur] or [0])
            for s in cur:
                for o in self.stmt(n, s):
                    if o.kind == 'next': nxt.append(o.st)
                    else: done.append(o)
            cur = nxt
            if not cur: break
            if len(cur) > self.maxstates: raise Unsupported('too many states')
        return done + [Outcome('next', s) for s in cur]

    def stmt(self, n, st):
        if self.deadline:
            import time
            if time.time() > self.deadline:
                from .engine import Budget
                raise Budget()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(n).__name__)
        if not self.light: return m(n, st)
        try: return m(n, st)
        except Unsupported:
            # branches are not tested for feasibility in a first pass over a loop
            if self.feasible(st, z3.BoolVal(True), force=True): raise
            return []

    def outs(self, res, f):
        out = []
        for s, v in res:
            if isinstance(v, RaiseV): out.append(Outcome('raise', s, v))
            else: out += f(s, v)
        return out

    def st_Pass(self, n, st): return [Outcome('next', st)]
    def st_Global(self, n, st): raise Unsupported('global')
    def st_Import(self, n, st):
        for a in n.names: st.env[a.asname or a.name.split('.')[0]] = ModV(a.name)
        return [Outcome('next', st)]
    def st_ImportFrom(self, n, st):
        for a in n.names: st.env[a.asname or a.name] = BuiltinV((n.module or '') + '.' + a.name)
        return [Outcome('next', st)]

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant): return [Outcome('next', st)]
        return self.outs(self.ev(n.value, st), lambda s, v: [Outcome('next', s)])

    def st_Return(self, n, st):
        if n.value is None: return [Outcome('return', st, NONE)]
        return self.outs(self.ev(n.value, st), lambda s, v: [Outcome('return', s, v)])

    def st_Break(self, n, st): return [Outcome('break', st)]
    def st_Continue(self, n, st): return [Outcome('continue', st)]

    def st_Raise(self, n, st):
        exc = 'Exception'
        if n.exc is not None:
            f = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            exc = getattr(f, 'id', 'Exception')
        return [Outcome('raise', st, RaiseV(exc, n))]

    def st_Assert(self, n, st):
        def f(s, t):
            s = self.safety(s, t, 'AssertionError', n)
            return [Outcome('next', s)] if s is not None else []
        return self.outs(self.ev_cond(n.test, st), f)

    def st_FunctionDef(self, n, st):
        st.env[n.name] = FuncV(n, st.frame[0], None, st.env, 'closure')
        # closures see the environment at call time; a shared dictionary gives that for reads
        st.env[n.name].env = dict(st.env)
        return [Outcome('next', st)]

    def st_Assign(self, n, st):
        def f(s, v):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign(s2, t, v)]
            return [Outcome('next', s2) if not isinstance(s2, Outcome) else s2 for s2 in cur]
        return self.outs(self.ev(n.value, st), f)

    def st_AnnAssign(self, n, st):
        if n.value is None: return [Outcome('next', st)]
        return self.outs(self.ev(n.value, st), lambda s, v: [Outcome('next', x) for x in self.assign(s, n.target, v)])

    def assign(self, st, t, v):
        """-> [st]"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for s, x in self.split(st, v):
                items = self.unpack(s, x, len(t.elts), t)
                if items is None: continue
                cur = [s]
                for sub, y in zip(t.elts, items):
                    if isinstance(sub, ast.Starred): raise Unsupported('starred assignment')
                    cur = [s3 for s2 in cur for s3 in self.assign(s2, sub, y)]
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            attr = self.mangle(st, t.attr)
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, RaiseV): raise Unsupported('exception in assignment target')
                out += self.setattr(s, o, attr, v, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, o in self.ev(t.value, st):
                    if t.slice.lower is None and t.slice.upper is None and t.slice.step is None:
                        c = self.read(s, v)
                        if not isinstance(c, ListC): c = self.bi.iter_to_list(self, s, v)
                        self.write(s, o, self.purify(s, c) if not isinstance(c, ListC) else c, structural=True)
                        out.append(s)
                    else: raise Unsupported('slice assignment')
                return out
            for s, vs in self.evs([t.value, t.slice], st):
                if isinstance(vs, RaiseV): raise Unsupported('exception in assignment target')
                for s1, o in self.split(s, vs[0]):
                    out += self.setitem(s1, o, vs[1], v, t)
            return out
        raise Unsupported('assignment target %s' % type(t).__name__)

    def setitem(self, st, o, i, v, node):
        c = self.read(st, o)
        if isinstance(c, VecC):
            ci = const_int(i.t)
            if ci is None: raise Unsupported('vector index')
            if ci < 0: ci += len(c.xs)
            xs = list(c.xs)
            if not 0 <= ci < len(xs):
                if not self.allowed('IndexError', st, node): self.oblige(st, 'no-IndexError(vector)', z3.BoolVal(False), node, 'safety')
                return []
            xs[ci] = to_real(self.num(v).t)
            return self.vec_write(st, o, VecC(xs), node)
        if isinstance(c, ListC):
            st, t = self.index(st, c.n, self.num(i).t, node)
            if st is None: return []
            pv = self.purify(st, v, share=True)
            # an element that is an object itself is another object afterwards
            self.write(st, o, self.list_set(c, t, pv), structural=isinstance(pv, (ListC, DictC, SetC, ObjC, RecV, TupleV)))
            return [st]
        if isinstance(c, DictC):
            k = self.purify(st, i)
            if c.name == 'debugOutputs':
                st.ghost['%debug'] = True
                return [st]
            pv = self.purify(st, v, share=True)
            nd = self.dict_set(c, k, pv)
            self.write(st, o, nd, structural=isinstance(pv, (ListC, DictC, SetC, ObjC, RecV, TupleV)))
            return [st]
        raise Unsupported('item assignment on %r' % (c,))

    def unpack(self, st, x, n, node):
        if isinstance(x, RecV): x = TupleV(list(x.fields.values()))
        if isinstance(x, TupleV):
            if len(x.items) != n:
                if not self.allowed('ValueError', st, node): self.oblige(st, 'unpack', z3.BoolVal(False), node, 'safety')
                return None
            return x.items
        c = self.read(st, x)
        if isinstance(c, ListC):
            s = self.safety(st, c.n == n, 'ValueError', node, 'unpack')
            if s is None: return None
            return [self.elem(st, x, i) for i in range(n)]
        if isinstance(c, VecC): return [Num(a) for a in c.xs]
        if isinstance(c, IterC):
            if c.n is None: raise Unsupported('unpack iterator')
            s = self.safety(st, c.n == n, 'ValueError', node, 'unpack')
            return [c.get(self, st, z3.IntVal(i)) for i in range(n)]
        raise Unsupported('unpack %r' % (c,))

    def st_AugAssign(self, n, st):
        load = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n)
        def f(s, vs):
            a, b = vs
            out = []
            for s1, x in self.split(s, a):
                for s2, y in self.split(s1, b):
                    out += self.aug(s2, n, x, y)
            return out
        return self.outs(self.evs([load, n.value], st), f)

    def aug(self, st, n, a, b):
        ca = self.read(st, a)
        if isinstance(ca, ListC) and isinstance(n.op, ast.Add):
            if self.is_empty_lit(ca) or True:
                r = self.bi.method(self, st, a, 'extend', [b], {}, n)
                return [Outcome('next', s) for s, v in r]
        if isinstance(ca, VecC):
            out = []
            for s, v in self.binop(st, n.op, a, b, n):
                res = self.read(s, v)
                if not isinstance(res, VecC): raise Unsupported('in-place vector operator')
                for s2 in self.vec_write(s, a, res, n):
                    for s3 in self.assign(s2, n.target, a): out.append(Outcome('next', s3))
            return out
        if isinstance(ca, SetC):
            out = []
            for s, v in self.binop(st, n.op, a, b, n):
                self.write(s, a, self.read(s, v))
                out.append(Outcome('next', s))
            return out
        out = []
        for s, v in self.binop(st, n.op, a, b, n):
            if isinstance(v, RaiseV): out.append(Outcome('raise', s, v)); continue
            out += [Outcome('next', s2) for s2 in self.assign(s, n.target, v)]
        return out

    def st_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s.env[t.id] = UNBOUND; nxt.append(s); continue
                if not isinstance(t, ast.Subscript): raise Unsupported('del target')
                for s2, o in self.ev(t.value, s):
                    c = self.read(s2, o)
                    if isinstance(t.slice, ast.Slice):
                        if t.slice.lower is None and t.slice.upper is None and isinstance(c, ListC):
                            self.write(s2, o, self.list_of([]), structural=True); nxt.append(s2); continue
                        raise Unsupported('del slice')
                    for s3, i in self.ev(t.slice, s2):
                        if isinstance(c, ListC):
                            s4, ix = self.index(s3, c.n, self.num(i).t, t)
                            if s4 is None: continue
                            self.write(s4, o, self.list_del(c, ix), structural=True)
                            nxt.append(s4)
                        elif isinstance(c, DictC):
                            k = self.purify(s3, i)
                            s4 = self.safety(s3, c.has(k), 'KeyError', t)
                            if s4 is None: continue
                            self.write(s4, o, DictC(lambda x, k=k, c=c: z3.And(c.has(x), z3.Not(self.veq0(x, k))), c.get, None, c.default))
                            nxt.append(s4)
                        else: raise Unsupported('del on %r' % c)
            cur = nxt
        return [Outcome('next', s) for s in cur]

    def st_If(self, n, st):
        out = []
        bp, bf = len(st.pc), len(st.facts)
        nxt = []
        for s, c in self.ev_cond(n.test, st):
            if isinstance(c, RaiseV): out.append(Outcome('raise', s, c)); continue
            for s2, b in self.branch(s, c):
                for o in (self.block(n.body, s2) if b else self.block(n.orelse, s2)):
                    if o.kind == 'next': nxt.append(o.st)
                    else: out.append(o)
        if len(nxt) > 1: nxt = self.merge_list(bp, bf, nxt)
        # merge identical continue/break outcomes
        for kind in ('continue', 'break'):
            ks = [o.st for o in out if o.kind == kind]
            if len(ks) > 1:
                out = [o for o in out if o.kind != kind] + [Outcome(kind, s) for s in self.merge_list(bp, bf, ks)]
        return out + [Outcome('next', s) for s in nxt]

    def st_With(self, n, st): raise Unsupported('with')
    def st_Try(self, n, st): raise Unsupported('try')

class StarredV(V):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v

class SetLen(V):
    """len() of a symbolic set"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s

def mod_facts(x, y):
    m = PMod(x, y)
    return [z3.Implies(y > 0, z3.And(0 <= m, m < y)),
            z3.Implies(z3.And(0 <= x, x < y), m == x),
            z3.Implies(z3.And(y > 0, y <= x, x < 2 * y), m == x - y),
            z3.Implies(z3.And(y > 0, 2 * y <= x, x < 3 * y), m == x - 2 * y),
            z3.Implies(z3.And(y > 0, -y <= x, x < 0), m == x + y)]
