"""Values of the symbolic executor.

Environment-level values (what a Python name can be bound to) and heap/pure contents (what a
mutable object or a container slot holds).  Every leaf is a z3 term; lists are functional:
a length term and a host closure index -> (element, facts)."""
import z3, itertools

class Unsupported(Exception):
    """The construct is outside the verified subset."""

_ids = itertools.count(1)
def uid():
    return next(_ids)

class V:
    __slots__ = ()

class Num(V):
    __slots__ = ('t',)
    def __init__(self, t):
        if isinstance(t, bool): t = int(t)
        if isinstance(t, int): t = z3.IntVal(t)
        elif isinstance(t, float): t = real_of_float(t)
        self.t = t
    @property
    def is_int(self): return self.t.sort() == z3.IntSort()
    def __repr__(self): return 'Num(%s)' % self.t

class BoolV(V):
    __slots__ = ('t',)
    def __init__(self, t):
        if isinstance(t, bool): t = z3.BoolVal(t)
        self.t = t
    def __repr__(self): return 'BoolV(%s)' % self.t

class NoneT(V):
    __slots__ = ()
    def __repr__(self): return 'NONE'
NONE = NoneT()

class UnboundT(V):
    __slots__ = ()
UNBOUND = UnboundT()

class StrV(V):
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'StrV(%r)' % self.s

class CharV(V):
    """symbolic one-character string (its code point)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t

class SeqStr(V):
    """symbolic string: list content of CharV"""
    __slots__ = ('lst',)
    def __init__(self, lst): self.lst = lst

class CplxV(V):
    __slots__ = ('re', 'im')
    def __init__(self, re, im): self.re, self.im = re, im

class TupleV(V):
    __slots__ = ('items',)
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return 'TupleV(%r)' % (self.items,)

class RecV(V):
    """namedtuple instance"""
    __slots__ = ('cls', 'fields')
    def __init__(self, cls, fields): self.cls, self.fields = cls, dict(fields)
    def __repr__(self): return 'RecV(%s,%r)' % (self.cls, self.fields)

class LocV(V):
    __slots__ = ('id',)
    def __init__(self, id): self.id = id
    def __repr__(self): return 'Loc%d' % self.id

class PathV(V):
    """a mutable object that lives inside another one: root location + steps"""
    __slots__ = ('root', 'steps', 'epoch')
    def __init__(self, root, steps, epoch): self.root, self.steps, self.epoch = root, tuple(steps), epoch
    def __repr__(self): return 'Path(%s,%s)' % (self.root, self.steps)

class SymV(V):
    """reference to an object of a symbolic class; 0 stands for None"""
    __slots__ = ('cls', 't')
    def __init__(self, cls, t): self.cls, self.t = cls, t
    def __repr__(self): return 'SymV(%s,%s)' % (self.cls, self.t)

class Guarded(V):
    """one of several values, under mutually exclusive, exhaustive conditions"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return 'Guarded(%r)' % (self.alts,)

class OpaqueV(V):
    """a value the program only passes around"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t

class FuncV(V):
    __slots__ = ('node', 'mod', 'cls', 'env', 'kind', 'defaults')
    def __init__(self, node, mod, cls=None, env=None, kind='function'):
        self.node, self.mod, self.cls, self.env, self.kind = node, mod, cls, env, kind

class ClassV(V):
    __slots__ = ('name', 'mod')
    def __init__(self, name, mod): self.name, self.mod = name, mod
    def __repr__(self): return 'ClassV(%s)' % self.name

class ModV(V):
    __slots__ = ('name',)
    def __init__(self, name): self.name = name

class BuiltinV(V):
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'BuiltinV(%s)' % self.name

class BoundV(V):
    __slots__ = ('obj', 'name')
    def __init__(self, obj, name): self.obj, self.name = obj, name

class PartialV(V):
    """host-level callable: fn(engine, st, args, kwargs) -> [(st, v)]"""
    __slots__ = ('fn', 'meta')
    def __init__(self, fn, meta=None): self.fn, self.meta = fn, meta

class RaiseV(V):
    __slots__ = ('exc', 'node')
    def __init__(self, exc, node=None): self.exc, self.node = exc, node

# ---- contents -------------------------------------------------------------

class VecC(V):
    __slots__ = ('xs',)
    def __init__(self, xs): self.xs = tuple(xs)
    def __repr__(self): return 'VecC%s' % (self.xs,)

class ListC(V):
    """n: Int term, fn: term -> (pure value, [facts]).  prov: how it was made (for loop summaries).
    cnt: optional, pure value -> Int term (multiplicity)."""
    __slots__ = ('n', 'fn', 'prov', 'cnt', '_cache', 'etype', 'fcnt', 'flen')
    def __init__(self, n, fn, prov=None, cnt=None, etype=None):
        self.n = z3.IntVal(n) if isinstance(n, int) else n
        self.fn, self.prov, self.cnt, self.etype = fn, prov, cnt, etype
        self.fcnt = self.flen = None     # of a list of lists: multiplicities and number of the elements of all of them
        self._cache = {}
    def get(self, i):
        if isinstance(i, int): i = z3.IntVal(i)
        k = i.get_id()
        r = self._cache.get(k)
        if r is None:
            r = (i, self.fn(i))
            self._cache[k] = r
        return r[1]
    def __repr__(self): return 'ListC(n=%s,%s)' % (self.n, self.prov and self.prov[0])

class IterC(V):
    """iterator: n (None = infinite), get: (engine, st, i) -> [env-level value]; pos"""
    __slots__ = ('n', 'get', 'pos')
    def __init__(self, n, get, pos=None):
        self.n = z3.IntVal(n) if isinstance(n, int) else n
        self.get, self.pos = get, (z3.IntVal(0) if pos is None else pos)

class DictC(V):
    """has: pure key -> Bool; get: pure key -> (pure value, facts); keys: ListC"""
    __slots__ = ('has', 'get', 'keys', 'default', 'name', 'prov', 'kt', 'vt')
    def __init__(self, has, get, keys=None, default=None, name=None, prov=None, kt=None, vt=None):
        self.has, self.get, self.keys, self.default, self.name, self.prov, self.kt, self.vt = has, get, keys, default, name, prov, kt, vt

class SetC(V):
    """has: pure value -> Bool term.  concrete: list of pure values or None"""
    __slots__ = ('has', 'concrete', 'etype')
    def __init__(self, has, concrete=None, etype=None):
        self.has, self.concrete, self.etype = has, concrete, etype

class ObjC(V):
    __slots__ = ('cls', 'fields')
    def __init__(self, cls, fields): self.cls, self.fields = cls, dict(fields)
    def __repr__(self): return 'ObjC(%s,%s)' % (self.cls, list(self.fields))

# ---- numbers --------------------------------------------------------------

def real_of_float(x):
    import fractions, math
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('non-finite constant')
    # the decimal the programmer wrote, not its binary approximation
    return z3.RealVal(repr(x) if 'e' not in repr(x) else str(fractions.Fraction(repr(x))))

def to_real(t):
    if t.sort() == z3.IntSort():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t

def unify(a, b):
    if a.sort() != b.sort():
        return to_real(a), to_real(b)
    return a, b

def const_int(t):
    """python int if the term is a literal, else None"""
    if z3.is_int_value(t): return t.as_long()
    s = z3.simplify(t)
    if z3.is_int_value(s): return s.as_long()
    return None

# ---- axiomatised functions --------------------------------------------------

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
Sqrt = z3.Function('Sqrt', R, R)
PMod = z3.Function('PMod', I, I, I)

def mk_sqrt(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        f = t.as_fraction()
        import math
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(n) / d if d != 1 else z3.RealVal(n)
    return Sqrt(t)

def sqrt_arg(t):
    if z3.is_app(t) and t.decl().eq(Sqrt): return t.arg(0)
    return None

def mk_mod(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb not in (None, 0): return z3.IntVal(ca % cb)
    if cb is not None and cb > 0: return a % cb
    return PMod(a, b)

# ---- structural maps --------------------------------------------------------

def vmap(v, f):
    """apply f to every z3 leaf (f: term -> term)"""
    if isinstance(v, Num): return Num(f(v.t))
    if isinstance(v, BoolV): return BoolV(f(v.t))
    if isinstance(v, CharV): return CharV(f(v.t))
    if isinstance(v, OpaqueV): return OpaqueV(f(v.t))
    if isinstance(v, SeqStr): return SeqStr(vmap(v.lst, f))
    if isinstance(v, CplxV): return CplxV(f(v.re), f(v.im))
    if isinstance(v, TupleV): return TupleV([vmap(x, f) for x in v.items])
    if isinstance(v, RecV): return RecV(v.cls, {k: vmap(x, f) for k, x in v.fields.items()})
    if isinstance(v, SymV): return SymV(v.cls, f(v.t))
    if isinstance(v, Guarded): return Guarded([(f(c), vmap(x, f)) for c, x in v.alts])
    if isinstance(v, VecC): return VecC([f(x) for x in v.xs])
    if isinstance(v, ObjC): return ObjC(v.cls, {k: vmap(x, f) for k, x in v.fields.items()})
    if isinstance(v, ListC):
        if v.prov and v.prov[0] == 'lit' and not v.prov[1]: return v
        def fn(i, v=v):
            x, facts = v.get(i)
            return vmap(x, f), [f(q) for q in facts]
        cnt = None
        if v.cnt: cnt = lambda x, v=v: f(v.cnt(x))
        vs = getattr(f, 'vars', None)
        prov = None
        if vs is not None and v.prov and v.prov[0] in ('concat', 'append', 'ite', 'gated', 'heap'):
            if not mentions_vars(v, vs): return v
            prov = (v.prov[0],) + tuple(f(x) if z3.is_expr(x) else vmap(x, f) for x in v.prov[1:])
        elif vs is not None and not mentions_vars(v, vs): return v
        if prov is None and v.prov and v.prov[0] in ('flatten', 'blocks'): prov = ('blocks', v.prov[4] if v.prov[0] == 'flatten' else v.prov[1])     # where a block starts (used as a hint only)
        if prov is None and v.prov and v.prov[0] in ('filter', 'ranks'):      # where kept elements are and came from (hints only)
            if v.prov[0] == 'filter':
                k_, c_ = v.prov[2:4]
                kept = lambda t: z3.substitute(c_, (k_, t))
            else: kept = v.prov[1]
            m_, s_ = v.prov[-2:]
            prov = ('ranks', lambda t, q=kept: f(q(t)), lambda t, q=m_: f(q(t)), lambda t, q=s_: f(q(t)))
        r = ListC(f(v.n), fn, prov=prov, cnt=cnt, etype=v.etype)
        if v.fcnt: r.fcnt, r.flen = (lambda x, v=v: f(v.fcnt(x))), f(v.flen)
        return r
    if isinstance(v, PathV):
        return PathV(v.root, [(s[0], f(s[1])) if s[0] == 'i' else s for s in v.steps], v.epoch)
    if isinstance(v, DictC):
        def get(k, v=v):
            x, facts = v.get(k)
            return vmap(x, f), [f(q) for q in facts]
        return DictC(lambda k, v=v: f(v.has(k)), get, vmap(v.keys, f) if v.keys else None, v.default, v.name, None, v.kt, v.vt)
    if isinstance(v, SetC):
        return SetC(lambda k, v=v: f(v.has(k)), [vmap(x, f) for x in v.concrete] if v.concrete is not None else None, v.etype)
    return v

def substf(pairs):
    pairs = list(pairs)
    f = lambda t: z3.substitute(t, *pairs)
    if all(z3.is_app(a) for a, b in pairs): f.vars = frozenset(a.decl().name() for a, b in pairs)
    return f

def mentions_vars(v, names):
    try: return any(symbols(t) & names for t in leaves(v))
    except Exception: return True

def leaves(v, depth=0):
    """all z3 leaves; lists are probed at a fresh index"""
    if isinstance(v, (Num, BoolV, CharV, SymV, OpaqueV)): yield v.t
    elif isinstance(v, SeqStr): yield from leaves(v.lst, depth)
    elif isinstance(v, CplxV):
        yield v.re; yield v.im
    elif isinstance(v, TupleV):
        for x in v.items: yield from leaves(x, depth)
    elif isinstance(v, (RecV, ObjC)):
        for x in v.fields.values(): yield from leaves(x, depth)
    elif isinstance(v, Guarded):
        for c, x in v.alts:
            yield c
            yield from leaves(x, depth)
    elif isinstance(v, VecC):
        yield from v.xs
    elif isinstance(v, ListC):
        yield v.n
        if depth < 4:
            x, facts = v.get(z3.Int('probe!%d' % depth))
            yield from leaves(x, depth + 1)
            yield from facts
    elif isinstance(v, DictC):
        if depth < 4 and v.kt is not None and v.kt != TAny:
            k = probe_key(v.kt)
            yield v.has(k)
            x, facts = v.get(k)
            yield from leaves(x, depth + 1)
        elif v.prov is not None or (v.kt is None and v.default is None and v.keys is None): raise Unsupported('leaves of a dictionary')
    elif isinstance(v, PathV):
        for s in v.steps:
            if s[0] == 'i': yield s[1]

def probe_key(t, n='probe!k'):
    if t.k in ('int', 'char', 'sym', 'opaque'):
        x = z3.Int(n)
        return Num(x) if t.k == 'int' else CharV(x) if t.k == 'char' else SymV(t.a[0], x) if t.k == 'sym' else OpaqueV(x)
    if t.k == 'real': return Num(z3.Real(n))
    if t.k == 'bool': return BoolV(z3.Bool(n))
    if t.k == 'vec': return VecC([z3.Real('%s%d' % (n, i)) for i in range(t.a[0])])
    if t.k == 'tuple': return TupleV([probe_key(x, '%s%d' % (n, i)) for i, x in enumerate(t.a)])
    raise Unsupported('dictionary key of type %s' % t)

_sym_cache = {}
def symbols(t):
    """names of uninterpreted symbols in a z3 term"""
    m = _sym_memo.get(t.get_id())
    if m is not None: return set(m[1])
    out = _symbols(t)
    if len(_sym_memo) > 60000: _sym_memo.clear()
    _sym_memo[t.get_id()] = (t, frozenset(out))
    return out

_sym_memo = {}

def _symbols(t):
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    return out

# ---- types (for havoc) --------------------------------------------------------

class T:
    def __init__(self, k, *a): self.k, self.a = k, a
    def __repr__(self): return self.k + (repr(self.a) if self.a else '')
    def __eq__(self, o): return isinstance(o, T) and self.k == o.k and self.a == o.a
    def __hash__(self): return hash(self.k)
TInt, TReal, TBool, TNone, TChar, TAny, TStrSeq = T('int'), T('real'), T('bool'), T('none'), T('char'), T('any'), T('str')
def TVec(n): return T('vec', n)
def TList(t): return T('list', t)
def TTuple(*ts): return T('tuple', *ts)
def TRec(cls, fields): return T('rec', cls, tuple(fields.items()))
def TObj(cls, fields): return T('obj', cls, tuple(fields.items()))
def TSym(cls): return T('sym', cls)
def TUnion(*ts): return T('union', *ts)
def TSet(t): return T('set', t)

def type_of(v):
    """type of a pure value"""
    if isinstance(v, Num): return TInt if v.is_int else TReal
    if isinstance(v, BoolV): return TBool
    if v is NONE: return TNone
    if isinstance(v, CharV): return TChar
    if isinstance(v, StrV): return TChar if len(v.s) == 1 else T('const', v.s)
    if isinstance(v, SeqStr): return TStrSeq
    if isinstance(v, VecC): return TVec(len(v.xs))
    if isinstance(v, TupleV): return TTuple(*[type_of(x) for x in v.items])
    if isinstance(v, RecV): return TRec(v.cls, {k: type_of(x) for k, x in v.fields.items()})
    if isinstance(v, ObjC): return TObj(v.cls, {k: type_of(x) for k, x in v.fields.items()})
    if isinstance(v, SymV): return TSym(v.cls)
    if isinstance(v, OpaqueV): return T('opaque')
    if isinstance(v, ListC):
        if v.etype is not None: return TList(v.etype)
        if const_int(v.n) == 0: return TList(TAny)
        return TList(type_of(v.get(z3.Int('probe!t'))[0]))
    if isinstance(v, SetC): return TSet(v.etype or TAny)
    if isinstance(v, Guarded):
        t = TAny
        for c, x in v.alts: t = join(t, type_of(x))
        return t
    if isinstance(v, UnboundT): return TAny
    if isinstance(v, DictC): return T('dict', v.kt or TAny, v.vt or TAny, v.default, v.name)
    if isinstance(v, CplxV): return T('cplx')
    raise Unsupported('type of %r' % (v,))

def join(a, b):
    if a == b: return a
    if a == TAny: return b
    if b == TAny: return a
    if {a.k, b.k} == {'int', 'real'}: return TReal
    if a.k == b.k == 'list': return TList(join(a.a[0], b.a[0]))
    if a.k == b.k == 'dict': return T('dict', join(a.a[0], b.a[0]), join(a.a[1], b.a[1]), a.a[2], a.a[3])
    if a.k == b.k == 'set': return TSet(join(a.a[0], b.a[0]))
    if a.k == b.k == 'tuple' and len(a.a) == len(b.a): return TTuple(*[join(x, y) for x, y in zip(a.a, b.a)])
    if a.k == b.k and a.k in ('rec', 'obj') and a.a[0] == b.a[0]:
        fa, fb = dict(a.a[1]), dict(b.a[1])
        if list(fa) == list(fb):
            try:
                return T(a.k, a.a[0], tuple((k, join(fa[k], fb[k])) for k in fa))
            except Unsupported:
                pass
    la = list(a.a) if a.k == 'union' else [a]
    for y in (list(b.a) if b.k == 'union' else [b]):
        for i, x in enumerate(la):
            if x == y: break
            if x.k == y.k and x.k in ('list', 'rec', 'obj', 'dict') and (x.k in ('list', 'dict') or x.a[0] == y.a[0]):
                la[i] = join(x, y); break
        else:
            la.append(y)
    return TUnion(*la)
