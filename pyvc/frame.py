"""What may a piece of code change?  A flow-insensitive over-approximation from the text: every name is given the
locations its value may come from; whatever is stored into, deleted from, or passed to code not known to be pure counts
as changed, with everything that may be reached from it."""
import ast
from .values import *

PURE_FUNCS = {'len', 'enumerate', 'abs', 'sorted', 'next', 'range', 'min', 'max', 'sum', 'any', 'all', 'zip', 'list', 'tuple', 'set', 'dict', 'Counter',
              'reversed', 'isinstance', 'print', 'int', 'float', 'str', 'round', 'bool', 'iter', 'map', 'filter', 'islice', 'cycle', 'tee', 'chain', 'combinations', 'Vector', 'frozenset', 'defaultdict', 'itemgetter', 'cmp_to_key', 'Exception', 'RuntimeError', 'ValueError', 'hash', 'id', 'divmod'}
PURE_METHODS = {'dot', 'cross', 'copy', 'index', 'count', 'items', 'keys', 'values', 'get', 'from_iterable', 'normalized', 'to_3d', 'to_2d', 'to_tuple', 'angle', 'Vector', 'lerp', 'difference', 'union', 'intersection',
                'intersect_point_line', 'format', 'join', 'most_common', 'elements', 'issubset', 'isdisjoint', 'angle_signed', 'to_4d', 'project', 'rotation_difference'}

class Frame:
    def __init__(self): self.assigned, self.mutated, self.names = set(), set(), set()

def names_in(e): return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}

def locs_of(eng, st, v, seen=None):
    """locations reachable from a value"""
    seen = set() if seen is None else seen
    if isinstance(v, LocV):
        if v.id in seen: return seen
        seen.add(v.id)
        locs_of(eng, st, st.heap.get(v.id), seen)
    elif isinstance(v, PathV): 
        seen.add(v.root)
        locs_of(eng, st, st.heap.get(v.root), seen)
    elif isinstance(v, TupleV):
        for x in v.items: locs_of(eng, st, x, seen)
    elif isinstance(v, (RecV, ObjC)):
        for x in v.fields.values(): locs_of(eng, st, x, seen)
    elif isinstance(v, Guarded):
        for _, x in v.alts: locs_of(eng, st, x, seen)
    elif isinstance(v, ListC) and v.prov and v.prov[0] == 'lit':
        for x in v.prov[1]: locs_of(eng, st, x, seen)
    return seen

class Analysis:
    def __init__(self, eng, mod): self.eng, self.mod, self.memo, self.stack = eng, mod, {}, []

    def func(self, fn, mod):
        """-> indices of parameters it may change, or None if unknown"""
        key = id(fn.node)
        if key in self.memo: return self.memo[key]
        self.memo[key] = set()
        if len(self.memo) > 40: return None
        a = fn.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg or a.kwarg: return None
        for _ in range(6):
            r = self.body(fn.node.body, {p: {p} for p in ps}, set(ps))
            if r is None: self.memo[key] = None; return None
            mut = {ps.index(x) for x in r[1] if x in ps}
            if mut == self.memo[key]: break
            self.memo[key] = mut
        return self.memo[key]

    def body(self, stmts, roots, outer):
        """roots: name -> abstract roots.  -> (assigned names, mutated roots) or None"""
        assigned, mutated = set(), set()
        roots = dict(roots)
        nodes = [x for s in stmts for x in ast.walk(s)]
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.Await, ast.Import, ast.ImportFrom, ast.Try, ast.With, ast.Match)) for x in nodes): return None
        R = lambda e: set().union(*[roots.get(n, set()) for n in names_in(e)])
        changed = True
        def flow(t, rs):
            nonlocal changed
            if isinstance(t, ast.Starred): t = t.value
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts: flow(x, rs)
            elif isinstance(t, ast.Name):
                assigned.add(t.id)
                if not rs <= roots.get(t.id, set()): roots[t.id] = roots.get(t.id, set()) | rs; changed = True
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                mut(R(t.value) if isinstance(t, ast.Subscript) else R(t.value))
                for n in names_in(t.value): flow_alias(n, rs)
        def flow_alias(n, rs):
            nonlocal changed
            if not rs <= roots.get(n, set()): roots[n] = roots.get(n, set()) | rs; changed = True
        def mut(rs):
            nonlocal changed
            if not rs <= mutated: mutated.update(rs); changed = True
        ok = True
        while changed:
            changed = False
            for x in nodes:
                if isinstance(x, ast.Assign):
                    for t in x.targets: flow(t, R(x.value))
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)):
                    if x.value is not None: flow(x.target, R(x.value))
                elif isinstance(x, ast.AugAssign):
                    flow(x.target, R(x.value)); mut(R(x.target))
                elif isinstance(x, (ast.For, ast.comprehension)):
                    flow(x.target, R(x.iter))
                    if isinstance(x, ast.comprehension): pass
                elif isinstance(x, ast.Delete):
                    for t in x.targets:
                        if isinstance(t, ast.Name): assigned.add(t.id)
                        else: mut(R(t))
                elif isinstance(x, ast.Lambda):
                    for a in x.args.args: flow_alias(a.arg, R(x.body))
                elif isinstance(x, ast.Call):
                    args = list(x.args) + [k.value for k in x.keywords]
                    f = x.func
                    if isinstance(f, ast.Attribute):
                        if f.attr in PURE_METHODS or f.attr in PURE_FUNCS: continue
                        mut(R(f.value))
                        rs = set().union(*[R(a) for a in args]) if args else set()
                        for n in names_in(f.value): flow_alias(n, rs)
                        if f.attr not in ('append', 'remove', 'extend', 'insert', 'pop', 'add', 'discard', 'sort', 'reverse', 'clear', 'update', 'normalize', 'negate'): mut(rs)
                    elif isinstance(f, ast.Name):
                        if f.id in roots and f.id not in outer: return None
                        if f.id in PURE_FUNCS: continue
                        g = self.eng.lookup_global(self.mod, f.id)
                        if isinstance(g, FuncV):
                            m = self.func(g, self.mod)
                            if m is not None and not x.keywords and not any(isinstance(a, ast.Starred) for a in x.args):
                                for i in m:
                                    if i < len(x.args): mut(R(x.args[i]))
                                continue
                        for a in args: mut(R(a))
                    else:
                        for a in args: mut(R(a))
                        mut(R(f))
                elif isinstance(x, (ast.Yield, ast.YieldFrom)): pass
        return assigned, mutated

def analyse(eng, st, node):
    """frame of a loop in the function being executed"""
    for x in ast.walk(node):
        if isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)): return None
    roots = {}
    for n, v in st.env.items(): roots[n] = locs_of(eng, st, v)
    mod = st.frame[0]
    a = Analysis(eng, mod)
    r = a.body([node], roots, set(st.env))
    if r is None: return None
    fr = Frame()
    fr.assigned = {n for n in r[0]}
    fr.mutated = set(r[1])
    # everything reachable from what is changed
    more = set()
    for l in fr.mutated: more |= locs_of(eng, st, LocV(l)) if l in st.heap else set()
    fr.mutated |= more
    fr.names = {n for n, v in st.env.items() if locs_of(eng, st, v) & fr.mutated} | fr.assigned
    # names assigned in comprehensions only are local to them
    comp = set()
    for x in ast.walk(node):
        if isinstance(x, ast.comprehension): comp |= names_in(x.target)
    plain = set()
    for x in ast.walk(node):
        if isinstance(x, (ast.Assign,)):
            for t in x.targets: plain |= names_in(t)
        elif isinstance(x, (ast.AugAssign, ast.For, ast.AnnAssign, ast.NamedExpr)): plain |= names_in(x.target)
        elif isinstance(x, ast.Delete):
            for t in x.targets: plain |= names_in(t)
    fr.assigned &= plain
    return fr
