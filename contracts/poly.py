"""polygonize(): shared precondition, with the callees summarised by their contracts."""
import z3
from pyvc.contract import *
from pyvc.values import *
from pyvc.engine import conj, disj, neg

V2, V3 = TVec(2), TVec(3)
SUB = TRec('Subtree', {'source': V2, 'height': TReal, 'sinks': TList(V2)})
FACE = TList(TInt)

class P: pass

def setup(c, holes=False, units=False, faces='none'):
    """arguments of polygonize: any block in any list of vertices, any holes"""
    e = c.e
    p = P()
    p.verts, p.vref = c.list(V3, 'verts')
    p.first, p.num = z3.Int('firstVertIndex'), z3.Int('numVerts')
    c.assume(0 <= p.first, p.num >= 3, p.first + p.num <= p.verts.n)
    p.height, p.tan = z3.Real('height'), z3.Real('tan')
    p.hinfo, p.href = None, NONE
    m = z3.Int('m')
    if holes:
        p.hinfo, p.href = c.list(TTuple(TInt, TInt), 'holesInfo')
        a = lambda j, i: p.hinfo.get(j)[0].items[i].t
        c.assume(p.hinfo.n >= 1)
        c.assume(forall(m, z3.Implies(z3.And(0 <= m, m < p.hinfo.n), z3.And(0 <= a(m, 0), a(m, 1) >= 3, a(m, 0) + a(m, 1) <= p.verts.n)), a(m, 0)))
        c.assume(forall(m, z3.Implies(z3.And(0 <= m, m < p.hinfo.n), z3.And(0 <= a(m, 0), a(m, 1) >= 3, a(m, 0) + a(m, 1) <= p.verts.n)), a(m, 1)))
    p.uv, p.uref = None, NONE
    if units:
        p.uv, p.uref = c.list(V3, 'unitVectors')
        u = p.uv.get(m)[0].xs
        c.assume(p.uv.n >= 1, forall(m, z3.Implies(z3.And(0 <= m, m < p.uv.n), z3.And(u[2] == 0, u[0] * u[0] + u[1] * u[1] == 1)), u[0]))
    p.faces, p.fref = None, NONE
    if faces == 'list': p.faces, p.fref = c.list(FACE, 'faces')
    p.skel = None
    p.calls = []
    def skeletonize(e, st, fn, args, kw, node):
        """any list of nodes with at least one node; contract: the contours are not modified"""
        p.calls.append((st.copy(), args))
        l = e.fresh_val(st, TList(SUB), 'skeleton')
        st.fact(l.n >= 1)
        p.skel = l
        return [(st, e.alloc(st, l))]
    e.summaries['skeletonize'] = skeletonize
    def graph(e, st, cls, args, kw, node):
        return [(st, e.alloc(st, ObjC('poly2FacesGraph', {})))]
    e.summaries['poly2FacesGraph'] = graph
    e.summaries['poly2FacesGraph.add_edge'] = lambda e, st, fn, a, kw, node: [(st, NONE)]
    e.summaries['poly2FacesGraph.circular_embedding'] = lambda e, st, fn, a, kw, node: [(st, OpaqueV(e.fresh(st, 'embedding', I)))]
    def faces_(e, st, fn, a, kw, node):
        l = e.fresh_val(st, TList(FACE), 'traced')
        st.fact(l.n >= 0)
        return [(st, e.alloc(st, l))]
    e.summaries['poly2FacesGraph.faces'] = faces_
    e.allowed = lambda exc, st, node: True
    e.havoc, e.havoc_if = True, skip_loops
    p.args = [p.vref, Num(p.first), Num(p.num), p.href, Num(p.height), Num(p.tan), p.fref, p.uref]
    return p

import ast
def skip_loops(node, st):
    """the repair loops on faces: only their frame matters here"""
    if isinstance(node, ast.While): return True
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'remove' for x in ast.walk(node))


def name(holes, units, faces):
    return '%s, %s%s' % ('holes' if holes else 'no holes', 'unit vectors' if units else 'no unit vectors', {'none': '', 'list': ', list of faces given'}[faces])

def each(fn, variants=None):
    for holes in (False, True):
        for units in (False, True):
            for faces in ('none', 'list'):
                if variants and (holes, units, faces) not in variants: continue
                fn(holes, units, faces)

def run(c, holes, units, faces):
    """-> (setup, [(state, result)])"""
    p = setup(c, holes, units, faces)
    outs = c.call('bpypolyskel', 'polygonize', p.args, st=c.st.copy())
    if len(p.calls) == 0: raise Unsupported('skeletonize is not called')
    return p, outs

def mean(c, st, p):
    """the centroid of the outer contour: c with c * num == sum of the block"""
    S = []
    for i in range(2):
        f = z3.Function('bsum%d' % i, I, R)
        j = z3.Int('j')
        st.fact(f(0) == 0, z3.ForAll([j], z3.Implies(j >= 0, f(j + 1) == f(j) + p.verts.get(p.first + j)[0].xs[i]), patterns=[f(j + 1)]))
        S.append(f(p.num))
    return S

def same(c, s, ref, old, what, upto=None):
    """the list is unchanged (below upto)"""
    new = s.heap[ref.id]
    if new is old: c.ensure(s, what, z3.BoolVal(True)); return
    if not isinstance(new, ListC): c.ensure(s, what, z3.BoolVal(False)); return
    j = z3.Int('j*')
    s2 = s.copy(); s2.fact(0 <= j, j < old.n)
    (x, f), (y, g) = new.get(j), old.get(j)
    s2.fact(*f, *g)
    c.ensure(s2, what, z3.And(new.n >= old.n if upto is not None else new.n == old.n, c.e.veq0(c.pure(s2, x), c.pure(s2, y))))

