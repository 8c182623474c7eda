ID='c08-ray-origin'; PROP='C08'
EDITS=[('bpypolyskel/bpyeuclid.py',"    if not B.intsecttest(ub):","    if not A.intsecttest(ub):")]
NEEDS='a line intersected with a ray (line first), with the crossing behind the origin of the ray'
BREAKS='line.intersect(ray) reports a point behind the origin of the ray (ray.intersect(line) does not)'
DEMO='''
from bpypolyskel.bpyeuclid import Line2, Ray2
from mathutils import Vector
l = Line2(Vector((0.,0.)), Vector((1.,0.)), 'pv')
r = Ray2(Vector((1.,1.)), Vector((0.,1.)))
assert r.intersect(l) is None
assert l.intersect(r) is None
'''
