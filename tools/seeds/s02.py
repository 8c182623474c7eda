ID='c08-near-parallel'; PROP='C08'
EDITS=[('bpypolyskel/bpyeuclid.py',"    if d == 0:\n        return None","    if abs(d) < 1e-4:\n        return None")]
NEEDS='two short or nearly parallel carriers whose direction vectors have a cross product below 1e-4 but not 0'
BREAKS='lines that are not parallel are reported as having no intersection'
DEMO='''
from bpypolyskel.bpyeuclid import Line2, Ray2
from mathutils import Vector
a = Line2(Vector((0.,0.)), Vector((0.005,0.)), 'pv')
b = Line2(Vector((1.,-1.)), Vector((0.,0.005)), 'pv')
p = a.intersect(b)
assert p is not None and abs(p.x-1) < 1e-4 and abs(p.y) < 1e-4
'''
