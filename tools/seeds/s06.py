ID='c08-distance-clamp'; PROP='C08'
EDITS=[('bpypolyskel/bpyeuclid.py',"        nearest = mathutils.geometry.intersect_point_line(other, self.p, self.p+self.v)[0]","        nearest, t = mathutils.geometry.intersect_point_line(other, self.p, self.p+self.v)\n        if t < -1000.0:\n            nearest = self.p")]
NEEDS='a point whose foot lies more than 1000 edge lengths before the start of the line'
BREAKS='the distance of such a point is not the perpendicular one'
DEMO='''
from bpypolyskel.bpyeuclid import Line2
from mathutils import Vector
l = Line2(Vector((0.,0.)), Vector((0.01,0.)), 'pv')
d = l.distance(Vector((-12.,1.)))
assert abs(d-1) < 1e-3, d
'''
