ID='c10-middle'; PROP='C10'
EDITS=[('bpypolyskel/bpyeuclid.py',"y = complex(points[N//2].x, points[N//2].y)","y = complex(points[(N-1)//2].x, points[(N-1)//2].y)")]
NEEDS='a list with an even number of points that are not exactly on a circle'
BREAKS='the circle does not pass through the middle point n//2'
DEMO='''
from bpypolyskel.bpyeuclid import fitCircle3Points
from mathutils import Vector
pts = [Vector(p) for p in ((0.,0.),(1.,1.),(2.5,1.),(3.,0.))]
c, R = fitCircle3Points(pts)
for p in (pts[0], pts[2], pts[3]): assert abs((p-c).length-R) < 1e-3
'''
