ID='c09-tolerance'; PROP='C09'
EDITS=[('bpypolyskel/bpypolyskel.py',"(s <= EPSILON or s >= 1.0-EPSILON)):","(s <= EPSILON or s >= 1.0-PARALLEL)):")]
NEEDS='a crossing within the last percent (but not the last 1e-5) of one edge'
BREAKS='such a crossing is not counted although it is farther than the tolerance from the end'
DEMO='''
from bpypolyskel.bpypolyskel import checkEdgeCrossing, Subtree
from mathutils import Vector
V = lambda *a: Vector(a)
sk = [Subtree(V(-5.,0.), 1.0, [V(5.,0.)]), Subtree(V(1.,10.), 1.0, [V(1.,-0.05)])]
assert checkEdgeCrossing(sk) == 1 and checkEdgeCrossing(sk[::-1]) == 1
'''
