ID='c09-shared-source'; PROP='C09'
EDITS=[('bpypolyskel/bpypolyskel.py',"""        for p2 in arc.sinks:
            sk_edges.append( Edge2(p1,p2) )

    combs""","""        for p2 in arc.sinks[:3]:
            sk_edges.append( Edge2(p1,p2) )

    combs""")]
NEEDS='a skeleton node with more than three sinks whose fourth edge crosses another edge'
BREAKS='crossings of the fourth and later edges of a node are not counted'
DEMO='''
from bpypolyskel.bpypolyskel import checkEdgeCrossing, Subtree
from mathutils import Vector
V = lambda *a: Vector(a)
sk = [Subtree(V(0.,0.), 1.0, [V(1.,0.), V(0.,1.), V(-1.,0.), V(4.,4.)]), Subtree(V(0.,4.), 1.0, [V(4.,0.)])]
assert checkEdgeCrossing(sk) == 1, checkEdgeCrossing(sk)
'''
