From 9b3627bc49b32681a50284d4ba9a50c41c04d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 1/2] fix: every face starts with a polygon edge, also after
 removing spikes

Spike removal rotated the merged face by comparing a list position instead of
the next vertex with the first skeleton index, and removing vertices from a
face may take away its first edge. Rotate the faces once at the end.
---
 bpypolyskel/bpypolyskel.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 60c9261..7d89a69 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -879,6 +879,13 @@ return:         A list of subtrees (of type Subtree) of the straight skeleton. A
 
     return output
 
+def _rotateToPolyEdge(face, polyEdges):
+    # rotate the vertices of the face so that its first edge is an edge of the polygon, if it has one
+    for i in range(len(face)):
+        if (face[i], face[(i+1) % len(face)]) in polyEdges:
+            return face[i:] + face[:i]
+    return face
+
 def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0., faces=None, unitVectors=None):
     """
     polygonize() computes the faces of a hipped roof from a footprint polygon of a building, skeletonized
@@ -1170,6 +1177,10 @@ def polygonize(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0
         for item in verticesToRemove:
             face.remove(item) 
 
+    # removing spikes and vertices may have moved the polygon edge away from the start of a face
+    polyEdges = {(edge.i1,edge.i2) for edge in edges2D}
+    faces3D = [_rotateToPolyEdge(face, polyEdges) for face in faces3D]
+
     if faces is None:
         return faces3D
     else:
-- 
2.43.0


From 29f85c1f4a64b577743acd0ef42384c4f0aa4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 2/2] fix: keep the connection to a merged node that lies where
 one of its sources was

mergeCluster() dropped a connection into the cluster if its sink already was at
the position of the merged node, because it found the sink itself.
---
 bpypolyskel/bpypolyskel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bpypolyskel/bpypolyskel.py b/bpypolyskel/bpypolyskel.py
index 7d89a69..64050a7 100644
--- a/bpypolyskel/bpypolyskel.py
+++ b/bpypolyskel/bpypolyskel.py
@@ -661,7 +661,8 @@ def mergeCluster(skeleton, cluster):
             to_remove = []
             for i,sink in enumerate(arc.sinks):
                 if sink in mergedSources:
-                    if new_source in arc.sinks:
+                    # already connected to the new node? (the new node may be at the place of a merged one)
+                    if new_source in arc.sinks[:i] or (sink != new_source and new_source in arc.sinks):
                         to_remove.append(i)
                     else: 
                         arc.sinks[i] = new_source
-- 
2.43.0

