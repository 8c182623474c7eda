#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json
P = []
SK = "bpypolyskel/bpypolyskel.py"; EU = "bpypolyskel/bpyeuclid.py"; GR = "bpypolyskel/poly2FacesGraph.py"
def p(id, title, statement, text, why, files, mech, observe=(), state=(), over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))

TESTS = "The existing tests call polygonize() on about 200 fixed footprints and look only at face sizes, repeated indices and edge crossings. "

p("C01", "polygonize() only ever appends to the vertex list",
  "Whatever the footprint, holes and options, when polygonize() returns, every entry the vertex list held before the call is still at its position with unchanged coordinates, and the list has grown by exactly one 3D vertex per skeleton node, in the order of the nodes returned by skeletonize(). The unit vectors and hole descriptions passed in are left unchanged as well.",
  "every vertex list, block position, number and size of holes, optional arguments, and every skeleton",
  TESTS + "None compares the vertex list before and after a call.",
  [SK], [("polygonize", SK + ": polygonize, from the centroid to verts.extend and to the end of spike removal")],
  ["the verts, unitVectors and holesInfo arguments of polygonize() before and after the call"])

p("C02", "Roof vertices are lifted by height or pitch exactly as documented",
  "Every vertex polygonize() appends lies at its skeleton node's x/y position in the caller's coordinates, and at z = footprint z + slope * (the node's distance from its edge). The slope is height divided by the largest such distance if a non-zero height is given (so the highest roof vertex is exactly `height` above the footprint), otherwise `tan`; with both zero the roof is flat at the footprint's z.",
  "every footprint position and elevation, every height and tan (including both, either or none), every skeleton with at least one node",
  TESTS + "None looks at a coordinate of an appended vertex; nearly all use z = const, height 0 and tan 0.5.",
  [SK], [("polygonize", SK + ": zBase, center, height/tan branch, skeleton_nodes3D")],
  ["the appended part of verts after polygonize()"])

p("C03", "New faces are appended to the caller's list, or returned in a new list",
  "If a list of faces is passed to polygonize(), that same list object is returned, its earlier entries unchanged and in place, followed by exactly the faces a call without a list would have returned; an empty list counts as a list. If none is passed, a list holding just the new faces is returned.",
  "every footprint, every list of earlier faces (also empty ones)",
  TESTS + "All pass None for the list of faces.",
  [SK], [("polygonize", SK + ": the final faces is None / faces.extend branch, and everything before it that must not touch `faces`")],
  ["the faces argument and the return value of polygonize()"])

p("C04", "Footprint and hole contours are wired vertex by vertex",
  "For every block position and size, and for any number of holes anywhere in the vertex list, the contours polygonize() hands to skeletonize() are the outer one followed by the holes in order; each holds exactly one edge per vertex of its block, edge j running from vertex j to the next one and the last edge back to the first, tagged with their indices, with 2D coordinates relative to the centroid of the outer contour. The direction of the edge with running number k (outer contour first, then the holes) is the k-th unit vector if unit vectors are given, and the normalised difference of its end points otherwise.",
  "every first index, vertex count, number of holes, hole position and size, with and without unit vectors",
  TESTS + "16 of 201 footprints have holes, few have more than one, and no test checks that supplied unit vectors meet the right edges.",
  [SK, EU], [("polygonize", SK + ": edges2D, holeEdges, edgeContours, uIndex"), ("Edge2", EU + ": Edge2.__init__")],
  ["the argument of skeletonize() when called from polygonize()"])

p("C05", "Every skeleton edge ends at a footprint vertex or at a skeleton node",
  "In the list of nodes skeletonize() works up - after the event loop, after merging nodes with the same position, after merging clusters and after removing ghost edges - every sink of every node is the position of a footprint or hole vertex or of a node in the list. Hence no edge is attached to a wrong vertex: polygonize() connects each sink to the index of that footprint vertex or node, and every index in a face is a valid index into the vertex list.",
  "every footprint and every sequence of edge and split events, every set of clusters, every ghost edge",
  TESTS + "A dangling sink silently becomes vertex index -1, which is a legal Python index; no test looks for it.",
  [SK], [("event handlers", SK + ": _SLAV.handle_edge_event, handle_split_event, handle_dormer_event"),
         ("merging", SK + ": mergeNodeClusters, mergeCluster"), ("ghost edges", SK + ": removeGhosts"),
         ("index lookup", SK + ": polygonize, add skeleton edges to graph")],
  ["the list returned by skeletonize(); the indices in the faces returned by polygonize()"], over=("inputs", "histories"))

p("C06", "Face tracing uses every directed edge of the graph exactly once",
  "For every connected or unconnected simple graph and every rotation system of it, face tracing puts each directed edge (both directions of each undirected edge) into exactly one traced face and ends without raising; in each face an edge (u,v) is followed by (v,w) with w the successor of u in the circular order at v. The faces returned are exactly the traced ones that contain a vertex that is not a footprint vertex, each rotated to start with an edge between two footprint vertices if it has one.",
  "every simple graph, every circular order of the neighbours, every number of footprint vertices, every iteration order of sets",
  TESTS + "The order in which a set yields its edges decides where tracing starts, and tests only see one order per graph.",
  [GR], [("faces", GR + ": poly2FacesGraph.faces"), ("edges", GR + ": poly2FacesGraph.edges, add_edge")],
  ["return value of poly2FacesGraph.faces()"])

p("C07", "Neighbours are ordered by their true angle around a vertex",
  "The pseudo-angle of a non-zero vector lies in [0,4) and orders vectors exactly as their polar angle in [0, 2*pi) does. The circular embedding of a graph lists, for each vertex, exactly its neighbours, once each, by decreasing polar angle as seen from that vertex for 'CCW', and in exactly the reverse order for 'CW'.",
  "every pair of non-zero vectors in every quadrant and on the axes, every graph whose neighbours lie in different directions",
  TESTS + "They reach only the directions that occur in those footprints, and never the 'CW' order.",
  [GR], [("pseudoangle", GR + ": pseudoangle, compare_angles"), ("circular_embedding", GR + ": poly2FacesGraph.circular_embedding")],
  ["return values of pseudoangle(), compare_angles() and circular_embedding()"])

p("C08", "Line and ray intersections are exact and respect where a ray starts",
  "Intersecting two lines or rays yields no point exactly when they are parallel or the intersection of their carrier lines lies behind the origin of a ray; otherwise the point returned lies on both carriers, and on no ray behind its origin. Swapping the operands does not change the result, and the distance of a point from a line is the length of the perpendicular to it. (Over real arithmetic.)",
  "every pair of lines and rays (each of the four combinations), every point",
  TESTS + "Intersections are never tested on their own.",
  [EU], [("intersection", EU + ": _intersect_line2_line2, Ray2, Line2")],
  ["Line2.intersect, Ray2.intersect, Line2.distance"])

p("C09", "Crossing tests report exactly the crossing segments",
  "The segment test reports an intersection exactly when, for segments in general position, the two segments have a point in common, whichever end points or segments are swapped. checkEdgeCrossing() returns the number of pairs of skeleton edges that cross in their interiors (by more than the tolerance at both ends), counting every unordered pair of edges once, never parallel pairs, and does not modify the skeleton.",
  "every four points in general position; every skeleton",
  TESTS + "They only require that the count is zero, so a count that misses crossings passes them.",
  [SK, EU], [("intersect", EU + ": ccw, intersect"), ("checkEdgeCrossing", SK + ": checkEdgeCrossing")],
  ["return values of intersect() and checkEdgeCrossing()"])

p("C10", "The circle fitted to an arc passes through its first, middle and last point",
  "For every list of at least three points whose first, middle (index n//2) and last points are not on one line, the centre returned by the circle fit has the same distance from these three points, and this distance is the radius returned. (Over real arithmetic.)",
  "every list of points of any length",
  TESTS + "The fit is never tested on its own; it only decides whether clusters are merged near an apse.",
  [EU], [("fitCircle3Points", EU + ": fitCircle3Points")], ["return value of fitCircle3Points()"])

p("C11", "The event queue hands out every event once, nearest first",
  "An event put into the queue is handed out exactly once and nothing else is; None is not queued. A single event taken is one with the smallest distance; the batch taken is a non-empty list in order of distance that starts with such an event and holds exactly the queued events less than 0.001 farther than it, whatever kinds of events are mixed.",
  "every history of insertions and removals, every mix of edge, split and dormer events",
  TESTS + "They see only the orders of events those footprints produce.",
  [SK], [("queue", SK + ": _EventQueue"), ("order", SK + ": __lt__ of _SplitEvent, _EdgeEvent, DormerEvent")],
  ["return values of get(), getAllEqualDistance(), peek() and empty()"], over=("inputs", "histories"))

p("C12", "Wavefront vertices are classified and aimed correctly",
  "A wavefront vertex built from two edges with unit directions is reflex exactly if the contour turns right there (unless directions are given or convexity is forced), and its bisector starts at the vertex and points so that every point on it has equal distance from the carriers of both edges, on the interior (left) side of both edges at a convex or reflex corner alike. Closing a contour visits every edge once, in order, wrapping around.",
  "every pair of unit directions that are neither equal nor opposite, every contour length",
  TESTS + "A wrong bisector at an unusual corner only shows as a different, still well-formed, roof.",
  [SK], [("vertex", SK + ": _LAVertex.__init__"), ("pairs", SK + ": _iterCircularPrevNext, _iterCircularPrevThisNext")],
  ["attributes of a wavefront vertex; the pairs and triples yielded by the circular iterators"])

p("C13", "The next event of a wavefront vertex is its nearest candidate",
  "The next event of a wavefront vertex is absent exactly if it has no candidate, and otherwise is a candidate whose point is nearest to the vertex. An edge event pairs the vertex with the neighbour whose bisector its own bisector meets at that point, and its distance is that of the point from the edge they share; a split event arises only at a reflex vertex and only against a contour edge other than the vertex's own, at a point on the vertex's bisector and within the area swept by that edge, and its distance is that of the point from that edge.",
  "every wavefront vertex, every pair of neighbours, every list of contour edges of any length",
  TESTS + "A wrong event choice mostly produces a different but still well-formed roof.",
  [SK], [("next_event", SK + ": _LAVertex.next_event")], ["return value of next_event()"])

p("C14", "Merging nodes keeps heights, positions and all outside connections",
  "Merging a cluster of skeleton nodes replaces exactly these nodes by one at their mean position and mean height, connected to every vertex outside the cluster that one of them was connected to, once; every other node keeps its position, its height and its connections outside the cluster, and a connection into the cluster leads to the merged node afterwards, once. Nodes with exactly the same position are merged before, keeping all their connections.",
  "every skeleton, every cluster of at least two nodes in it",
  TESTS + "They cannot see lost connections or shifted heights, only malformed faces.",
  [SK], [("mergeCluster", SK + ": mergeCluster"), ("mergeNodeClusters", SK + ": mergeNodeClusters, first loop")],
  ["the skeleton list before and after mergeCluster() and mergeNodeClusters()"])

p("C15", "Only close nodes are clustered, and architectural details are spared",
  "Every cluster found has at least two nodes, all nearer than the threshold (Manhattan distance) to its first node, and no node is in two clusters. A cluster with a node within 3.0 (Manhattan) of the centre of an apse is never reported, nor is one connected to two or more contour vertices of which two lie within twice the threshold of each other.",
  "every skeleton, threshold, contour and list of candidates",
  TESTS + "They reach a handful of clusters and never look at which nodes were merged.",
  [SK], [("findClusters", SK + ": findClusters")], ["return value of findClusters()"])

p("C16", "Only genuine dormers get the dormer shortcut",
  "Every dormer detected consists of four consecutive corners of the outer contour (also across its start) that turn right, left, left, right by almost a right angle, with a base shorter than 10, sides of similar length and neighbouring edges long enough, reported with the length of its base; no two detected dormers share a corner and nothing is reported if dormers would make up the whole contour. Turning detected dormers into events replaces exactly the initial events of their corners, by one event at half the base length, and only if the two right turns have split events and the first left turn an edge event; all other events are kept in order.",
  "every outer contour, every start vertex of it, every list of initial events",
  TESTS + "A handful of the footprints have dormers, none of them across the start of the contour list as the only dormer.",
  [SK], [("detectDormers", SK + ": detectDormers"), ("processDormers", SK + ": processDormers")],
  ["return value of detectDormers(); the event list before and after processDormers()"])

p("C17", "Every face starts with a footprint edge",
  "The first edge of every face returned by polygonize() is an edge of the footprint or of a hole, in the direction of its contour, for every face that has such an edge, also after spikes have been removed and faces merged.",
  "every footprint, every skeleton, every history of spike removals",
  TESTS + "None looks at the first edge; three of the repository's own footprints break the documented guarantee at the pinned commit.",
  [SK, GR], [("rotation", GR + ": poly2FacesGraph.faces, final_faces"), ("rotation after merging", SK + ": polygonize, spike removal")],
  ["the faces returned by polygonize()"], over=("inputs", "histories"))

p("C18", "Every handled event becomes a skeleton node at its own place and height",
  "Handling an edge event yields exactly one node at the event's point and distance; its sinks are the points of the two vertices that meet, or of all vertices of the wavefront loop that vanishes, and the vertices consumed become invalid. Handling a split event either changes nothing and yields no node, or yields one node at the event's point and distance whose sinks start with the split vertex, and consumes that vertex; vertices created have the event's point, and new events are asked for only from vertices that remain.",
  "every state of the wavefront, every edge and split event",
  TESTS + "They do not look at the nodes' positions, heights or sinks.",
  [SK], [("handlers", SK + ": _SLAV.handle_edge_event, handle_split_event, _LAV.unify, _LAV.invalidate")],
  ["return values of the event handlers and the state of the wavefront"], over=("inputs", "histories"))

p("C19", "The faces tile the footprint: counterclockwise, simple, no overlap, no gap",
  "For every simple footprint, seen from above, the faces returned are simple, counterclockwise polygons with at least three different vertices that cover the footprint without overlap.",
  "every simple polygon with simple, disjoint holes inside it",
  TESTS + "These are samples; debug/ holds footprints for which it is known to fail.",
  [SK, GR], [("whole pipeline", SK + ": polygonize")], ["the faces returned by polygonize()"])

p("C20", "The skeleton is the straight skeleton: nodes are equidistant from their edges",
  "For every simple footprint that needs no repair, every skeleton node has the same distance from all contour edges that reach it and no contour edge is nearer.",
  "every simple polygon with holes",
  "The tests check no distance at all; README.md states that the result is not a straight skeleton in the mathematical sense.",
  [SK], [("event loop", SK + ": skeletonize")], ["return value of skeletonize()"])

p("C21", "polygonize() terminates without raising",
  "For every simple footprint with simple, disjoint holes inside it, polygonize() returns in finite time and raises no exception.",
  "every simple polygon with holes",
  "The tests run with a 10 s timeout on fixed footprints; README.md claims 99.99% of the footprints of OpenStreetMap.",
  [SK, GR], [("loops", SK + ": skeletonize, mergeNodeClusters, removeGhosts, spike removal")], ["polygonize()"])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
