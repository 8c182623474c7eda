"""C05: every connection of the skeleton ends at a footprint vertex or a node.

Merging a cluster: a node outside the cluster is connected afterwards to the vertices outside the cluster it was
connected to and to the merged node, never to a node that is gone; the merged node neither. (The contract of
mergeCluster, proved under C14, is all this property needs of it, so the obligations are the same.)"""
from pyvc.contract import *
from contracts import c14

BOUNDED = ['the connections made by the event handlers, by the first loop of mergeNodeClusters and by removeGhosts end at vertices or nodes of the list',
           'polygonize: the index every connection gets is the index of its vertex or node']
contract('C05', 'merging a cluster leaves no dangling connection', ['mergeCluster'], timeout=300, budget=60)(c14.merge_closed)
