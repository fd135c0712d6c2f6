From dffc96692b14b94ad74ddacbc9801e8fb6baeb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 01/81] fix: removing a self-link from an undirected network
 raised KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..cb30505 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2:
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From 7bbc1a610f2e45fd82995ec5487f4b905e46bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 02/81] fix: slice access net[i,j,s,:] filtered by the source
 node-layer instead of the given one

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index cb30505..e5f388e 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -495,7 +495,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From 8d6243880ffbe2554f91ee2a70e62cb415d2eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:40 +0000
Subject: [PATCH 03/81] fix: total degree of the target node was not
 decremented when a directed link was removed

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index e5f388e..019190a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -275,7 +275,7 @@ class MultilayerNetwork(object):
                         else:
                             if node1 not in self._rnet or node2 not in self._rnet[node1]:
                                 self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
+                            if node2 not in self._net or node1 not in self._net[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     elif node1!=node2:
-- 
2.43.0


From 0ba3daec9eee31ebdbb7cc0f60eb241f6d61257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 04/81] fix: comparing a non-fully-interconnected network to a
 fully interconnected one raised AttributeError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 019190a..90dc363 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -176,7 +176,7 @@ class MultilayerNetwork(object):
         if not isinstance(other,MultilayerNetwork):
             return False
         
-        if not self.fullyInterconnected:
+        if not self.fullyInterconnected and not other.fullyInterconnected:
             if self._nodeToLayers!=other._nodeToLayers:
                 return False
         if type(self) is type(other) and self.directed == other.directed and self.directed==other.directed and self.aspects==other.aspects and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges) ==len(other.edges):            
-- 
2.43.0


From 89c2e3dd474dfaef2e3cbb43fa1e4f5a18838e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 05/81] fix: equal networks built in different order hashed
 differently and multiplex networks were unhashable

---
 pymnet/net.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 90dc363..e3b00fa 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -618,7 +618,12 @@ class MultilayerNetwork(object):
 
 
     def __hash__(self):
-        return pickle.dumps(self).__hash__()
+        #equal networks must have equal hashes, no matter in which order they were built
+        if self.directed:
+            edges=frozenset(self.edges)
+        else:
+            edges=frozenset((frozenset(self._link_to_nodes(edge[:-1])),edge[-1]) for edge in self.edges)
+        return hash((self.aspects,self.directed,self.fullyInterconnected,tuple(map(frozenset,self.slices)),edges))
 
     def get_supra_adjacency_matrix(self,includeCouplings=True):
         """Returns the supra-adjacency matrix and a list of node-layer pairs.
@@ -1269,6 +1274,9 @@ class MultiplexNetwork(MultilayerNetwork):
                 return True
         return False
 
+    #defining __eq__ would otherwise make the class unhashable
+    __hash__=MultilayerNetwork.__hash__
+
     def iter_nodes(self,layer=None):
         """Iterate over nodes in the network.
 
-- 
2.43.0


From 13fdfe2265aff8f1a95c4f1a386ee9dd5121705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 06/81] fix: reading inter-layer links or strengths of a
 multiplex network with no couplings raised an exception

---
 pymnet/net.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index e3b00fa..4932404 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1049,6 +1049,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                elif coupling[0]=="none":
+                    return self.noEdge
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
@@ -1108,10 +1110,12 @@ class MultiplexNetwork(MultilayerNetwork):
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
+        if coupling_type=="none":
+            return 0
         if isinstance(coupling_type,MultilayerNetwork):
             raise Exception() #please implement this
+        coupling_str=self.couplings[aspect-1][1]
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
 
-- 
2.43.0


From a309d02c1482e809e6a4a836d4f83befb40b0eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 07/81] fix: intra-layer networks ignored the noEdge value of
 the multiplex network

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4932404..085a4b7 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -851,7 +851,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed,noEdge=self._net.noEdge)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From 30f402bcb6904d5df34121c0f14e7b805bf70fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 08/81] fix: degree, strength and neighbors failed for
 multiplex networks coupled with a network

---
 pymnet/net.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 085a4b7..4caa9b4 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1074,6 +1074,11 @@ class MultiplexNetwork(MultilayerNetwork):
             raise KeyError("Can only set links in the node dimension.")
 
 
+    def _has_node_layer(self,supernode):
+        """Return true if the node-layer is in the network.
+        """
+        return self._has_layer_with_tuple(supernode[1:]) and supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]
+
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="categorical":
@@ -1098,12 +1103,7 @@ class MultiplexNetwork(MultilayerNetwork):
             else:
                 return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
         elif isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
-            elif direction=="in":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_in()
-            elif direction=="out":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_out()
+            return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="none":
             return 0
         else:
@@ -1114,7 +1114,12 @@ class MultiplexNetwork(MultilayerNetwork):
         if coupling_type=="none":
             return 0
         if isinstance(coupling_type,MultilayerNetwork):
-            raise Exception() #please implement this
+            strength=0
+            if direction in ("tot","out"):
+                strength+=sum(self._get_link(self._nodes_to_link(node,neigh)) for neigh in self._iter_dim(node,aspect,direction="out"))
+            if direction=="in" or (direction=="tot" and self.directed):
+                strength+=sum(self._get_link(self._nodes_to_link(neigh,node)) for neigh in self._iter_dim(node,aspect,direction="in"))
+            return strength
         coupling_str=self.couplings[aspect-1][1]
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
@@ -1146,10 +1151,22 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+        elif isinstance(coupling_type,MultilayerNetwork):
+            coupled=coupling_type[supernode[aspect]]
+            if direction=="in":
+                layers=coupled.iter_in()
+            elif direction=="out":
+                layers=coupled.iter_out()
+            else:
+                layers=coupled.iter_total()
+            for n in layers:
+                neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if n!=supernode[aspect] and n in self.slices[aspect] and self._has_node_layer(supernode) and self._has_node_layer(neigh):
+                    yield neigh
         elif coupling_type=="none":
             pass
         else:
-            raise NotImplemented()
+            raise NotImplementedError()
         
     def _select_dimensions(self,node,dims):
         if dims==None:
-- 
2.43.0


From 3aafc3da8f90e4ce06c32a5481a884d803795384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 09/81] fix: couplings of multiplex networks that are not fully
 interconnected (several aspects, ordinal, absent nodes)

---
 pymnet/net.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4caa9b4..4a88878 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1089,11 +1089,11 @@ class MultiplexNetwork(MultilayerNetwork):
                     layer=supernode[1:]
                 else:
                     layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
+                if layer in self._nodeToLayers.get(supernode[0],()):
                     if self.aspects==1:
                         return len(self._nodeToLayers[supernode[0]])-1
                     else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
+                        return len(list(self._iter_dim(supernode,aspect,direction=direction)))
                 else:
                     return 0
         elif coupling_type=="ordinal":
@@ -1101,7 +1101,7 @@ class MultiplexNetwork(MultilayerNetwork):
             if self.fullyInterconnected:
                 return int(up in self.slices[aspect])+int(down in self.slices[aspect])
             else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
             return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="none":
@@ -1134,7 +1134,8 @@ class MultiplexNetwork(MultilayerNetwork):
             elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
                 for layers in self._nodeToLayers[supernode[0]]:
                     if self.aspects>1:
-                        if layers!=supernode[1:]:
+                        #coupled node-layers differ only in this aspect
+                        if layers!=supernode[1:] and layers[:aspect-1]+layers[aspect:]==supernode[1:aspect]+supernode[aspect+1:]:
                             yield (supernode[0],)+layers
                     else:
                         if layers!=supernode[1]:
@@ -1146,11 +1147,11 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if down in self.slices[aspect]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
-            else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
-                    yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+            elif self._has_node_layer(supernode):
+                for n in (up,down):
+                    neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if self._has_node_layer(neigh):
+                        yield neigh
         elif isinstance(coupling_type,MultilayerNetwork):
             coupled=coupling_type[supernode[aspect]]
             if direction=="in":
-- 
2.43.0


From da75a67d309328e09d61ade181fd0b410591fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 10/81] fix: total strength of directed multiplex networks
 counted coupling edges in one direction only

---
 pymnet/net.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4a88878..40f2d97 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1121,6 +1121,8 @@ class MultiplexNetwork(MultilayerNetwork):
                 strength+=sum(self._get_link(self._nodes_to_link(neigh,node)) for neigh in self._iter_dim(node,aspect,direction="in"))
             return strength
         coupling_str=self.couplings[aspect-1][1]
+        if direction=="tot" and self.directed: #sum of in- and out-strength
+            return 2*self._get_dim_degree(node,aspect,direction=direction)*coupling_str
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
 
-- 
2.43.0


From 615aee88d6c235876badc4210fac46a1e26cb4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 11/81] fix: multiplex neighbors restricted to another node or
 layer than the node's own were not found

---
 pymnet/net.py | 76 +++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 40f2d97..a82e5bd 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1079,7 +1079,9 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         return self._has_layer_with_tuple(supernode[1:]) and supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]
 
-    def _get_dim_degree(self,supernode,aspect,direction="tot"):
+    def _get_dim_degree(self,supernode,aspect,direction="tot",dims=None):
+        if dims!=None and dims[aspect]!=None:
+            return len(list(self._iter_dim(supernode,aspect,direction=direction,dims=dims)))
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="categorical":
             if self.fullyInterconnected:
@@ -1109,16 +1111,16 @@ class MultiplexNetwork(MultilayerNetwork):
         else:
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
-    def _get_dim_strength(self,node,aspect,direction="tot"):
+    def _get_dim_strength(self,node,aspect,direction="tot",dims=None):
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="none":
             return 0
-        if isinstance(coupling_type,MultilayerNetwork):
+        if isinstance(coupling_type,MultilayerNetwork) or (dims!=None and dims[aspect]!=None):
             strength=0
             if direction in ("tot","out"):
-                strength+=sum(self._get_link(self._nodes_to_link(node,neigh)) for neigh in self._iter_dim(node,aspect,direction="out"))
+                strength+=sum(self._get_link(self._nodes_to_link(node,neigh)) for neigh in self._iter_dim(node,aspect,direction="out",dims=dims))
             if direction=="in" or (direction=="tot" and self.directed):
-                strength+=sum(self._get_link(self._nodes_to_link(neigh,node)) for neigh in self._iter_dim(node,aspect,direction="in"))
+                strength+=sum(self._get_link(self._nodes_to_link(neigh,node)) for neigh in self._iter_dim(node,aspect,direction="in",dims=dims))
             return strength
         coupling_str=self.couplings[aspect-1][1]
         if direction=="tot" and self.directed: #sum of in- and out-strength
@@ -1126,7 +1128,12 @@ class MultiplexNetwork(MultilayerNetwork):
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
 
 
-    def _iter_dim(self,supernode,aspect,direction="tot"):
+    def _iter_dim(self,supernode,aspect,direction="tot",dims=None):
+        for neigh in self._iter_dim_all(supernode,aspect,direction=direction):
+            if dims==None or dims[aspect]==None or neigh[aspect]==dims[aspect]:
+                yield neigh
+
+    def _iter_dim_all(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="categorical":            
             if self.fullyInterconnected:
@@ -1176,14 +1183,19 @@ class MultiplexNetwork(MultilayerNetwork):
             for d in range(self.aspects+1):
                 yield d
         else:
-            l=[]
-            for d,val in enumerate(dims):
-                if val!=None and node[d]!=val:
-                    return
-                if val==None:
-                    l.append(d)
-            for d in l:
-                yield d
+            #neighbors differ from the node in exactly one dimension
+            differing=[d for d,val in enumerate(dims) if val!=None and node[d]!=val]
+            if len(differing)==0:
+                for d,val in enumerate(dims):
+                    if val==None:
+                        yield d
+            elif len(differing)==1:
+                yield differing[0]
+
+    def _node_dims(self,dims):
+        """The restriction given in dims for the neighbors inside an intra-layer network.
+        """
+        return None if dims==None else (dims[0],)
 
     def _get_degree_total_dir(self,node, dims):
         """Overrides parents method.
@@ -1191,9 +1203,9 @@ class MultiplexNetwork(MultilayerNetwork):
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
-                k+=self._get_A_with_tuple(node[1:])[node[0]].deg_total()
+                k+=self._get_A_with_tuple(node[1:])._get_degree_total((node[0],),self._node_dims(dims))
             else:
-                k+=self._get_dim_degree(node,d,direction="tot")
+                k+=self._get_dim_degree(node,d,direction="tot",dims=dims)
         return k
 
     def _get_degree_in_dir(self,node, dims):
@@ -1202,9 +1214,9 @@ class MultiplexNetwork(MultilayerNetwork):
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
-                k+=self._get_A_with_tuple(node[1:])[node[0]].deg_in()
+                k+=self._get_A_with_tuple(node[1:])._get_degree_in((node[0],),self._node_dims(dims))
             else:
-                k+=self._get_dim_degree(node,d,direction="in")
+                k+=self._get_dim_degree(node,d,direction="in",dims=dims)
         return k
 
     def _get_degree_out(self,node, dims):
@@ -1213,9 +1225,9 @@ class MultiplexNetwork(MultilayerNetwork):
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
-                k+=self._get_A_with_tuple(node[1:])[node[0]].deg_out()
+                k+=self._get_A_with_tuple(node[1:])._get_degree_out((node[0],),self._node_dims(dims))
             else:
-                k+=self._get_dim_degree(node,d,direction="out")
+                k+=self._get_dim_degree(node,d,direction="out",dims=dims)
         return k
 
 
@@ -1225,9 +1237,9 @@ class MultiplexNetwork(MultilayerNetwork):
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
-                s+=self._get_A_with_tuple(node[1:])[node[0]].str_total()
+                s+=self._get_A_with_tuple(node[1:])._get_strength_total((node[0],),self._node_dims(dims))
             else:
-                s+=self._get_dim_strength(node,d,direction="tot")
+                s+=self._get_dim_strength(node,d,direction="tot",dims=dims)
         return s
 
 
@@ -1237,9 +1249,9 @@ class MultiplexNetwork(MultilayerNetwork):
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
-                s+=self._get_A_with_tuple(node[1:])[node[0]].str_in()
+                s+=self._get_A_with_tuple(node[1:])._get_strength_in((node[0],),self._node_dims(dims))
             else:
-                s+=self._get_dim_strength(node,d,direction="in")
+                s+=self._get_dim_strength(node,d,direction="in",dims=dims)
         return s
 
 
@@ -1249,9 +1261,9 @@ class MultiplexNetwork(MultilayerNetwork):
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
-                s+=self._get_A_with_tuple(node[1:])[node[0]].str_out()
+                s+=self._get_A_with_tuple(node[1:])._get_strength_out((node[0],),self._node_dims(dims))
             else:
-                s+=self._get_dim_strength(node,d,direction="out")
+                s+=self._get_dim_strength(node,d,direction="out",dims=dims)
         return s
 
 
@@ -1261,10 +1273,10 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         for d in self._select_dimensions(node,dims):
             if d==0:                
-                for n in self._get_A_with_tuple(node[1:])._iter_neighbors_total((node[0],)):
+                for n in self._get_A_with_tuple(node[1:])._iter_neighbors_total((node[0],),self._node_dims(dims)):
                     yield (n[0],)+node[1:]
             else:
-                for n in self._iter_dim(node,d,direction="tot"):
+                for n in self._iter_dim(node,d,direction="tot",dims=dims):
                     yield n
 
     def _iter_neighbors_in_dir(self,node,dims):
@@ -1272,10 +1284,10 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         for d in self._select_dimensions(node,dims):
             if d==0:                
-                for n in self._get_A_with_tuple(node[1:])._iter_neighbors_in((node[0],)):
+                for n in self._get_A_with_tuple(node[1:])._iter_neighbors_in((node[0],),self._node_dims(dims)):
                     yield (n[0],)+node[1:]
             else:
-                for n in self._iter_dim(node,d,direction="in"):
+                for n in self._iter_dim(node,d,direction="in",dims=dims):
                     yield n
 
     def _iter_neighbors_out(self,node,dims):
@@ -1283,10 +1295,10 @@ class MultiplexNetwork(MultilayerNetwork):
         """
         for d in self._select_dimensions(node,dims):
             if d==0:                
-                for n in self._get_A_with_tuple(node[1:])._iter_neighbors_out((node[0],)):
+                for n in self._get_A_with_tuple(node[1:])._iter_neighbors_out((node[0],),self._node_dims(dims)):
                     yield (n[0],)+node[1:]
             else:
-                for n in self._iter_dim(node,d,direction="out"):
+                for n in self._iter_dim(node,d,direction="out",dims=dims):
                     yield n
 
     def __eq__(self,other):
-- 
2.43.0


From 960fc579c5be867cc06b0b10263ba755af0c8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 12/81] fix: nodes of a replaced intra-layer network were still
 coupled to the other layers

---
 pymnet/net.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/net.py b/pymnet/net.py
index a82e5bd..c08e4c2 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -843,6 +843,9 @@ class MultiplexIntraNetDict(MutableMapping):
         
         if key in self._dict:
             self._add_empty_network(key)
+            if not self._net.fullyInterconnected: #the old nodes are not in the layer any more
+                for layers in self._net._nodeToLayers.values():
+                    layers.discard(key)
             transforms.subnet(val,val,newNet=self[key]) #copy the val to the layer
         else:
             raise Exception("No layer: "+str(key))
-- 
2.43.0


From ce4f15435e51061942ae9105f9c87661954ecc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 13/81] fix: adjacency matrix of a monoplex network left out
 self-links

---
 pymnet/net.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index c08e4c2..61b9d38 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -653,8 +653,7 @@ class MultilayerNetwork(object):
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if i_index!=j_index:
-                        matrix[i_index,j_index]=self[i][j]
+                    matrix[i_index,j_index]=self[i][j]
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From 6bbc1738ed0da96acdd54fa6752aaa676ca3edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 14/81] fix: aggregate added the noEdge value of the network to
 the aggregated weights

---
 pymnet/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..ce80c7a 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -81,7 +81,11 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            newEdge=tuple(newEdge)
+            if newNet[newEdge]==newNet.noEdge:
+                newNet[newEdge]=edge[-1]
+            else:
+                newNet[newEdge]=newNet[newEdge]+edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From 9217f2f412ac75cedab9a1162c5c63420fbd0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 15/81] fix: aggregate lost the layers without edges in the
 remaining aspects

---
 pymnet/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index ce80c7a..7067fd0 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -73,6 +73,11 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     #Add nodes
     for node in net:
         newNet.add_node(node)
+
+    #Add layers of the aspects that are left
+    for newAspect,oldAspect in enumerate(filter(lambda x:x not in aspects,range(1,net.aspects+1))):
+        for layer in net.get_layers(oldAspect):
+            newNet.add_layer(layer,newAspect+1)
     
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
-- 
2.43.0


From d8b5fb33d64995b958c22fd77d15073c39ff7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 16/81] fix: overlay_network dropped the edge directions of
 directed networks and nodes with no other nodes

---
 pymnet/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 7067fd0..edffb7d 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -118,7 +118,9 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork()
+    newnet=netmodule.MultilayerNetwork(directed=net.directed)
+    for node in net.slices[0]:
+        newnet.add_node(node)
     for layer in net.slices[1]:
         for node1 in net.slices[0]:
             for node2 in net.slices[0]:
-- 
2.43.0


From 67fee486ad01420a626cf88cef3c5f1c6a1bdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 17/81] fix: threshold raised NameError for networks that are
 not fully interconnected

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index edffb7d..7392a28 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -463,7 +463,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From c231dbd3e0521e4918792ed1b7578ba281fa8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 18/81] fix: relabel modified the layerNames list of the caller
 and did not accept short tuples

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 7392a28..f795e45 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -299,6 +299,7 @@ def relabel(net,nodeNames=None,layerNames=None):
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
 
+    layerNames=list(layerNames) #do not modify the sequence given by the caller
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
             layerNames.append({})
-- 
2.43.0


From 2404ce9590d6ec987865bb8af6155dff5321365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 19/81] fix: relabel left the old layer names in the coupling
 networks of multiplex networks

---
 pymnet/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index f795e45..49f0c56 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -310,7 +310,12 @@ def relabel(net,nodeNames=None,layerNames=None):
                                  directed=net.directed,
                                  fullyInterconnected=net.fullyInterconnected)
     elif type(net)==netmodule.MultiplexNetwork:
-        newNet=netmodule.MultiplexNetwork(couplings=net.couplings,
+        couplings=[]
+        for coupling,names in zip(net.couplings,layerNames):
+            if isinstance(coupling[0],netmodule.MultilayerNetwork): #nodes of coupling networks are layers
+                coupling=relabel(coupling[0],nodeNames=names)
+            couplings.append(coupling)
+        newNet=netmodule.MultiplexNetwork(couplings=couplings,
                                 directed=net.directed,
                                 noEdge=net.noEdge,
                                 fullyInterconnected=net.fullyInterconnected)
-- 
2.43.0


From 28853db72cd0d51d6304842146adc433a420e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 20/81] fix: couplings of a multiplex network coupled with a
 network could not be used to create another network

---
 pymnet/net.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 61b9d38..b0ff221 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -947,7 +947,10 @@ class MultiplexNetwork(MultilayerNetwork):
             for coupling in couplings:
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
-                    assert coupling[0] in coupling_types
+                    if isinstance(coupling[0],MultilayerNetwork):
+                        assert coupling[0].aspects==0
+                    else:
+                        assert coupling[0] in coupling_types
                     if coupling[0] in ["categorical","ordinal"] and len(coupling)==1:
                         coupling=coupling+(1.0,)
                     self.couplings.append(coupling)
-- 
2.43.0


From 09c81e390892cfcea345d342e881600567f6b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 21/81] fix: subnet of a multiplex network raised KeyError for
 layers that are not in the network

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 49f0c56..6d24cfa 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -218,7 +218,8 @@ def subnet(net,nodes,*layers,**kwargs):
             #Go through all the combinations of new layers
             for layer in itertools.product(*nodelayers[1:]):
                 layer=layer[0] if net.aspects==1 else layer
-                subnet(net.A[layer],nodelayers[0],newNet=newNet.A[layer],nolinks=nolinks)
+                if layer in net.A:
+                    subnet(net.A[layer],nodelayers[0],newNet=newNet.A[layer],nolinks=nolinks)
         elif (isinstance(net,netmodule.MultilayerNetwork) and (isinstance(newNet,netmodule.MultilayerNetwork) and not isinstance(newNet,netmodule.MultiplexNetwork))) or (isinstance(net,netmodule.MultiplexNetwork) and (isinstance(newNet,netmodule.MultilayerNetwork) and not isinstance(newNet,netmodule.MultiplexNetwork))):
             for nl1 in itertools.product(*nodelayers):
                 nl1 = nl1[0] if net.aspects==0 else nl1
-- 
2.43.0


From ae02b56ad2982ec67cdc74c41c3773d68c11ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 22/81] fix: subnet_iter failed for multiplex networks with
 coupling edges

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 6d24cfa..332cfb7 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -570,6 +570,7 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
                 couplings=subnet_with_edges.couplings
+                subnet_with_edges.couplings=[("none",)]*net.aspects
                 edges=list(subnet_with_edges.edges)
                 subnet_with_edges.couplings=couplings
             else:
-- 
2.43.0


From 297d7b731ef4c72765b731fd85e68c71933ab3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 23/81] fix: subnet_iter of a multilayer network went through
 edges of removed nodes, repeating subnetworks with the nodes added back

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 332cfb7..3bc244a 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -575,7 +575,7 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
                 subnet_with_edges.couplings=couplings
             else:
                 #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=list(subnet_with_edges.edges)
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From 17c399d51289679d41d50e01288f1e9eae218f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 24/81] fix: subnet of a multiplex network raised KeyError for
 missing layers also when copying to a multilayer network

---
 pymnet/transforms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 3bc244a..87d5a4b 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -170,7 +170,7 @@ def subnet(net,nodes,*layers,**kwargs):
         if elayers==None:
             nodelayers.append(set(net.get_layers(a)))
         else:
-            nodelayers.append(set(elayers))
+            nodelayers.append(set(elayers) & set(net.get_layers(a))) #the network might not have all of them
 
     if newNet==None:
         if isinstance(net,netmodule.MultiplexNetwork):
@@ -218,8 +218,7 @@ def subnet(net,nodes,*layers,**kwargs):
             #Go through all the combinations of new layers
             for layer in itertools.product(*nodelayers[1:]):
                 layer=layer[0] if net.aspects==1 else layer
-                if layer in net.A:
-                    subnet(net.A[layer],nodelayers[0],newNet=newNet.A[layer],nolinks=nolinks)
+                subnet(net.A[layer],nodelayers[0],newNet=newNet.A[layer],nolinks=nolinks)
         elif (isinstance(net,netmodule.MultilayerNetwork) and (isinstance(newNet,netmodule.MultilayerNetwork) and not isinstance(newNet,netmodule.MultiplexNetwork))) or (isinstance(net,netmodule.MultiplexNetwork) and (isinstance(newNet,netmodule.MultilayerNetwork) and not isinstance(newNet,netmodule.MultiplexNetwork))):
             for nl1 in itertools.product(*nodelayers):
                 nl1 = nl1[0] if net.aspects==0 else nl1
-- 
2.43.0


From eaf01473c4cfe7dd9c3755062edc7ce2228474d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 25/81] fix: density failed for networks that are not fully
 interconnected and for single nodes

---
 pymnet/diagnostics.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..3022d87 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -45,15 +45,16 @@ def density(net):
     if len(net)==0:
         return 0
 
-    if net.fullyInterconnected:        
-        nl=len(net.get_layers(0))
-        for a in range(net.aspects):
-            nl=nl*len(net.get_layers(a+1))
-        if net.directed:
-            pedges=nl*(nl-1)
-        else:
-            pedges=(nl*(nl-1))/2
-            
+    nl=len(net.get_layers(0))
+    for a in range(net.aspects):
+        nl=nl*len(net.get_layers(a+1))
+    if net.directed:
+        pedges=nl*(nl-1)
+    else:
+        pedges=(nl*(nl-1))/2
+    if pedges==0:
+        return 0
+
     return len(net.edges)/float(pedges)
 
 
-- 
2.43.0


From 6dc382c322198f7b452bf905ac65d372802b4a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 26/81] fix: overlap_degs raised NameError

---
 pymnet/diagnostics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 3022d87..e4c5589 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import subnet,aggregate,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
@@ -123,7 +124,7 @@ def overlap_degs(net):
             if n_l > 1:
                 for e in thr_net.edges:
                     for layer in layer_comb:
-                        net0[e[0], e[1], layer] = 0
+                        net0[e[0], e[1], layer] = net0.noEdge
                         
     return ol_degs
     
-- 
2.43.0


From 68ef7e699094fcc66bf1584264bbea9e37ea396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 27/81] fix: dijkstra did not terminate when there were cycles
 of zero-weight edges

---
 pymnet/diagnostics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index e4c5589..7e08953 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -143,6 +143,7 @@ def dijkstra(net,sources):
                              noEdge=-1)
     d=dict([(s,0) for s in sources])
 
+    expanded=set()
     queue=[]
     for s in sources:
         heapq.heappush(queue,(0,s,s)) #distance, source, dest
@@ -152,6 +153,9 @@ def dijkstra(net,sources):
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
+            if dest in expanded: #reached again with an equally short path
+                continue
+            expanded.add(dest)
             for neigh in net[dest].iter_out():
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
-- 
2.43.0


From cf2141730261f47677c5141d8ec479f6c5fda9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 28/81] fix: dijkstra raised TypeError when the names of
 equally distant nodes were not comparable

---
 pymnet/diagnostics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 7e08953..531d77c 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -143,13 +143,14 @@ def dijkstra(net,sources):
                              noEdge=-1)
     d=dict([(s,0) for s in sources])
 
+    counter=itertools.count() #node and layer names do not need to be comparable
     expanded=set()
     queue=[]
     for s in sources:
-        heapq.heappush(queue,(0,s,s)) #distance, source, dest
+        heapq.heappush(queue,(0,next(counter),s,s)) #distance, tie-breaker, source, dest
     
     while len(queue)>0:
-        dist,source,dest=heapq.heappop(queue)
+        dist,_,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
             forest[source][dest]=net[source][dest]
@@ -160,7 +161,7 @@ def dijkstra(net,sources):
                 ndist=dist+net[dest][neigh]
                 if neigh not in d or d[neigh]>=ndist:
                     d[neigh]=ndist      
-                    heapq.heappush(queue,(ndist,dest,neigh))
+                    heapq.heappush(queue,(ndist,next(counter),dest,neigh))
 
 
     return d,forest
-- 
2.43.0


From bab62aad9f062d194abb74c1bd320a8c8a8940ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 29/81] fix: overlap_degs counted links of weighted networks in
 the wrong layer combinations

---
 pymnet/diagnostics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 531d77c..34c8f40 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -113,6 +113,9 @@ def overlap_degs(net):
     layers = net.slices[1]
     
     net0 = subnet(net, nodes, layers)
+    for layer in layers: #links are counted, their weights do not matter
+        for e in list(net0.A[layer].edges):
+            net0[e[0], e[1], layer] = 1
     
     for n_l in range(len(layers), 0, -1):
         for layer_comb in itertools.combinations(layers, n_l):
-- 
2.43.0


From 34eab236df8de7333cd4cc2747b237a09ae00362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 30/81] fix: single_layer_er raised ZeroDivisionError for edge
 probability zero

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..fc729c6 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,7 +184,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-- 
2.43.0


From 24feabcd15840f156f1b0442baa4104bf8a02f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 31/81] fix: conf ignored the couplings parameter when given a
 network

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index fc729c6..7b5c9fe 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -242,7 +242,7 @@ def conf(degs,degstype="distribution",couplings=("categorical",1.0)):
             d[layer]=dd
             for node in degs.A[layer]:
                 dd[node]=degs.A[layer][node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     elif isinstance(degs,MultilayerNetwork):
         assert degs.aspects==0
         d={}
-- 
2.43.0


From df826c3168c791b8568da01aa7b60e092e679d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 32/81] fix: full and full_multilayer returned an empty network
 when there was only one node

---
 pymnet/models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 7b5c9fe..4d662fc 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -417,20 +417,25 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     if layers==None:
         n=MultilayerNetwork(aspects=0)
         for node1 in range(nodes):
+            n.add_node(node1)
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
@@ -460,8 +465,10 @@ def full_multilayer(nodes,layers):
 
     n=MultilayerNetwork(aspects=1)
     for layer1 in layers:
+        n.add_layer(layer1)
         for layer2 in layers:
             for node1 in range(nodes):
+                n.add_node(node1)
                 for node2 in range(nodes):
                     if node1!=node2 or layer1!=layer2:
                         n[node1,node2,layer1,layer2]=1
-- 
2.43.0


From db131653e31777044bd15b2d06dd29f291bb7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 33/81] fix: er_multilayer lost nodes without edges, never
 linked a node to itself in another layer and could set zero weights

---
 pymnet/models.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 4d662fc..4d9e484 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -9,7 +9,7 @@ except NameError:
 ######
 
 from .net import MultilayerNetwork,MultiplexNetwork
-import math,random
+import math,random,itertools
 
 
 def single_layer_conf(net,degs,degstype="distribution"):
@@ -501,16 +501,16 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
-    for layer1 in layers:
-        for layer2 in layers:
-            for node1 in range(nodes):
-                for node2 in range(node1+1,nodes):
-                    if node1!=node2 or layer1!=layer2:
-                        if random.random()<p:
-                            if randomWeights:
-                                n[node1,node2,layer1,layer2]=random.random()
-                            else:
-                                n[node1,node2,layer1,layer2]=1
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
+    for (node1,layer1),(node2,layer2) in itertools.combinations(itertools.product(range(nodes),layers),2):
+        if random.random()<p:
+            if randomWeights:
+                n[node1,node2,layer1,layer2]=1-random.random()
+            else:
+                n[node1,node2,layer1,layer2]=1
 
     return n
 
-- 
2.43.0


From 33272d61e3f4ea6d190424fa5bae244c8025383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 34/81] fix: conf_overlaps lost the nodes with zero overlap
 degrees and the layers without edges

---
 pymnet/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index 4d9e484..efcd253 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -570,7 +570,11 @@ def conf_overlaps(ol_degs, couplings=None):
         edgetoindex={}
         
         net_temp = MultilayerNetwork()
-        
+        for layer in layer_comb:
+            net.add_layer(layer)
+        for node in degs:
+            net.add_node(node)
+
         nstubs=sum(degs.values())
         n_nodes=len(degs)
         for node in degs:
-- 
2.43.0


From 3c04c461807218c397cfafb34b7f81f6b23397a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 35/81] fix: er_overlaps_match_aggregated lost the nodes and
 layers without edges

---
 pymnet/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index efcd253..9fccb60 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -754,8 +754,13 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     net = MultiplexNetwork(couplings=couplings)
     used_edges = set()
     
+    for node in range(n):
+        net.add_node(node)
+
     e_left = {}
     for layer_comb in ps:
+        for layer in layer_comb:
+            net.add_layer(layer)
         if len(layer_comb) == 1:
             e_left[layer_comb[0]] = e_left.get(layer_comb[0], edges)
             continue
-- 
2.43.0


From 21ff7754c1b35901f99a83fda87f4afc8a2a43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 36/81] fix: ba_total_degree lost the layers without edges

---
 pymnet/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 9fccb60..fbb252d 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -828,6 +828,8 @@ def ba_total_degree(n, ms, couplings=None):
     
     net = MultiplexNetwork(couplings=couplings)
     links = []
+    for layer in range(len(ms)):
+        net.add_layer(layer)
     
     for i in range(n):
         net.add_node(i)
-- 
2.43.0


From cc7166d2920c0741e9fa7405a471c63cd130fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 37/81] fix: ws lost the nodes when the layers had too few
 edges for a ring

---
 pymnet/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index fbb252d..9143382 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -885,6 +885,8 @@ try:
         """
 
         net = MultiplexNetwork(couplings=couplings)
+        for node in range(n):
+            net.add_node(node)
         for layer, m in enumerate(edges):
             net.add_layer(layer)
             net.A[layer] = nx.watts_strogatz_graph(n, int(math.ceil(2*m / float(n))), p=p)
-- 
2.43.0


From c5067c1a0c9ea0be3e3f28fde2d99e69f04dc905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 38/81] fix: read_ucinet did not set the labels to lower case

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..5ac4982 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -130,7 +130,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 fields=line.split(",")
                 for label in fields:
                     nlabels+=1
-                    yield label.strip()#.lower()
+                    yield label.strip().lower()
         except StopIteration:
             raise Exception("File ended while reading labels.")
 
-- 
2.43.0


From 341c23e9da330fb29451cef032d53f0fe1655a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 39/81] fix: read_ucinet read data in unsupported formats as a
 full matrix

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 5ac4982..aa9b58f 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -248,7 +248,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format=="fullmatrix" or format=="fullmatrix diagonal present":
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From b6816507c702dc937329c57c332345d9f9aaf934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 40/81] fix: read_ucinet could not read embedded labels when
 rows continue on the next line

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index aa9b58f..33b2f23 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -260,7 +260,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 #line=ii.next().strip()
                 line=ii.send(None).strip()
                 fields=line.split()
-                while len(fields)<n:
+                while len(fields)<n+int(labels_embedded):
                     #line=ii.next().strip()
                     line=ii.send(None).strip()
                     fields.extend(line.split())
-- 
2.43.0


From de800f29c0eb8f18a36bd4a5fe0fe07b815fa5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 41/81] fix: read_ucinet lost nodes without edges in monoplex
 networks and layers without edges

---
 pymnet/netio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 33b2f23..c235b63 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -286,11 +286,15 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         raise Exception("Format '%s' is not supported" % format)
 
 
-    if fullyInterconnected and nm!=1:
+    if nm!=1:
         for layer in llabels:
+            net.add_layer(layer)
+    if fullyInterconnected:
+        for layer in llabels:
+            layernet=net if nm==1 else net.A[layer]
             for node in clabels:
-                net.A[layer].add_node(node)
+                layernet.add_node(node)
             for node in rlabels:
-                net.A[layer].add_node(node)
+                layernet.add_node(node)
 
     return net
-- 
2.43.0


From 2af111f85c0d76485ad63cc8661056e830404b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 42/81] fix: the NetworkX library was left modified when a
 wrapped NetworkX function raised an exception

---
 pymnet/nxwrap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..c2b3aff 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -193,10 +193,11 @@ def networkxdecorator(f):
         networkx.Graph=MonoplexGraphNetworkxView
 
         #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        try:
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            networkx.Graph=networkx_Graph_original
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From 39288765ff8e5bae35ce405260a25196a8319b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 43/81] fix: NetworkX functions that create graphs from data
 with networkx.Graph(data) failed when wrapped

---
 pymnet/nxwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index c2b3aff..962735b 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -136,7 +136,9 @@ class MonoplexGraphNetworkxView(networkx.Graph):
     def __init__(self,net=None,data=None,**kwargs):
         super(MonoplexGraphNetworkxView, self).__init__(**kwargs)
 
-        if net==None: #networkx is calling __class__()
+        if net is not None and not isinstance(net,MultilayerNetwork): #networkx is calling Graph(data)
+            net,data=None,net
+        if net is None: #networkx is calling __class__()
             net=MultilayerNetwork(aspects=0)
 
         self.net=net
-- 
2.43.0


From a130dc4843107b6dcfa9281c420d5c69a8650f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 44/81] fix: subgraphs returned by wrapped NetworkX functions
 were empty

---
 pymnet/nxwrap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 962735b..0b25a44 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -203,7 +203,10 @@ def networkxdecorator(f):
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-            rval=rval.net
+            if isinstance(rval.adj,MonoplexGraphWrapper_adj) or isinstance(getattr(rval,"_adj",None),MonoplexGraphWrapper_adj):
+                rval=rval.net
+            else: #networkx view, such as a subgraph, which doesn't have the data in the pymnet object
+                rval=MonoplexGraphNetworkxView(data=rval).net
 
         return rval
 
-- 
2.43.0


From f35256290a0e36b8f11076f657719c974f8e8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 45/81] fix: NetworkX functions copying adjacency dicts failed
 for wrapped networks

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 0b25a44..ed9acb3 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -78,6 +78,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
             self.net[self.node,key]=val
     def __delitem__(self,key):
         self.net[self.node,key]=self.net.noEdge
+    def copy(self):
+        return dict( ((k,self[k]) for k in self) )
 
 
 class MonoplexGraphWrapper_adj(MutableMapping):
-- 
2.43.0


From 8cc9285f48f38e26c5a908622424ab7b7c023dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 46/81] fix: the first edge attribute was used as the weight of
 edges written with the NetworkX wrapper

---
 pymnet/nxwrap.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index ed9acb3..a9e7dcf 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -69,11 +69,7 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
     def __setitem__(self,key,val):
         if key.__class__==tuple: key=ntuple(key) 
         if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):
-            if len(val)>0:
-                #self.net[self.node,key]=list(val.itervalues())[0]
-                self.net[self.node,key]=list( (val[key] for key in val))[0]
-            else:
-                self.net[self.node,key]=1
+            self.net[self.node,key]=val["weight"] if "weight" in val else 1
         else:
             self.net[self.node,key]=val
     def __delitem__(self,key):
-- 
2.43.0


From 8baf56b0b961f0106aba25443fae8c17d152bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 47/81] fix: NetworkX generators using empty_graph returned
 NetworkX graphs instead of pymnet networks

---
 pymnet/nxwrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index a9e7dcf..44ac393 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -3,6 +3,7 @@
 
 import networkx
 import collections
+import types
 from functools import wraps
 from pymnet.net import MultilayerNetwork
 
@@ -205,6 +206,10 @@ def networkxdecorator(f):
                 rval=rval.net
             else: #networkx view, such as a subgraph, which doesn't have the data in the pymnet object
                 rval=MonoplexGraphNetworkxView(data=rval).net
+        elif type(rval)==networkx_Graph_original and isinstance(f,types.FunctionType):
+            #some generators in NetworkX have the original Graph class as a default argument
+            if not any(isinstance(arg,networkx_Graph_original) for arg in list(args)+list(kwargs.values())):
+                rval=MonoplexGraphNetworkxView(data=rval).net
 
         return rval
 
-- 
2.43.0


From a1d1b31c566373250cc6367611bf310580735a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 48/81] fix: isomorphism functions failed for monoplex networks
 with the NetworkX backend

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..f06dd7f 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0: #neighbors of monoplex nodes are not tuples
+                    nl2=(nl2,)
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From 9c6bb493434c668b08f671ac12097c46661856ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 49/81] fix: comparing networks with different numbers of
 layers in the fixed aspects raised AssertionError

---
 pymnet/isomorphisms/isomcore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index f06dd7f..1fbe396 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -112,8 +112,10 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
+        if self.colormap!=other.colormap:
+            return False
         assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        return True
 
 
     def compare(self,other):
-- 
2.43.0


From 9447c59a01fafefb302cd6582cb50f3d2ba84ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:21 +0000
Subject: [PATCH 50/81] fix: ESU passed subgraphs with empty nodes or layers to
 custom check functions

---
 pymnet/sampling/esu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymnet/sampling/esu.py b/pymnet/sampling/esu.py
index 842736b..9866ed6 100644
--- a/pymnet/sampling/esu.py
+++ b/pymnet/sampling/esu.py
@@ -316,6 +316,10 @@ def _extend_subgraph(network,nodelist,layerlist,check_function,V_extension_nodes
     if len(nodelist) > req_nodelist_len or len(layerlist) > req_layerlist_len:
         return
     if len(nodelist) == req_nodelist_len and len(layerlist) == req_layerlist_len:
+        # the last added node or layer can be empty if it was reached through a nodelayer outside the subgraph
+        induced = [nl for nl in itertools.product(nodelist,layerlist) if nl in numberings]
+        if len(set(nl[0] for nl in induced)) < len(nodelist) or len(set(nl[1] for nl in induced)) < len(layerlist):
+            return
         if check_function(network,nodelist,layerlist):
             if isinstance(results,list):
                 results.append((list(nodelist),list(layerlist)))
-- 
2.43.0


From 64d71abd812f34fe25b7dd062653ca3dc9ccc983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 51/81] fix: the modularity view raised ZeroDivisionError for
 layers and networks without links

---
 pymnet/net.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index b0ff221..c44896f 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1396,7 +1396,7 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
         for i in itertools.product(*mnet.slices):
             for j in itertools.product(*mnet.slices):
                 self.u+=mnet[i][j]
-        self.oneper2u=1.0/self.u/2.0
+        self.oneper2u=1.0/self.u/2.0 if self.u!=0 else 0.0
 
     def _get_link(self,item):
         v=self.mnet[item]
@@ -1406,6 +1406,8 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
             kis=self.mnet[(item[0],)+s][(COLON,)+s].str()
             kjs=self.mnet[(item[1],)+s][(COLON,)+s].str()
             ms=self.m[s]
+            if ms==0: #no links in the layer
+                return v
             return v-self.gamma*kis*kjs/float(2.0*ms)
         else:
             return v
-- 
2.43.0


From 63ec8e17be388263e5e0ec3011fa65ddf56c5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 52/81] fix: the modularity view raised KeyError for networks
 without nodes

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index c44896f..f588940 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1391,7 +1391,7 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
         for s in itertools.product(*mnet.slices[1:]):
             for node in mnet:
                 self.m[s]=self.m.get(s,0)+mnet[(node,)+s][(COLON,)+s].str()
-            self.m[s]=self.m[s]/2.0
+            self.m[s]=self.m.get(s,0)/2.0
         self.u=0
         for i in itertools.product(*mnet.slices):
             for j in itertools.product(*mnet.slices):
-- 
2.43.0


From 7e6cf0884d977b2fd374593c5f2e1af9c5c11a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 53/81] fix: elementary_cycles crashed in Python 3 for large
 networks

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..6ae53f3 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -343,12 +343,12 @@ def elementary_cycles(net,node=None,layer=None,anet=None):
         if anet==None:
             anet=transforms.aggregate(net,1)
         for n in nodes:
-            sums=map(lambda x,y:x+y,sums,cc_cycle_vector_anet(net,n,layer=layer,anet=anet))
+            sums=list(map(lambda x,y:x+y,sums,cc_cycle_vector_anet(net,n,layer=layer,anet=anet)))
     else:
         layers=net.iter_layers() if layer==None else [layer]
         for l in layers:
             for n in nodes:
-                sums=map(lambda x,y:x+y,sums,cc_cycle_vector_bf(net,n,l))
+                sums=list(map(lambda x,y:x+y,sums,cc_cycle_vector_bf(net,n,l)))
     return tuple(sums)
 
 
-- 
2.43.0


From 1fd27eddf4d9c8c1f3e8049263ad397ee294887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 54/81] fix: gcc_from_lcc raised TypeError in Python 3

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 6ae53f3..f3538da 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -1116,8 +1116,8 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 
 def gcc_from_lcc(net,lcc):
-    lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_vector=list(map(lambda node:lcc(net,node,undefReturn=None),net))
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From ba06f82706ca18abfd58892f907677ab9d749297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:37 +0000
Subject: [PATCH 55/81] fix: cc_layers_avg raised TypeError in Python 3

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index f3538da..9b741c3 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
-- 
2.43.0


From 858cd957d73171d1cf52320d24b94f37164c60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 56/81] fix: weighted clustering coefficients raised ValueError
 for networks without links

---
 pymnet/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 9b741c3..6844cbf 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -66,7 +66,6 @@ def cc_zhang(net,node,undefReturn=0.0):
     gcc_zhang : The global version of the clustering coefficient
 
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
         nom,den=0,0
@@ -76,6 +75,7 @@ def cc_zhang(net,node,undefReturn=0.0):
             den+=nij            
             if ij!=net.noEdge:
                 nom+=nij*ij
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return undefReturn
@@ -93,7 +93,6 @@ def gcc_zhang(net):
 
     """
 
-    maxw=max(map(lambda x:x[2],net.edges))
     nom,den=0,0
     for node in net:
         degree=net[node].deg()
@@ -105,6 +104,7 @@ def gcc_zhang(net):
                 if ij!=net.noEdge:
                     nom+=nij*ij
     if den!=0:
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return None
@@ -121,7 +121,6 @@ def cc_onnela(net,node,undefReturn=0.0):
     ----------
     J.-P. Onnela, J. Saramaki, J. Kertesz, and K. Kaski, Phys. Rev. E 71, 065103 (2005)
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
         nom=0
@@ -129,6 +128,7 @@ def cc_onnela(net,node,undefReturn=0.0):
             ij=net[i][j]
             if ij!=net.noEdge:
                 nom+=(net[node][i]*net[node][j]*ij)**(1./3.)
+        maxw=max(map(lambda x:x[2],net.edges))
         return 2*nom/float(degree*(degree-1))/float(maxw)
     else:
         return undefReturn
-- 
2.43.0


From 2ae915d6e3e57410e902f0d63cb793bd8ca278f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 57/81] fix: get_full_multiplex_network lost the node and the
 layers when there was only one node

---
 pymnet/cc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 6844cbf..dbd2131 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -1162,7 +1162,10 @@ def gcc_moreno(net,w1=1./3.,w2=1./3.,w3=1./3.):
 
 def get_full_multiplex_network(nodes,layers):
     n=MultiplexNetwork(couplings=[('categorical',1.0)])
+    for node in nodes:
+        n.add_node(node)
     for layer in layers:
+        n.add_layer(layer)
         for node1 in nodes:
             for node2 in nodes:
                 if node1!=node2:
-- 
2.43.0


From 1efa2603d5f526873b97d022a8dcc0260d42ded1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 58/81] fix: subtrahend raised NameError in Python 3 (xrange)

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From e341131e40a3e6b25ba1db319790d99d32856c6b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 59/81] fix: orbit_counts_all removed the edges of the network
 given to it

---
 pymnet/graphlets/graphlet_measures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..1918e39 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -38,6 +38,7 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
     
     nodes = net.slices[0]
     layers = net.slices[1]
+    net = pymnet.subnet(net, nodes, layers) #edges of the processed nodes are removed from the copy
     
     orbits = dd()
     
-- 
2.43.0


From ca53b3bf9149bef2b3de4c970f2bae6a3f53eb9c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 60/81] fix: GCM added a row to the orbit count table given to
 it

---
 pymnet/graphlets/graphlet_measures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1918e39..90db094 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -215,6 +215,7 @@ def GCM(orbits):
     orbits : pandas dataframe
         Orbit counts for nodes in the network
     '''
+    orbits = orbits.copy()
     # add dummy vector
     n_rows = orbits.shape[0]
     n_cols = orbits.shape[1]
-- 
2.43.0


From 0892587b3afe650af48a2fecebb2f459ce505fae Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 61/81] fix: normalize_coordinates and the fr layout raised
 ZeroDivisionError for a single node

---
 pymnet/visuals/layouts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..4cb89ce 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -76,8 +76,8 @@ def normalize_coordinates(coords,boxSize,inplace=False):
         if maxy==None or y>maxy:
             maxy=y
 
-    difx=maxx-minx
-    dify=maxy-miny
+    difx=maxx-minx if maxx!=minx else 1.0 #all nodes on a line
+    dify=maxy-miny if maxy!=miny else 1.0
     if inplace:
         newcoords=coords
     else:
-- 
2.43.0


From 8f5abc851a29662c3f34e7e4e14b761cc4ed76bd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 62/81] fix: normalize_coordinates and the fr layout ignored
 the boxSize parameter

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 4cb89ce..9c792b6 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -85,7 +85,7 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newcoords[node]=(boxSize[0]*(x-minx)/difx, boxSize[1]*(y-miny)/dify )
     return newcoords 
 
 
-- 
2.43.0


From b2e04d98c18cf3eb3af0264c31467eb295049b9a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 63/81] fix: the fr layout did not give coordinates for the
 node-layers when the nodes are not aligned

---
 pymnet/visuals/layouts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 9c792b6..38a8eb7 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -43,7 +43,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
@@ -142,7 +142,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
     assert net.aspects>=1, "No monoplex networks"
 
     #If the network is fully interconnected, we just create network with one layer
-    if net.fullyInterconnected:
+    if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-- 
2.43.0


From 0bd6d687e4daf579edac14fe1b04214811a29a66 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 64/81] fix: the fr layout failed for fully interconnected
 networks with several aspects

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 38a8eb7..8ad9baa 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -146,7 +146,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-        magg.A["all"]=pymnet.transforms.aggregate(net,1)
+        magg.A["all"]=pymnet.transforms.aggregate(net,list(range(1,net.aspects+1)))
         net=magg
 
     #nodeDist
-- 
2.43.0


From 5fb6c42b75a26327be5b3fbd7f3dccde15edb798 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 65/81] fix: networkx layouts raised AssertionError for
 directed networks

---
 pymnet/visuals/layouts.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 8ad9baa..f956071 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -28,6 +28,13 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             if hasattr(pymnet,"nx"):
                 la=getattr(pymnet.nx,layout+"_layout")
                 na=pymnet.transforms.aggregate(net,1)
+                if na.directed: #only undirected networks can be used with networkx
+                    directed=na
+                    na=pymnet.MultilayerNetwork(aspects=0)
+                    for node in directed:
+                        na.add_node(node)
+                    for edge in directed.edges:
+                        na[edge[0],edge[1]]=na[edge[0],edge[1]]+edge[2]
                 ncoords=la(na,**kwargs)
             else:
                 raise Exception("Networkx needs to be installed to use layout: "+layout)
-- 
2.43.0


From 2055b017e6373a7eaf869d0348f6ea94e13afc95 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 66/81] fix: the fr layout moved the fixed nodes when
 normalizing the coordinates

---
 pymnet/visuals/layouts.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index f956071..17141d8 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -96,6 +96,18 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     return newcoords 
 
 
+def fit_to_box(coords,fixed,boxSize):
+    """Normalizes coordinates to the box in place. If some of them are fixed, only moves the others
+    that are outside of the box to its border.
+    """
+    if len(fixed)==0:
+        normalize_coordinates(coords,boxSize,inplace=True)
+    else:
+        for node in coords:
+            if node not in fixed:
+                coords[node]=tuple(min(max(c,0.0),size) for c,size in zip(coords[node],boxSize))
+
+
 def get_fruchterman_reingold_multilayer_layout(net,
                                                nodeDist="auto",
                                                boxSize=1.0,
@@ -240,7 +252,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
                 if node not in fixedNodes:
                     delta_len=math.sqrt(x**2+y**2)
                     nc[node]=(nc[node][0]+temperature*delta_len*x, nc[node][1]+temperature*delta_len*y)
-            normalize_coordinates(nc,boxSize,inplace=True)
+            fit_to_box(nc,fixedNodes,boxSize)
 
         else: #we have coordinates for node-layer tuples
             
@@ -279,7 +291,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
                 if nl not in fixedNodeLayers:
                     delta_len=math.sqrt(x**2+y**2)
                     nlc[nl]=(nlc[nl][0]+temperature*delta_len*x, nlc[nl][1]+temperature*delta_len*y)
-            normalize_coordinates(nlc,boxSize,inplace=True)
+            fit_to_box(nlc,fixedNodeLayers,boxSize)
 
         temperature-=delta_temperature
     
-- 
2.43.0


From 56cab0c8cc90f1c34348a45ec50bdfa3458a7434 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 67/81] fix: edges without a value in the edgetype rule did not
 get the default property

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..619882f 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -31,7 +31,10 @@ class PropertyAssigner(object):
         elif len(self.propRule)>0:
             assert "rule" in self.propRule, "The rule dictionary must contain 'rule' key"
             if self.propRule["rule"] in self.rules:
-                return self.apply_modify_rules(self.get_by_rule(item,self.propRule["rule"]),item)
+                value=self.get_by_rule(item,self.propRule["rule"])
+                if value is None: #the rule doesn't give a value for this item
+                    return self.defaultProp
+                return self.apply_modify_rules(value,item)
             else:
                 raise Exception("Unknown rule: "+str(self.propRule["rule"]))
         else:
-- 
2.43.0


From 3f620a1722fcb359f9aa1b17859ce0a4af96aa41 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 68/81] fix: the colormap modifier failed with current
 Matplotlib versions

---
 pymnet/visuals/drawassigners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 619882f..208ae05 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -63,7 +63,8 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                from matplotlib import pyplot
+                item=pyplot.get_cmap(self.propRule["colormap"])(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From 964fb0449a3febcf538356a0a9b7defbd32d126e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 69/81] fix: nodes were not at the ends of their edges in the
 three.js figures

---
 pymnet/visuals/drawbackends/threejs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/drawbackends/threejs.py b/pymnet/visuals/drawbackends/threejs.py
index 1e52422..164a0a9 100644
--- a/pymnet/visuals/drawbackends/threejs.py
+++ b/pymnet/visuals/drawbackends/threejs.py
@@ -38,8 +38,8 @@ class NodeThreeJS(drawnet.Node):
 
         """
         snippet=snippet.replace("@x",str(SIZE*self.x))
-        snippet=snippet.replace("@y",str(10*SIZE*self.y))
-        snippet=snippet.replace("@z",str(10*SIZE*self.layer.z))
+        snippet=snippet.replace("@y",str(SIZE*self.y))
+        snippet=snippet.replace("@z",str(SIZE*self.layer.z))
         snippet=snippet.replace("@r",str(0.1*self.size/2.))
 
         self.net.node_snippets.append(snippet)
-- 
2.43.0


From e277cf192ef20f9477e5f3810e36900d27ca1192 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 70/81] fix: names with quotes, backslashes or markup broke the
 scripts made by webplot

---
 pymnet/visuals/webplots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index e501978..e6af448 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -9,7 +9,7 @@ from .. import netio
 webplot_template="""
 <script src="http://d3js.org/d3.v3.min.js"></script>
 <script>
- var mpnet = JSON.parse('@netjson');
+ var mpnet = @netjson;
 
  var color = d3.scale.category20();
  var svg_layer=[];
@@ -116,7 +116,7 @@ def webplot(net,outputfile=None):
     assert net.aspects==1
 
     script=webplot_template
-    netdatastr=netio.write_json(net)
+    netdatastr=netio.write_json(net).replace("<","\\u003c")
 
     replace={"@netjson" : netdatastr}
     for key,val in replace.items():
-- 
2.43.0


From 4f2a1258e63c3a5caaceda2d23ebdb2517b07b25 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 71/81] fix: the fr layout raised KeyError for a network with a
 node that is on no layer

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 17141d8..b2a5430 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -237,7 +237,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
             for node1 in net:
                 for node2 in net:
                     if node1!=node2:
-                        layer_overlap=len(net._nodeToLayers[node1].intersection(net._nodeToLayers[node2]))
+                        layer_overlap=len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set())))
                         diff=(nc[node1][0]-nc[node2][0], nc[node1][1]-nc[node2][1])
                         dist=math.sqrt(diff[0]**2+diff[1]**2)
                         dist=max(dist,min_dist)
-- 
2.43.0


From 56bb4378208eb57d35c06caa1ec9704436226a0a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 72/81] fix: directed edges were drawn twice, on top with the
 properties of the missing reverse edge

---
 pymnet/visuals/drawcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawcore.py b/pymnet/visuals/drawcore.py
index e06bcc4..68c0602 100644
--- a/pymnet/visuals/drawcore.py
+++ b/pymnet/visuals/drawcore.py
@@ -222,7 +222,7 @@ def draw(net,layout="spring",layershape="rectangle",azim=-51,elev=22,show=False,
         nodes[nl]=NodeBE(layers[nl[1]],xy[0],xy[1],label=nodeLabel[nl],color=nodeColor[nl],size=nodeSize[nl],labelArgs=nodeLabelArgs)
 
     for nl1 in net.iter_node_layers():
-        for nl2 in net[nl1]:
+        for nl2 in net[nl1].iter_out():
             EdgeBE(nodes[nl1],nodes[nl2],color=edgeColor[(nl1,nl2)],width=edgeWidth[(nl1,nl2)],style=edgeStyle[(nl1,nl2)],z=edgeZ[(nl1,nl2)],alpha=edgeAlpha[(nl1,nl2)])
 
     return nf.draw(ax=ax)
-- 
2.43.0


From 0986ed33f5c60e3350f646978a0b5c1eab55e178 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 73/81] fix: autoscale did not fit the drawing to the figure

---
 pymnet/visuals/drawbackends/mpl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawbackends/mpl.py b/pymnet/visuals/drawbackends/mpl.py
index ff141d4..675df59 100644
--- a/pymnet/visuals/drawbackends/mpl.py
+++ b/pymnet/visuals/drawbackends/mpl.py
@@ -69,7 +69,7 @@ class NetFigureMPL(drawnet.NetFigure):
         if self.camera_dist!=None:
             self.ax.dist=self.camera_dist
         if self.autoscale and len(self.layers)*self.layergap>3:
-            self.ax.autoscale_view()
+            self.ax.set_zlim3d(0, max(2, (len(self.layers)-1)*self.layergap))
         if self.show:
             plt.show()
 
-- 
2.43.0


From 9950e3748c5ef805e856d8e6420a126538f0510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 74/81] fix: overlay_network raised TypeError for names that
 cannot be compared and summed up noEdge values

---
 pymnet/transforms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 87d5a4b..fcc21fb 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -118,14 +118,17 @@ def overlay_network(net):
        A new instance of multiplex network which is produced.
     """
     assert net.aspects==1
-    newnet=netmodule.MultilayerNetwork(directed=net.directed)
+    newnet=netmodule.MultilayerNetwork(directed=net.directed,noEdge=net.noEdge)
     for node in net.slices[0]:
         newnet.add_node(node)
     for layer in net.slices[1]:
-        for node1 in net.slices[0]:
-            for node2 in net.slices[0]:
-                if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+        for i,node1 in enumerate(net.slices[0]):
+            for j,node2 in enumerate(net.slices[0]):
+                if (net.directed or i>j) and net[node1,node2,layer,layer]!=net.noEdge:
+                    if newnet[node1,node2]!=newnet.noEdge:
+                        newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    else:
+                        newnet[node1,node2]=net[node1,node2,layer,layer]
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From fd591075471e3fce99127ea593e2d18f99170532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 75/81] fix: ESU lost the links of weight zero when the noEdge
 value of the network is not zero

---
 pymnet/sampling/esu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/sampling/esu.py b/pymnet/sampling/esu.py
index 9866ed6..22b6ccf 100644
--- a/pymnet/sampling/esu.py
+++ b/pymnet/sampling/esu.py
@@ -222,7 +222,7 @@ def sample_multilayer_subgraphs_esu(network,results,sizes=None,intersections=Non
     [1] "A Faster Algorithm for Detecting Network Motifs", S. Wernicke, WABI. Vol. 3692, pp. 165-177. Springer 2005.
     """
     if copy_network == True:
-        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,fullyInterconnected=False))
+        network_copy = pymnet.subnet(network,network.get_layers(aspect=0),network.get_layers(aspect=1),newNet=pymnet.MultilayerNetwork(aspects=1,noEdge=network.noEdge,fullyInterconnected=False))
     else:
         network_copy = network
         
-- 
2.43.0


From 210eddf0caa96db8cf6781f246e8aed651be4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 76/81] fix: the modularity view took the noEdge value as the
 weight of missing links

---
 pymnet/net.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index f588940..f78bece 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1385,6 +1385,7 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
 
         self.slices=mnet.slices
         self.aspects=mnet.aspects
+        self.noEdge=0 #entries of the modularity matrix are numbers
 
         #precalc ms,u
         self.m={}
@@ -1395,11 +1396,14 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
         self.u=0
         for i in itertools.product(*mnet.slices):
             for j in itertools.product(*mnet.slices):
-                self.u+=mnet[i][j]
+                if mnet[i][j]!=mnet.noEdge:
+                    self.u+=mnet[i][j]
         self.oneper2u=1.0/self.u/2.0 if self.u!=0 else 0.0
 
     def _get_link(self,item):
         v=self.mnet[item]
+        if v==self.mnet.noEdge: #no link
+            v=0
 
         if item[2::2]==item[3::2]: #its inside slice
             s=item[2::2]
-- 
2.43.0


From be32440a8cbd089f96b271b55419210d612ed853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 77/81] fix: the supra-adjacency matrix had noEdge values in
 place of missing links

---
 pymnet/net.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index f78bece..e4099f7 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -646,14 +646,15 @@ class MultilayerNetwork(object):
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if includeCouplings or i[1:]==j[1:]:
+                    if (includeCouplings or i[1:]==j[1:]) and self[i][j]!=self.noEdge:
                         matrix[i_index,j_index]=self[i][j]
         else:
             nodes=sorted(self)
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    matrix[i_index,j_index]=self[i][j]
+                    if self[i][j]!=self.noEdge:
+                        matrix[i_index,j_index]=self[i][j]
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From 219f87413cf0f47ccc043ae101acff52abd2e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 78/81] fix: dijkstra did not find any paths when the sources
 were given as an iterator

---
 pymnet/diagnostics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 34c8f40..6ee51c4 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -144,6 +144,7 @@ def dijkstra(net,sources):
                              fullyInterconnected=False,
                              directed=True,
                              noEdge=-1)
+    sources=list(sources) #sources are needed twice and can be an iterator
     d=dict([(s,0) for s in sources])
 
     counter=itertools.count() #node and layer names do not need to be comparable
-- 
2.43.0


From c6e88c8adf854d7c221cb4edae84f1135febf9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 79/81] fix: lcc_brodka ignored undefReturn

---
 pymnet/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index dbd2131..09764eb 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -1482,7 +1482,7 @@ def lcc_brodka(net,node,anet=None,threshold=1,undefReturn=0.0):
                 thneighborhood.append(neighbor)
 
     if len(thneighborhood)==0:
-        return 0.0
+        return undefReturn
 
     s=0
     if anet==None:
-- 
2.43.0


From 4225d2c7a60c04ebee55717430e43aa476c79a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 80/81] fix: gcc_aw_seplayers_adj ignored returnCVector when
 there were two layers

---
 pymnet/cc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 09764eb..494a513 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -740,8 +740,6 @@ def gcc_aw_seplayers_adj(net,w1=1./3.,w2=1./3.,w3=1./3.,returnCVector=False):
         c2=sum(c2_nom)/float(sum(c2_den))
     else:
         c2=0
-    if len(net.slices[1])==2:
-        return w1*c1+w2*c2
     if sum(c3_den)!=0:
         c3=sum(c3_nom)/float(sum(c3_den))
     else:
-- 
2.43.0


From 1de1e2c208270c5ff2a2efca54bfcc60c7725149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:04 +0000
Subject: [PATCH 81/81] fix: aggregated weights were lost when a partial sum
 was equal to the noEdge value

---
 pymnet/transforms.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index fcc21fb..e20d088 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -81,16 +81,26 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
+    sums={} #partial sums can be equal to the noEdge value, so they are not kept in the network
     for edge in net.edges:
         newEdge=[]
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
             newEdge=tuple(newEdge)
-            if newNet[newEdge]==newNet.noEdge:
-                newNet[newEdge]=edge[-1]
+            if not net.directed:
+                reversedEdge=tuple(newEdge[index^1] for index in range(len(newEdge)))
+                if reversedEdge in sums:
+                    newEdge=reversedEdge
+            if newEdge not in sums:
+                sums[newEdge]=edge[-1]
             else:
-                newNet[newEdge]=newNet[newEdge]+edge[-1]
+                sums[newEdge]=sums[newEdge]+edge[-1]
+    for newEdge in sums:
+        if newNet[newEdge]==newNet.noEdge:
+            newNet[newEdge]=sums[newEdge]
+        else:
+            newNet[newEdge]=newNet[newEdge]+sums[newEdge]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
@@ -121,14 +131,17 @@ def overlay_network(net):
     newnet=netmodule.MultilayerNetwork(directed=net.directed,noEdge=net.noEdge)
     for node in net.slices[0]:
         newnet.add_node(node)
+    sums={} #partial sums can be equal to the noEdge value, so they are not kept in the network
     for layer in net.slices[1]:
         for i,node1 in enumerate(net.slices[0]):
             for j,node2 in enumerate(net.slices[0]):
                 if (net.directed or i>j) and net[node1,node2,layer,layer]!=net.noEdge:
-                    if newnet[node1,node2]!=newnet.noEdge:
-                        newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+                    if (node1,node2) in sums:
+                        sums[node1,node2]=sums[node1,node2]+net[node1,node2,layer,layer]
                     else:
-                        newnet[node1,node2]=net[node1,node2,layer,layer]
+                        sums[node1,node2]=net[node1,node2,layer,layer]
+    for node1,node2 in sums:
+        newnet[node1,node2]=sums[node1,node2]
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0

