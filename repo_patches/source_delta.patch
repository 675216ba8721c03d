From 5922066b407d10ab0f781aacd7810a6a71d506e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 001/116] fix: to_clifford_normal_form_graph keeps the type of
 the boundary wire when moving a phase onto it

---
 pyzx/simplify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..038e4e1 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -548,7 +548,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,i)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=1, phase=g.phase(v))
-            g.add_edge((i,h),EdgeType.HADAMARD)
+            g.add_edge((i,h),g.edge_type(e))
             g.add_edge((h,v),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
@@ -560,7 +560,7 @@ def to_clifford_normal_form_graph(g: BaseGraph[VT,ET]) -> None:
         e = g.edge(v,o)
         if g.edge_type(e) == EdgeType.HADAMARD or g.phase(v) != 0:
             h = g.add_vertex(VertexType.Z, q, row=7, phase=g.phase(v))
-            g.add_edge((h,o),EdgeType.HADAMARD)
+            g.add_edge((h,o),g.edge_type(e))
             g.add_edge((v,h),EdgeType.SIMPLE)
             g.remove_edge(e)
             g.set_phase(v,0)
-- 
2.43.0


From 0ea8d40f25a594e4a8312540b9e392a76f9bb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:43 +0000
Subject: [PATCH 002/116] fix: teleport_reduce no longer leaves phase tracking
 switched on in its argument and result

---
 pyzx/simplify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 038e4e1..1ec9007 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -221,9 +221,13 @@ def teleport_reduce(g: BaseGraph[VT,ET], quiet:bool=True, stats:Optional[Stats]=
 class Simplifier(Generic[VT, ET]):
     """Class used for :func:`teleport_reduce`."""
     def __init__(self, g: BaseGraph[VT,ET]) -> None:
+        track_phases = g.track_phases
         g.track_phases = True
         self.mastergraph = g.copy()
         self.simplifygraph = g.copy()
+        # Only the working copy needs tracking: leave it on for neither the caller's graph nor the result
+        g.track_phases = track_phases
+        self.mastergraph.track_phases = track_phases
         self.simplifygraph.set_phase_master(self)
         self.phantom_phases: Dict[VT, Tuple[VT,int]] = dict()
 
-- 
2.43.0


From c24e61c634d83a7dcd3e8c55ba7f7410b6cbe4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 003/116] fix: the bialgebra rule records its scalar factor

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..bf1c55c 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -138,6 +138,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
     for m in matches:
         rem_verts.append(m[0])
         rem_verts.append(m[1])
+        g.scalar.add_power((len(m[2])-1)*(len(m[3])-1))
         es = [(i,j) for i in m[2] for j in m[3]]
         for e in es:
             if e in etab: etab[e][0] += 1
-- 
2.43.0


From a41a674627d38e0d17d96941898374fd48cdc78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 004/116] fix: match_bialg_parallel does not treat Hadamard
 edges as plain wires

---
 pyzx/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index bf1c55c..1f283bd 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -83,7 +83,6 @@ def match_bialg(g: BaseGraph[VT,ET]) -> List[MatchBialgType[VT]]:
     return match_bialg_parallel(g, num=1)
 
 
-#TODO: make it be hadamard edge aware
 def match_bialg_parallel(
         g: BaseGraph[VT,ET],
         matchf:Optional[Callable[[ET],bool]]=None,
@@ -120,7 +119,8 @@ def match_bialg_parallel(
             v1n = [n for n in g.neighbors(v1) if not n == v0]
             if (
                 all([types[n] == v1t and phases[n] == 0 for n in v0n]) and
-                all([types[n] == v0t and phases[n] == 0 for n in v1n])):
+                all([types[n] == v0t and phases[n] == 0 for n in v1n]) and
+                all([g.edge_type(e) == EdgeType.SIMPLE for v in (v0,v1) for e in g.incident_edges(v)])):
                 i += 1
                 for v in v0n:
                     for c in g.incident_edges(v): candidates.discard(c)
-- 
2.43.0


From 7a79c74f1c0caaa6a47057704bf7c72900ff1da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 005/116] fix: match_supplementarity does not use an isolated
 spider in two matches

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 1f283bd..9ea0776 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -910,6 +910,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         par = frozenset(neigh)
         if par in parities:
             for w in parities[par]:
+                if w in taken: continue
                 if (phases[v]-phases[w]) % 2 == 1 or (phases[v]+phases[w]) % 2 == 1:
                     m.append((v,w,1,par))
                     taken.update({v,w})
-- 
2.43.0


From a2ed6988196b154c5cb9760ab0dbf7616576b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 006/116] fix: match_copy only reports matches that can be
 applied together

---
 pyzx/rules.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 9ea0776..43a8618 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -977,16 +977,19 @@ def match_copy(
     phases = g.phases()
     types = g.types()
     m: List[MatchCopyType[VT]] = []
+    taken: Set[VT] = set() # spiders that an earlier match removes or adds a phase to
 
     while len(candidates) > 0:
         v = candidates.pop()
         if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
         w = list(g.neighbors(v))[0]
-        if types[w] != VertexType.Z: continue
+        if types[w] != VertexType.Z or w in taken: continue
         neigh = [n for n in g.neighbors(w) if n != v]
         m.append((v,w,phases[v],phases[w],neigh))
         candidates.discard(w)
         candidates.difference_update(neigh)
+        taken.add(w)
+        taken.update(neigh)
 
     return m
 
-- 
2.43.0


From a418e855af07b0a8b26e32a01ef2b7591717d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 007/116] fix: apply_copy does not put a phase on a boundary
 vertex

---
 pyzx/rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 43a8618..34df072 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -1009,7 +1009,8 @@ def apply_copy(g: BaseGraph[VT,ET], matches: List[MatchCopyType[VT]]) -> Rewrite
                 e = g.edge(w,n)
                 et = g.edge_type(e)
                 g.add_edge((n,u), toggle_edge(et))
-            g.add_to_phase(n, a)
+            else:
+                g.add_to_phase(n, a)
     return ({}, rem, [], True)
 
 MatchPhasePolyType = Tuple[List[VT], Dict[FrozenSet[VT],Union[VT,Tuple[VT,VT]]]]
-- 
2.43.0


From bb116ea265eed03a120026a1f4d88badd87b178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 008/116] fix: to_graph_like keeps the Hadamard on a boundary
 wire it splits

---
 pyzx/simplify.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 1ec9007..06c27f5 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -477,6 +477,7 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
         for n in ns:
             # every neighbor is another boundary or an H-Box
             assert(g.type(n) in [VertexType.BOUNDARY, VertexType.H_BOX])
+            et = g.edge_type(g.edge(v, n))
             if g.type(n) == VertexType.BOUNDARY:
                 z1 = g.add_vertex(ty=VertexType.Z)
                 z2 = g.add_vertex(ty=VertexType.Z)
@@ -485,12 +486,12 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
                 g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
                 g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
                 g.add_edge((z2, z3), edgetype=EdgeType.HADAMARD)
-                g.add_edge((z3, n), edgetype=EdgeType.SIMPLE)
+                g.add_edge((z3, n), edgetype=et)
             else: # g.type(n) == VertexType.H_BOX
                 z = g.add_vertex(ty=VertexType.Z)
                 g.remove_edge(g.edge(v, n))
                 g.add_edge((v, z), edgetype=EdgeType.SIMPLE)
-                g.add_edge((z, n), edgetype=EdgeType.SIMPLE)
+                g.add_edge((z, n), edgetype=et)
 
     # each Z-spider can only be connected to at most 1 I/O
     vs = list(g.vertices())
-- 
2.43.0


From 5798db707aaf8caf5d12722a6733056f5d4df81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 009/116] fix: pi_commute_Z puts the pi phase on the spiders it
 inserts

---
 pyzx/basicrules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..0dc52be 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -142,7 +142,7 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
+    ns = list(g.neighbors(v))
     for w in ns:
         e = g.edge(v, w)
         et = g.edge_type(e)
@@ -153,7 +153,8 @@ def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
-- 
2.43.0


From ccafb2e05a133b6dfe898bba394403dd78152b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 010/116] fix: match_lcomp_parallel respects its limit on the
 number of matches

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 34df072..85dba1b 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -732,6 +732,7 @@ def match_lcomp_parallel(
 
         for n in vn: candidates.discard(n)
         m.append((v,vn))
+        i += 1
     return m
 
 def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutputType[VT,ET]:
-- 
2.43.0


From ce3e18553bc993c3d04ee97b4c50e29ab4d3cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 011/116] fix: match_pivot_gadget respects its limit on the
 number of matches

---
 pyzx/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 85dba1b..075e9a2 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -500,13 +500,13 @@ def match_pivot_gadget(
         if len(v1n) == 1: continue # It is a phase gadget
         bad_match = False
         discard_edges: List[ET] = []
-        for i,l in enumerate((v0n, v1n)):
+        for j,l in enumerate((v0n, v1n)):
             for n in l:
                 if types[n] != VertexType.Z:
                     bad_match = True
                     break
                 ne = list(g.incident_edges(n))
-                if i==0 and len(ne) == 1 and not (e == ne[0]): # v0 is a phase gadget
+                if j==0 and len(ne) == 1 and not (e == ne[0]): # v0 is a phase gadget
                     bad_match = True
                     break
                 discard_edges.extend(ne)
-- 
2.43.0


From c944d4dc9053e79d0ea6a4c523507a9068859d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 012/116] fix: Scalar.add_spider_pair takes the cosine of the
 phase in radians

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..5d6845c 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -265,7 +265,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From 1736674792a08a122c53a62f6c73c1dfc128cfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 013/116] fix: pauli_matcher only reports matches that can be
 applied together

---
 pyzx/editor_actions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 25b119f..088ea7f 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -86,6 +86,8 @@ def pauli_matcher(
             m.append((w,v))
             candidates.difference_update(g.neighbors(v))
             candidates.difference_update(g.neighbors(w))
+            paulis.difference_update(g.neighbors(v))
+            paulis.difference_update(g.neighbors(w))
     return m
 
 
-- 
2.43.0


From 8312809b6691b345707bee8e8e3cc9350410d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 014/116] fix: pauli_push keeps the wire when the Pauli and the
 spider share a neighbour

---
 pyzx/editor_actions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 088ea7f..b8c6807 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -99,10 +99,9 @@ def pauli_push(g: BaseGraph[VT,ET],
     rem_edges: List[ET] = []
     etab: Dict[Tuple[VT,VT], List[int]] = dict()
     for w,v in matches:  # w is a Pauli and v is the spider we are gonna push it through
-        if g.vertex_degree(w) == 2:
+        l = [n for n in g.neighbors(w) if n != v]
+        if len(l) == 1 and not g.connected(v, l[0]):
             rem_verts.append(w)
-            l = list(g.neighbors(w))
-            l.remove(v)
             v2 = l[0]
             et1 = g.edge_type(g.edge(v,w))
             et2 = g.edge_type(g.edge(v2,w))
-- 
2.43.0


From 62d8fa64565203cfc9cb5c2d6d2b837501ffbf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:46 +0000
Subject: [PATCH 015/116] fix: remove_isolated_vertices accounts for the labels
 of Z-boxes

---
 pyzx/graph/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..b38e25c 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -28,7 +28,7 @@ from ..utils import EdgeType, VertexType, get_z_box_label, set_z_box_label, togg
 from ..utils import FloatInt, FractionLike
 from ..tensor import tensorfy, tensor_to_matrix
 
-from .scalar import Scalar
+from .scalar import Scalar, cexp
 
 if TYPE_CHECKING:
     from .. import simplify
@@ -778,6 +778,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1 + get_z_box_label(self, v))
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -793,7 +795,15 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if t1==t2:
+                if VertexType.Z_BOX in (t1, t2):
+                    l1 = get_z_box_label(self, v) if t1 == VertexType.Z_BOX else cexp(self.phase(v))
+                    l2 = get_z_box_label(self, w) if t2 == VertexType.Z_BOX else cexp(self.phase(w))
+                    if (VertexType.X in (t1, t2)) == (et == EdgeType.HADAMARD):
+                        self.scalar.add_float(1 + l1*l2)
+                    else:
+                        self.scalar.add_power(-1)
+                        self.scalar.add_float(1 + l1 + l2 - l1*l2)
+                elif t1==t2:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_node(self.phase(v)+self.phase(w))
                     else:
-- 
2.43.0


From 1834e86f9cb15fcbebf9c7bf292310c30c6423db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 016/116] fix: match_w_fusion_parallel only fuses an output of
 one W node with the input of another

---
 pyzx/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 075e9a2..ef0d2a9 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -338,7 +338,7 @@ def match_w_fusion_parallel(
         v0, v1 = g.edge_st(e)
         v0t = types[v0]
         v1t = types[v1]
-        if vertex_is_w(v0t) and vertex_is_w(v1t):
+        if vertex_is_w(v0t) and vertex_is_w(v1t) and v0t != v1t:
             i += 1
             candidates_to_remove: List[VT] = []
             candidates_to_remove.extend(list(g.neighbors(v0)))
-- 
2.43.0


From f66873233538b4a8aa8baef836b5a6adcbb94399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 017/116] fix: the editor does not insert an identity between
 the two halves of a W node

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index b8c6807..a2c46ff 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -155,7 +155,7 @@ def match_edge(
         ) -> List[ET]:
     if edgef is not None: candidates = set([e for e in g.edges() if edgef(e)])
     else: candidates = g.edge_set()
-    return list(candidates)
+    return [e for e in candidates if g.edge_type(e) != EdgeType.W_IO]
 
 
 def euler_expansion(g: BaseGraph[VT,ET], 
-- 
2.43.0


From 5fc782018d93320c6451b75d07f9efbc696ada07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 018/116] fix: GraphS resolves self-loops instead of storing
 them as unreported edges

---
 pyzx/graph/graph_s.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..917bd96 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -121,7 +121,16 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
     
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-        if not t in self.graph[s]:
+        if s == t: # self-loops are not stored, but resolved on the spot
+            if not vertex_is_zx_like(self.ty[s]):
+                raise ValueError(f'Attempted to add unreducible self-loop {edge_pair}, type: {self.ty[s]}')
+            if edgetype == EdgeType.HADAMARD:
+                if self.ty[s] == VertexType.Z_BOX:
+                    set_z_box_label(self, s, get_z_box_label(self, s) * -1)
+                else:
+                    self.add_to_phase(s, 1)
+                self.scalar.add_power(-1)
+        elif not t in self.graph[s]:
             self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
-- 
2.43.0


From 1459fbfa6329c68cba1bfd7e33ac67c94132c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 019/116] fix: Mat2.to_cnots with use_log_blocksize works on a
 single row

---
 pyzx/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..97cb2d3 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -350,7 +350,7 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(self.rows())))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
-- 
2.43.0


From 12078b05805fa9d36a002cc0d08e7ff6a5ae5dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 020/116] fix: lookahead extraction handles diagrams that
 consist of bare wires

---
 pyzx/extract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/extract.py b/pyzx/extract.py
index c1de2ec..b42a897 100644
--- a/pyzx/extract.py
+++ b/pyzx/extract.py
@@ -1355,6 +1355,9 @@ def lookahead_extract_base(
     roots: List[Optional[LookaheadNode]] =\
         [LookaheadNode(g, Circuit(len(inputs)), frontier, qubit_map, gadgets, optimize_for_depth, hard_limit)]
 
+    if not frontier and roots[0] is not None:  # There is nothing to extract but wires
+        best_c, best_d = roots[0].get_finished(best_c, best_d, up_to_perm)
+
     while len(roots) > 0:
         rp = RootPicker(nodes_kept)
         for i in range(len(roots)):
-- 
2.43.0


From 65354d52ee51634dba2fc15aacfb80a32359a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 021/116] fix: teleport_reduce keeps the sign of a phase that
 was moved before it is fused again

---
 pyzx/simplify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index 06c27f5..eb1e4ec 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -249,7 +249,6 @@ class Simplifier(Generic[VT, ET]):
                 p2 = self.mastergraph.phase(v2)
             else: return
         if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
-            self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
@@ -259,7 +258,9 @@ class Simplifier(Generic[VT, ET]):
                     del self.phantom_phases[v1]
                 v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
+                self.simplifygraph.phase_mult[self.mastergraph.phase_index[v1]] = m1 # Index of the surviving vertex keeps its sign
             else:
+                self.simplifygraph.phase_mult[i1] = 1
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-- 
2.43.0


From b3316d661af20f20a7aba6f40de2161ca20a669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 022/116] fix: Mat2.to_cnots with optimize works on a single
 row

---
 pyzx/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 97cb2d3..94e4a5c 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -355,7 +355,7 @@ class Mat2(object):
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From 5c863306b9935f82c7537150e48a0da10edc6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:43 +0000
Subject: [PATCH 023/116] fix: call_topt converts the entries of the returned
 matrix to numbers

---
 pyzx/todd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index f8742f6..4b47e79 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -362,7 +362,7 @@ def call_topt(m: Mat2, quiet:bool=True) -> Mat2:
     data: MatLike = []
     try:
         for row in rows:
-            data.append([cast(Z2, i) for i in row])
+            data.append([cast(Z2, int(i)) for i in row])
     except ValueError:
         print(out)
         print(rows)
-- 
2.43.0


From 5681c386e7081f8f1113f4e56c3b48761f58b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 024/116] fix: GeneticOptimizer shuffles its own list of
 actions

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c347049..c511358 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -90,7 +90,7 @@ class GeneticOptimizer():
     The primary functionality of this class is defined in the evolve method."""
 
     def __init__(self, actions=[rand_pivot, rand_lc], score=default_score):
-        self.actions = actions
+        self.actions = list(actions) # the list is shuffled in place by mutate
         self.score = score # function that maps Mutant -> Double
 
     # TODO: multi-thread
-- 
2.43.0


From c4542bdcb3fabca7c81a599afe97c0685d08f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 025/116] fix: GeneticOptimizer returns its initial mutant
 unchanged when nothing better is found

---
 pyzx/local_search/genetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c511358..6eeb706 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -175,7 +175,7 @@ class GeneticOptimizer():
         self.mutants = [Mutant(self.c_orig, self.g_orig) for _ in range(self.n_mutants)]
 
         self.update_scores()
-        best_mutant = min(self.mutants, key=lambda m: m.score)
+        best_mutant = deepcopy(min(self.mutants, key=lambda m: m.score))
         best_score = best_mutant.score
 
         gen_scores = [best_score]
-- 
2.43.0


From e36994addaddeabfdf491070fc391fc81e735e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 026/116] fix: inner_product_with_random_state keeps wires that
 connect two outputs

---
 pyzx/simulate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 0b4c295..b24669d 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -110,7 +110,9 @@ class SumGraph(object):
                 g.set_type(v, VertexType.Z)
                 g.set_phase(v, phases[i])
             g.set_outputs(())
-            g.add_edges([(vs[i1],vs[i2]) for (i1,i2) in connections],EdgeType.HADAMARD)
+            # Outputs can already be connected by a wire, so we can't use add_edges here.
+            for i1,i2 in connections:
+                g.add_edge((vs[i1],vs[i2]),EdgeType.HADAMARD)
             g.scalar.add_power(len(connections))
             # Now that we have composed g with a right sort of effect, 
             # we need to calculate the value of the resulting inner product.
-- 
2.43.0


From 199496cc09932399033d9e4fbe4409b7e8293a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 027/116] fix: SumGraph.sample never picks an outcome of
 probability zero

---
 pyzx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index b24669d..33f206f 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -200,7 +200,7 @@ class SumGraph(object):
                     probs[path] = (norm2/norm)/prevprob
                     if not quiet: print("New prob:", "path", path, "norm", norm2, "prob", probs[path])
                 prob = probs[path]
-                val = int(random.random() > prob) # Actually make a sample
+                val = int(random.random() >= prob) # Actually make a sample
                 output.append((q,val))
                 path += str(val)
 
-- 
2.43.0


From 9a2712cc9888247761475ca624c6399e157e6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 028/116] fix: calculate_path_sum accepts phase gadgets without
 targets

---
 pyzx/simulate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 33f206f..2351df1 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -272,6 +272,7 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
     for i in range(n):
         c.add_gate("ZPhase",i,phase=Fraction(variables[i],4))
     for tgts, phase in xors.items():
+        if not tgts: continue # A phase gadget without targets only contributes to the prefactor
         c.add_gate("ParityPhase", Fraction(phase,4), *list(tgts))
     for i,j in czs:
         c.add_gate("CZ", i,j)
-- 
2.43.0


From de61cafb4d70eeae3250ec077f085a899cabbefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:55 +0000
Subject: [PATCH 029/116] fix: calculate_path_sum counts isolated phaseless
 spiders

---
 pyzx/simulate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 2351df1..fdcff7e 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -233,7 +233,9 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
     xors = dict()
     for v in g.vertices():
         if v in variable_dict: continue
-        if not phases[v]: continue #It is the axle of a phase gadget, ignore it
+        if not phases[v]:
+            if g.vertex_degree(v) == 0: prefactor -= 2 # An isolated spider, which is equal to 2
+            continue # Otherwise it is the axle of a phase gadget, ignore it
         if g.vertex_degree(v) == 1: # Probably phase gadget
             w = list(g.neighbors(v))[0]
             if not phases[w]: # It is indeed a phase gadget
-- 
2.43.0


From 2fb8eed8aa0541bc6b78355873307ad7de3c032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 030/116] fix: steiner_gauss eliminates the entries above the
 diagonal when asked to

---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..00b2481 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From b2c41f0fcb12b6cd1e177593149bc500147d8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:56 +0000
Subject: [PATCH 031/116] fix: particle swarm search keeps its permutations as
 arrays and reports lists

---
 pyzx/routing/cnot_mapper.py      | 2 +-
 pyzx/routing/machine_learning.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/routing/cnot_mapper.py b/pyzx/routing/cnot_mapper.py
index 690998d..035f716 100644
--- a/pyzx/routing/cnot_mapper.py
+++ b/pyzx/routing/cnot_mapper.py
@@ -476,7 +476,7 @@ class StepFunction:
             **kwargs,
         )
         # Resulting permutation is the initial permutation of the reverse pass
-        perms[0] = initial_perm
+        perms[0] = list(initial_perm)
         ms = [
             Mat2([[row[i] for i in perms[-1]] for row in m.data])
             if j == 0
diff --git a/pyzx/routing/machine_learning.py b/pyzx/routing/machine_learning.py
index 87c24bb..551d50f 100644
--- a/pyzx/routing/machine_learning.py
+++ b/pyzx/routing/machine_learning.py
@@ -305,7 +305,7 @@ class Particle:
                     "The new particle point is not a permutation anymore!"
                     + str(self.current)
                 )
-        self.current = new
+        self.current = np.asarray(new)
         return is_better
 
     def _mutate(self, particle):
-- 
2.43.0


From 1d0a26c03d2a46d416e53bbdcfb7f71d9d3156ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 032/116] fix: steiner_tree only walks along edges of the tree
 it built

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..348010e 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -410,7 +410,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges and v not in visited]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From 760c469ae13e251de04a2499079093cd4f7e2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 033/116] fix: rec_steiner_gauss recurses on the whole path
 above the removed leaf

---
 pyzx/routing/architecture.py | 14 ++++++++++----
 pyzx/routing/steiner.py      | 13 +++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 348010e..257356f 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -134,12 +134,18 @@ class Architecture():
 
     def _get_reduce_order(self) -> List[int]:
         vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
-        # Pick leaf with largest label every time.
+        # The spanning tree: each vertex hangs below its neighbor with the smallest larger label
+        tree: Dict[int, Set[int]] = {v: set() for v in vertices}
+        for i, v in enumerate(vertices):
+            parents = self.get_neighboring_vertices(v).intersection(vertices[:i])
+            if parents:
+                parent = min(parents, key=self.vertex2qubit)
+                tree[v].add(parent)
+                tree[parent].add(v)
+        # Pick leaf of the tree with largest label every time.
         reduce_order = []
         while vertices:
-            all_cutting = self._is_cutting(vertices) # Get which vertices are cutting
-            # All False indices correspond to a leaf, we want the first one
-            leaf = all_cutting.index(False)
+            leaf = next(i for i, v in enumerate(vertices) if len(tree[v].intersection(vertices)) <= 1)
             # Which logical qubit is stored in the leaf node?
             reduce_order.append(self.vertex2qubit(vertices[leaf]))
             del vertices[leaf]
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 00b2481..aaf7d96 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -242,17 +242,10 @@ def rec_steiner_gauss(
                 # Vertices we can still use steiner trees
                 usable_nodes = qubit_removal_order[i:]  # = R
 
-                # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
-                # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
-                    raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
-                    )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
+                # Let W be the vertices from k' up to the maximal vertex k in R: with post-order labels these form
+                # a path in the spanning tree, and row k' has no entries outside of the columns in W
+                rec_qubits = sorted(q for q in usable_nodes if q >= c)
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
-- 
2.43.0


From 35277efabf4fcd1ca121861627a947ef1069da55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 034/116] fix: placing parities by identity rows yields a
 permutation

---
 pyzx/routing/phase_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index b3ad677..073c1eb 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -490,7 +490,7 @@ class PhasePoly:
     def _place_parities(self, parities: Union[Mat2, MatLike]) -> List[int]:
         if isinstance(parities, Mat2):
             parities = parities.data
-        permutation = [0] * self.n_qubits
+        permutation: List[Any] = [None] * self.n_qubits
         skipped_parities = []
         # Greedily map identity rows
         for i, parity in enumerate(parities):
-- 
2.43.0


From 2665473fd5ff0cda5ec4316f51adaf363aa5e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 035/116] fix: Multigraph.add_edge follows the spider and Hopf
 laws and counts the edges it keeps

---
 pyzx/graph/multigraph.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..0e7d3e5 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -161,7 +161,6 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for ep in edge_pairs: self.add_edge(ep, edgetype)
 
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
-        self.nedges += 1
         s,t = edge_pair
         if not t in self.graph[s]:
             e = Edge()
@@ -170,6 +169,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         else:
             e = self.graph[s][t]
 
+        old_count = e.s + e.h + e.w_io
         if edgetype == EdgeType.SIMPLE: e.add(s=1)
         elif edgetype == EdgeType.HADAMARD: e.add(h=1)
         else: e.add(w_io=1)
@@ -188,17 +188,18 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2): # same colour
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
+        self.nedges += e.s + e.h + e.w_io - old_count
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
-- 
2.43.0


From 4d1181ec6d9f1cfa4c3e02921d43b0c70f04be5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 036/116] fix: Multigraph counts W-IO edges in degrees and on
 removal

---
 pyzx/graph/multigraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 0e7d3e5..6a7dfec 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -209,7 +209,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             # remove all edges
             for v1 in vs:
                 e = self.graph[v][v1]
-                self.nedges -= e.s + e.h
+                self.nedges -= e.s + e.h + e.w_io
                 del self.graph[v][v1]
                 if v != v1: del self.graph[v1][v]
             # remove the vertex
@@ -322,6 +322,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         for e in self.graph[vertex].values():
             d += e.s
             d += e.h
+            d += e.w_io
         return d
 
     def incident_edges(self, vertex):
-- 
2.43.0


From bca148b13fdd81dc2cceb259b5ac948e8801cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 037/116] fix: Multigraph removes and retypes edges named by
 Multigraph.edge

---
 pyzx/graph/multigraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 6a7dfec..355f1f8 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -238,7 +238,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             self.remove_edge(e)
 
     def remove_edge(self, edge):
-        s,t,ty = edge
+        s,t = self.edge_st(edge)
+        ty = self.edge_type(edge)
         e = self.graph[s][t]
         if ty == EdgeType.SIMPLE: e.remove(s=1)
         elif ty == EdgeType.HADAMARD: e.remove(h=1)
@@ -342,7 +343,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return e[2]
 
     def set_edge_type(self, edge, t):
-        v1,v2,ty = edge
+        v1,v2 = self.edge_st(edge)
+        ty = self.edge_type(edge)
         if ty != t:
             e = self.graph[v1][v2]
             # decrement the old type and increment the new type
-- 
2.43.0


From 6b69c85c698b9aeff30e5e2a55c6dec6b0019f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 038/116] fix: Multigraph.edge_set is a set, as the rewrite
 rules expect

---
 pyzx/graph/diff.py       | 4 ++--
 pyzx/graph/multigraph.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..5d70efe 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -52,8 +52,8 @@ class GraphDiff(Generic[VT, ET]):
 		new_verts = g2.vertex_set()
 		self.removed_verts = list(old_verts - new_verts)
 		self.new_verts = list(new_verts - old_verts)
-		old_edges = g1.edge_set()
-		new_edges = g2.edge_set()
+		old_edges = Counter(g1.edges())
+		new_edges = Counter(g2.edges())
 		self.new_edges = []
 		self.removed_edges = []
 
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 355f1f8..0685264 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -15,7 +15,6 @@
 # limitations under the License.
 
 import itertools
-from collections import Counter
 from fractions import Fraction
 from typing import Tuple, Dict, Set, Any
 
@@ -310,7 +309,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return (s,t) if s < t else (t,s)
 
     def edge_set(self):
-        return Counter(self.edges())
+        return set(self.edges())
 
     def edge_st(self, edge):
         return (edge[0], edge[1])
-- 
2.43.0


From 0a3c15487ad7c63086151c48205a5d039cc02599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 039/116] fix: adding an edge that cannot be added leaves the
 graph as it was

---
 pyzx/graph/graph_s.py    |  4 ++--
 pyzx/graph/multigraph.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 917bd96..59290b5 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -131,9 +131,9 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
                     self.add_to_phase(s, 1)
                 self.scalar.add_power(-1)
         elif not t in self.graph[s]:
-            self.nedges += 1
-            self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
+            self.graph[s][t] = edgetype
+            self.nedges += 1
         else:
             t1 = self.ty[s]
             t2 = self.ty[t]
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 0685264..90887cf 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -35,15 +35,15 @@ class Edge:
         self.w_io = w_io
 
     def add(self, s: int=0, h: int=0, w_io: int=0):
-        self.s += s
-        self.h += h
-        self.w_io += w_io
-        if self.s < 0 or self.h < 0:
+        if self.s + s < 0 or self.h + h < 0:
             raise ValueError('Cannot have negative edges')
-        if self.w_io not in (0,1):
+        if self.w_io + w_io not in (0,1):
             raise ValueError('Invalid number of W-IO edges')
-        if self.w_io == 1 and self.s + self.h > 0:
+        if self.w_io + w_io == 1 and self.s + s + self.h + h > 0:
             raise ValueError('Cannot have W-IO edge and other edges')
+        self.s += s
+        self.h += h
+        self.w_io += w_io
 
     def remove(self, s: int=0, h: int=0, w_io: int=0):
         self.add(s=-s, h=-h, w_io=-w_io)
@@ -163,8 +163,8 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         s,t = edge_pair
         if not t in self.graph[s]:
             e = Edge()
-            self.graph[s][t] = e
             self.graph[t][s] = e
+            self.graph[s][t] = e
         else:
             e = self.graph[s][t]
 
-- 
2.43.0


From a637108efe49811d0a941f8100a72f8185ffddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 040/116] fix: GraphS.edges yields no edge between unconnected
 vertices

---
 pyzx/graph/graph_s.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 59290b5..0d19214 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -228,6 +228,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
     def edges(self, s=None, t=None):
         if s is not None and t is not None:
+            if t in self.graph[s]:
                 yield (s,t) if s < t else (t,s)
         elif s is not None:
             for t in self.graph[s]:
-- 
2.43.0


From f63e17c38d6de5f9632d0e4186e3250cbb7d95be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 041/116] fix: merge and subgraph_from_vertices keep vertex
 data and name the edges they add

---
 pyzx/graph/base.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index b38e25c..9e61aff 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -374,21 +374,20 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         Returns (list-of-vertices, list-of-edges) corresponding to
         the id's of the vertices and edges of the other graph."""
         ty = other.types()
-        rs = other.rows()
-        qs = other.qubits()
         phase = other.phases()
         grounds = other.grounds()
 
         vert_map = dict()
         edges = []
         for v in other.vertices():
-            w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = self.add_vertex(ty[v],other.qubit(v),other.row(v),phase[v],v in grounds)
+            for k in other.vdata_keys(v):
+                self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-            f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            f = self.edge(vert_map[s],vert_map[t])
+            edges.append(self.add_edge(f,other.edge_type(e)))
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -400,8 +399,6 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             g.set_auto_simplify(self._auto_simplify) # type: ignore
             # mypy issue https://github.com/python/mypy/issues/16413
         ty = self.types()
-        rs = self.rows()
-        qs = self.qubits()
         phase = self.phases()
         grounds = self.grounds()
 
@@ -410,7 +407,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         vert_map = dict()
         for v in verts:
-            w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            w = g.add_vertex(ty[v],self.qubit(v),self.row(v),phase[v],v in grounds)
+            for k in self.vdata_keys(v):
+                g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-- 
2.43.0


From 7344fbcec1298bc3955f1ca44d8ae8e66efe48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 042/116] fix: tensor takes grounds from the second graph and
 does not share its vertex data

---
 pyzx/graph/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 9e61aff..ed2717d 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -322,15 +322,13 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g = self.copy()
         g.scalar.mult_with_scalar(other.scalar)
         ts = other.types()
-        qs = other.qubits()
         height = max((self.qubits().values()), default=0) + 1
-        rs = other.rows()
         phases = other.phases()
-        vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],other.qubit(v)+height,other.row(v),phases[v],other.is_ground(v))
+            for k in other.vdata_keys(v):
+                g.set_vdata(w, k, other.vdata(v, k))
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From c1c1866b45b6c228c84ebdd3f13ee4e6918f4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 043/116] fix: apply_state and apply_effect keep the boundaries
 they are given no state for

---
 pyzx/graph/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index ed2717d..4ab538f 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -441,6 +441,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown input state " + s)
+        new_inputs.extend(inputs[len(state):])
         self.set_inputs(tuple(new_inputs))
 
     def apply_effect(self, effect: str) -> None:
@@ -468,6 +469,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown output effect " + s)
+        new_outputs.extend(outputs[len(effect):])
         self.set_outputs(tuple(new_outputs))
 
     def to_tensor(self, preserve_scalar:bool=True) -> np.ndarray:
-- 
2.43.0


From f50668d38bda44978263bef16bdcda26ac07e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 044/116] fix: clone copies grounds, vertex data, variable
 types and multigraph edges

---
 pyzx/graph/graph_s.py    | 5 ++++-
 pyzx/graph/multigraph.py | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 0d19214..c5d862d 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,7 +56,10 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 90887cf..acfc082 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -82,8 +82,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
+        cpy._auto_simplify = self._auto_simplify
         for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+            # both ends of an edge share one Edge object
+            cpy.graph[v] = {w: cpy.graph[w][v] if w in cpy.graph else Edge(e.s, e.h, e.w_io) for w, e in d.items()}
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -92,7 +94,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
-- 
2.43.0


From e8446b7648a2e3ade55980869b4e4004a7db54c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 045/116] fix: copying a graph keeps the types of its variables

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 4ab538f..2f678d4 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -152,6 +152,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         g.track_phases = self.track_phases
         g.scalar = self.scalar.copy(conjugate=adjoint)
         g.merge_vdata = self.merge_vdata
+        g.variable_types = self.variable_types.copy()
         mult:int = 1
         if adjoint:
             mult = -1
-- 
2.43.0


From d4fba434e4704d8ef31a16a5d1e9c4e8dd7394b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 046/116] fix: Circuit.to_basic_gates and split_phase_gates
 return copies of the gates

Gates that are already basic were put in the new circuit themselves, so that editing
a gate of the converted circuit changed the original one.
---
 pyzx/circuit/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..dd7f246 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -197,16 +197,16 @@ class Circuit(object):
         and the 2-qubit gates CNOT, CZ, CX."""
         c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
-            c.gates.extend(g.to_basic_gates())
+            c.gates.extend(b.copy() for b in g.to_basic_gates())
         return c
 
     def split_phase_gates(self) -> 'Circuit':
         c = Circuit(self.qubits, name=self.name)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
-                c.gates.extend(g.split_phases())
+                c.gates.extend(p.copy() for p in g.split_phases())
             else:
-                c.add_gate(g)
+                c.add_gate(g.copy())
         return c
 
     ### OPERATORS
-- 
2.43.0


From 852320e9fb32e1c5d1c1c09de24fa714cad03fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 047/116] fix: CNOT_tracker.from_circuit does not share the
 gate list of its argument

Adding a gate to the tracker also added it to the circuit it was made from.
---
 pyzx/routing/parity_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..59cc40f 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -115,7 +115,7 @@ class CNOT_tracker(Circuit):
     @staticmethod
     def from_circuit(circuit: Circuit) -> "CNOT_tracker":
         new_circuit = CNOT_tracker(circuit.qubits, name=circuit.name)
-        new_circuit.gates = circuit.gates
+        new_circuit.gates = [g.copy() for g in circuit.gates]
         new_circuit.update_matrix()
         return new_circuit
 
-- 
2.43.0


From 840ffde4e8ca06fe5de5422c6e66a30aa8c0c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 048/116] fix: GraphDiff copies vertex data and handles
 vertices without any

The diff and every diagram it was applied to shared the vdata dictionaries of the newer diagram,
and a vertex that lost its data got None instead of a dictionary, which made vdata() fail.
---
 pyzx/graph/diff.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 5d70efe..9be2fe3 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -70,8 +70,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
-				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+				if g1._vdata.get(v, {}) != g2._vdata.get(v, {}):
+					self.changed_vdata[v] = dict(g2._vdata.get(v, {}))
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -106,7 +106,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
+				g._vdata[v] = dict(self.changed_vdata[v])
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
 
@@ -124,7 +124,7 @@ class GraphDiff(Generic[VT, ET]):
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = dict(self.changed_vdata[v])
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
-- 
2.43.0


From a486cc9032e7a4dc1d1350f1105ce61bf97b4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 049/116] fix: Poly modulo an integer keeps the coefficients of
 continuous variables

---
 pyzx/symbolic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..6846d42 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -227,7 +227,13 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        # only terms that take integer multiples of their coefficient as values can be reduced
+        terms: List[Tuple[Union[int, float, complex, Fraction], Term]] = []
+        for c, t in self.terms:
+            if isinstance(c, complex): continue
+            if all(v.is_bool for v, _ in t.vars): c = c % other
+            if c != 0: terms.append((c, t))
+        return Poly(terms)
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
-- 
2.43.0


From 3f87f90b8158e18413fc79f9c30c5d27b853943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:07 +0000
Subject: [PATCH 050/116] fix: symbolic expressions with negative coefficients
 or powers read back as printed

---
 pyzx/symbolic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 6846d42..9df5156 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -343,14 +343,15 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 poly_grammar = Lark("""
     start      : "(" start ")" | term ("+" term)*
     term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
+    ?factor    : intf | frac | pi | pifrac | var | power
     var        : CNAME
+    power      : CNAME "^" INT
     intf       : INT
     pi         : "\\pi" | "pi"
     frac       : INT "/" INT
     pifrac     : [INT] pi "/" INT
 
-    %import common.INT
+    INT        : /-?[0-9]+/
     %import common.CNAME
     %import common.WS
     %ignore WS
@@ -374,6 +375,9 @@ class PolyTransformer(Transformer):
         v = str(items[0])
         return self._new_var(v)
 
+    def power(self, items: List[Any]) -> Poly:
+        return self._new_var(str(items[0])) ** int(items[1])
+
     def pi(self, _: List[Any]) -> Poly:
         return new_const(1)
 
-- 
2.43.0


From 1aad3ae7f017ca3470d5bb69a7b53007173122e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 051/116] fix: complex, unknown and nearly trivial scalars
 survive to_json and from_json

---
 pyzx/graph/scalar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 5d6845c..24b1017 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -180,14 +180,15 @@ class Scalar(object):
 
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+        if self.floatfactor != 1:
+            f = complex(self.floatfactor)
+            d["floatfactor"] = str(f) if f.imag else f.real
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
         return json.dumps(d)
 
     @classmethod
@@ -196,6 +197,8 @@ class Scalar(object):
         d["phase"] = Fraction(d["phase"])
         if "phasenodes" in d:
             d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+        if isinstance(d.get("floatfactor"), str):
+            d["floatfactor"] = complex(d["floatfactor"])
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From 6010640684514cdbfd86b6c6f553f3cd335697de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 052/116] fix: scalars with symbolic phases can be read back
 from JSON

---
 pyzx/graph/jsonparser.py |  2 +-
 pyzx/graph/scalar.py     | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..6da8eac 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -172,7 +172,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         edges[e] = amount
 
     if "scalar" in j:
-        g.scalar = Scalar.from_json(j["scalar"])
+        g.scalar = Scalar.from_json(j["scalar"], g.variable_types)
     g.add_edge_table(edges)
 
     return g
diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 24b1017..389d9eb 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -20,11 +20,11 @@ import math
 import cmath
 import copy
 from fractions import Fraction
-from typing import List
+from typing import Dict, List, Optional
 import json
 
 from ..utils import FloatInt, FractionLike
-from ..symbolic import Poly
+from ..symbolic import Poly, new_var, parse
 
 __all__ = ['Scalar']
 
@@ -192,11 +192,18 @@ class Scalar(object):
         return json.dumps(d)
 
     @classmethod
-    def from_json(cls, s: str) -> 'Scalar':
+    def from_json(cls, s: str, variable_types: Optional[Dict[str,bool]] = None) -> 'Scalar':
+        types = variable_types if variable_types is not None else {}
+        def to_phase(p: str) -> FractionLike:
+            try:
+                return Fraction(p)
+            except ValueError: # a symbolic phase
+                if p == '': return Fraction(0)
+                return parse(p, lambda name: new_var(name, types if name in types else False))
         d = json.loads(s)
-        d["phase"] = Fraction(d["phase"])
+        d["phase"] = to_phase(d["phase"])
         if "phasenodes" in d:
-            d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+            d["phasenodes"] = [to_phase(p) for p in d["phasenodes"]]
         if isinstance(d.get("floatfactor"), str):
             d["floatfactor"] = complex(d["floatfactor"])
         scalar = Scalar()
-- 
2.43.0


From 9fcebf00f304a0b617a1b57aeae490c97c49eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 053/116] fix: JSON keeps phases with large denominators exact

---
 pyzx/graph/diff.py       |  6 +++---
 pyzx/graph/jsonparser.py | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 9be2fe3..c7f9f0d 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -19,10 +19,10 @@ import json
 from collections import Counter
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
-from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
-from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
+from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
 	removed_verts: List[VT]
@@ -135,7 +135,7 @@ class GraphDiff(Generic[VT, ET]):
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
 			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+		changed_phases_str = {k: phase_to_string(v) for k, v in self.changed_phases.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 6da8eac..3419808 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -41,6 +41,13 @@ if TYPE_CHECKING:
 #    except TypeError:
 
 
+def phase_to_string(phase: FractionLike) -> str:
+    """The exact textual form of a phase, which ``string_to_phase`` reads back.
+    (``phase_to_s`` is meant for display, and rounds phases with a large denominator.)"""
+    if isinstance(phase, Poly): return str(phase)
+    phase = Fraction(phase)
+    return phase_to_s(phase) if phase.denominator <= 256 else str(phase)
+
 def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fraction, Poly]:
     if not string:
         return Fraction(0)
@@ -231,10 +238,10 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
                 if type(zbox_label) == Fraction:
-                    zbox_label = phase_to_s(zbox_label)
+                    zbox_label = phase_to_string(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_string(g.phase(v))
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
-- 
2.43.0


From 54d539f35a4764f8478e388eab657f41b436fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 054/116] fix: vertex data keeps its value in JSON

---
 pyzx/graph/jsonparser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index 3419808..cb4b34a 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -119,8 +119,10 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         for key, value in attr['annotation'].items():
             if key == 'coord':
                 continue
-            elif key == 'label':
-                if type(value) != complex:
+            elif key == 'label' and g.type(v) == VertexType.Z_BOX and isinstance(value, str):
+                try:
+                    value = complex(value)
+                except ValueError:
                     value = string_to_phase(value,g)
             g.set_vdata(v, key, value)
 
@@ -336,6 +338,8 @@ class ComplexEncoder(json.JSONEncoder):
     def default(self, obj):
         if isinstance(obj, complex):
             return str(obj)
+        if isinstance(obj, Fraction):
+            return {"fraction": str(obj)}
         return super().default(obj)
 
 class ComplexDecoder(json.JSONDecoder):
@@ -343,11 +347,18 @@ class ComplexDecoder(json.JSONDecoder):
         json.JSONDecoder.__init__(self, object_hook=self.object_hook, *args, **kwargs)
 
     def object_hook(self, dct):
+        if len(dct) == 1 and isinstance(dct.get("fraction"), str):
+            try:
+                return Fraction(dct["fraction"])
+            except ValueError:
+                pass
         for k, v in dct.items():
             if isinstance(v, str):
                 try:
-                    dct[k] = complex(v)
+                    c = complex(v)
                 except ValueError:
-                    pass
+                    continue
+                # only what ComplexEncoder writes, and not every text that looks like a number
+                if str(c) == v: dct[k] = c
         return dct
 
-- 
2.43.0


From 04476621d6f04c957e95d398e17e10e7e09fe8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:52 +0000
Subject: [PATCH 055/116] fix: vertices get distinct names in JSON

---
 pyzx/graph/jsonparser.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index cb4b34a..58a4a6a 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -194,24 +194,22 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    taken = set()
+    for v in g.vertices():
+        name = g.vdata(v, 'name')
+        if isinstance(name, str) and name and name not in taken:
+            names[v] = name
+            taken.add(name)
+    freenamesv = [n for n in ("v"+str(i) for i in range(g.num_vertices()+g.num_edges()+len(taken))) if n not in taken]
+    freenamesb = [n for n in ("b"+str(i) for i in range(g.num_vertices()+len(taken))) if n not in taken]
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
         t = g.type(v)
         coord = [round(g.row(v),3),round(-g.qubit(v),3)]
-        name = g.vdata(v, 'name')
-        if not name:
-            if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
-            else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
-
-        names[v] = name
+        if v not in names:
+            names[v] = freenamesb.pop(0) if t == VertexType.BOUNDARY else freenamesv.pop(0)
+        name = names[v]
         if t == VertexType.BOUNDARY:
             wire_vs[name] = {"annotation":{"boundary":True,"coord":coord}}
             if v in inputs:
-- 
2.43.0


From 8cd7264ff1bf73342ad5120db91725218f883e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 056/116] fix: GraphDiff records the vertex data of new
 vertices

---
 pyzx/graph/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index c7f9f0d..14f9a10 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -83,6 +83,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_phases[v] = g2.phase(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
+				if g2._vdata.get(v):
+					self.changed_vdata[v] = dict(g2._vdata[v])
 
 		for e in new_edges:
 			if e in old_edges:
-- 
2.43.0


From 3201bb01d0dc137b1ebb1aa34abb5733559f09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 057/116] fix: GraphDiff lists only retained edges as changing
 their type

---
 pyzx/graph/diff.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 14f9a10..93572f4 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -90,9 +90,6 @@ class GraphDiff(Generic[VT, ET]):
 			if e in old_edges:
 				if g1.edge_type(e) != g2.edge_type(e):
 					self.changed_edge_types[e] = g2.edge_type(e)
-			else:
-				if g2.edge_type(e) != EdgeType.HADAMARD: # We take Hadamard edges to be the default
-					self.changed_edge_types[e] = g2.edge_type(e)
 
 	def apply_diff(self,g: BaseGraph[VT,ET]) -> BaseGraph[VT,ET]:
 		g = copy.deepcopy(g)
-- 
2.43.0


From 68143ac1fe24fd4cdbfad55010486f587d7a4a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 058/116] fix: GraphDiff adds edges as they are in the newer
 graph

---
 pyzx/graph/diff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 93572f4..06c5838 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -22,6 +22,7 @@ from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
+from .multigraph import Multigraph
 from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
@@ -106,8 +107,12 @@ class GraphDiff(Generic[VT, ET]):
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
 				g._vdata[v] = dict(self.changed_vdata[v])
+		# the edges are those of the newer graph: nothing is left to be simplified
+		auto_simplify = isinstance(g, Multigraph) and g._auto_simplify
+		if auto_simplify: g.set_auto_simplify(False) # type: ignore
 		for st, ty in self.new_edges:
 			g.add_edge(st,ty)
+		if auto_simplify: g.set_auto_simplify(True) # type: ignore
 
 		for v in self.changed_pos:
 			if v in self.new_verts: continue
-- 
2.43.0


From 0f6bfe8dc2e89112eaf973bedd4cfb10aa2fd401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 059/116] fix: GraphDiff carries variable types over to the
 newer graph

---
 pyzx/graph/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 06c5838..6805c02 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -94,6 +94,7 @@ class GraphDiff(Generic[VT, ET]):
 
 	def apply_diff(self,g: BaseGraph[VT,ET]) -> BaseGraph[VT,ET]:
 		g = copy.deepcopy(g)
+		g.variable_types.update(self.variable_types)
 		g.remove_edges(self.removed_edges)
 		g.remove_vertices(self.removed_verts)
 		for v in self.new_verts:
@@ -157,6 +158,7 @@ class GraphDiff(Generic[VT, ET]):
 	def from_json(json_str: str) -> "GraphDiff":
 		d = json.loads(json_str, cls=ComplexDecoder)
 		gd = GraphDiff(GraphS(),GraphS())
+		gd.variable_types = d["variable_types"]
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
 		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
-- 
2.43.0


From 3e7cfcc01e7b58a43965f2eff55eb9739d7515d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 060/116] fix: GraphDiff records inputs, outputs, grounds and
 the scalar

---
 pyzx/graph/diff.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 6805c02..48df095 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -23,6 +23,7 @@ from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
 from .multigraph import Multigraph
+from .scalar import Scalar
 from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
@@ -36,6 +37,10 @@ class GraphDiff(Generic[VT, ET]):
 	changed_pos: Dict[VT, Tuple[FloatInt,FloatInt]]
 	changed_vdata: Dict[VT, Any]
 	variable_types: Dict[str,bool]
+	changed_inputs: Optional[Tuple[VT,...]]
+	changed_outputs: Optional[Tuple[VT,...]]
+	changed_grounds: Dict[VT,bool]
+	changed_scalar: Optional[Scalar]
 
 	def __init__(self, g1: BaseGraph[VT,ET], g2: BaseGraph[VT,ET]) -> None:
 		self.calculate_diff(g1,g2)
@@ -49,6 +54,13 @@ class GraphDiff(Generic[VT, ET]):
 		self.variable_types = g1.variable_types.copy()
 		self.variable_types.update(g2.variable_types)
 
+		# None means: as in the old graph, without the vertices that have been removed
+		self.changed_inputs = tuple(g2.inputs()) if tuple(g1.inputs()) != tuple(g2.inputs()) else None
+		self.changed_outputs = tuple(g2.outputs()) if tuple(g1.outputs()) != tuple(g2.outputs()) else None
+		self.changed_scalar = g2.scalar.copy() if g1.scalar.__dict__ != g2.scalar.__dict__ else None
+		self.changed_grounds = {v: g2.is_ground(v) for v in g2.vertices()
+			if g2.is_ground(v) != (v in g1.vertex_set() and g1.is_ground(v))}
+
 		old_verts = g1.vertex_set()
 		new_verts = g2.vertex_set()
 		self.removed_verts = list(old_verts - new_verts)
@@ -134,6 +146,12 @@ class GraphDiff(Generic[VT, ET]):
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
 
+		for v, ground in self.changed_grounds.items():
+			g.set_ground(v, ground)
+		if self.changed_inputs is not None: g.set_inputs(self.changed_inputs)
+		if self.changed_outputs is not None: g.set_outputs(self.changed_outputs)
+		if self.changed_scalar is not None: g.scalar = self.changed_scalar.copy()
+
 		return g
 
 	def to_json(self) -> str:
@@ -151,7 +169,11 @@ class GraphDiff(Generic[VT, ET]):
 			"changed_phases": changed_phases_str,
 			"changed_pos": self.changed_pos,
 			"changed_vdata": self.changed_vdata,
-			"variable_types": self.variable_types
+			"variable_types": self.variable_types,
+			"changed_inputs": self.changed_inputs,
+			"changed_outputs": self.changed_outputs,
+			"changed_grounds": self.changed_grounds,
+			"changed_scalar": self.changed_scalar.to_json() if self.changed_scalar is not None else None
 		},  cls=ComplexEncoder)
 
 	@staticmethod
@@ -168,6 +190,12 @@ class GraphDiff(Generic[VT, ET]):
 		gd.changed_phases = {int(k): string_to_phase(v,gd) for k, v in d["changed_phases"].items()}
 		gd.changed_pos = map_dict_keys(d["changed_pos"], int)
 		gd.changed_vdata = map_dict_keys(d["changed_vdata"], int)
+		inputs, outputs = d.get("changed_inputs"), d.get("changed_outputs")
+		gd.changed_inputs = tuple(inputs) if inputs is not None else None
+		gd.changed_outputs = tuple(outputs) if outputs is not None else None
+		gd.changed_grounds = map_dict_keys(d.get("changed_grounds", {}), int)
+		scalar = d.get("changed_scalar")
+		gd.changed_scalar = Scalar.from_json(scalar, gd.variable_types) if scalar is not None else None
 		return gd
 
 def map_dict_keys(d: Dict[str, Any], f: Callable[[str], Any]) -> Dict[Any, Any]:
-- 
2.43.0


From 77e39bfac7f7b24a295ed023c8c14aa0db0fab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 061/116] fix: editor undo and redo restore the diagram exactly

The undo stack stored the text sent to the front end, which has no inputs,
outputs, grounds or vertex data, and only displays phases: undoing a step lost
the labels of Z-boxes, inputs and outputs of deleted boundaries and rounded or
dropped phases. Store the diagrams themselves, and only when they changed.
---
 pyzx/editor.py | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 2a7e21c..92cd3a2 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -29,6 +29,7 @@ from .utils import settings, get_mode, phase_to_s, FloatInt
 from .drawing import matrix_to_latex
 from .graph import Scalar
 from .graph.graph import GraphS
+from .graph.base import upair
 from . import rules
 from . import tikz
 
@@ -148,6 +149,34 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 	return json.dumps({'nodes': nodes, 'links': links, 'scalar': scalar})
 
 
+def same_diagram(g: GraphS, h: GraphS) -> bool:
+	"""Whether two graphs have the same vertices and edges with the same data."""
+	def vertices(k):
+		return {v: (k.type(v), k.phase(v), k.qubit(v), k.row(v), k.is_ground(v),
+					{key: k.vdata(v,key) for key in k.vdata_keys(v)}) for v in k.vertices()}
+	def edges(k):
+		return sorted((upair(*k.edge_st(e)), k.edge_type(e)) for e in k.edges())
+	return (vertices(g) == vertices(h) and edges(g) == edges(h)
+			and g.inputs() == h.inputs() and g.outputs() == h.outputs()
+			and g.scalar.to_json() == h.scalar.to_json())
+
+def set_diagram(g: GraphS, h: GraphS) -> None:
+	"""Makes g exactly the same as h, keeping the names of the vertices."""
+	g.remove_vertices(list(g.vertices()))
+	for v in h.vertices():
+		g.add_vertex_indexed(v)
+		g.set_type(v, h.type(v))
+		g.set_phase(v, h.phase(v))
+		g.set_position(v, h.qubit(v), h.row(v))
+		g.set_ground(v, h.is_ground(v))
+		for key in h.vdata_keys(v): g.set_vdata(v, key, h.vdata(v,key))
+	for e in h.edges(): g.add_edge(h.edge_st(e), h.edge_type(e))
+	g.set_inputs(h.inputs())
+	g.set_outputs(h.outputs())
+	g.scalar = h.scalar.copy()
+	g.variable_types.update(h.variable_types)
+
+
 @widgets.register
 class ZXEditorWidget(widgets.DOMWidget):
 	_view_name = Unicode('ZXEditorView').tag(sync=True)
@@ -184,7 +213,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		self.graph = graph
 		self.show_matrix = show_matrix
 		self.show_scalar = show_scalar
-		self.undo_stack: List[Tuple[str,str]] = [('initial',str(self.graph_json))]
+		self.undo_stack: List[Tuple[str,GraphS]] = [('initial',self.graph.clone())]
 		self.undo_position: int = 1
 		self.halt_callbacks: bool = False
 		self.snapshots: List[GraphS] = []
@@ -291,31 +320,33 @@ class ZXEditorWidget(widgets.DOMWidget):
 			with self.output: print(traceback.format_exc())
 
 
-	def _undo_stack_add(self, description: str, js: str) -> None:
+	def _undo_stack_add(self, description: str) -> None:
+		"""Stores the current diagram on the undo stack, unless it has not changed."""
+		if same_diagram(self.graph, self.undo_stack[len(self.undo_stack)-self.undo_position][1]): return
 		self.undo_stack = self.undo_stack[:len(self.undo_stack)-self.undo_position+1]
 		self.undo_position = 1
-		self.undo_stack.append((description,js))
+		self.undo_stack.append((description,self.graph.clone()))
 		self.msg.append("Adding to undo stack: " + description)
 
 	def undo(self) -> None:
 		if self.undo_position == len(self.undo_stack): return
 		self.undo_position += 1
-		description, js = self.undo_stack[len(self.undo_stack)-self.undo_position]
+		description, g = self.undo_stack[len(self.undo_stack)-self.undo_position]
 		self.msg.append("Undo {}: {:d}-{:d}".format(description,len(self.undo_stack),self.undo_position))
 		self.halt_callbacks = True
 		self.graph_selected = '{"nodes": [], "links": []}'
-		self.graph_from_json(json.loads(js))
+		set_diagram(self.graph, g)
 		self.update()
 		self.halt_callbacks = False
 
 	def redo(self) -> None:
 		if self.undo_position == 1: return
 		self.undo_position -= 1
-		description, js = self.undo_stack[len(self.undo_stack)-self.undo_position]
+		description, g = self.undo_stack[len(self.undo_stack)-self.undo_position]
 		self.msg.append("Redo {}: {:d}-{:d}".format(description,len(self.undo_stack),self.undo_position))
 		self.halt_callbacks = True
 		self.graph_selected = '{"nodes": [], "links": []}'
-		self.graph_from_json(json.loads(js))
+		set_diagram(self.graph, g)
 		self.update()
 		self.halt_callbacks = False
 
@@ -340,7 +371,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 		# self.graph_selected = '{"nodes": [], "links": []}'
 		# js = graph_to_json(g, self.graph.scale) # type: ignore
 		# self.graph_from_json(json.loads(js))
-		self._undo_stack_add("paste",graph_to_json(self.graph,self.graph.scale)) # type: ignore
+		self._undo_stack_add("paste")
 		self.update()
 		self.graph_selected = graph_to_json(self.graph,self.graph.scale,verts,[]) # type: ignore
 		self.halt_callbacks = False
@@ -410,7 +441,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 			js = json.loads(change['new'])
 			js['scalar'] = self.graph.scalar.to_json()
 			self.graph_from_json(js)
-			self._undo_stack_add(self.last_operation, json.dumps(js))
+			self._undo_stack_add(self.last_operation)
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
 		
-- 
2.43.0


From 6bb64237fc8f2ac2330f4b9673e001a03fe3a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 062/116] fix: editor buttons and actions work again after one
 fails

An exception in a rewrite or action left button_clicked or action set, so that
clicking the same button again did nothing, and left callbacks halted, so that
later changes made in the front end were ignored.
---
 pyzx/editor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 92cd3a2..f348147 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -298,11 +298,12 @@ class ZXEditorWidget(widgets.DOMWidget):
 										and e["source"] not in rem_verts
 										and e["target"] not in rem_verts)]
 			self.graph_selected = json.dumps(selection)
-			self.button_clicked = ''
 			self.update()
 			self._selection_changed(None)
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
+		finally:
+			self.button_clicked = ''
 
 	def _perform_action(self, change):
 		try:
@@ -315,9 +316,11 @@ class ZXEditorWidget(widgets.DOMWidget):
 			elif action == 'paste': self.paste()
 			elif action == 'copy': self.copy_to_clipboard()
 			else: raise ValueError("Unknown action '{}'".format(action))
-			self.action = ''
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
+		finally:
+			self.halt_callbacks = False
+			self.action = ''
 
 
 	def _undo_stack_add(self, description: str) -> None:
-- 
2.43.0


From 2be304a922409a7122c816a72aa6ce0ab59b98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 063/116] fix: editor keeps the diagram when a rewrite fails

A rule that raised had already changed part of the diagram.
---
 pyzx/editor.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index f348147..b1004dc 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -283,11 +283,17 @@ class ZXEditorWidget(widgets.DOMWidget):
 			if data["type"] == MATCHES_EDGES:
 				matches = data["matcher"](g, lambda e: e in edge_set)
 			else: matches = data["matcher"](g, lambda v: v in vertex_set)
+			if not matches: return
 			# Apply the rule
-			etab, rem_verts, rem_edges, check_isolated_vertices = data["rule"](g, matches)
-			g.remove_edges(rem_edges)
-			g.remove_vertices(rem_verts)
-			g.add_edge_table(etab)
+			before = g.clone()
+			try:
+				etab, rem_verts, rem_edges, check_isolated_vertices = data["rule"](g, matches)
+				g.remove_edges(rem_edges)
+				g.remove_vertices(rem_verts)
+				g.add_edge_table(etab)
+			except Exception:
+				set_diagram(g, before)
+				raise
 			
 			#if check_isolated_vertices: g.remove_isolated_vertices()
 			# Remove stuff from the selection
-- 
2.43.0


From a8bf5e215a45e11a544219b945a0e1447df03ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:46 +0000
Subject: [PATCH 064/116] fix: editor applies messages of the front end
 faithfully or not at all

The front end only knows names, positions, types and displayed phases. Its
messages replaced exact and symbolic phases, and those of Z-boxes, by their
rounded text, or failed on them halfway. A message sent before the result of a
rewrite arrived brought back the old diagram with the new scalar and without
inputs and outputs, while the front end went on to show the rewritten one, and
a message with an error changed part of the diagram. Number the diagrams sent
and let the front end say which one it changed, keep everything it did not
change, and reject outdated and invalid messages as a whole, sending the held
diagram again.
---
 pyzx/editor.py             | 114 +++++++++++++++++++++++--------------
 pyzx/js/zx_editor_model.js |   2 +
 2 files changed, 74 insertions(+), 42 deletions(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index b1004dc..777f862 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -16,6 +16,7 @@
 
 
 import json
+import math
 import os
 from fractions import Fraction
 import traceback
@@ -131,7 +132,7 @@ def s_to_phase(s: str, t:VertexType=VertexType.Z) -> Fraction:
 	if not s: return Fraction(1)
 	return Fraction(int(s))
 
-def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edges:Optional[List[Tuple[int,int]]]=None) -> str:
+def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edges:Optional[List[Tuple[int,int]]]=None, revision:int=0) -> str:
 	if verts is None:
 		verts = list(g.vertices())
 	if edges is None:
@@ -146,7 +147,7 @@ def graph_to_json(g: GraphS, scale:FloatInt, verts:Optional[List[int]]=None,edge
 			  'target': int(g.edge_t(e)),
 			  't': g.edge_type(e) } for e in edges]
 	scalar = g.scalar.to_json()
-	return json.dumps({'nodes': nodes, 'links': links, 'scalar': scalar})
+	return json.dumps({'nodes': nodes, 'links': links, 'scalar': scalar, 'revision': revision})
 
 
 def same_diagram(g: GraphS, h: GraphS) -> bool:
@@ -213,18 +214,30 @@ class ZXEditorWidget(widgets.DOMWidget):
 		self.graph = graph
 		self.show_matrix = show_matrix
 		self.show_scalar = show_scalar
-		self.undo_stack: List[Tuple[str,GraphS]] = [('initial',self.graph.clone())]
 		self.undo_position: int = 1
 		self.halt_callbacks: bool = False
+		# Counts the diagrams sent to the front end, which says in its messages
+		# which one it has changed.
+		self.revision: int = 0
 		self.snapshots: List[GraphS] = []
 		self.msg: List[str] = []
 		self.output = widgets.Output()
 		self.scalar_view = widgets.Label()
 		self.matrix_view = widgets.Label()
 		self._update_matrix()
+		self.undo_stack: List[Tuple[str,GraphS]] = [('initial',self.graph.clone())]
 	
 	def update(self) -> None:
-		self.graph_json = graph_to_json(self.graph, self.graph.scale) # type: ignore
+		"""Sends the diagram to the front end."""
+		halted = self.halt_callbacks
+		self.halt_callbacks = True
+		try:
+			self.revision += 1
+			self.graph_json = graph_to_json(self.graph, self.graph.scale, revision=self.revision) # type: ignore
+			self._update_matrix()
+		finally:
+			self.halt_callbacks = halted
+		if not halted: self._undo_stack_add(self.last_operation)
 
 	def _update_matrix(self):
 		if self.show_scalar:
@@ -380,8 +393,8 @@ class ZXEditorWidget(widgets.DOMWidget):
 		# self.graph_selected = '{"nodes": [], "links": []}'
 		# js = graph_to_json(g, self.graph.scale) # type: ignore
 		# self.graph_from_json(json.loads(js))
-		self._undo_stack_add("paste")
 		self.update()
+		self._undo_stack_add("paste")
 		self.graph_selected = graph_to_json(self.graph,self.graph.scale,verts,[]) # type: ignore
 		self.halt_callbacks = False
 		# self._selection_changed(None)
@@ -407,52 +420,69 @@ class ZXEditorWidget(widgets.DOMWidget):
 			with self.output: print(e)
 
 	def graph_from_json(self, js: Dict[str,Any]) -> None:
-		try:
-			scale = self.graph.scale # type: ignore
-			marked: Union[Set[int],Set[Tuple[int,int]]] = self.graph.vertex_set()
-			for n in js["nodes"]:
-				v = n["name"]
-				r = float(n["x"])/scale -1
-				q = float(n["y"])/scale -2
-				t = int(n["t"])
-				phase = s_to_phase(n["phase"], t) # type: ignore
-				if v not in marked:
-					self.graph.add_vertex_indexed(v)
-				else: 
-					marked.remove(v)
-				self.graph.set_position(v, q, r)
-				self.graph.set_phase(v, phase)
-				self.graph.set_type(v, t)
-			self.graph.remove_vertices(marked)
-			marked = self.graph.edge_set()
-			for e in js["links"]:
-				s = int(e["source"])
-				t = int(e["target"])
-				et = int(e["t"])
-				if self.graph.connected(s,t):
-					f = self.graph.edge(s,t)
-					marked.remove(f)
-					self.graph.set_edge_type(f, et)
-				else:
-					self.graph.add_edge((s,t),et) # type: ignore
-			self.graph.remove_edges(marked)
-			if 'scalar' in js:
-				self.graph.scalar = Scalar.from_json(js['scalar'])
-			self._update_matrix()
-		except Exception as e:
-			with self.output: print(traceback.format_exc())
+		"""Makes the diagram what the front end says it is. Everything the front end does not
+		know about, or did not change, stays as it is.
+		Raises an error, without changing the diagram, when the description is not valid
+		or was made before the front end had seen the latest diagram."""
+		if js.get('revision', self.revision) != self.revision:
+			raise ValueError("The diagram was changed in the meantime")
+		base = self.graph
+		scale = base.scale # type: ignore
+		verts = base.vertex_set()
+		g = base.clone()
+		names = set()
+		for n in js["nodes"]:
+			v = int(n["name"])
+			if v in names: raise ValueError("Vertex {:d} is given twice".format(v))
+			names.add(v)
+			t = VertexType(n["t"])
+			x, y = float(n["x"]), float(n["y"])
+			if not (math.isfinite(x) and math.isfinite(y)):
+				raise ValueError("Invalid position of vertex {:d}".format(v))
+			if v not in verts:
+				if t == VertexType.Z_BOX: raise ValueError("The label of vertex {:d} is not known".format(v))
+				g.add_vertex_indexed(v)
+				g.set_position(v, y/scale - 2, x/scale - 1)
+				g.set_phase(v, s_to_phase(n["phase"], t))
+			else:
+				if t == VertexType.Z_BOX != base.type(v):
+					raise ValueError("The label of vertex {:d} is not known".format(v))
+				if x != (base.row(v) + 1) * scale: g.set_row(v, x/scale - 1)
+				if y != (base.qubit(v) + 2) * scale: g.set_qubit(v, y/scale - 2)
+				if n["phase"] != phase_to_s(base.phase(v), base.type(v)):
+					g.set_phase(v, s_to_phase(n["phase"], t))
+			g.set_type(v, t)
+		g.remove_vertices(verts - names)
+		marked = g.edge_set()
+		links = set()
+		for e in js["links"]:
+			s, t = int(e["source"]), int(e["target"])
+			et = EdgeType(e["t"])
+			if s not in names or t not in names or s == t or upair(s,t) in links:
+				raise ValueError("Invalid edge between {:d} and {:d}".format(s,t))
+			links.add(upair(s,t))
+			if g.connected(s,t):
+				f = g.edge(s,t)
+				marked.remove(f)
+				g.set_edge_type(f, et)
+			else:
+				g.add_edge((s,t),et)
+		g.remove_edges(marked)
+		g.set_inputs(tuple(v for v in base.inputs() if v in names))
+		g.set_outputs(tuple(v for v in base.outputs() if v in names))
+		set_diagram(self.graph, g)
+		self._update_matrix()
 	
 	def _handle_graph_change(self, change):
 		"""Called whenever the graph in the editor is modified."""
 		if self.halt_callbacks: return
 		self.msg.append("Handling graph change")
 		try:
-			js = json.loads(change['new'])
-			js['scalar'] = self.graph.scalar.to_json()
-			self.graph_from_json(js)
+			self.graph_from_json(json.loads(change['new']))
 			self._undo_stack_add(self.last_operation)
 		except Exception as e:
 			with self.output: print(traceback.format_exc())
+			self.update() # The front end should not show a diagram that was not accepted
 		
 
 	def to_graph(self, zh:bool=True) -> GraphS:
diff --git a/pyzx/js/zx_editor_model.js b/pyzx/js/zx_editor_model.js
index 073f3bc..686df77 100644
--- a/pyzx/js/zx_editor_model.js
+++ b/pyzx/js/zx_editor_model.js
@@ -102,6 +102,8 @@ define('zx_editor', ["@jupyter-widgets/base", "make_editor"], function(widgets,m
             graph.links.forEach(function(d) {
                g.links.push({"source": d.source.name, "target": d.target.name, "t":d.t}) 
             });
+            // Tells the kernel which diagram these changes were made to
+            if (graph.revision !== undefined) g.revision = graph.revision;
             //console.log(g);
             return g
         },
-- 
2.43.0


From 446704370ee63ee5cecd69380da1cbde5e9aea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 065/116] fix: editor's bialgebra rule for H-boxes divides by
 sqrt(2) per copied leg

An X-spider with k other legs in front of an H-box equals k H-boxes divided by
sqrt(2)^(k-1), but the scalar was multiplied by it.
---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index a2c46ff..23914dc 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -274,7 +274,7 @@ def bialgebra(g: BaseGraph[VT,ET],
             g.scalar.add_power((g.vertex_degree(v)-2)*(g.vertex_degree(w)-2))
         else: #g.type(w) == VertexType.H_BOX
             t = VertexType.Z
-            g.scalar.add_power(g.vertex_degree(v)-2)
+            g.scalar.add_power(-(g.vertex_degree(v)-2))
         for n in g.neighbors(w):
             if n == v: continue
             r = 0.6*g.row(w) + 0.4*g.row(n)
-- 
2.43.0


From f1d5a4b1658edb4ae7bded22e45743c9b966de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:49 +0000
Subject: [PATCH 066/116] fix: Scalar.to_latex shows the value of phase nodes
 and of a sign

The factors 1+exp(i pi alpha), and the sign for a phase of pi next to another
factor, were left out of the result, and symbolic phase nodes raised.
---
 pyzx/graph/scalar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 389d9eb..baad2f9 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -122,8 +122,12 @@ class Scalar(object):
         if self.is_zero: return "0"
         elif self.is_unknown: return "Unknown"
         f = self.floatfactor
+        symbolic = ""
         for node in self.phasenodes:
-            f *= 1+cexp(node)
+            if isinstance(node, Poly):
+                symbolic += r"(1+\exp(i~\pi({})))".format(node)
+            else:
+                f *= 1+cexp(node)
         if self.phase == 1:
             f *= -1
 
@@ -131,7 +135,8 @@ class Scalar(object):
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
         elif abs(f-1) > 0.0001: #f \neq 1
-            s += str(self.floatfactor)
+            s += str(f)
+        s += symbolic
         if self.power2 != 0:
             s += r"\sqrt{{2}}^{{{:d}}}".format(self.power2)
         if self.phase not in (0,1):
-- 
2.43.0


From 9e91ce46eecc2ed0a9bf905015c774e024673487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:31 +0000
Subject: [PATCH 067/116] fix: Scalar.to_unicode shows the power and phase next
 to another factor

---
 pyzx/graph/scalar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index baad2f9..2da9800 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -163,12 +163,11 @@ class Scalar(object):
             f *= -1
             phase -= 1
 
-        if abs(f+1) > 0.001 and abs(f-1) > 0.001:
-            return str(f)
-
         s = ""
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
+        elif abs(f-1) > 0.001: #f \neq 1
+            s += str(f)
         if self.power2 != 0:
             s += r"√2"
             if self.power2 < 0:
-- 
2.43.0


From e693dad87567b8b504a576f21178341fc8fb0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 068/116] fix: pyzx opt refuses an output format it cannot
 write before opening the destination

For a .qsim source without -t the destination (by default the source itself) was
opened for writing, and so emptied, before the missing printer was noticed.
---
 pyzx/scripts/circ2circ.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyzx/scripts/circ2circ.py b/pyzx/scripts/circ2circ.py
index 18cd302..b2f30ba 100644
--- a/pyzx/scripts/circ2circ.py
+++ b/pyzx/scripts/circ2circ.py
@@ -53,13 +53,10 @@ def main(args):
         print("File {} does not exist".format(options.source))
         return
     ctype = determine_file_type(options.source)
-    if options.outformat == 'match':
-        dtype = ctype
-    elif options.outformat not in ('qasm', 'qc', 'quipper'):
-        print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(options.outformat))
+    dtype = ctype if options.outformat == 'match' else options.outformat
+    if dtype not in ('qasm', 'qc', 'quipper'):
+        print("Unsupported circuit type {}. Please use qasm, qc or quipper".format(dtype))
         return
-    else:
-        dtype = options.outformat
     if not options.dest:
         base = os.path.splitext(options.source)[0]
         dest = base + "." + dtype
-- 
2.43.0


From bcefac8c34fe6ec2208910083b2c7691c5566016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 069/116] fix: recognise an OpenQASM file by its contents even
 if it includes qelib1.inc

---
 pyzx/circuit/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index dd7f246..b7b11dd 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -538,6 +538,8 @@ def determine_file_type(circuitfile: str) -> str:
         f.close()
         if data.startswith('Inputs:'):
             return "quipper"
+        if data.find('OPENQASM') != -1: # Its include statements can look like .qc headers
+            return "qasm"
         if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
             return "qc"
         if data.find('QASM') != -1:
-- 
2.43.0


From 074d948a30e74da1bd0a8bb0646dd80442b59ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 070/116] fix: the qsim parser reports gates it does not know
 instead of dropping them

---
 pyzx/circuit/qsimparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..ac8d381 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -54,6 +54,8 @@ def parse_qsim(data: str) -> Circuit:
             theta = float(gdesc[4]) / math.pi
             phi = float(gdesc[5]) / math.pi
             gates.append(FSim(q, q1, Fraction(theta), Fraction(phi)))
+        else:
+            raise TypeError("Unknown gate: " + l)
 
     c = Circuit(qcount)
     c.gates = gates
-- 
2.43.0


From 9438f7c187d120278907ba1817acadf7a9bdb5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 071/116] fix: pyzx cnots parses the arguments it is given

---
 pyzx/scripts/cnot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/scripts/cnot_generator.py b/pyzx/scripts/cnot_generator.py
index 6b49273..2388928 100644
--- a/pyzx/scripts/cnot_generator.py
+++ b/pyzx/scripts/cnot_generator.py
@@ -57,7 +57,7 @@ parser.add_argument(
 
 
 def main(args):
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     if args.n_cnots is None:
         parser.error(
             message="Please specify the number of CNOT gates to be generated with the -d flag."
-- 
2.43.0


From 05982324195ec264a72e1a65aeffe54bc3776e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 072/116] fix: pyzx phasepoly can run more than once in a
 process

---
 pyzx/scripts/phase_poly_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyzx/scripts/phase_poly_generator.py b/pyzx/scripts/phase_poly_generator.py
index eb339c2..a569234 100644
--- a/pyzx/scripts/phase_poly_generator.py
+++ b/pyzx/scripts/phase_poly_generator.py
@@ -47,7 +47,11 @@ parser.add_argument(
 
 
 def main(args):
-    parser.add_argument(
+    # The shared parser is left as it is, so that main() can be called again
+    gadget_parser = argparse.ArgumentParser(
+        description=description, parents=[parser], add_help=False
+    )
+    gadget_parser.add_argument(
         "-p",
         "--n_phase_gadgets",
         nargs="+",
@@ -55,7 +59,7 @@ def main(args):
         type=int,
         help="The number of phase gadgets to be generated in the circuit.",
     )
-    args = parser.parse_args(args)
+    args = gadget_parser.parse_args(args)
     folder = args.folder
     os.makedirs(folder, exist_ok=True)
 
-- 
2.43.0


From d5ee08396da45c4c8039d8f34296944ca30855b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 073/116] fix: phase_poly_from_gadgets works again and makes as
 many gadgets as asked

Parity did not accept numpy integers, and integers that differ by a power of two
denoted the same parity, whatever the number of qubits.
---
 pyzx/generate.py            | 4 ++--
 pyzx/routing/parity_maps.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a87dcce..6812df0 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -663,10 +663,10 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(integer + 1, n_qubits))
+            parities.add(Parity(int(integer) + 1, n_qubits))
     elif n_qubits < 64:
         while len(parities) < n_gadgets:
-            parities.add(Parity(np.random.randint(1, 2**n_qubits), n_qubits))
+            parities.add(Parity(int(np.random.randint(1, 2**n_qubits)), n_qubits))
     else:
         while len(parities) < n_gadgets:
             par: Parity = Parity([])
diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 59cc40f..301d8eb 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -143,7 +143,9 @@ class Parity:
 
     def __init__(self, par: Union[str, int, Iterable[Any]], n_qubits: Optional[int] = None):
         if isinstance(par, int):
-            self.parity = [bool(par & (1 << i)) for i in reversed(range(par.bit_length()))]
+            # Leading zeros count when the amount of qubits is known
+            n_bits = max(par.bit_length(), n_qubits or 0)
+            self.parity = [bool(par & (1 << i)) for i in reversed(range(n_bits))]
         elif isinstance(par, str):
             self.parity = [p != "0" for p in par]
         else:
-- 
2.43.0


From 431940043b2657ed6d8975434bff973a5a19dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 074/116] fix: Mat2.gauss does not share its list of pivots
 between calls

The default list grew with every call, and two threads eliminating at the same
time took each other's pivots, which gave wrong results.
---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 94e4a5c..d3cc73a 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -143,7 +143,7 @@ class Mat2(object):
         """Permute the columns of the matrix according to the permutation p."""
         self.data = [[self.data[i][j] for j in p] for i in range(self.rows())]
     
-    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:List[int]=[]) -> int:
+    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:Optional[List[int]]=None) -> int:
         """Compute the echelon form. Returns the number of non-zero rows in the result, i.e.
         the rank of the matrix.
 
@@ -173,7 +173,7 @@ class Mat2(object):
 
         rows = self.rows()
         cols = self.cols()
-        #pivot_cols = []
+        if pivot_cols is None: pivot_cols = []
         pivot_row = 0
         for sec in range(math.ceil(cols / blocksize)):
             i0 = sec * blocksize
-- 
2.43.0


From ba1660ce542e9597ee04b608667be530b109f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:43 +0000
Subject: [PATCH 075/116] fix: phase_poly_from_gadgets does not depend on the
 hash seed

---
 pyzx/generate.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 6812df0..c474859 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -29,7 +29,7 @@ __all__ = [
 import random
 from fractions import Fraction
 
-from typing import Optional, List, Set, Union
+from typing import Dict, Optional, List, Union
 from typing_extensions import Literal
 
 import numpy as np
@@ -656,26 +656,26 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     :param n_gadgets: Number of phase gadgets to generate.
     :return: A random phase polynomial circuit.
     """
-    parities: Set[Parity] = set()
+    # A dictionary: the order of a set of parities depends on the hash seed
+    zphase_dict: Dict[Parity, Fraction] = {}
     if n_gadgets > 2**n_qubits:
         n_gadgets = n_qubits ^ 3
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(int(integer) + 1, n_qubits))
+            zphase_dict[Parity(int(integer) + 1, n_qubits)] = Fraction(1, 4)
     elif n_qubits < 64:
-        while len(parities) < n_gadgets:
-            parities.add(Parity(int(np.random.randint(1, 2**n_qubits)), n_qubits))
+        while len(zphase_dict) < n_gadgets:
+            zphase_dict[Parity(int(np.random.randint(1, 2**n_qubits)), n_qubits)] = Fraction(1, 4)
     else:
-        while len(parities) < n_gadgets:
+        while len(zphase_dict) < n_gadgets:
             par: Parity = Parity([])
             while not par.count():
                 par = Parity(
                     np.random.choice([False, True], n_qubits, replace=True), n_qubits
                 )
-            parities.add(par)
-    zphase_dict = {p: Fraction(1, 4) for p in parities}
+            zphase_dict[par] = Fraction(1, 4)
     out_parities = mat22partition(Mat2.id(n_qubits))
     phase_poly = PhasePoly(zphase_dict, out_parities)
     return phase_poly.rec_gray_synth("gauss", architecture=None)[0]
-- 
2.43.0


From 0ac528fd96403888b1bf1ada1741c2972d1f4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 076/116] fix: hpivot connects a new H-box to every spider once

Two neighbourhoods with a spider in common made a parallel edge, which add_edge refuses.
---
 pyzx/hrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..75d3ae0 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -564,7 +564,7 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws)))) # an H-box copies through a spider it is connected to twice
 
                 # TODO: check if this is the right thing to do (and update scalar)
                 if len(us) == 0: continue
-- 
2.43.0


From b82733eddaae617240fffc2c8a549c78dbf55514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 077/116] fix: hspider_simp does not fuse neighbouring pairs of
 H-boxes at once

The connection between the pairs was lost when its end was removed or its entry in the edge table overwritten.
---
 pyzx/hrules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 75d3ae0..8d9243f 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -75,8 +75,9 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        # The edges of the removed H-box move to the other one, so their other ends must stay
+        for n in set(g.neighbors(v1)).union(g.neighbors(v2)):
+            candidates.difference_update(g.incident_edges(n))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From 7a1b4600fea6ca3af7cfead592a05e5fcb53271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 078/116] fix: match_hbox_parallel_not checks that the H-box is
 connected to a Z-spider by a regular wire

As the docstring says; any vertex and kind of edge was accepted.
---
 pyzx/hrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 8d9243f..ba30978 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -235,7 +235,8 @@ def match_hbox_parallel_not(
         for n in g.neighbors(h):
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
-            if not g.connected(v,h): continue
+            if types[v] != VertexType.Z: continue
+            if not g.connected(v,h) or g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
-- 
2.43.0


From e0a533faeaa056dfc44af7cf84dab35cdf9c72df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 079/116] fix: match_par_hbox_intro skips H-boxes connected to
 a spider both directly and via a NOT

---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index ba30978..2990d5d 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -396,6 +396,7 @@ def match_par_hbox_intro(
                     neighbors_NOT.add(w)
                     NOTs.append(v)
         if not suitable: continue
+        if neighbors_regular & neighbors_NOT: continue  # Connected both directly and via a NOT
         group = frozenset(neighbors_regular | neighbors_NOT)
         if group not in groupings: 
             groupings[group] = [(h,NOTs, neighbors_regular, neighbors_NOT, neighbors_single)]
-- 
2.43.0


From de01bd95706ecc39591ab512fb1b5e122bb1a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:52 +0000
Subject: [PATCH 080/116] fix: from_hypergraph_form only fuses arity-1 H-boxes
 that are connected by a regular edge

---
 pyzx/hsimplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From 7f4b4ca1fb3c718dd2847a9a03b8ec5202d10b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 081/116] fix: rewrites that make parallel edges at an H-box do
 not fail

add_edge raised ValueError in id_simp, spider_simp, hspider_simp and hadamard_simp.
Combine the edges where the spider copies through the H-box, otherwise keep them apart with an identity.
---
 pyzx/graph/base.py    | 36 ++++++++++++++++++++++++++++++++++--
 pyzx/graph/graph_s.py |  2 ++
 pyzx/rules.py         | 11 ++++++++---
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 2f678d4..ea00fda 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -721,8 +721,40 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         result from adding (#edges, #h-edges), and then removing all parallel edges using Hopf/spider laws."""
 
         for st, (ns, nh) in etab.items():
-            for _ in range(ns): self.add_edge(st, EdgeType.SIMPLE)
-            for _ in range(nh): self.add_edge(st, EdgeType.HADAMARD)
+            for _ in range(ns): self._add_edge_or_subdivide(st, EdgeType.SIMPLE)
+            for _ in range(nh): self._add_edge_or_subdivide(st, EdgeType.HADAMARD)
+
+    def copies_through_hbox(self, s: VT, t: VT, et1: EdgeType, et2: EdgeType) -> bool:
+        """Returns whether two parallel edges of the given types between ``s`` and ``t`` are the same as one of them,
+        because one of the two vertices is an H-box and the other is a spider that copies through it."""
+        if et1 != et2: return False
+        if self.type(s) == VertexType.H_BOX: s,t = t,s
+        ty = self.type(s)
+        if self.type(t) != VertexType.H_BOX or not vertex_is_zx_like(ty): return False
+        return et1 == (EdgeType.SIMPLE if vertex_is_z_like(ty) else EdgeType.HADAMARD)
+
+    def _add_edge_or_subdivide(self, st: Tuple[VT,VT], et: EdgeType) -> None:
+        """Adds an edge. If it would be parallel to one it can't be combined with, because one of
+        its ends is an H-box, then an identity spider is put in the middle of the new edge."""
+        s,t = st
+        if s == t or self.multigraph() or not self.connected(s,t):
+            self.add_edge(st, et)
+            return
+        if self.type(s) == VertexType.H_BOX: s,t = t,s
+        ty = self.type(s)
+        et1 = self.edge_type(self.edge(s,t))
+        if self.type(t) != VertexType.H_BOX or self.copies_through_hbox(s, t, et1, et):
+            self.add_edge(st, et)
+            return
+        if vertex_is_zx_like(ty):
+            # The edge with the identity on it must not be one along which the identity fuses with the spider
+            direct = EdgeType.SIMPLE if vertex_is_z_like(ty) else EdgeType.HADAMARD
+            if et == direct:
+                self.set_edge_type(self.edge(s,t), et)
+                et = et1
+        w = self.add_vertex(VertexType.Z, (self.qubit(s)+self.qubit(t))/2, (self.row(s)+self.row(t))/2)
+        self.add_edge((s,w), et)
+        self.add_edge((w,t), EdgeType.SIMPLE)
 
 
     def set_phase_master(self, m: 'simplify.Simplifier') -> None:
diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index c5d862d..ae82ac5 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -167,6 +167,8 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
                     self.scalar.add_power(-2)
                 else:
                     raise ValueError(f'Got unexpected edge types: {t1}, {t2}')
+            elif self.copies_through_hbox(s, t, self.graph[s][t], edgetype):
+                pass # no-op
             else:
                 raise ValueError(f'Attempted to add unreducible parallel edge {edge_pair}, types: {t1}, {t2}')
 
diff --git a/pyzx/rules.py b/pyzx/rules.py
index ef0d2a9..e9c2921 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -800,11 +800,16 @@ def match_ids_parallel(
                 g.is_ground(v1) and types[v0] == VertexType.BOUNDARY):
             # Do not put ground spiders on the boundary
             continue
+        if g.edge_type(g.edge(v,v0)) != g.edge_type(g.edge(v,v1)): #exactly one of them is a hadamard edge
+            et = EdgeType.HADAMARD
+        else: et = EdgeType.SIMPLE
+        if ((types[v0] == VertexType.H_BOX or types[v1] == VertexType.H_BOX) and g.connected(v0,v1) and
+                not g.copies_through_hbox(v0, v1, g.edge_type(g.edge(v0,v1)), et)):
+            # The edges of the H-box would become parallel
+            continue
         candidates.discard(v0)
         candidates.discard(v1)
-        if g.edge_type(g.edge(v,v0)) != g.edge_type(g.edge(v,v1)): #exactly one of them is a hadamard edge
-            m.append((v,v0,v1,EdgeType.HADAMARD))
-        else: m.append((v,v0,v1,EdgeType.SIMPLE))
+        m.append((v,v0,v1,et))
         i += 1
     return m
 
-- 
2.43.0


From 28cf38532ba9721ccc9feb6159fc5dc2b35d53c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:17 +0000
Subject: [PATCH 082/116] fix: match_hpivot only matches H-boxes between two
 Z-spiders

A boundary vertex could be matched, and was then removed from the diagram.
---
 pyzx/hrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 2990d5d..1de9346 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -483,6 +483,7 @@ def match_hpivot(
         ): continue
 
         v0, v1 = g.neighbors(h)
+        if types[v0] != VertexType.Z or types[v1] != VertexType.Z: continue
 
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
-- 
2.43.0


From f19baff35aec9bdbb78ef458e27955176a35037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 083/116] fix: match_pivot_gadget and match_pivot_boundary
 check that the edges are Hadamard edges

A reduction whose filter left two connected spiders unfused changed the meaning of the diagram.
---
 pyzx/rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index e9c2921..a429ede 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -502,7 +502,7 @@ def match_pivot_gadget(
         discard_edges: List[ET] = []
         for j,l in enumerate((v0n, v1n)):
             for n in l:
-                if types[n] != VertexType.Z:
+                if types[n] != VertexType.Z or g.edge_type(g.edge((v0,v1)[j],n)) != EdgeType.HADAMARD:
                     bad_match = True
                     break
                 ne = list(g.incident_edges(n))
@@ -557,7 +557,7 @@ def match_pivot_boundary(
         w = None
         bound = None
         for n in g.neighbors(v):
-            if types[n] != VertexType.Z:
+            if types[n] != VertexType.Z or g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                 good_vert = False
                 break
             if len(g.neighbors(n)) == 1: # v is a phase gadget
@@ -574,7 +574,7 @@ def match_pivot_boundary(
             for b in g.neighbors(n):
                 if types[b] == VertexType.BOUNDARY:
                     boundaries.append(b)
-                elif types[b] != VertexType.Z:
+                elif types[b] != VertexType.Z or g.edge_type(g.edge(n,b)) != EdgeType.HADAMARD:
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-- 
2.43.0


From e1a06787d54e041bc715c93b126903d981ed3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:22 +0000
Subject: [PATCH 084/116] fix: simp reports its progress after the rewrite

When the output failed between matching and rewriting, the changes made by match_phase_gadgets and match_pivot_gadget were left half done.
---
 pyzx/simplify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index eb1e4ec..705a486 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -90,14 +90,15 @@ def simp(
             m = match(g)
         if len(m) > 0:
             i += 1
-            if i == 1 and not quiet: print("{}: ".format(name),end='')
-            if not quiet: print(len(m), end='')
-            #print(len(m), end='', flush=True) #flush only supported on Python >3.3
+            # Some matchers already change the graph, so nothing that can fail may come before the rewrite
             etab, rem_verts, rem_edges, check_isolated_vertices = rewrite(g, m)
             g.add_edge_table(etab)
             g.remove_edges(rem_edges)
             g.remove_vertices(rem_verts)
             if check_isolated_vertices: g.remove_isolated_vertices()
+            if i == 1 and not quiet: print("{}: ".format(name),end='')
+            if not quiet: print(len(m), end='')
+            #print(len(m), end='', flush=True) #flush only supported on Python >3.3
             if not quiet: print('. ', end='')
             #print('. ', end='', flush=True)
             new_matches = True
-- 
2.43.0


From f29b425006a640a7d80681813d30ea123a5e33e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:50 +0000
Subject: [PATCH 085/116] fix: call_topt raises an error when the output of
 TOpt is missing or incomplete

Empty, truncated or ragged output was returned as if it were the answer.
---
 pyzx/todd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index 4b47e79..bb9514b 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -354,7 +354,10 @@ def call_topt(m: Mat2, quiet:bool=True) -> Mat2:
             output = subprocess.check_output([*settings.topt_command, "gsm",fname])
         out = output.decode()
         #print(out)
-    rows = out[out.find("Output gate"):out.find("Successful")].strip().splitlines()[2:]
+    start, end = out.find("Output gate"), out.find("Successful")
+    if start == -1 or end < start:
+        raise ValueError("TOpt did not finish successfully: " + out)
+    rows = out[start:end].strip().splitlines()[2:]
     i = out.find("Total time")
     t = out[i+10: out.find("s",i)]
     if not quiet:
@@ -367,6 +370,8 @@ def call_topt(m: Mat2, quiet:bool=True) -> Mat2:
         print(out)
         print(rows)
         raise
+    if len(data) != m.rows() or any(len(row) != len(data[0]) or any(i not in (0,1) for i in row) for row in data):
+        raise ValueError("TOpt did not output a valid matrix: " + out)
     m2 = Mat2(data)
     if USE_REED_MULLER:
         m = m2.transpose()
-- 
2.43.0


From fd64dff55810980c21c388705cc0b9d2b6f17703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:40 +0000
Subject: [PATCH 086/116] fix: compare_tensors compares shapes, and small
 tensors relative to their size

Tensors of different shapes were broadcast or gave an IndexError, and any two tensors with entries below 1e-8 were equal.
---
 pyzx/tensor.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..0b99b73 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -220,16 +220,19 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
-    if np.allclose(t1,t2): return True
-    if preserve_scalar: return False # We do not check for equality up to scalar
+    if t1.shape != t2.shape: return False
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
+    if preserve_scalar: # We do not check for equality up to scalar
+        size = max(np.abs(t1).max(), np.abs(t2).max())
+        return np.allclose(t1, t2, atol=min(10**-8, max(epsilon, size*10**-8)))
+    # Compare relative to the largest entry, as small ones can be rounding errors
+    i = np.abs(t1).argmax()
+    a, b = t1.flat[i], t2.flat[i]
+    if abs(a)<=epsilon:
+        if np.abs(t2).max()<=epsilon: return True
         raise ValueError("Tensor is too close to zero")
-    return np.allclose(t1/a,t2/t2.flat[i])
+    if abs(b)<epsilon: return False
+    return np.allclose(t1/a,t2/b)
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
     """Returns the complex number ``z`` such that ``t1 = z*t2``.
-- 
2.43.0


From 0baa87fe4fdd73bfd0064a47f5a9a98de65cc434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:40 +0000
Subject: [PATCH 087/116] fix: is_id does not take Hadamard edges for identity
 wires

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index ea00fda..dd982dd 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -537,6 +537,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         for i in range(len(inputs)):
             if not self.connected(inputs[i], outputs[i]): return False
+            if self.edge_type(self.edge(inputs[i], outputs[i])) != EdgeType.SIMPLE: return False
         return True
 
     def vindex(self) -> VT:
-- 
2.43.0


From 3351a80130ea44af6dc58546056e5631b5aaf39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:13 +0000
Subject: [PATCH 088/116] fix: only the simple backend keeps the edges of an
 H-box apart with identities

The multigraph backend can store parallel edges. Follow-up to "rewrites that make parallel edges at an H-box do not fail".
---
 pyzx/graph/base.py    | 40 ++++++----------------------------------
 pyzx/graph/graph_s.py | 34 +++++++++++++++++++++++++++++++++-
 pyzx/rules.py         |  5 ++---
 3 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index dd982dd..014faec 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -722,41 +722,13 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         result from adding (#edges, #h-edges), and then removing all parallel edges using Hopf/spider laws."""
 
         for st, (ns, nh) in etab.items():
-            for _ in range(ns): self._add_edge_or_subdivide(st, EdgeType.SIMPLE)
-            for _ in range(nh): self._add_edge_or_subdivide(st, EdgeType.HADAMARD)
-
-    def copies_through_hbox(self, s: VT, t: VT, et1: EdgeType, et2: EdgeType) -> bool:
-        """Returns whether two parallel edges of the given types between ``s`` and ``t`` are the same as one of them,
-        because one of the two vertices is an H-box and the other is a spider that copies through it."""
-        if et1 != et2: return False
-        if self.type(s) == VertexType.H_BOX: s,t = t,s
-        ty = self.type(s)
-        if self.type(t) != VertexType.H_BOX or not vertex_is_zx_like(ty): return False
-        return et1 == (EdgeType.SIMPLE if vertex_is_z_like(ty) else EdgeType.HADAMARD)
-
-    def _add_edge_or_subdivide(self, st: Tuple[VT,VT], et: EdgeType) -> None:
-        """Adds an edge. If it would be parallel to one it can't be combined with, because one of
-        its ends is an H-box, then an identity spider is put in the middle of the new edge."""
-        s,t = st
-        if s == t or self.multigraph() or not self.connected(s,t):
-            self.add_edge(st, et)
-            return
-        if self.type(s) == VertexType.H_BOX: s,t = t,s
-        ty = self.type(s)
-        et1 = self.edge_type(self.edge(s,t))
-        if self.type(t) != VertexType.H_BOX or self.copies_through_hbox(s, t, et1, et):
-            self.add_edge(st, et)
-            return
-        if vertex_is_zx_like(ty):
-            # The edge with the identity on it must not be one along which the identity fuses with the spider
-            direct = EdgeType.SIMPLE if vertex_is_z_like(ty) else EdgeType.HADAMARD
-            if et == direct:
-                self.set_edge_type(self.edge(s,t), et)
-                et = et1
-        w = self.add_vertex(VertexType.Z, (self.qubit(s)+self.qubit(t))/2, (self.row(s)+self.row(t))/2)
-        self.add_edge((s,w), et)
-        self.add_edge((w,t), EdgeType.SIMPLE)
+            for _ in range(ns): self.add_edge(st, EdgeType.SIMPLE)
+            for _ in range(nh): self.add_edge(st, EdgeType.HADAMARD)
 
+    def can_combine_edge(self, s: VT, t: VT, edgetype: EdgeType) -> bool:
+        """Returns whether an edge of the given type can be added between ``s`` and ``t``
+        using :meth:`add_edge_table` without a new vertex being needed."""
+        return True
 
     def set_phase_master(self, m: 'simplify.Simplifier') -> None:
         """Points towards an instance of the class :class:`~pyzx.simplify.Simplifier`.
diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index ae82ac5..f276b03 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -167,7 +167,7 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
                     self.scalar.add_power(-2)
                 else:
                     raise ValueError(f'Got unexpected edge types: {t1}, {t2}')
-            elif self.copies_through_hbox(s, t, self.graph[s][t], edgetype):
+            elif VertexType.H_BOX in (t1,t2) and self.can_combine_edge(s, t, edgetype):
                 pass # no-op
             else:
                 raise ValueError(f'Attempted to add unreducible parallel edge {edge_pair}, types: {t1}, {t2}')
@@ -175,6 +175,38 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
 
         return edge_pair
 
+    def can_combine_edge(self, s, t, edgetype):
+        if s == t or not t in self.graph[s]: return True
+        if self.ty[s] == VertexType.H_BOX: s,t = t,s
+        if self.ty[t] != VertexType.H_BOX: return True
+        # The spider copies through the H-box if both edges are of the right type
+        if not vertex_is_zx_like(self.ty[s]): return False
+        copying = EdgeType.SIMPLE if vertex_is_z_like(self.ty[s]) else EdgeType.HADAMARD
+        return edgetype == copying and self.graph[s][t] == copying
+
+    def add_edge_table(self, etab):
+        for st, (ns, nh) in etab.items():
+            for et in [EdgeType.SIMPLE]*ns + [EdgeType.HADAMARD]*nh:
+                if self.can_combine_edge(st[0], st[1], et):
+                    self.add_edge(st, et)
+                else:
+                    self._add_edge_with_identity(st, et)
+
+    def _add_edge_with_identity(self, edge_pair, edgetype):
+        """Adds an edge that is parallel to one between an H-box and another vertex that it can't be combined
+        with, by putting an identity spider in the middle of it."""
+        s,t = edge_pair
+        if self.ty[s] == VertexType.H_BOX: s,t = t,s
+        if vertex_is_zx_like(self.ty[s]):
+            # Don't put the identity on an edge along which it could be fused with the spider again
+            copying = EdgeType.SIMPLE if vertex_is_z_like(self.ty[s]) else EdgeType.HADAMARD
+            if edgetype == copying:
+                edgetype = self.graph[s][t]
+                self.set_edge_type((s,t), copying)
+        w = self.add_vertex(VertexType.Z, (self.qubit(s)+self.qubit(t))/2, (self.row(s)+self.row(t))/2)
+        self.add_edge((s,w), edgetype)
+        self.add_edge((w,t), EdgeType.SIMPLE)
+
     def remove_vertices(self, vertices):
         for v in vertices:
             vs = list(self.graph[v])
diff --git a/pyzx/rules.py b/pyzx/rules.py
index a429ede..b86f867 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -803,9 +803,8 @@ def match_ids_parallel(
         if g.edge_type(g.edge(v,v0)) != g.edge_type(g.edge(v,v1)): #exactly one of them is a hadamard edge
             et = EdgeType.HADAMARD
         else: et = EdgeType.SIMPLE
-        if ((types[v0] == VertexType.H_BOX or types[v1] == VertexType.H_BOX) and g.connected(v0,v1) and
-                not g.copies_through_hbox(v0, v1, g.edge_type(g.edge(v0,v1)), et)):
-            # The edges of the H-box would become parallel
+        if not g.can_combine_edge(v0, v1, et):
+            # The edges of an H-box would become parallel
             continue
         candidates.discard(v0)
         candidates.discard(v1)
-- 
2.43.0


From 2c5ae68a7fc864a723982eba6e84b18676fbcc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 089/116] fix: a symbolic phase that is zero counts as false,
 like every other number

---
 pyzx/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 9df5156..9fd2666 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -258,6 +258,9 @@ class Poly:
         if not isinstance(other, Poly): return False
         return set(self.terms) == set(other.terms)
 
+    def __bool__(self) -> bool:
+        return self != 0
+
     def __lt__(self, other: Union['Poly', Fraction, int, float, complex]) -> bool:
         if isinstance(other, (int, float, complex, Fraction)):
             other = Poly([(other, Term([]))])
-- 
2.43.0


From 61a73b9f6d70ffb00fa072bb82bebf21858e4ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 090/116] fix: pushing a Pauli through an H-box of arity 3
 keeps the scalar

---
 pyzx/editor_actions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 23914dc..3803eba 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -131,6 +131,7 @@ def pauli_push(g: BaseGraph[VT,ET],
             new_verts.append(w2)
         if not vertex_is_zx(g.type(v)): # v is H_BOX
             if len(new_verts) == 2:
+                g.scalar.add_power(1) # An H-edge has an additional factor of 1/sqrt(2)
                 etab[upair(new_verts[0],new_verts[1])] = [0,1]
             else:
                 r = (g.row(v) + sum(g.row(n) for n in new_verts)) / (len(new_verts) + 1)
-- 
2.43.0


From dff06681c272ad3bcc964761ca9736f57a4932cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:05 +0000
Subject: [PATCH 091/116] fix: the editor can show the matrix of a diagram with
 a symbolic scalar

---
 pyzx/editor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor.py b/pyzx/editor.py
index 777f862..7dca52d 100644
--- a/pyzx/editor.py
+++ b/pyzx/editor.py
@@ -255,7 +255,7 @@ class ZXEditorWidget(widgets.DOMWidget):
 			return
 		try:
 			m = self.graph.to_matrix()
-		except ValueError:
+		except (TypeError, ValueError): # Symbolic phases or scalars
 			return
 		self.matrix_view.value = matrix_to_latex(m)
 
-- 
2.43.0


From 0af55ff82a89c12512f1cc559a0ed256bcaf84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:34 +0000
Subject: [PATCH 092/116] fix: a symbolic phase whose variables have cancelled
 is a number again

---
 pyzx/graph/graph_s.py    | 8 ++++++++
 pyzx/graph/multigraph.py | 8 ++++++++
 pyzx/symbolic.py         | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index f276b03..c843d31 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -18,6 +18,7 @@ from fractions import Fraction
 from typing import Tuple, Dict, Set, Any
 
 from .base import BaseGraph
+from ..symbolic import Poly
 
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt, vertex_is_zx_like, vertex_is_z_like, set_z_box_label, get_z_box_label
 
@@ -344,12 +345,19 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
             self._phase[vertex] = phase % 2
         except Exception:
             self._phase[vertex] = phase
+        self._drop_cancelled_variables(vertex)
     def add_to_phase(self, vertex, phase):
         old_phase = self._phase.get(vertex, Fraction(1))
         try:
             self._phase[vertex] = (old_phase + phase) % 2
         except Exception:
             self._phase[vertex] = old_phase + phase
+        self._drop_cancelled_variables(vertex)
+    def _drop_cancelled_variables(self, vertex):
+        """A symbolic phase whose variables have all cancelled is a number again."""
+        phase = self._phase[vertex]
+        if isinstance(phase, Poly) and phase.is_constant:
+            self._phase[vertex] = phase.constant()
     def qubit(self, vertex):
         return self._qindex.get(vertex,-1)
     def qubits(self):
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index acfc082..ec11af7 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -19,6 +19,7 @@ from fractions import Fraction
 from typing import Tuple, Dict, Set, Any
 
 from .base import BaseGraph
+from ..symbolic import Poly
 
 from ..utils import VertexType, EdgeType, FractionLike, FloatInt, vertex_is_zx_like, vertex_is_z_like, set_z_box_label, get_z_box_label
 
@@ -375,12 +376,19 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             self._phase[vertex] = Fraction(phase) % 2
         except Exception:
             self._phase[vertex] = phase
+        self._drop_cancelled_variables(vertex)
     def add_to_phase(self, vertex, phase):
         old_phase = self._phase.get(vertex, Fraction(1))
         try:
             self._phase[vertex] = (old_phase + Fraction(phase)) % 2
         except Exception:
             self._phase[vertex] = old_phase + phase
+        self._drop_cancelled_variables(vertex)
+    def _drop_cancelled_variables(self, vertex):
+        """A symbolic phase whose variables have all cancelled is a number again."""
+        phase = self._phase[vertex]
+        if isinstance(phase, Poly) and phase.is_constant:
+            self._phase[vertex] = phase.constant()
     def qubit(self, vertex):
         return self._qindex.get(vertex,-1)
     def qubits(self):
diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 9fd2666..b9b6ee0 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -317,6 +317,14 @@ class Poly:
                     return False
         return True
 
+    @property
+    def is_constant(self) -> bool:
+        return not any(t.vars for _, t in self.terms)
+
+    def constant(self) -> Union[int, float, complex, Fraction]:
+        """The value of a polynomial in which no variables are left."""
+        return sum((c for c, _ in self.terms), Fraction(0))
+
     @property
     def numerator(self) -> int:
         raise NotImplementedError('numerator not implemented for symbolic Poly')
-- 
2.43.0


From c280dd5ea68dc06d67298c1eaef2a625afaf0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:34 +0000
Subject: [PATCH 093/116] fix: reductions of diagrams with symbolic phases do
 not stop halfway a match

---
 pyzx/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index b86f867..1a97dda 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -578,7 +578,7 @@ def match_pivot_boundary(
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-            if phases[n] and hasattr(phases[n], 'denominator') and phases[n].denominator == 2:
+            if phases[n] in (Fraction(1,2), Fraction(3,2)):
                 w = n
                 bound = boundaries[0]
             if not w:
@@ -844,8 +844,8 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
         if isinstance(phases[v], Poly): non_clifford = True
+        else: non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
-- 
2.43.0


From 160f142e7109d4cbe72c6edc65caf3f4a72a1619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:40 +0000
Subject: [PATCH 094/116] fix: a Z-box and a spider with a symbolic phase are
 not fused

---
 pyzx/basicrules.py | 3 +++
 pyzx/graph/base.py | 5 ++++-
 pyzx/rules.py      | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 0dc52be..03eda5d 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -48,6 +48,7 @@ __all__ = ['color_change_diagram',
 from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
 from .rules import apply_rule, w_fusion, z_to_z_box
+from .symbolic import Poly
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
                     set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
 
@@ -191,6 +192,8 @@ def check_fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
              (vertex_is_z_like(g.type(v1)) and vertex_is_z_like(g.type(v2)))) and
             EdgeType.SIMPLE in [g.edge_type(edge) for edge in g.edges(v1,v2)]):
         return False
+    if g.type(v1) != g.type(v2) and (isinstance(g.phase(v1), Poly) or isinstance(g.phase(v2), Poly)):
+        return False # A Z-box cannot have a symbolic label
     return True
 
 def fuse(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 014faec..b415c60 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -29,6 +29,7 @@ from ..utils import FloatInt, FractionLike
 from ..tensor import tensorfy, tensor_to_matrix
 
 from .scalar import Scalar, cexp
+from ..symbolic import Poly
 
 if TYPE_CHECKING:
     from .. import simplify
@@ -800,7 +801,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
-                if VertexType.Z_BOX in (t1, t2):
+                if VertexType.Z_BOX in (t1, t2) and (isinstance(self.phase(v), Poly) or isinstance(self.phase(w), Poly)):
+                    self.scalar.set_unknown()
+                elif VertexType.Z_BOX in (t1, t2):
                     l1 = get_z_box_label(self, v) if t1 == VertexType.Z_BOX else cexp(self.phase(v))
                     l2 = get_z_box_label(self, w) if t2 == VertexType.Z_BOX else cexp(self.phase(w))
                     if (VertexType.X in (t1, t2)) == (et == EdgeType.HADAMARD):
diff --git a/pyzx/rules.py b/pyzx/rules.py
index 1a97dda..92f3ebb 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -183,6 +183,8 @@ def match_spider_parallel(
         v1t = types[v1]
         if (v0t == v1t and vertex_is_zx(v0t)) or \
             (vertex_is_z_like(v0t) and vertex_is_z_like(v1t)):
+            if v0t != v1t and (isinstance(g.phase(v0), Poly) or isinstance(g.phase(v1), Poly)):
+                continue # A Z-box cannot have a symbolic label
             i += 1
             for v in g.neighbors(v0):
                 for c in g.incident_edges(v): candidates.discard(c)
-- 
2.43.0


From 62b5475b1da2fab3447416b467d9817f2086c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:13 +0000
Subject: [PATCH 095/116] fix: the multigraph backend reduces symbolic phases
 modulo 2 too

---
 pyzx/graph/multigraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index ec11af7..a692283 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -373,14 +373,14 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return self._phase
     def set_phase(self, vertex, phase):
         try:
-            self._phase[vertex] = Fraction(phase) % 2
+            self._phase[vertex] = (phase if isinstance(phase, Poly) else Fraction(phase)) % 2
         except Exception:
             self._phase[vertex] = phase
         self._drop_cancelled_variables(vertex)
     def add_to_phase(self, vertex, phase):
         old_phase = self._phase.get(vertex, Fraction(1))
         try:
-            self._phase[vertex] = (old_phase + Fraction(phase)) % 2
+            self._phase[vertex] = (old_phase + (phase if isinstance(phase, Poly) else Fraction(phase))) % 2
         except Exception:
             self._phase[vertex] = old_phase + phase
         self._drop_cancelled_variables(vertex)
-- 
2.43.0


From 050f624d2b497796a8320e2d768d88a2ebdb6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:14 +0000
Subject: [PATCH 096/116] fix: only spiders that make a phase gadget are fused
 as phase gadgets

---
 pyzx/rules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 92f3ebb..8468f68 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -839,6 +839,7 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     else: candidates = g.vertex_set()
 
     phases = g.phases()
+    types = g.types()
 
     parities: Dict[FrozenSet[VT], List[VT]] = dict()
     gadgets: Dict[VT,VT] = dict()
@@ -853,6 +854,10 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
             if n in gadgets: continue # Not a real phase gadget (happens for scalar diagrams)
             if n in inputs or n in outputs: continue # Not a real phase gadget (happens for non-unitary diagrams)
+            if types[v] != VertexType.Z or types[n] != VertexType.Z: continue
+            if any(g.edge_type(e) != EdgeType.HADAMARD or
+                    any(types[w] not in (VertexType.Z, VertexType.BOUNDARY) for w in g.edge_st(e))
+                    for e in g.incident_edges(n)): continue
             gadgets[n] = v
             par = frozenset(set(g.neighbors(n)).difference({v}))
             if par in parities: parities[par].append(n)
-- 
2.43.0


From 38d16c4c76f9314a9d613bcc70f796b5cde2f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:14 +0000
Subject: [PATCH 097/116] fix: supplementarity only removes Z-spiders connected
 to Z-spiders by Hadamard edges

---
 pyzx/rules.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 8468f68..03ef289 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -909,6 +909,12 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     if vertexf is not None: candidates = set([v for v in g.vertices() if vertexf(v)])
     else: candidates = g.vertex_set()
     phases = g.phases()
+    types = g.types()
+
+    def suitable(v: VT) -> bool:
+        return types[v] == VertexType.Z and all(
+            g.edge_type(e) == EdgeType.HADAMARD and all(types[w] == VertexType.Z for w in g.edge_st(e))
+            for e in g.incident_edges(v))
 
     parities: Dict[FrozenSet[VT],List[VT]] = dict()
     m: List[MatchSupplementarityType[VT]] = []
@@ -917,6 +923,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     while len(candidates) > 0:
         v = candidates.pop()
         if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if not suitable(v): continue
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -935,7 +942,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         for w in neigh:
             if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
-            if len(diff) == 2: # Perfect overlap
+            if len(diff) == 2 and suitable(w): # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
                     m.append((v,w,2,frozenset(neigh.difference({w}))))
                     taken.update({v,w})
-- 
2.43.0


From b85443a530f2adc872335b2902267e3d7ae4f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 098/116] fix: TODD on diagrams leaves phase gadgets with a
 phase on their hub alone

---
 pyzx/todd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index bb9514b..560ebcf 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -459,6 +459,7 @@ def todd_on_graph(g: BaseGraph[VT,ET]) -> None:
         if v not in inputs and v not in outputs and len(list(g.neighbors(v)))==1:
             if g.phase(v) != 0 and g.phase(v).denominator != 4: continue
             n = list(g.neighbors(v))[0]
+            if g.phase(n) != 0: continue # The phase of the hub determines the sign of the gadget, so leave it as it is
             tgts = frozenset(set(g.neighbors(n)).difference({v}))
             gadgets[tgts] = (n,v)
         if g.phase(v) != 0 and g.phase(v).denominator == 4:
-- 
2.43.0


From b43f4c0db491f421f74db85f1491e3b82e764773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:56 +0000
Subject: [PATCH 099/116] fix: integer phases are written to TikZ as multiples
 of pi

A phase held as the integer 1 was written as the label 1, which tikz_to_graph refuses or,
as when pasting in the editor, reads as no phase.
---
 pyzx/tikz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..1d88b02 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -66,6 +66,7 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
             p = get_z_box_label(g,v)
         else:
             p = g.phase(v)
+            if isinstance(p, int): p = Fraction(p) # Integer phases are multiples of pi as well
         if ty == VertexType.BOUNDARY:
             style = settings.tikz_classes['boundary']
         elif ty == VertexType.H_BOX:
-- 
2.43.0


From 8680aaf4c329d09dbf3cb821507d5a58eb1d230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:55 +0000
Subject: [PATCH 100/116] fix: cnots lists its outputs in the order of its
 inputs

---
 pyzx/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index c474859..aa21cf0 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -234,7 +234,7 @@ def cnots(qubits: int, depth: int, backend:Optional[str]=None) -> BaseGraph:
     outputs = []
     for i in range(qubits):
         inputs.append(i)
-        outputs.append(v-i-1)
+        outputs.append(v-qubits+i)
 
     g.set_inputs(tuple(inputs))
     g.set_outputs(tuple(outputs))
-- 
2.43.0


From 4d95945edd501d0958a156131df8a79013342c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:55 +0000
Subject: [PATCH 101/116] fix: phase_poly_from_gadgets with more gadgets than
 there are parities

---
 pyzx/generate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index aa21cf0..b3f9f58 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -658,8 +658,7 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     """
     # A dictionary: the order of a set of parities depends on the hash seed
     zphase_dict: Dict[Parity, Fraction] = {}
-    if n_gadgets > 2**n_qubits:
-        n_gadgets = n_qubits ^ 3
+    n_gadgets = min(n_gadgets, 2**n_qubits - 1)  # there are no more parities than that
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
-- 
2.43.0


From 0fa7a246ee66c2a995f6d97bf893125dbb76c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:55 +0000
Subject: [PATCH 102/116] fix: random generators do not draw gates of
 probability zero

---
 pyzx/generate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index b3f9f58..f88afb9 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -147,9 +147,9 @@ def CNOT_HAD_PHASE_circuit(
     c = Circuit(qubits)
     for _ in range(depth):
         r = random.random()
-        if r > 1-p_had:
+        if r >= 1-p_had:
             c.add_gate("HAD",random.randrange(qubits))
-        elif r > 1-p_had-p_t:
+        elif r >= 1-p_had-p_t:
             if not clifford: c.add_gate("T",random.randrange(qubits))
             else: c.add_gate("S",random.randrange(qubits))
         else:
@@ -331,7 +331,7 @@ def cliffordTmeas(
         v += 1
         r += 1
 
-        if p > 1 - p_cnot:
+        if p >= 1 - p_cnot:
             # apply CNOT gate
             q1 = random.randrange(qubits-1)
             if q1 >= q0: q1 += 1
@@ -342,14 +342,14 @@ def cliffordTmeas(
             g.scalar.add_power(1)
             qs[q1] = v
             v += 1
-        elif p > 1 - p_cnot - p_hsh:
+        elif p >= 1 - p_cnot - p_hsh:
             # apply HSH gate
             g.set_type(v-1, VertexType.X)
             g.set_phase(v-1, Fraction(1,2))
-        elif p > 1 - p_cnot - p_hsh - p_s:
+        elif p >= 1 - p_cnot - p_hsh - p_s:
             # apply S gate
             g.set_phase(v-1, Fraction(1,2))
-        elif p > 1 - p_cnot - p_hsh - p_s - p_meas:
+        elif p >= 1 - p_cnot - p_hsh - p_s - p_meas:
             # apply a measurement
             g.set_ground(v-1)
         else:
-- 
2.43.0


From 796f0f878df405e8eb2480975002a46a18924824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 103/116] fix: the adjoint of CSX, U2, U3, CU3 and CU gates is
 their inverse

---
 pyzx/circuit/gates.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..78cb53e 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -208,6 +208,14 @@ class Gate(object):
             g.adjoint = not g.adjoint
         return g
 
+    def _set_phases(self: Tvar, **phases: FractionLike) -> Tvar:
+        """A copy of this gate with the given phase parameters (in the order of the constructor)."""
+        g = self.copy()
+        for k, v in phases.items():
+            setattr(g, k, v)
+        g.phases = list(phases.values()) # type: ignore
+        return g
+
     def tcount(self) -> int:
         return 0
 
@@ -239,13 +247,13 @@ class Gate(object):
 
     def to_qasm(self) -> str:
         n = self.qasm_name
+        if hasattr(self, "adjoint") and self.adjoint:
+            n = self.qasm_name_adjoint
         if n == 'undefined':
             bg = self.to_basic_gates()
             if len(bg) == 1:
                 raise TypeError("Gate {} doesn't have a QASM description".format(str(self)))
             return "\n".join(g.to_qasm() for g in bg)
-        if hasattr(self, "adjoint") and self.adjoint:
-            n = self.qasm_name_adjoint
 
         args = []
         for a in ["ctrl1","ctrl2", "control", "target"]:
@@ -454,13 +462,14 @@ class SX(XPhase):
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
-    def __init__(self, control: int, target: int) -> None:
+    def __init__(self, control: int, target: int, adjoint:bool=False) -> None:
         self.target = target
         self.control = control
+        self.adjoint = adjoint
 
     def to_basic_gates(self):
         return [HAD(self.target)] + \
-               CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
+               CPhase(self.control,self.target,Fraction(1,2)*(-1 if self.adjoint else 1)).to_basic_gates() + \
                [HAD(self.target)]
 
     def to_graph(self, g, q_mapper, c_mapper):
@@ -1056,6 +1065,9 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
         self.phi = phi
         self.phases = [theta, phi]
 
+    def to_adjoint(self):
+        return self._set_phases(theta=-self.phi-1, phi=-self.theta+1)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=(self.phi-Fraction(1,2))%2),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1076,6 +1088,9 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return self._set_phases(theta=-self.theta, phi=-self.rho, rho=-self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=self.rho),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1100,6 +1115,9 @@ class CU3(Gate):
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return self._set_phases(theta=-self.theta, phi=-self.rho, rho=-self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
                 ZPhase(self.target, phase=(self.rho-self.phi)/2),
@@ -1128,6 +1146,9 @@ class CU(Gate):
         self.gamma = gamma
         self.phases = [theta, phi, rho, gamma]
 
+    def to_adjoint(self):
+        return self._set_phases(theta=-self.theta, phi=-self.rho, rho=-self.phi, gamma=-self.gamma)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
-- 
2.43.0


From dfa8bb0173bc9a397882035b839fc5086122a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 104/116] fix: U2, U3, CU3 and CU gates with different phases
 are not equal

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 78cb53e..02d3312 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","phases","adjoint"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
-- 
2.43.0


From 90dddf28e8fd7e9273c7839c843d633b0b382f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 105/116] fix: a measurement is equal to its copy

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 02d3312..0fc4c14 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1210,7 +1210,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
-- 
2.43.0


From 1d205453316cd68b11e820c7189974d109faa9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 106/116] fix: a repositioned RZZ gate is printed on its new
 qubits

---
 pyzx/circuit/gates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 0fc4c14..7eea3c1 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -827,6 +827,11 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        g = super().reposition(mask, bit_mask)
+        g.control, g.target = g.targets
+        return g
+
 
 class FSim(Gate):
     name = 'FSim'
-- 
2.43.0


From 1bd0de12e2c673d9ba020e5615a92a65cfb01620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 107/116] fix: FSim gates can be repositioned

---
 pyzx/circuit/gates.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 7eea3c1..cca3075 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -857,11 +857,6 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
-        g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
-        return g
-
     def to_basic_gates(self):
         # TODO
         #cnots = [CNOT(self.targets[i],self.targets[i+1]) for i in range(len(self.targets)-1)]
-- 
2.43.0


From dad868c02364f0dab0ce62d0dca29c2dd3b401f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 108/116] fix: tensoring circuits and splitting their phase
 gates keeps the classical bits

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index b7b11dd..b6a1229 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
@@ -201,7 +201,7 @@ class Circuit(object):
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
                 c.gates.extend(p.copy() for p in g.split_phases())
-- 
2.43.0


From 44be707c733d2a98b068f11ab66157c31569608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 109/116] fix: splitting phase gates recognises Pauli gates
 whatever multiple of 2 pi their phase is off by

---
 pyzx/circuit/gates.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index cca3075..fab1f5c 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -346,8 +346,9 @@ class ZPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List['ZPhase']:
-        if not self.phase: return []
-        if self.phase == 1: return [Z(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [Z(self.target)]
         if self.phase.denominator == 2:
             if self.phase.numerator % 4 == 1:
                 return [S(self.target)]
@@ -431,8 +432,9 @@ class XPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List[Gate]:
-        if not self.phase: return []
-        if self.phase == 1: return [NOT(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [NOT(self.target)]
         gates: List[Gate] = [HAD(self.target)]
         if self.phase.denominator == 2:
             if self.phase.numerator % 4 == 1:
-- 
2.43.0


From d1f4cdaaaea98bfe1bf13b90125f6bc234909f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 110/116] fix: SX, Y, YPhase, XCX and CSWAP gates written as
 Quipper or .qc text keep their meaning

---
 pyzx/circuit/gates.py         | 12 +++++++++++-
 pyzx/circuit/quipperparser.py |  7 ++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index fab1f5c..bfece53 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -456,6 +456,7 @@ class SX(XPhase):
     name = 'SX'
     qasm_name = 'sx'
     qasm_name_adjoint = 'sxdg'
+    quipper_name = 'V'
     print_phase = False
     def __init__(self, target: int, adjoint:bool=False) -> None:
         super().__init__(target, Fraction(1,2)*(-1 if adjoint else 1))
@@ -497,6 +498,11 @@ class YPhase(Gate):
     def __str__(self) -> str:
         return 'QRot["exp(-i%Y)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
+    def to_quipper(self):
+        if not self.print_phase:
+            return super().to_quipper()
+        return 'QRot["exp(-i%Y)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
+
     def to_basic_gates(self):
         return [ZPhase(self.target, Fraction(1,2)), XPhase(self.target, -self.phase), ZPhase(self.target, -Fraction(1,2))]
 
@@ -629,7 +635,7 @@ class XCX(CZ):
     name = 'XCX'
     qasm_name = 'undefined'
     qc_name = 'undefined'
-    quipper_name = 'X'
+    quipper_name = 'undefined'
     def to_graph(self, g, q_mapper, _c_mapper):
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         t = self.graph_add_node(g, q_mapper, VertexType.X, self.target, r)
@@ -1003,6 +1009,8 @@ class CCZ(Gate):
         q_mapper.set_next_row(self.ctrl2, r+1)
 
     def to_quipper(self):
+        if self.quipper_name == 'undefined':
+            return super().to_quipper()
         s = 'QGate["{}"]({!s})'.format(self.quipper_name,self.target)
         s += ' with controls=[+{!s},+{!s}]'.format(self.ctrl1,self.ctrl2)
         s += ' with nocontrol'
@@ -1038,6 +1046,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..4f36315 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -54,6 +54,8 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 gtype = "ZPhase"
             elif gate[i+4:i+8] == '-i%X':
                 gtype = "XPhase"
+            elif gate[i+4:i+8] == '-i%Y':
+                gtype = "YPhase"
             else:
                 raise TypeError("Unsupported expression: " + gate) 
             val = gate[gate.find(',')+1: gate.find(']')]
@@ -79,7 +81,10 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
             elif gname == "not": c.add_gate("NOT", t)
+            elif gname == "X": c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
+            elif gname == "V": c.add_gate("SX", t, adjoint=adjoint)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
             else:
@@ -110,7 +115,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         ctrl = int(ctrls[1:])
         if gname == "not": c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
+        elif gname == "X": c.add_gate("CNOT", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From adcb3ff91ec75bf251b9a335f31512a8a96af2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:06 +0000
Subject: [PATCH 111/116] fix: CNOT_tracker tracks every CNOT gate that is
 added to it

---
 pyzx/circuit/__init__.py    |  3 ++-
 pyzx/routing/parity_maps.py | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index b6a1229..9bd290e 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -162,7 +162,8 @@ class Circuit(object):
                 raise TypeError("Amount of qubits do not match")
             if self.bits != circ.bits:
                 raise TypeError("Amount of bits do not match")
-            self.gates.extend([g.copy() for g in circ.gates])
+            for gate in [g.copy() for g in circ.gates]:
+                self.add_gate(gate)
             return
         if mask is None:
             mask = list(range(self.qubits))
diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 301d8eb..1da14f2 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -65,19 +65,21 @@ class CNOT_tracker(Circuit):
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
-        self.add_gate("CNOT", q0, q1)
+        super().add_gate("CNOT", q0, q1)
         self.matrix.row_add(q0, q1)
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
+        if isinstance(gate, str):
+            gate_class = gate_types[gate]
+            gate = gate_class(*args, **kwargs)
         if isinstance(gate, CNOT):
             self.row_add(gate.control, gate.target)
         else:
-            super().add_gate(gate, *args, **kwargs)
+            super().add_gate(gate)
 
     def col_add(self, q0: int, q1: int):
         """Track a column addition operation on the matrix"""
         self.prepend_gate("CNOT", q1, q0)
-        self.matrix.col_add(q0, q1)
 
     @staticmethod
     def get_metric_names() -> List[str]:
@@ -105,6 +107,8 @@ class CNOT_tracker(Circuit):
             gate_class = gate_types[gate]
             gate = gate_class(*args, **kwargs)
         self.gates.insert(0, gate)
+        if isinstance(gate, CNOT):
+            self.matrix.col_add(gate.target, gate.control)
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
-- 
2.43.0


From 644e8e36a2b952661fbdd05f1e71a80959a3afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:37 +0000
Subject: [PATCH 112/116] fix: a circuit can be added to itself on other qubits

---
 pyzx/circuit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 9bd290e..46379de 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -173,7 +173,7 @@ class Circuit(object):
             raise TypeError("Mask size does not match qubits")
         if len(bit_mask) != circ.bits:
             raise TypeError("Bit mask size does not match bits")
-        for gate in circ.gates:
+        for gate in list(circ.gates):
             g = gate.reposition(mask, bit_mask)
             self.add_gate(g)
 
-- 
2.43.0


From ea3e531ef8d44a7dea2a77ec4a03c213fa980f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:30 +0000
Subject: [PATCH 113/116] fix: Y gates written as .qc text can be read back

---
 pyzx/circuit/qcparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..66b34b7 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -50,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
         if len(targets) == 1:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname == 'z': gates.append(Z(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
-- 
2.43.0


From 2106f9f5529861c8da870813ef93c5cc7d2e3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:46 +0000
Subject: [PATCH 114/116] fix: adjoint gates without a .qc name are decomposed
 in .qc text

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index bfece53..fd6cbcd 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -268,7 +268,7 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
+        if n != 'undefined' and hasattr(self, "adjoint") and self.adjoint:
             n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
-- 
2.43.0


From 4b557c8ae1927fda56b4c750720df2a444535031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:19 +0000
Subject: [PATCH 115/116] fix: Z-boxes labelled 0 or -1 read back from TikZ as
 Z-boxes labelled 1

---
 pyzx/tikz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 1d88b02..e4974e0 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -85,7 +85,7 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
         if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+            (ty != VertexType.H_BOX and ty != VertexType.Z_BOX and p == 0):
             phase = ""
         elif type(p) == Fraction:
             ns = '' if p.numerator == 1 else str(p.numerator)
@@ -291,7 +291,7 @@ def tikz_to_graph(
             else:
                 label = label.replace(r'\pi','').strip()
                 if label == '' or label == '-' or label == '-1':
-                    set_phase(v,1)
+                    set_phase(v,-1 if ty == VertexType.Z_BOX and label else 1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
                     if label.find('}{') == -1:
-- 
2.43.0


From a4869ad14be0a768b0ebb70b570f6be2e5a94840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:28 +0000
Subject: [PATCH 116/116] fix: basicrules.remove_id only removes spiders, not
 H-boxes and W nodes

---
 pyzx/basicrules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 03eda5d..1c94f00 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -245,6 +245,8 @@ def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
 def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
     if not g.vertex_degree(v) == 2:
         return False
+    if g.type(v) not in (VertexType.Z, VertexType.X, VertexType.Z_BOX):
+        return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
     elif g.type(v) != VertexType.Z_BOX and g.phase(v) == 0:
-- 
2.43.0

