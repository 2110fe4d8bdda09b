From e5efb1a6df7a3f384fcb44b4f6d1c5ff1e103806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 01/87] fix: match_copy no longer matches overlapping copies at
 once

Two matches were returned together when the spider one of them copies through
was among the spiders the other copies onto, giving a wrong diagram.
---
 pyzx/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 708a624..8cea2b8 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -975,16 +975,18 @@ def match_copy(
     phases = g.phases()
     types = g.types()
     m: List[MatchCopyType[VT]] = []
+    touched: Set[VT] = set() # Vertices another match copies onto
 
     while len(candidates) > 0:
         v = candidates.pop()
         if phases[v] not in (0,1) or types[v] != VertexType.Z or g.vertex_degree(v) != 1: continue
         w = list(g.neighbors(v))[0]
-        if types[w] != VertexType.Z: continue
+        if types[w] != VertexType.Z or w in touched: continue
         neigh = [n for n in g.neighbors(w) if n != v]
         m.append((v,w,phases[v],phases[w],neigh))
         candidates.discard(w)
         candidates.difference_update(neigh)
+        touched.update(neigh)
 
     return m
 
-- 
2.43.0


From 00ab101db43b082b3ce60833a1efe103a65ceab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 02/87] fix: remove_isolated_vertices accounts for the labels
 of Z-boxes

---
 pyzx/graph/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 7420213..234f461 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import abc
+import cmath
 import math
 import copy
 from fractions import Fraction
@@ -778,6 +779,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     raise TypeError("Diagram is not a well-typed ZX-diagram: contains isolated boundary vertex.")
                 elif ty == VertexType.H_BOX:
                     self.scalar.add_phase(self.phase(v))
+                elif ty == VertexType.Z_BOX:
+                    self.scalar.add_float(1 + get_z_box_label(self, v))
                 else: self.scalar.add_node(self.phase(v))
             if d == 1: # It has a unique neighbor
                 if v in rem: continue # Already taken care of
@@ -793,6 +796,16 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 t2 = self.type(w)
                 if t1 == VertexType.H_BOX: t1 = VertexType.Z # 1-ary H-box is just a Z spider
                 if t2 == VertexType.H_BOX: t2 = VertexType.Z
+                if VertexType.Z_BOX in (t1, t2): # The pair is determined by labels instead of phases
+                    a, b = [get_z_box_label(self, x) if self.type(x) == VertexType.Z_BOX
+                            else cmath.exp(1j*math.pi*self.phase(x)) for x in (v,w)]
+                    same = (t1 == VertexType.X) == (t2 == VertexType.X)
+                    if same == (et == EdgeType.SIMPLE):
+                        self.scalar.add_float(1 + a*b)
+                    else:
+                        self.scalar.add_power(-1)
+                        self.scalar.add_float(1 + a + b - a*b)
+                    continue
                 if t1==t2:
                     if et == EdgeType.SIMPLE:
                         self.scalar.add_node(self.phase(v)+self.phase(w))
-- 
2.43.0


From 25791b992b4bb024ffa8cc67ca71f0fe9c307812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 03/87] fix: tensor of a legless X-spider is a scalar, not a
 vector of length one

---
 pyzx/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 1e931fc..c1388bc 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -60,8 +60,8 @@ def Z_to_tensor(arity: int, phase: float) -> np.ndarray:
 def X_to_tensor(arity: int, phase: float) -> np.ndarray:
     m = np.ones(2**arity, dtype = complex)
     if arity == 0:
-        m[()] = 1 + np.exp(1j*phase)
-        return m
+        m[0] = 1 + np.exp(1j*phase)
+        return m.reshape([])
     for i in range(2**arity):
         if bin(i).count("1")%2 == 0:
             m[i] += np.exp(1j*phase)
-- 
2.43.0


From 120ae4637552300b1e88334b1ccd2a3af03bb26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 04/87] fix: add_spider_pair used cos(p) instead of cos(pi*p)

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7d9e2a9..5d6845c 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -265,7 +265,7 @@ class Scalar(object):
                     self.add_phase(Fraction(1))
                 return
             self.add_power(1)
-            self.add_float(math.cos(p1))
+            self.add_float(math.cos(math.pi*p1))
             return
         # Generic case
         self.add_power(-1)
-- 
2.43.0


From 6855a86385a1b1d5ae547ead93f641612f953505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:54 +0000
Subject: [PATCH 05/87] fix: bialgebra rule tracks the scalar and only matches
 simple edges

---
 pyzx/rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 8cea2b8..f89cd1b 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -110,6 +110,8 @@ def match_bialg_parallel(
         v0, v1 = g.edge_st(candidates.pop())
         if g.is_ground(v0) or g.is_ground(v1):
             continue
+        if any(g.edge_type(c) != EdgeType.SIMPLE for v in (v0,v1) for c in g.incident_edges(v)):
+            continue
         v0t = types[v0]
         v1t = types[v1]
         v0p = phases[v0]
@@ -138,6 +140,7 @@ def bialg(g: BaseGraph[VT,ET], matches: List[MatchBialgType[VT]]) -> RewriteOutp
     for m in matches:
         rem_verts.append(m[0])
         rem_verts.append(m[1])
+        g.scalar.add_power((len(m[2]) - 1) * (len(m[3]) - 1))
         es = [(i,j) for i in m[2] for j in m[3]]
         for e in es:
             if e in etab: etab[e][0] += 1
-- 
2.43.0


From dcdd453d982f95c1faf5f9dcde1e5fcda19c08d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 06/87] fix: match_supplementarity used an isolated spider in
 several matches

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index f89cd1b..c70c2e0 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -912,6 +912,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
         par = frozenset(neigh)
         if par in parities:
             for w in parities[par]:
+                if w in taken: continue # Only happens when there are no neighbors
                 if (phases[v]-phases[w]) % 2 == 1 or (phases[v]+phases[w]) % 2 == 1:
                     m.append((v,w,1,par))
                     taken.update({v,w})
-- 
2.43.0


From 988b3c5576c8c9c96fd0218116d559632f525263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:10 +0000
Subject: [PATCH 07/87] fix: to_graph_like dropped the Hadamard on a wire
 between two boundaries

---
 pyzx/simplify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a0cda7f..a8bdd7a 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -477,9 +477,14 @@ def to_graph_like(g: BaseGraph[VT,ET]) -> None:
                 z1 = g.add_vertex(ty=VertexType.Z)
                 z2 = g.add_vertex(ty=VertexType.Z)
                 z3 = g.add_vertex(ty=VertexType.Z)
+                et = g.edge_type(g.edge(v, n))
                 g.remove_edge(g.edge(v, n))
                 g.add_edge((v, z1), edgetype=EdgeType.SIMPLE)
                 g.add_edge((z1, z2), edgetype=EdgeType.HADAMARD)
+                if et == EdgeType.HADAMARD: # The wire itself carries a Hadamard
+                    z4 = g.add_vertex(ty=VertexType.Z)
+                    g.add_edge((z2, z4), edgetype=EdgeType.HADAMARD)
+                    z2 = z4
                 g.add_edge((z2, z3), edgetype=EdgeType.HADAMARD)
                 g.add_edge((z3, n), edgetype=EdgeType.SIMPLE)
             else: # g.type(n) == VertexType.H_BOX
-- 
2.43.0


From f91c917284d9463c2c18daa18098c4878a2c1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 08/87] fix: gate equality compares the angles of gates with
 several of them

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index d4972e6..a1c4f8d 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -167,7 +167,7 @@ class Gate(object):
 
     def __eq__(self, other: object) -> bool:
         if type(self) != type(other): return False
-        for a in ["target","control","phase","adjoint"]:
+        for a in ["target","control","phase","phases","adjoint"]:
             if hasattr(self,a):
                 if not hasattr(other,a): return False
                 if getattr(self,a) != getattr(other,a): return False
-- 
2.43.0


From ac64f58c7b9d18f5336300ab46ff9371749c702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 09/87] fix: T-count of gates that expand into non-Clifford
 gates

---
 pyzx/circuit/gates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index a1c4f8d..be51965 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -209,7 +209,9 @@ class Gate(object):
         return g
 
     def tcount(self) -> int:
-        return 0
+        bg = self.to_basic_gates()
+        if len(bg) == 1 and bg[0] is self: return 0
+        return sum(g.tcount() for g in bg)
 
     def reposition(self: Tvar, mask: List[int], bit_mask: Optional[List[int]] = None) -> Tvar:
         g = self.copy()
-- 
2.43.0


From 467e85ff74b2b2219e14b2db5237da1249736f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 10/87] fix: reposition of RZZ and FSim gates

---
 pyzx/circuit/gates.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index be51965..87e55d1 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -820,6 +820,9 @@ class RZZ(ParityPhase):
         self.targets = (control, target)
         self.phase = phase
 
+    def reposition(self, mask, bit_mask = None):
+        return RZZ(mask[self.control], mask[self.target], self.phase)
+
 
 class FSim(Gate):
     name = 'FSim'
@@ -845,11 +848,6 @@ class FSim(Gate):
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
-    def reposition(self, mask, bit_mask = None):
-        g = self.copy()
-        g.targets = [mask[t] for t in g.targets]
-        return g
-
     def to_basic_gates(self):
         # TODO
         #cnots = [CNOT(self.targets[i],self.targets[i+1]) for i in range(len(self.targets)-1)]
-- 
2.43.0


From 25506cd02254c412209760601908d040a5bcfdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 11/87] fix: adjoint of U2, U3, CU3, CU, CSX and FSim gates

---
 pyzx/circuit/gates.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 87e55d1..b888fb3 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -456,13 +456,19 @@ class SX(XPhase):
 class CSX(Gate):
     name = 'CSX'
     qasm_name = 'csx'
-    def __init__(self, control: int, target: int) -> None:
+    def __init__(self, control: int, target: int, adjoint: bool=False) -> None:
         self.target = target
         self.control = control
+        self.adjoint = adjoint
+
+    def to_qasm(self) -> str:
+        if self.adjoint: # qelib1 has no name for this gate
+            return "\n".join(g.to_qasm() for g in self.to_basic_gates())
+        return super().to_qasm()
 
     def to_basic_gates(self):
         return [HAD(self.target)] + \
-               CPhase(self.control,self.target,Fraction(1,2)).to_basic_gates() + \
+               CPhase(self.control,self.target,Fraction(-1 if self.adjoint else 1,2)).to_basic_gates() + \
                [HAD(self.target)]
 
     def to_graph(self, g, q_mapper, c_mapper):
@@ -829,8 +835,8 @@ class FSim(Gate):
     qsim_name = 'fs'
     print_phase = True
     def __init__(self, control:int, target:int, theta:FractionLike, phi:FractionLike):
-        # TODO: this version assumes theta is always (pi/2)
-        assert theta == Fraction(1, 2)
+        # TODO: this version assumes theta is always (pi/2), or (-pi/2) for its adjoint
+        assert theta in (Fraction(1, 2), Fraction(-1, 2))
         self.control = control
         self.target = target
         self.theta = theta
@@ -845,6 +851,9 @@ class FSim(Gate):
             return True
         return False
 
+    def to_adjoint(self):
+        return FSim(self.control, self.target, -self.theta, -self.phi)
+
     def __str__(self) -> str:
         return "FSim({!s}, {!s}, {!s}, {!s})".format(self.control, self.target, self.theta, self.phi)
 
@@ -855,7 +864,7 @@ class FSim(Gate):
         return [self]
 
     def to_graph(self, g, q_mapper, _c_mapper):
-        # TODO: this version assumes theta is always (pi/2)
+        # TODO: this version assumes theta is always (pi/2) or (-pi/2)
         r = max(q_mapper.next_row(self.target), q_mapper.next_row(self.control))
         qmin = min(self.target,self.control)
         c0 = self.graph_add_node(g, q_mapper, VertexType.Z, self.control,r)
@@ -872,7 +881,7 @@ class FSim(Gate):
 
         g.set_phase(c, Fraction(-1,2) * self.phi)
         g.set_phase(t, Fraction(-1,2) * self.phi)
-        g.set_phase(pg1, (Fraction(1,2) * self.phi) - Fraction(1,2))
+        g.set_phase(pg1, (Fraction(1,2) * self.phi) - self.theta)
 
         g.add_edge((c, pg0), EdgeType.HADAMARD)
         g.add_edge((t, pg0), EdgeType.HADAMARD)
@@ -1056,6 +1065,9 @@ class U2(Gate):  # See https://arxiv.org/pdf/1707.03429.pdf
         self.phi = phi
         self.phases = [theta, phi]
 
+    def to_adjoint(self):
+        return U2(self.target, (1-self.phi)%2, (1-self.theta)%2)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=(self.phi-Fraction(1,2))%2),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1076,6 +1088,9 @@ class U3(Gate):  # See equation (5) of https://arxiv.org/pdf/1707.03429.pdf
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return U3(self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.target,phase=self.rho),
                 XPhase(self.target,phase=Fraction(1,2)),
@@ -1100,6 +1115,9 @@ class CU3(Gate):
         self.rho = rho
         self.phases = [theta, phi, rho]
 
+    def to_adjoint(self):
+        return CU3(self.control, self.target, -self.theta, -self.rho, -self.phi)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=(self.rho+self.phi)/2),
                 ZPhase(self.target, phase=(self.rho-self.phi)/2),
@@ -1128,6 +1146,9 @@ class CU(Gate):
         self.gamma = gamma
         self.phases = [theta, phi, rho, gamma]
 
+    def to_adjoint(self):
+        return CU(self.control, self.target, -self.theta, -self.rho, -self.phi, -self.gamma)
+
     def to_basic_gates(self):
         return [ZPhase(self.control,phase=self.gamma)] + \
                CU3(self.control,self.target,self.theta,self.phi,self.rho).to_basic_gates()
-- 
2.43.0


From f590b09e597927c327bc769e6cdb29be6fa6cd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 12/87] fix: emoji of a pi/2 phase

---
 pyzx/circuit/gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index b888fb3..e9fb253 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -326,7 +326,7 @@ class ZPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Zp4:'
+        if phase == Fraction(1,2): s = ':Zp2:'
         elif phase == Fraction(1,4): s = ':Zp4:'
         elif phase == Fraction(1,1): s = ':Zp:'
         elif phase == Fraction(3,4): s = ':Z3p4:'
@@ -406,7 +406,7 @@ class XPhase(Gate):
     def to_emoji(self,strings: List[List[str]]) -> None:
         s = ''
         phase = self.phase % 2
-        if phase == Fraction(1,2): s = ':Xp4:'
+        if phase == Fraction(1,2): s = ':Xp2:'
         elif phase == Fraction(1,4): s = ':Xp4:'
         elif phase == Fraction(1,1): s = ':Xp:'
         elif phase == Fraction(3,4): s = ':X3p4:'
-- 
2.43.0


From f96823fcc61709928567a8fd164a421c71d70ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:08 +0000
Subject: [PATCH 13/87] fix: Multigraph auto-simplification of parallel edges
 and self-loops

---
 pyzx/graph/multigraph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index e3eaf1a..a9b5163 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -178,6 +178,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             t1 = self.ty[s]
             t2 = self.ty[t]
             if (vertex_is_zx_like(t1) and vertex_is_zx_like(t2)):
+                count = e.s + e.h
                 if s == t: # turn self-loops in pi phases
                     e.s = 0
                     if e.h % 2 == 1:
@@ -188,17 +189,18 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
                     self.scalar.add_power(-e.h)
                     e.h = 0
                 else: # apply spider and hopf to merge/cancel parallel edges
-                    if t1 == t2:
+                    if vertex_is_z_like(t1) == vertex_is_z_like(t2):
                         e.s = 1 if e.s > 0 else 0
-                        self.scalar.add_power(-2 * (e.h - (e.h % 2)))
+                        self.scalar.add_power(-(e.h - (e.h % 2)))
                         e.h = e.h % 2
                     else:
                         e.h = 1 if e.h > 0 else 0
-                        self.scalar.add_power(-2 * (e.s - (e.s % 2)))
+                        self.scalar.add_power(-(e.s - (e.s % 2)))
                         e.s = e.s % 2
+                self.nedges -= count - (e.s + e.h)
             if e.is_empty():
                 del self.graph[s][t]
-                del self.graph[t][s]
+                if s != t: del self.graph[t][s]
 
         return (s,t, edgetype) if s <= t else (t,s,edgetype)
 
@@ -208,7 +210,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             # remove all edges
             for v1 in vs:
                 e = self.graph[v][v1]
-                self.nedges -= e.s + e.h
+                self.nedges -= e.s + e.h + e.w_io
                 del self.graph[v][v1]
                 if v != v1: del self.graph[v1][v]
             # remove the vertex
-- 
2.43.0


From 275769b30534ecb1b98962bcebe97660e305d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 14/87] fix: clones of a graph keep grounds and do not share
 state with the original

---
 pyzx/graph/graph_s.py    |  5 ++++-
 pyzx/graph/multigraph.py | 10 +++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 902479c..1549489 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -56,7 +56,10 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index a9b5163..5cb247c 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -83,8 +83,9 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
 
     def clone(self) -> 'Multigraph':
         cpy = Multigraph()
-        for v, d in self.graph.items():
-            cpy.graph[v] = d.copy()
+        cpy._auto_simplify = self._auto_simplify
+        for v, d in self.graph.items(): # every Edge is shared by the two vertices it connects
+            cpy.graph[v] = {v1: cpy.graph[v1][v] if v1 in cpy.graph else Edge(e.s, e.h, e.w_io) for v1, e in d.items()}
         cpy._vindex = self._vindex
         cpy.nedges = self.nedges
         cpy.ty = self.ty.copy()
@@ -93,7 +94,10 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         cpy._maxq = self._maxq
         cpy._rindex = self._rindex.copy()
         cpy._maxr = self._maxr
-        cpy._vdata = self._vdata.copy()
+        cpy._grounds = self._grounds.copy()
+        cpy._vdata = {v: d.copy() for v, d in self._vdata.items()}
+        cpy.merge_vdata = self.merge_vdata
+        cpy.variable_types = self.variable_types.copy()
         cpy.scalar = self.scalar.copy()
         cpy._inputs = tuple(list(self._inputs))
         cpy._outputs = tuple(list(self._outputs))
-- 
2.43.0


From 9fb8da7dad88f73ac285f61acd3e159225ec1f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 15/87] fix: the adjoint of a Z-box has the conjugate label

---
 pyzx/graph/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 234f461..b0e80d0 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -173,6 +173,9 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
             vtab[v] = i
             for k in self.vdata_keys(v):
                 g.set_vdata(i, k, self.vdata(v, k))
+            if adjoint and ty[v] == VertexType.Z_BOX:
+                label = get_z_box_label(g, i)
+                if isinstance(label, complex): set_z_box_label(g, i, label.conjugate())
         for v in self.grounds():
             g.set_ground(vtab[v], True)
 
-- 
2.43.0


From d470102452ea8026445a86aa9f957759dbf81083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 16/87] fix: compose diagrams in which two plugged boundaries
 are directly connected

---
 pyzx/graph/base.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index b0e80d0..c2b42b6 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -275,7 +275,6 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         if len(outputs) != len(inputs):
             raise TypeError("Outputs of first graph must match inputs of second.")
 
-        plugs: List[Tuple[VT,VT,EdgeType]] = []
         for k in range(len(outputs)):
             o = outputs[k]
             i = inputs[k]
@@ -283,6 +282,23 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 raise ValueError("Bad output vertex: " + str(o))
             if len(other.neighbors(i)) != 1:
                 raise ValueError("Bad input vertex: " + str(i))
+
+        # wires that directly connect two of the plugged boundaries need a vertex to hold on to
+        for g, boundary in ((self, outputs), (other, inputs)):
+            for v in boundary:
+                w = next(iter(g.neighbors(v)))
+                if w not in boundary: continue
+                e = g.edge(v, w)
+                et = g.edge_type(e)
+                g.remove_edge((v, w, et) if g.backend == 'multigraph' else e)
+                z = g.add_vertex(VertexType.Z, qubit=g.qubit(v), row=g.row(v))
+                g.add_edge((v, z), EdgeType.SIMPLE)
+                g.add_edge((z, w), et)
+
+        plugs: List[Tuple[VT,VT,EdgeType]] = []
+        for k in range(len(outputs)):
+            o = outputs[k]
+            i = inputs[k]
             no = next(iter(self.neighbors(o)))
             ni = next(iter(other.neighbors(i)))
             plugs.append((no, ni, EdgeType.HADAMARD
-- 
2.43.0


From 4052c5c5d59ae86fb8c6e6a5a4b703b2120d827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 17/87] fix: tensor product takes grounds from the second
 diagram and copies its vertex data

---
 pyzx/graph/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index c2b42b6..19adb3c 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -349,8 +349,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vdata = other._vdata
         vertex_map = dict()
         for v in other.vertices():
-            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],g.is_ground(v))
-            if v in vdata: g._vdata[w] = vdata[v]
+            w = g.add_vertex(ts[v],qs[v]+height,rs[v],phases[v],other.is_ground(v))
+            if v in vdata: g._vdata[w] = vdata[v].copy()
             vertex_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-- 
2.43.0


From 752b4d385a767e31af1f52c38986ac101e620fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 18/87] fix: merge and subgraph_from_vertices keep the vertex
 data and merge returns the new edges

---
 pyzx/graph/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 19adb3c..0f7347c 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -403,12 +403,13 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         edges = []
         for v in other.vertices():
             w = self.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            for k in other.vdata_keys(v):
+                self.set_vdata(w, k, other.vdata(v, k))
             vert_map[v] = w
         for e in other.edges():
             s,t = other.edge_st(e)
-            f = (vert_map[s],vert_map[t])
-            self.add_edge(f,other.edge_type(e))
-            edges.append(e)
+            f = self.edge(vert_map[s],vert_map[t])
+            edges.append(self.add_edge(f,other.edge_type(e)))
         return (list(vert_map.values()),edges)
 
     def subgraph_from_vertices(self,verts: List[VT]) -> 'BaseGraph':
@@ -431,6 +432,8 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
         vert_map = dict()
         for v in verts:
             w = g.add_vertex(ty[v],qs[v],rs[v],phase[v],v in grounds)
+            for k in self.vdata_keys(v):
+                g.set_vdata(w, k, self.vdata(v, k))
             vert_map[v] = w
         for e in edges:
             s,t = self.edge_st(e)
-- 
2.43.0


From 544be51867c7ca46be2f8e6932239d4a07ab66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 19/87] fix: apply_state and apply_effect keep the remaining
 inputs and outputs

---
 pyzx/graph/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 0f7347c..c359f60 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -467,7 +467,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown input state " + s)
-        self.set_inputs(tuple(new_inputs))
+        self.set_inputs(tuple(new_inputs) + tuple(inputs[len(state):]))
 
     def apply_effect(self, effect: str) -> None:
         """Inserts an effect into the outputs of the graph. ``effect`` should be
@@ -494,7 +494,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                     self.set_phase(v, Fraction(1))
             else:
                 raise TypeError("Unknown output effect " + s)
-        self.set_outputs(tuple(new_outputs))
+        self.set_outputs(tuple(new_outputs) + tuple(outputs[len(effect):]))
 
     def to_tensor(self, preserve_scalar:bool=True) -> np.ndarray:
         """Returns a representation of the graph as a tensor using :func:`~pyzx.tensor.tensorfy`"""
-- 
2.43.0


From f92dd7af7de53e26e16813bc9af0c60c218646e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:42 +0000
Subject: [PATCH 20/87] fix: a Hadamard wire is not an identity wire

---
 pyzx/graph/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index c359f60..73f90a0 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -560,6 +560,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
 
         for i in range(len(inputs)):
             if not self.connected(inputs[i], outputs[i]): return False
+            if self.edge_type(self.edge(inputs[i], outputs[i])) != EdgeType.SIMPLE: return False
         return True
 
     def vindex(self) -> VT:
-- 
2.43.0


From 86f5ab0ab63bdd757378a94749578af4a6c59f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:09 +0000
Subject: [PATCH 21/87] fix: Multigraph removes and retypes edges named by
 edge()

---
 pyzx/graph/base.py       | 2 +-
 pyzx/graph/multigraph.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/base.py b/pyzx/graph/base.py
index 73f90a0..f59d187 100644
--- a/pyzx/graph/base.py
+++ b/pyzx/graph/base.py
@@ -290,7 +290,7 @@ class BaseGraph(Generic[VT, ET], metaclass=DocstringMeta):
                 if w not in boundary: continue
                 e = g.edge(v, w)
                 et = g.edge_type(e)
-                g.remove_edge((v, w, et) if g.backend == 'multigraph' else e)
+                g.remove_edge(e)
                 z = g.add_vertex(VertexType.Z, qubit=g.qubit(v), row=g.row(v))
                 g.add_edge((v, z), EdgeType.SIMPLE)
                 g.add_edge((z, w), et)
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index 5cb247c..b2b555c 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -243,7 +243,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
             self.remove_edge(e)
 
     def remove_edge(self, edge):
-        s,t,ty = edge
+        s,t,ty = edge if len(edge) == 3 else (*edge, self.edge_type(edge))
         e = self.graph[s][t]
         if ty == EdgeType.SIMPLE: e.remove(s=1)
         elif ty == EdgeType.HADAMARD: e.remove(h=1)
@@ -346,7 +346,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return e[2]
 
     def set_edge_type(self, edge, t):
-        v1,v2,ty = edge
+        v1,v2,ty = edge if len(edge) == 3 else (*edge, self.edge_type(edge))
         if ty != t:
             e = self.graph[v1][v2]
             # decrement the old type and increment the new type
-- 
2.43.0


From 3d76a562172d0fb9b413adecc885213acbbea3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 22/87] fix: JSON representation of complex and unknown scalars

---
 pyzx/graph/scalar.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 5d6845c..637cea1 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -180,14 +180,15 @@ class Scalar(object):
 
     def to_json(self) -> str:
         d = {"power2": self.power2, "phase": str(self.phase)}
-        if abs(self.floatfactor - 1) > 0.00001:
-            d["floatfactor"] =  self.floatfactor
+        if self.floatfactor != 1:
+            f = complex(self.floatfactor)
+            d["floatfactor"] = f.real if f.imag == 0 else [f.real, f.imag] # complex numbers are not supported by JSON
         if self.phasenodes:
             d["phasenodes"] = [str(p) for p in self.phasenodes]
         if self.is_zero:
             d["is_zero"] = self.is_zero
         if self.is_unknown:
-            d["is_unknown"] = self.is_unknown,
+            d["is_unknown"] = self.is_unknown
         return json.dumps(d)
 
     @classmethod
@@ -196,6 +197,8 @@ class Scalar(object):
         d["phase"] = Fraction(d["phase"])
         if "phasenodes" in d:
             d["phasenodes"] = [Fraction(p) for p in d["phasenodes"]]
+        if isinstance(d.get("floatfactor"), list):
+            d["floatfactor"] = complex(*d["floatfactor"])
         scalar = Scalar()
         scalar.__dict__.update(d)
         return scalar
-- 
2.43.0


From 74110e405c003b056e1bc19aeda9945e56dc1db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 23/87] fix: to_latex and to_unicode of a scalar include all
 its factors

---
 pyzx/graph/scalar.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 637cea1..7ba0aa0 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -131,7 +131,7 @@ class Scalar(object):
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
         elif abs(f-1) > 0.0001: #f \neq 1
-            s += str(self.floatfactor)
+            s += str(f)
         if self.power2 != 0:
             s += r"\sqrt{{2}}^{{{:d}}}".format(self.power2)
         if self.phase not in (0,1):
@@ -158,12 +158,11 @@ class Scalar(object):
             f *= -1
             phase -= 1
 
-        if abs(f+1) > 0.001 and abs(f-1) > 0.001:
-            return str(f)
-
         s = ""
         if abs(f+1) < 0.001: #f \approx -1
             s += "-"
+        elif abs(f-1) > 0.001: #f \neq 1
+            s += str(f)
         if self.power2 != 0:
             s += r"√2"
             if self.power2 < 0:
-- 
2.43.0


From 51a50eec45ec1fb46caaf0e7705b64d4a5e572d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 24/87] fix: converting a zero scalar to a complex number

---
 pyzx/graph/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/graph/scalar.py b/pyzx/graph/scalar.py
index 7ba0aa0..01fb733 100644
--- a/pyzx/graph/scalar.py
+++ b/pyzx/graph/scalar.py
@@ -110,7 +110,7 @@ class Scalar(object):
         return self.copy(conjugate=True)
 
     def to_number(self) -> complex:
-        if self.is_zero: return 0
+        if self.is_zero: return 0j
         val = cexp(self.phase)
         for node in self.phasenodes: # Node should be a Fraction
             val *= 1+cexp(node)
-- 
2.43.0


From 951e10fcd7f68c149d907afa5108a16e4fc96547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:24 +0000
Subject: [PATCH 25/87] fix: tensorfy of diagrams with W-nodes, connected
 inputs or inputs to the right of their neighbour

---
 pyzx/tensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index c1388bc..06b5bce 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -128,6 +128,11 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
     indices = {}
     for i, v in enumerate(inputs):
         indices[v] = [1 + 2*i]
+    for i, v in enumerate(inputs): # wires that directly connect two inputs
+        for n in g.neighbors(v):
+            if n not in inputs[:i]: continue
+            t = had if g.edge_type(g.edge(v,n)) == EdgeType.HADAMARD else id2
+            tensor = np.tensordot(tensor,t,axes=(pop_and_shift([v,n],indices),[0,1]))
 
     for i,r in enumerate(sorted(verts_row.keys())):
         for v in sorted(verts_row[r]):
@@ -161,9 +166,9 @@ def tensorfy(g: 'BaseGraph[VT,ET]', preserve_scalar:bool=True) -> np.ndarray:
                     t = Z_box_to_tensor(d, label)
                 else:
                     raise ValueError("Vertex %s has non-ZXH type but is not an input or output" % str(v))
-            nn = list(filter(lambda n: rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
+            nn = list(filter(lambda n: n in inputs or rows[n]<r or (rows[n]==r and n<v), neigh)) # TODO: allow ordering on vertex indices?
             ety = {n:g.edge_type(g.edge(v,n)) for n in nn}
-            nn.sort(key=lambda n: ety[n])
+            nn.sort(key=lambda n: ety[n] == EdgeType.HADAMARD)
             for n in nn:
                 if ety[n] == EdgeType.HADAMARD:
                     t = np.tensordot(t,had,(0,0)) # Hadamard edges are moved to the last index of t
-- 
2.43.0


From 007add648b7f90a792fcc4bed76135f716216f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 26/87] fix: compare_tensors with different shapes, tiny
 entries or zero tensors

---
 pyzx/tensor.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pyzx/tensor.py b/pyzx/tensor.py
index 06b5bce..d663fe5 100644
--- a/pyzx/tensor.py
+++ b/pyzx/tensor.py
@@ -225,16 +225,15 @@ def compare_tensors(t1: TensorConvertible,t2: TensorConvertible, preserve_scalar
         t1 = t1.to_tensor(preserve_scalar)
     if not isinstance(t2, np.ndarray):
         t2 = t2.to_tensor(preserve_scalar)
-    if np.allclose(t1,t2): return True
-    if preserve_scalar: return False # We do not check for equality up to scalar
+    if t1.shape != t2.shape: return False
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return False
-            break
-    else:
-        raise ValueError("Tensor is too close to zero")
-    return np.allclose(t1/a,t2/t2.flat[i])
+    i = int(np.argmax(np.abs(t1))) # The largest entry is the most reliable one to compare with
+    a, b = t1.flat[i], t2.flat[i]
+    if abs(a)<epsilon or np.abs(t2).max()<epsilon: # Too close to zero to rescale
+        return bool(np.abs(t1-t2).max()<epsilon)
+    if preserve_scalar: return np.allclose(t1/abs(a),t2/abs(a)) # We do not check for equality up to scalar
+    if abs(b)<epsilon: return False
+    return np.allclose(t1/a,t2/b)
 
 def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> complex:
     """Returns the complex number ``z`` such that ``t1 = z*t2``.
@@ -251,12 +250,9 @@ def find_scalar_correction(t1: TensorConvertible, t2:TensorConvertible) -> compl
         t2 = t2.to_tensor(preserve_scalar=True)
 
     epsilon = 10**-14
-    for i,a in enumerate(t1.flat):
-        if abs(a)>epsilon:
-            if abs(t2.flat[i])<epsilon: return 0
-            return a/t2.flat[i]
-
-    return 0
+    i = int(np.argmax(np.abs(t1)))
+    if abs(t1.flat[i])<epsilon or abs(t2.flat[i])<epsilon: return 0
+    return t1.flat[i]/t2.flat[i]
 
 
 def compose_tensors(t1: np.ndarray, t2: np.ndarray) -> np.ndarray:
-- 
2.43.0


From bfcc372294a4aa57bad02e9ccde74a6e25f28770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 27/87] fix: equality and diagrams of measurements

---
 pyzx/circuit/gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index e9fb253..e08855d 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1210,7 +1210,7 @@ class Measurement(Gate):
         if not isinstance(other, Measurement): return False
         if self.target != other.target: return False
         if self.result_bit != other.result_bit: return False
-        return False
+        return True
 
     def reposition(self, mask, bit_mask = None):
         g = self.copy()
@@ -1225,7 +1225,7 @@ class Measurement(Gate):
             DiscardBit(self.result_bit).to_graph(g, q_mapper, c_mapper)
         # Qubit measurement
         r = q_mapper.next_row(self.target)
-        if self.result_bit is None:
+        if self.result_bit is not None:
             r = max(r, c_mapper.next_row(self.result_bit))
         v = self.graph_add_node(g,
             q_mapper,
-- 
2.43.0


From 82819ac3b8828675d2eabc02ef877d5626bdda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 28/87] fix: tensor and split_phase_gates keep the classical
 bits

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 1d349bf..687ec8d 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -185,7 +185,7 @@ class Circuit(object):
             other = c2
         if not isinstance(other,Circuit):
             raise Exception("Cannot tensor type", type(other), "to Circuit")
-        c = Circuit(self.qubits + other.qubits)
+        c = Circuit(self.qubits + other.qubits, bit_amount=self.bits + other.bits)
         c.gates = [g.copy() for g in self.gates]
         mask = [i+self.qubits for i in range(other.qubits)]
         bit_mask = [i+self.bits for i in range(other.bits)]
@@ -201,7 +201,7 @@ class Circuit(object):
         return c
 
     def split_phase_gates(self) -> 'Circuit':
-        c = Circuit(self.qubits, name=self.name)
+        c = Circuit(self.qubits, name=self.name, bit_amount=self.bits)
         for g in self.gates:
             if isinstance(g, (ZPhase, XPhase)):
                 c.gates.extend(g.split_phases())
-- 
2.43.0


From e4a859c615f7d768fe9a17de5dce31da9c1437d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 29/87] fix: circuits of diagrams in which two X-spiders are
 joined by a Hadamard edge

---
 pyzx/circuit/graphparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index 1ccea9e..d49349d 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -77,7 +77,7 @@ def graph_to_circuit(g:BaseGraph[VT,ET], split_phases:bool=True) -> Circuit:
                     if g.edge_type(g.edge(v,n)) != EdgeType.HADAMARD:
                         raise TypeError("Invalid vertical connection between vertices of the same type")
                     if t == VertexType.Z: c.add_gate("CZ", q2, q)
-                    else: c.add_gate("CX", q2, q)
+                    else: c.add_gate("XCX", q2, q)
                 else:
                     if g.edge_type(g.edge(v,n)) != EdgeType.SIMPLE:
                         raise TypeError("Invalid vertical connection between vertices of different type")
-- 
2.43.0


From 7c0640edb9fdfe0743f3647a937e4e0c041c4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 30/87] fix: vertices after an ancilla preparation are placed
 in the next row

---
 pyzx/circuit/graphparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/circuit/graphparser.py b/pyzx/circuit/graphparser.py
index d49349d..6acd358 100644
--- a/pyzx/circuit/graphparser.py
+++ b/pyzx/circuit/graphparser.py
@@ -119,6 +119,7 @@ def circuit_to_graph(c: Circuit, compress_rows:bool=True, backend:Optional[str]=
                 raise ValueError("Ancilla label {} already in use".format(str(l)))
             v = g.add_vertex(VertexType.Z, q_mapper.to_qubit(l), q_mapper.next_row(l))
             q_mapper.set_prev_vertex(l, v)
+            q_mapper.advance_next_row(l)
         elif gate.name == 'PostSelect':
             l = gate.label # type: ignore
             try:
-- 
2.43.0


From 7aa4a0ecc39c941fe536c489f3ad4fbc82f7ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 31/87] fix: .qc output of adjoint gates without a .qc name

---
 pyzx/circuit/gates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index e08855d..957c878 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -262,7 +262,7 @@ class Gate(object):
 
     def to_qc(self) -> str:
         n = self.qc_name
-        if hasattr(self, "adjoint") and self.adjoint:
+        if n != 'undefined' and hasattr(self, "adjoint") and self.adjoint:
             n += "*"
         if n == 'undefined':
             if isinstance(self, (ZPhase, XPhase)):
-- 
2.43.0


From caee31aafc283e4491cbd93ebc025fbb49a1f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 32/87] fix: Quipper and .qc round trip of Y rotations, SX and
 X-controlled X gates, and exact Quipper angles

---
 pyzx/circuit/gates.py         | 4 ++--
 pyzx/circuit/qcparser.py      | 1 +
 pyzx/circuit/quipperparser.py | 5 +++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 957c878..14151d1 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -417,7 +417,7 @@ class XPhase(Gate):
         strings[self.target].append(s)
 
     def to_quipper(self):
-        if not self.print_phase:
+        if not self.print_phase and self.quipper_name != 'undefined':
             return super().to_quipper()
         return 'QRot["exp(-i%X)",{!s}]({!s})'.format(math.pi*self.phase/2,self.target)
 
@@ -448,6 +448,7 @@ class SX(XPhase):
     name = 'SX'
     qasm_name = 'sx'
     qasm_name_adjoint = 'sxdg'
+    quipper_name = 'undefined'
     print_phase = False
     def __init__(self, target: int, adjoint:bool=False) -> None:
         super().__init__(target, Fraction(1,2)*(-1 if adjoint else 1))
@@ -478,7 +479,6 @@ class CSX(Gate):
 class YPhase(Gate):
     name = 'YPhase'
     qasm_name = 'ry'
-    quipper_name = 'YPhase'
     print_phase = True
     def __init__(self, target: int, phase: FractionLike=0) -> None:
         self.target = target
diff --git a/pyzx/circuit/qcparser.py b/pyzx/circuit/qcparser.py
index adf82d3..66b34b7 100644
--- a/pyzx/circuit/qcparser.py
+++ b/pyzx/circuit/qcparser.py
@@ -50,6 +50,7 @@ def parse_qc(data: str) -> Circuit:
         if len(targets) == 1:
             t = targets[0]
             if gname in ('tof', 't1', 'not', 'x'): gates.append(NOT(t))
+            elif gname == 'y': gates.append(Y(t))
             elif gname == 'z': gates.append(Z(t))
             elif gname in ('s', 'p'): gates.append(S(t))
             elif gname in ('s*', 'p*'): gates.append(S(t,adjoint=True))
diff --git a/pyzx/circuit/quipperparser.py b/pyzx/circuit/quipperparser.py
index 348e47c..a5e1544 100644
--- a/pyzx/circuit/quipperparser.py
+++ b/pyzx/circuit/quipperparser.py
@@ -61,7 +61,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
                 f = float(val)
             except ValueError:
                 raise TypeError("Unsupported expression: " + gate)
-            phase = Fraction(f/math.pi)
+            phase = Fraction(f/math.pi).limit_denominator(100000000)
             target = gate[gate.rfind('(')+1:gate.rfind(')')]
             try: 
                 t = int(target)
@@ -79,6 +79,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         if len(l) == 1 or (len(l) == 2 and l[1].find("nocontrol") != -1):  # no controls
             if gname == "H": c.add_gate("HAD", t)
             elif gname == "not": c.add_gate("NOT", t)
+            elif gname == "Y": c.add_gate("Y", t)
             elif gname == "Z": c.add_gate("Z", t)
             elif gname == "S": c.add_gate("S", t, adjoint=adjoint)
             elif gname == "T": c.add_gate("T", t, adjoint=adjoint)
@@ -110,7 +111,7 @@ def parse_quipper_block(lines: List[str]) -> Circuit:
         ctrl = int(ctrls[1:])
         if gname == "not": c.add_gate("CNOT", ctrl, t)
         elif gname == "Z": c.add_gate("CZ", ctrl, t)
-        elif gname == "X": c.add_gate("CX", ctrl, t)
+        elif gname == "X": c.add_gate("XCX", ctrl, t)
         else:
             raise TypeError("Unsupported controlled gate: " + gname)
     return c
-- 
2.43.0


From 039e511633a83e028b43071c023be6fc77bc6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 33/87] fix: split_phases of phases outside of [0,2)

---
 pyzx/circuit/gates.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 14151d1..a9dcb67 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -340,15 +340,16 @@ class ZPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List['ZPhase']:
-        if not self.phase: return []
-        if self.phase == 1: return [Z(self.target)]
-        if self.phase.denominator == 2:
-            if self.phase.numerator % 4 == 1:
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [Z(self.target)]
+        if phase.denominator == 2:
+            if phase.numerator % 4 == 1:
                 return [S(self.target)]
             else: return [S(self.target, adjoint=True)]
-        elif self.phase.denominator == 4:
+        elif phase.denominator == 4:
             gates: List['ZPhase'] = []
-            n = self.phase.numerator % 8
+            n = phase.numerator % 8
             if n == 3 or n == 5:
                 gates.append(Z(self.target))
                 n = (n-4)%8
@@ -425,15 +426,16 @@ class XPhase(Gate):
         return 1 if self.phase.denominator > 2 else 0
 
     def split_phases(self) -> List[Gate]:
-        if not self.phase: return []
-        if self.phase == 1: return [NOT(self.target)]
+        phase = self.phase % 2
+        if not phase: return []
+        if phase == 1: return [NOT(self.target)]
         gates: List[Gate] = [HAD(self.target)]
-        if self.phase.denominator == 2:
-            if self.phase.numerator % 4 == 1:
+        if phase.denominator == 2:
+            if phase.numerator % 4 == 1:
                 gates.append(S(self.target))
             else: gates.append(S(self.target, adjoint=True))
-        elif self.phase.denominator == 4:
-            n = self.phase.numerator % 8
+        elif phase.denominator == 4:
+            n = phase.numerator % 8
             if n == 3 or n == 5:
                 gates.append(Z(self.target))
                 n = (n-4)%8
-- 
2.43.0


From 0981b6dc857df93e58adea57344369e1053ba1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 34/87] fix: CSWAP gates were written as CCZ gates in .qc and
 Quipper files

---
 pyzx/circuit/gates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index a9dcb67..7e58e14 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -1003,6 +1003,8 @@ class CCZ(Gate):
         q_mapper.set_next_row(self.ctrl2, r+1)
 
     def to_quipper(self):
+        if self.quipper_name == 'undefined':
+            return super().to_quipper()
         s = 'QGate["{}"]({!s})'.format(self.quipper_name,self.target)
         s += ' with controls=[+{!s},+{!s}]'.format(self.ctrl1,self.ctrl2)
         s += ' with nocontrol'
@@ -1038,6 +1040,8 @@ class Tofolli(CCZ):
 class CSWAP(CCZ):
     name = 'CSWAP'
     qasm_name = 'cswap'
+    qc_name = 'undefined'
+    quipper_name = 'undefined'
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, CSWAP): return False
-- 
2.43.0


From e145084a14ff013c5bf5fc3fa36511e8e258e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 35/87] fix: QASM files without a telling extension were taken
 for .qc files

---
 pyzx/circuit/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/__init__.py b/pyzx/circuit/__init__.py
index 687ec8d..99b4d03 100644
--- a/pyzx/circuit/__init__.py
+++ b/pyzx/circuit/__init__.py
@@ -538,10 +538,10 @@ def determine_file_type(circuitfile: str) -> str:
         f.close()
         if data.startswith('Inputs:'):
             return "quipper"
-        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
-            return "qc"
         if data.find('QASM') != -1:
             return "qasm"
+        if data.find('.v') != -1 or data.find('.i') != -1 or data.find('.o') != -1:
+            return "qc"
 
         raise TypeError("Couldn't determine circuit format.")
 
-- 
2.43.0


From 6d11abc5af279a6221806f90cf0dc41632dc1770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:27 +0000
Subject: [PATCH 36/87] fix: parity phases on one qubit can be written as QASM,
 .qc and Quipper

---
 pyzx/circuit/gates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/circuit/gates.py b/pyzx/circuit/gates.py
index 7e58e14..09785bb 100644
--- a/pyzx/circuit/gates.py
+++ b/pyzx/circuit/gates.py
@@ -228,7 +228,7 @@ class Gate(object):
         n = self.quipper_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and bg[0] is self:
                 raise TypeError("Gate {} doesn't have a Quipper description".format(str(self)))
             return "\n".join(g.to_quipper() for g in bg)
         s = 'QGate["{}"]{}({!s})'.format(n,
@@ -243,7 +243,7 @@ class Gate(object):
         n = self.qasm_name
         if n == 'undefined':
             bg = self.to_basic_gates()
-            if len(bg) == 1:
+            if len(bg) == 1 and bg[0] is self:
                 raise TypeError("Gate {} doesn't have a QASM description".format(str(self)))
             return "\n".join(g.to_qasm() for g in bg)
         if hasattr(self, "adjoint") and self.adjoint:
@@ -271,7 +271,7 @@ class Gate(object):
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             else:
                 bg = self.to_basic_gates()
-                if len(bg) == 1:
+                if len(bg) == 1 and bg[0] is self:
                     raise TypeError("Gate {} doesn't have a .qc description".format(str(self)))
             return "\n".join(g.to_qc() for g in bg)
         args = []
-- 
2.43.0


From 7f0e432a7428324edea732d4c69efc590b649219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 37/87] fix: QASM angle expressions, white space and gate names
 ending in 'gate'

---
 pyzx/circuit/qasmparser.py | 45 +++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/pyzx/circuit/qasmparser.py b/pyzx/circuit/qasmparser.py
index a92341e..4739803 100644
--- a/pyzx/circuit/qasmparser.py
+++ b/pyzx/circuit/qasmparser.py
@@ -58,22 +58,23 @@ class QASMParser(object):
         elif strict:
             raise TypeError("File does not start with supported OPENQASM descriptor.")
 
-        if self.qasm_version == 2 and r[0].startswith('include "qelib1.inc";') or \
-                self.qasm_version == 3 and r[0].startswith('include "stdgates.inc";'):
-            r.pop(0)
+        include = 'include "qelib1.inc";' if self.qasm_version == 2 else 'include "stdgates.inc";'
+        if r[0].startswith(include):
+            r[0] = r[0][len(include):]
         elif strict:
             raise TypeError("File is not importing standard library")
 
         data = "\n".join(r)
         # Strip the custom command definitions from the normal commands
         while True:
-            i = data.find("gate ")
-            if i == -1: break
+            definition = re.search(r"\bgate\s", data)
+            if not definition: break
+            i = definition.start()
             j = data.find("}", i)
             self.parse_custom_gate(data[i:j+1])
             data = data[:i] + data[j+1:]
         # parse the regular commands
-        commands = [s.strip() for s in data.split(";") if s.strip()]
+        commands = [" ".join(s.split()) for s in data.split(";") if s.strip()]
         for c in commands:
             self.gates.extend(self.parse_command(c, self.registers))
 
@@ -110,7 +111,7 @@ class QASMParser(object):
             qubit_count += 1
 
         body = body[:-1].strip()
-        commands = [s.strip() for s in body.split(";") if s.strip()]
+        commands = [" ".join(s.split()) for s in body.split(";") if s.strip()]
         circ = Circuit(qubit_count)
         for c in commands:
             for g in self.parse_command(c, registers):
@@ -225,24 +226,18 @@ class QASMParser(object):
         try:
             phase = float(val)/math.pi
         except ValueError:
-            if val.find('pi') == -1: raise TypeError("Invalid specification {}".format(val))
-            try:
-                val = val.replace('pi', '')
-                val = val.replace('*','')
-                if val.find('/') != -1:
-                    n, d = val.split('/',1)
-                    n = n.strip()
-                    if not n: n = 1
-                    elif n == '-': n = -1
-                    else: n = int(n)
-                    d = int(d.strip())
-                    phase = Fraction(n,d)
-                else:
-                    val = val.strip()
-                    if not val: phase = 1
-                    elif val == '-': phase = -1
-                    else: phase = float(val)
-            except: raise TypeError("Invalid specification {}".format(val))
+            # A product and quotient of numbers that contains pi exactly once as a factor
+            number = r"\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?"
+            if not re.fullmatch(r"\s*-?\s*(?:(?:{0})\s*pi|{0}|pi)(?:\s*[*/]\s*(?:pi|-?(?:{0})))*\s*".format(number), val) \
+                    or val.count('pi') != 1 or re.search(r"/\s*pi", val):
+                raise TypeError("Invalid specification {}".format(val))
+            val = "".join(val.split())
+            phase = Fraction(-1 if val.startswith('-') else 1)
+            for op, factor in re.findall(r"([*/]?)(-?(?:{0})|pi)".format(number), val[1:] if val.startswith('-') else val):
+                if factor == 'pi': continue
+                if op != '/': phase *= Fraction(factor)
+                elif Fraction(factor) != 0: phase /= Fraction(factor)
+                else: raise TypeError("Invalid specification {}".format(val))
         phase = Fraction(phase).limit_denominator(100000000)
         return phase
 
-- 
2.43.0


From 0f00abf583f5138736e47e2b467819e6cb32511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 38/87] fix: qsim gate hz_1_2 is the square root of
 (X+Y)/sqrt(2)

---
 pyzx/circuit/qsimparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/circuit/qsimparser.py b/pyzx/circuit/qsimparser.py
index e614fd0..41fe19c 100644
--- a/pyzx/circuit/qsimparser.py
+++ b/pyzx/circuit/qsimparser.py
@@ -40,9 +40,9 @@ def parse_qsim(data: str) -> Circuit:
             phase = float(gdesc[3]) / math.pi
             gates.append(ZPhase(target = q, phase = Fraction(phase)))
         elif gdesc[1] == 'hz_1_2':
-            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
-            gates.append(XPhase(target = q, phase = Fraction(1,2)))
             gates.append(ZPhase(target = q, phase = Fraction(-1,4)))
+            gates.append(XPhase(target = q, phase = Fraction(1,2)))
+            gates.append(ZPhase(target = q, phase = Fraction(1,4)))
         elif gdesc[1] == 'x_1_2':
             gates.append(XPhase(target = q, phase = Fraction(1,2)))
         elif gdesc[1] == 'y_1_2':
-- 
2.43.0


From 35d96ef2ec4eac2a8bebf5312bb6e8d34d4d32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 39/87] fix: self-loops added to a simple graph are turned into
 phases

---
 pyzx/graph/graph_s.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyzx/graph/graph_s.py b/pyzx/graph/graph_s.py
index 1549489..c9a5630 100644
--- a/pyzx/graph/graph_s.py
+++ b/pyzx/graph/graph_s.py
@@ -124,7 +124,14 @@ class GraphS(BaseGraph[int,Tuple[int,int]]):
     
     def add_edge(self, edge_pair, edgetype=EdgeType.SIMPLE):
         s,t = edge_pair
-        if not t in self.graph[s]:
+        if s == t and vertex_is_zx_like(self.ty[s]) and edgetype != EdgeType.W_IO:
+            if edgetype == EdgeType.HADAMARD: # turn self-loops in pi phases
+                if self.ty[s] == VertexType.Z_BOX:
+                    set_z_box_label(self, s, get_z_box_label(self, s) * -1)
+                else:
+                    self.add_to_phase(s, 1)
+                self.scalar.add_power(-1)
+        elif not t in self.graph[s]:
             self.nedges += 1
             self.graph[s][t] = edgetype
             self.graph[t][s] = edgetype
-- 
2.43.0


From 74a3df489d665b2a4a922089e44b3b248ac93174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 40/87] fix: Hadamard wires of boundaries, numbering and labels
 in TikZ output

---
 pyzx/tikz.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyzx/tikz.py b/pyzx/tikz.py
index 2372726..5d9678c 100644
--- a/pyzx/tikz.py
+++ b/pyzx/tikz.py
@@ -84,9 +84,9 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 if ty==VertexType.Z: style = settings.tikz_classes['Z']
                 else: style = settings.tikz_classes['X']
         if ((ty == VertexType.H_BOX or ty == VertexType.Z_BOX) and p == 1) or\
-            (ty != VertexType.H_BOX and p == 0):
+            (ty != VertexType.H_BOX and ty != VertexType.Z_BOX and p == 0):
             phase = ""
-        elif type(p) == Fraction:
+        elif type(p) == Fraction or (type(p) == int and ty != VertexType.Z_BOX):
             ns = '' if p.numerator == 1 else str(p.numerator)
             dn = '' if p.denominator == 1 else str(p.denominator)
             if dn: phase = r"$\frac{%s\pi}{%s}$" % (ns, dn)
@@ -113,6 +113,12 @@ def _to_tikz(g: BaseGraph[VT,ET], draw_scalar:bool = False,
                 t = "        \\node [style={:s}] ({:d}) at ({:.2f}, {:.2f}) {{}};".format(settings.tikz_classes['H'],maxindex+1, x,y)
                 verts.append(t)
                 maxindex += 1
+                # The wire goes through the Hadamard node
+                style = settings.tikz_classes['edge']
+                if style: s += "[style={:s}] ".format(style)
+                edges.append(s + "({:d}) to ({:d});".format(v+idoffset,maxindex))
+                edges.append(s + "({:d}) to ({:d});".format(maxindex,w+idoffset))
+                continue
         elif et == EdgeType.W_IO:
             style = settings.tikz_classes['W-io-edge']
             if style: s += "[style={:s}] ".format(style)
@@ -137,7 +143,8 @@ def to_tikz_sequence(graphs:List[BaseGraph], draw_scalar:bool=False, maxwidth:Fl
     idoffset = 0
     total_verts, total_edges = [],[]
     for g in graphs:
-        max_index = max(g.vertices()) + 2*g.num_inputs() + 2
+        # Every edge may need an additional node for a Hadamard
+        max_index = max(g.vertices(), default=0) + g.num_edges() + 2
         verts, edges = _to_tikz(g,draw_scalar,xoffset,yoffset,idoffset)
         total_verts.extend(verts)
         total_edges.extend(edges)
@@ -290,7 +297,7 @@ def tikz_to_graph(
             else:
                 label = label.replace(r'\pi','').strip()
                 if label == '' or label == '-' or label == '-1':
-                    set_phase(v,1)
+                    set_phase(v,-1 if label and ty == VertexType.Z_BOX else 1)
                 elif label.find(r'\frac') != -1:
                     label = label.replace(r'\frac','').strip()
                     if label.find('}{') == -1:
-- 
2.43.0


From fd7b4605e10e53a5a63965128a0ecc2d440b698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 41/87] fix: reducing a symbolic phase modulo 2 keeps
 continuous terms; signs and powers in symbolic phases can be parsed

---
 pyzx/symbolic.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 152b888..4a2db76 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -114,7 +114,7 @@ class Term:
             if v not in vs: vs[v] = c
             else: vs[v] += c
             # TODO deal with fractional / symbolic powers
-            if v.is_bool and c > 1:
+            if v.is_bool and vs[v] > 1:
                 vs[v] = 1
         return Term([(v, c) for v, c in vs.items()])
 
@@ -227,7 +227,10 @@ class Poly:
         return self * (self ** (other - 1))
 
     def __mod__(self, other: int) -> 'Poly':
-        return Poly([(c % other, t) for c, t in self.terms if not isinstance(c, complex)])
+        # A term with continuous variables can take any value, so that only the other ones can be reduced
+        terms = [(c % other if all(v.is_bool for v, _ in t.vars) else c, t)
+                 for c, t in self.terms if not isinstance(c, complex)]
+        return Poly([(c, t) for c, t in terms if c != 0])
 
     def __repr__(self) -> str:
         return f'Poly({str(self)})'
@@ -335,9 +338,12 @@ def new_const(coeff: Union[int, Fraction]) -> Poly:
 
 
 poly_grammar = Lark("""
-    start      : "(" start ")" | term ("+" term)*
+    start      : "(" start ")" | _signed ("+" _signed | neg)*
+    _signed    : term | neg
+    neg        : "-" term
     term       : (intf | frac)? factor ("*" factor)*
-    ?factor    : intf | frac | pi | pifrac | var
+    ?factor    : intf | frac | pi | pifrac | var | power
+    power      : var "^" INT
     var        : CNAME
     intf       : INT
     pi         : "\\pi" | "pi"
@@ -364,6 +370,12 @@ class PolyTransformer(Transformer):
     def term(self, items: List[Poly]) -> Poly:
         return reduce(mul, items)
 
+    def neg(self, items: List[Poly]) -> Poly:
+        return -items[0]
+
+    def power(self, items: List[Any]) -> Poly:
+        return items[0] ** int(items[1])
+
     def var(self, items: List[Any]) -> Poly:
         v = str(items[0])
         return self._new_var(v)
-- 
2.43.0


From 2c53b335b37feaa8679bbf65a1b6ca8900521ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 42/87] fix: labels, names and odd phases survive being written
 as JSON

---
 pyzx/graph/jsonparser.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pyzx/graph/jsonparser.py b/pyzx/graph/jsonparser.py
index e2bb638..923c013 100644
--- a/pyzx/graph/jsonparser.py
+++ b/pyzx/graph/jsonparser.py
@@ -70,6 +70,14 @@ def string_to_phase(string: str, g: Union[BaseGraph,'GraphDiff']) -> Union[Fract
         except Exception as e:
             raise ValueError(e)
 
+def phase_to_string(p: FractionLike) -> str:
+    """Like ``phase_to_s``, but does not approximate fractions with a large denominator."""
+    if isinstance(p, Poly) or p == 0: return phase_to_s(p)
+    p = Fraction(p)
+    n = '' if p.numerator == 1 else str(p.numerator)
+    d = '' if p.denominator == 1 else '/' + str(p.denominator)
+    return n + '\u03c0' + d
+
 def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
     """Converts the json representation of a .qgraph Quantomatic graph into
     a pyzx graph."""
@@ -113,7 +121,7 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
             if key == 'coord':
                 continue
             elif key == 'label':
-                if type(value) != complex:
+                if isinstance(value, str):
                     value = string_to_phase(value,g)
             g.set_vdata(v, key, value)
 
@@ -144,7 +152,9 @@ def json_to_graph(js: str, backend:Optional[str]=None) -> BaseGraph:
         n1, n2 = edge['src'], edge['tgt']
         if n1 in hadamards and n2 in hadamards: #Both
             v = g.add_vertex(VertexType.Z)
-            name = "v"+str(len(names))
+            i = len(names)
+            while "v"+str(i) in names or "v"+str(i) in hadamards: i += 1
+            name = "v"+str(i)
             g.set_vdata(v, 'name',name)
             names[name] = v
             hadamards[n1].append(v)
@@ -185,8 +195,9 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
     wire_vs: Dict[str, Dict[str, Any]] = {}
     edges: Dict[str, Dict[str, str]] = {}
     names: Dict[VT, str] = {}
-    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges())]
-    freenamesb = ["b"+str(i) for i in range(g.num_vertices())]
+    usednames = set(g.vdata(v, 'name') for v in g.vertices())
+    freenamesv = ["v"+str(i) for i in range(g.num_vertices()+g.num_edges()) if "v"+str(i) not in usednames]
+    freenamesb = ["b"+str(i) for i in range(g.num_vertices()) if "b"+str(i) not in usednames]
     inputs = g.inputs()
     outputs = g.outputs()
     for v in g.vertices():
@@ -196,11 +207,6 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
         if not name:
             if t == VertexType.BOUNDARY: name = freenamesb.pop(0)
             else: name = freenamesv.pop(0)
-        else:
-            try:
-                freenamesb.remove(name) if t==VertexType.BOUNDARY else freenamesv.remove(name)
-            except:
-                pass
 
         names[v] = name
         if t == VertexType.BOUNDARY:
@@ -231,10 +237,10 @@ def graph_to_json(g: BaseGraph[VT,ET], include_scalar: bool=True) -> str:
                 node_vs[name]["data"]["type"] = "Z_box"
                 zbox_label = g.vdata(v, 'label', 1)
                 if type(zbox_label) == Fraction:
-                    zbox_label = phase_to_s(zbox_label)
+                    zbox_label = phase_to_string(zbox_label)
                 node_vs[name]["annotation"]["label"] = zbox_label
             else: raise Exception("Unkown vertex type "+ str(t))
-            phase = phase_to_s(g.phase(v))
+            phase = phase_to_string(g.phase(v))
             if phase: node_vs[name]["data"]["value"] = phase
             if g.is_ground(v):
                 node_vs[name]["data"]["ground"] = True
@@ -337,7 +343,8 @@ class ComplexDecoder(json.JSONDecoder):
 
     def object_hook(self, dct):
         for k, v in dct.items():
-            if isinstance(v, str):
+            # Names and phases are not numbers, even if they look like one
+            if isinstance(v, str) and k not in ('name', 'src', 'tgt', 'value') and v != 'j' and v.endswith(('j', 'j)')):
                 try:
                     dct[k] = complex(v)
                 except ValueError:
-- 
2.43.0


From 10c755f88b6970756c7a5a3aee488e791be98c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 43/87] fix: CNOT circuits of 1x1 matrices and matrix slices at
 index -1

---
 pyzx/linalg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index 994bfea..f042408 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -67,8 +67,9 @@ class Mat2(object):
         if isinstance(key,tuple):
             rs,cs = key
             if isinstance(rs,slice) or isinstance(cs,slice):
-                if not isinstance(rs,slice): rs = slice(rs,rs+1)
-                if not isinstance(cs,slice): cs = slice(cs,cs+1)
+                # The slice following index -1 ends at the end of the list
+                if not isinstance(rs,slice): rs = slice(rs,rs+1 or None)
+                if not isinstance(cs,slice): cs = slice(cs,cs+1 or None)
                 return Mat2([row[cs] for row in self.data[rs]])
             else:
                 return self.data[rs][cs]
@@ -350,12 +351,12 @@ class Mat2(object):
             cn = CNOTMaker()
             blocksize = 5
             if use_log_blocksize:
-                blocksize = int(math.log2(self.rows()))
+                blocksize = max(1, int(math.log2(self.rows())))
             self.copy().gauss(full_reduce=True,x=cn, blocksize=blocksize)
         else:
             best = 1000000
             best_cn = None
-            for size in range(1,self.rows()):
+            for size in range(1,max(2,self.rows())):
                 cn = CNOTMaker()
                 assert cn is not None
                 self.copy().gauss(full_reduce=True,x=cn, blocksize=size)
-- 
2.43.0


From 7df3dec945c9a216ab48e3328abb4a42f1963ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 44/87] fix: steiner_gauss skips the down phase of columns
 without an up phase

---
 pyzx/routing/steiner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 4e28321..00b2481 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -68,6 +68,7 @@ def steiner_gauss(
                     row_add(s1, s0)
                     if debug:
                         print(matrix[s0, col], matrix[s1, col])
+        else:
             if (
                 next_check is not None and matrix[next_check[0], col] == 0
             ):  # root is zero
-- 
2.43.0


From 536e823412f9e85b4b0e80b6df8740ddab699b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 45/87] fix: Steiner trees are traversed along their own edges

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 28fbfce..348010e 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -410,7 +410,7 @@ class Architecture():
         
         while queue != []:
             node = queue.pop(0)
-            neighbors = [v for v in self.graph.neighbors(node) if v in tree_vertices and v not in visited]
+            neighbors = [v for v in self.graph.neighbors(node) if (node, v) in edges and v not in visited]
 
             for v in neighbors:
                 queue.append(v)
-- 
2.43.0


From 17cfd520315c6c3f95db7c9e8bb618beac4b89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 46/87] fix: Architecture.shortest_path is a breadth-first
 search

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 348010e..ded20ea 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -330,7 +330,7 @@ class Architecture():
   
         while queue != []: 
             
-            node, path = queue.pop() 
+            node, path = queue.pop(0)
             if node == end:
                 return path
             edges = [edge for edge in self.graph.edges() if node in edge]
-- 
2.43.0


From 397d965cb0a42fe1028b15f387b0a42e5454486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 47/87] fix: rec_steiner_gauss finds a reduction order and
 ascending paths on every device

---
 pyzx/routing/architecture.py | 19 +++++++++++--------
 pyzx/routing/steiner.py      | 21 +++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index ded20ea..22142bd 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -133,16 +133,19 @@ class Architecture():
                 "full": [self.floyd_warshall(self.vertices[:until+1], upper=False) for until, v in enumerate(self.vertices)]}
 
     def _get_reduce_order(self) -> List[int]:
-        vertices = list(sorted(self.vertices, reverse=True, key=self.vertex2qubit)) # sort qubits from large to small
+        qubits = sorted((self.vertex2qubit(v) for v in self.vertices), reverse=True)  # sort qubits from large to small
+        # Build a spanning tree in which the path from any qubit to the largest one is ascending.
+        parents: Dict[int, Optional[int]] = {}
+        for q in qubits:
+            parents[q] = min((n for n in self.get_neighboring_qubits(q) if n > q), default=None)
         # Pick leaf with largest label every time.
         reduce_order = []
-        while vertices:
-            all_cutting = self._is_cutting(vertices) # Get which vertices are cutting
-            # All False indices correspond to a leaf, we want the first one
-            leaf = all_cutting.index(False)
-            # Which logical qubit is stored in the leaf node?
-            reduce_order.append(self.vertex2qubit(vertices[leaf]))
-            del vertices[leaf]
+        while qubits:
+            children = {q: [c for c in qubits if parents[c] == q] for q in qubits}
+            # The largest qubit is the root of the tree, which is a leaf if it has only one child
+            leaf = next(q for q in qubits if len(children[q]) <= (1 if q == qubits[0] else 0))
+            reduce_order.append(leaf)
+            qubits.remove(leaf)
 
         return reduce_order
 
diff --git a/pyzx/routing/steiner.py b/pyzx/routing/steiner.py
index 00b2481..a67c1ae 100644
--- a/pyzx/routing/steiner.py
+++ b/pyzx/routing/steiner.py
@@ -245,14 +245,19 @@ def rec_steiner_gauss(
                 # Pick the maximal vertex k in R: k = max(usable_nodes)
                 # Pick the maximal leaf k' in R: k' = cols[i] = c
                 # Let W be the set of vertices in the shortest path from k' to k (inclusive)
-                path = architecture.shortest_path(
-                    c, max(usable_nodes)
-                )  # , usable_nodes)
-                if path is None:
-                    raise ValueError(
-                        f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
-                    )
-                rec_qubits = [architecture.vertex2qubit(v) for v in path]
+                # The path consists of all larger vertices in R, in ascending order.
+                rec_qubits = [c]
+                while rec_qubits[-1] != max(usable_nodes):
+                    larger = [
+                        q
+                        for q in architecture.get_neighboring_qubits(rec_qubits[-1])
+                        if q in usable_nodes and q > rec_qubits[-1]
+                    ]
+                    if not larger:
+                        raise ValueError(
+                            f"The architecture is not connected using when considering nodes 0..{max(usable_nodes)}"
+                        )
+                    rec_qubits.append(min(larger))
 
                 # Apply steiner up:
                 # Pick the nodes of the steiner tree: all rows with a 1 in column c or the pivot row (diagonal)
-- 
2.43.0


From 9b38a07051a507a17b09a9dca1e02f27dd0b4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 48/87] fix: transposing an architecture leaves the original
 alone

---
 pyzx/routing/architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/architecture.py b/pyzx/routing/architecture.py
index 22142bd..12bcc5b 100644
--- a/pyzx/routing/architecture.py
+++ b/pyzx/routing/architecture.py
@@ -482,7 +482,7 @@ class Architecture():
     def transpose(self):
         # TODO make a transposed copy of self
         qubit_map = list(reversed(self.qubit_map))
-        arch = Architecture(self.name + "_transpose", coupling_graph=self.graph, qubit_map=qubit_map)
+        arch = Architecture(self.name + "_transpose", coupling_graph=self.graph.clone(), qubit_map=qubit_map)
         return arch
         
     def arities(self) -> List[Tuple[int, int]]:
-- 
2.43.0


From c28260b056b8bcb1f6d30861b80b5dba2a95382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 49/87] fix: CNOT_tracker follows gates added by name or in
 front, and its depth and copies

---
 pyzx/routing/parity_maps.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index f14c885..6b4c005 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -51,33 +51,31 @@ class CNOT_tracker(Circuit):
 
     def cnot_depth(self) -> int:
         """Returns the CNOT/CZ depth of the tracked circuit."""
-        depth = 1
-        previous_gates: List[int] = []
+        depth = 0
+        qubit_depth: Dict[int, int] = {}
         for g in self.gates:
             if hasattr(g, "name") and g.name in ["CNOT", "CZ"]:
-                if g.control in previous_gates or g.target in previous_gates:  # type: ignore # Overlapping gate
-                    # Start a new CNOT layer
-                    previous_gates = []
-                    depth += 1
-                else:
-                    previous_gates += [g.control, g.target]  # type: ignore
+                # The gate is in the first layer after all earlier gates on its qubits
+                layer = max(qubit_depth.get(g.control, 0), qubit_depth.get(g.target, 0)) + 1  # type: ignore
+                qubit_depth[g.control] = qubit_depth[g.target] = layer  # type: ignore
+                depth = max(depth, layer)
         return depth
 
     def row_add(self, q0: int, q1: int):
         """Track a row addition operation on the matrix"""
         self.add_gate("CNOT", q0, q1)
-        self.matrix.row_add(q0, q1)
 
     def add_gate(self, gate: Union[Gate,str], *args, **kwargs):
+        if isinstance(gate, str):
+            gate_class = gate_types[gate]
+            gate = gate_class(*args, **kwargs)
+        super().add_gate(gate)
         if isinstance(gate, CNOT):
-            self.row_add(gate.control, gate.target)
-        else:
-            super().add_gate(gate, *args, **kwargs)
+            self.matrix.row_add(gate.control, gate.target)
 
     def col_add(self, q0: int, q1: int):
         """Track a column addition operation on the matrix"""
         self.prepend_gate("CNOT", q1, q0)
-        self.matrix.col_add(q0, q1)
 
     @staticmethod
     def get_metric_names() -> List[str]:
@@ -105,6 +103,8 @@ class CNOT_tracker(Circuit):
             gate_class = gate_types[gate]
             gate = gate_class(*args, **kwargs)
         self.gates.insert(0, gate)
+        if isinstance(gate, CNOT):
+            self.matrix.col_add(gate.target, gate.control)
 
     def to_qasm(self, version: int = 2) -> str:
         qasm = super().to_qasm(version)
@@ -115,7 +115,7 @@ class CNOT_tracker(Circuit):
     @staticmethod
     def from_circuit(circuit: Circuit) -> "CNOT_tracker":
         new_circuit = CNOT_tracker(circuit.qubits, name=circuit.name)
-        new_circuit.gates = circuit.gates
+        new_circuit.gates = list(circuit.gates)
         new_circuit.update_matrix()
         return new_circuit
 
-- 
2.43.0


From effd9830186c2d814077987a3d3566b2f4cee5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 50/87] fix: Parity supports item assignment

---
 pyzx/routing/parity_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 6b4c005..07520ef 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -177,7 +177,7 @@ class Parity:
     def __getitem__(self, i):
         return self.parity[i]
 
-    def __set_item__(self, i, v):
+    def __setitem__(self, i, v):
         self.parity[i] = v
 
     def __eq__(self, other):
-- 
2.43.0


From f5ecba3c4fc4dc34e73c9d5e7fd4cad396842485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 51/87] fix: gauss returns the rank in STEINER_MODE

---
 pyzx/routing/cnot_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/cnot_mapper.py b/pyzx/routing/cnot_mapper.py
index 690998d..5c172d2 100644
--- a/pyzx/routing/cnot_mapper.py
+++ b/pyzx/routing/cnot_mapper.py
@@ -205,7 +205,7 @@ def gauss(
                 "with type",
                 type(matrix.data),
             )
-        rank = 0  # TODO: The rank is not being computed here
+        rank = matrix.rank()
     elif mode == ElimMode.GENETIC_STEINER_MODE:
         perm, circuit, rank = permuted_gauss(
             matrix,
-- 
2.43.0


From fb22a1fd795da160d7e1b02e72a2d4e900f727c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 52/87] fix: spider fusion and identity removal next to H-boxes
 avoid parallel edges the graph cannot store

---
 pyzx/rules.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index c70c2e0..322c21e 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -55,8 +55,8 @@ import itertools
 
 import numpy as np
 
-from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_z_like
-from .graph.base import BaseGraph, VT, ET
+from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_zx_like, vertex_is_z_like
+from .graph.base import BaseGraph, VT, ET, upair
 from .symbolic import Poly
 
 RewriteOutputType = Tuple[Dict[Tuple[VT,VT],List[int]], List[VT], List[ET], bool]
@@ -154,6 +154,11 @@ def match_spider(g: BaseGraph[VT,ET]) -> List[MatchSpiderType[VT]]:
     """Does the same as :func:`match_spider_parallel` but with ``num=1``."""
     return match_spider_parallel(g, num=1)
 
+def allows_parallel_edges(g: BaseGraph[VT,ET], v0: VT, v1: VT) -> bool:
+    """Returns whether ``g`` can store or resolve parallel edges between these vertices."""
+    return g.backend == 'multigraph' or (vertex_is_zx_like(g.type(v0)) and vertex_is_zx_like(g.type(v1)))
+
+
 def match_spider_parallel(
         g: BaseGraph[VT,ET],
         matchf:Optional[Callable[[ET],bool]]=None,
@@ -185,6 +190,8 @@ def match_spider_parallel(
         v1t = types[v1]
         if (v0t == v1t and vertex_is_zx(v0t)) or \
             (vertex_is_z_like(v0t) and vertex_is_z_like(v1t)):
+            common = set(g.neighbors(v0)).intersection(g.neighbors(v1))
+            if not all(allows_parallel_edges(g, v0, v) for v in common): continue
             i += 1
             for v in g.neighbors(v0):
                 for c in g.incident_edges(v): candidates.discard(c)
@@ -789,6 +796,7 @@ def match_ids_parallel(
 
     i = 0
     m:List[MatchIdType[VT]] = []
+    pairs: Set[Tuple[VT,VT]] = set()
 
     while (num == -1 or i < num) and len(candidates) > 0:
         v = candidates.pop()
@@ -801,6 +809,9 @@ def match_ids_parallel(
                 g.is_ground(v1) and types[v0] == VertexType.BOUNDARY):
             # Do not put ground spiders on the boundary
             continue
+        if not allows_parallel_edges(g, v0, v1):
+            if g.connected(v0,v1) or upair(v0,v1) in pairs: continue
+            pairs.add(upair(v0,v1))
         candidates.discard(v0)
         candidates.discard(v1)
         if g.edge_type(g.edge(v,v0)) != g.edge_type(g.edge(v,v1)): #exactly one of them is a hadamard edge
-- 
2.43.0


From a43573a47f0df8d5c942d25f2db4f324c0328f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 53/87] fix: fusing H-boxes and turning them into edges avoids
 parallel edges and interacting matches

---
 pyzx/hrules.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 13d36f4..2b86ea3 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -36,6 +36,7 @@ def match_hadamards(g: BaseGraph[VT,ET],
         if ty[v] == VertexType.H_BOX and g.vertex_degree(v) == 2 and g.phase(v) == 1:
             n1,n2 = g.neighbors(v)
             if n1 in taken or n2 in taken: continue
+            if g.connected(n1,n2) and not rules.allows_parallel_edges(g, n1, n2): continue
             if n1 not in m and n2 not in m: 
                 m.add(v)
                 taken.add(n1)
@@ -74,9 +75,11 @@ def match_connected_hboxes(g: BaseGraph[VT,ET],
         v1,v2 = g.edge_st(e)
         if ty[v1] != VertexType.H_BOX or ty[v2] != VertexType.H_BOX: continue
         if g.phase(v1) != 1 and g.phase(v2) != 1: continue
+        common = set(g.neighbors(v1)).intersection(g.neighbors(v2))
+        if not all(rules.allows_parallel_edges(g, v1, n) for n in common): continue
         m.add(e)
-        candidates.difference_update(g.incident_edges(v1))
-        candidates.difference_update(g.incident_edges(v2))
+        for v in set(g.neighbors(v1)) | set(g.neighbors(v2)):
+            candidates.difference_update(g.incident_edges(v))
     return list(m)
 
 def fuse_hboxes(g: BaseGraph[VT,ET], matches: List[ET]) -> rules.RewriteOutputType[VT,ET]:
-- 
2.43.0


From 76c51523d02ccf33e6fb677741f50edd27debe2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 54/87] fix: the parallel NOT rule needs a white spider on a
 regular wire

---
 pyzx/hrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 2b86ea3..8543740 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -237,7 +237,7 @@ def match_hbox_parallel_not(
         for n in g.neighbors(h):
             if g.vertex_degree(n) != 2 or phases[n] != 1: continue # If it turns out to be useful, this rule can be generalised to allow spiders of arbitrary phase here
             v = [v for v in g.neighbors(n) if v != h][0] # The other neighbor of n
-            if not g.connected(v,h): continue
+            if types[v] != VertexType.Z or not g.connected(v,h) or g.edge_type(g.edge(v,h)) != EdgeType.SIMPLE: continue
             if not is_NOT_gate(g,n,h,v):
                 continue
             break
-- 
2.43.0


From 06efdc5c993863ea59acd67a0101af41082aca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 55/87] fix: hyperpivot scalars, repeated targets and
 neighbours that are not white spiders

---
 pyzx/hrules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/hrules.py b/pyzx/hrules.py
index 8543740..d2182c6 100644
--- a/pyzx/hrules.py
+++ b/pyzx/hrules.py
@@ -483,6 +483,7 @@ def match_hpivot(
         ): continue
 
         v0, v1 = g.neighbors(h)
+        if any(types[v] != VertexType.Z or phases[v] != 0 for v in (v0, v1)): continue
 
         v0n = set(g.neighbors(v0))
         v1n = set(g.neighbors(v1))
@@ -545,7 +546,8 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
     h, v0, v1, v0b, v1b, v0nn, v1nn = m[0]
     g.remove_vertices([v for v in g.neighbors(v0) if types[v] == VertexType.H_BOX])
     g.remove_vertices([v for v in g.neighbors(v1) if types[v] == VertexType.H_BOX])
-    g.scalar.add_power(2) # Applying a Fourier Hyperpivot adds a scalar of 2
+    # Applying a Fourier Hyperpivot adds a scalar of 2, and toggling the edge to a boundary one of 1/sqrt(2)
+    g.scalar.add_power(2 - len(v0b) - len(v1b))
     
     if len(v0b) == 0:
         g.remove_vertex(v0)
@@ -567,10 +569,11 @@ def hpivot(g: BaseGraph[VT,ET], m: hpivot_match_output) -> None:
             f_phase = (phase * phase_mult) % 2
             if f_phase == 0: continue
             for vvs in combinations(v0nn, weight):
-                us = tuple(sorted(sum(vvs, ws)))
+                us = tuple(sorted(set(sum(vvs, ws))))
 
-                # TODO: check if this is the right thing to do (and update scalar)
-                if len(us) == 0: continue
+                if len(us) == 0: # An H-box without wires is just a scalar
+                    g.scalar.add_phase(f_phase)
+                    continue
 
                 # if us in hboxes:
                 #     h0 = hboxes[us]
-- 
2.43.0


From 27f716bd016be22896ee2613fefeef0220c5b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 56/87] fix: from_hypergraph_form keeps H-boxes behind Hadamard
 edges

---
 pyzx/hsimplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/hsimplify.py b/pyzx/hsimplify.py
index f20e572..a049b99 100644
--- a/pyzx/hsimplify.py
+++ b/pyzx/hsimplify.py
@@ -118,7 +118,7 @@ def from_hypergraph_form(g: BaseGraph[VT,ET]) -> None:
     for h in hs:
         if g.vertex_degree(h) == 1:
             n = next(iter(g.neighbors(h)))
-            if types[n] == VertexType.Z:
+            if types[n] == VertexType.Z and g.edge_type(g.edge(h,n)) == EdgeType.SIMPLE:
                 g.set_phase(n, phases[n] + phases[h])
                 g.remove_vertex(h)
     hadamard_simp(g,quiet=True)
-- 
2.43.0


From 4d8ee99fee2c44e45f7ce791cc0d38f7ec1e1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 57/87] fix: pi_commute_Z inserts NOTs, keeps the scalar and
 iterates over a copy of the neighbours

---
 pyzx/basicrules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 18eebc0..0ce3027 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -141,8 +141,9 @@ def check_pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
 
 def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
     if not check_pi_commute_Z(g, v): return False
+    g.scalar.add_phase(g.phase(v))
     g.set_phase(v, -g.phase(v))
-    ns = g.neighbors(v)
+    ns = list(g.neighbors(v))
     for w in ns:
         e = g.edge(v, w)
         et = g.edge_type(e)
@@ -153,7 +154,8 @@ def pi_commute_Z(g: BaseGraph[VT, ET], v: VT) -> bool:
             g.remove_edge(e)
             c = g.add_vertex(VertexType.X,
                     qubit=0.5*(g.qubit(v) + g.qubit(w)),
-                    row=0.5*(g.row(v) + g.row(w)))
+                    row=0.5*(g.row(v) + g.row(w)),
+                    phase=1)
             g.add_edge((v, c))
             g.add_edge((c, w), edgetype=et)
     return True
-- 
2.43.0


From 4e08948ab444fd77de90417c5f2c0e4d9e670627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 58/87] fix: remove_id only removes spiders and boxes that are
 identities

---
 pyzx/basicrules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 0ce3027..15b472c 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -47,9 +47,9 @@ __all__ = ['color_change_diagram',
 
 from typing import Tuple, List
 from .graph.base import BaseGraph, VT, ET
-from .rules import apply_rule, w_fusion, z_to_z_box
+from .rules import allows_parallel_edges, apply_rule, w_fusion, z_to_z_box
 from .utils import (EdgeType, VertexType, get_w_io, get_z_box_label, is_pauli,
-                    set_z_box_label, vertex_is_w, vertex_is_z_like, toggle_vertex, toggle_edge)
+                    set_z_box_label, vertex_is_w, vertex_is_zx, vertex_is_z_like, toggle_vertex, toggle_edge)
 
 def color_change_diagram(g: BaseGraph[VT,ET]):
     """Color-change an entire diagram by applying Hadamards to the inputs and ouputs."""
@@ -241,11 +241,14 @@ def fuse_w(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
     return True
 
 def check_remove_id(g: BaseGraph[VT,ET], v: VT) -> bool:
-    if not g.vertex_degree(v) == 2:
+    if not g.vertex_degree(v) == 2 or len(g.neighbors(v)) != 2:
+        return False
+    v1, v2 = g.neighbors(v)
+    if g.connected(v1, v2) and not allows_parallel_edges(g, v1, v2):
         return False
     if g.type(v) == VertexType.Z_BOX and get_z_box_label(g, v) == 1:
         return True
-    elif g.type(v) != VertexType.Z_BOX and g.phase(v) == 0:
+    elif vertex_is_zx(g.type(v)) and g.phase(v) == 0:
         return True
     return False
 
-- 
2.43.0


From 69440dcee203f0dfc0a0497a2f1455c2d580bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 59/87] fix: pushing Paulis does not use interacting matches
 and keeps the scalar of H-boxes

---
 pyzx/editor_actions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index 25b119f..e696f6d 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -18,7 +18,7 @@
 import json
 from fractions import Fraction
 
-from typing import Callable, Optional, List, Dict, Tuple
+from typing import Callable, Optional, List, Dict, Set, Tuple
 
 from .utils import EdgeType, VertexType, FractionLike
 from .utils import toggle_edge, vertex_is_zx, toggle_vertex
@@ -69,11 +69,12 @@ def pauli_matcher(
     paulis = {v for v in candidates
                 if phases[v] == 1 and vertex_is_zx(types[v])}
     if not paulis: return m
+    taken: Set[VT] = set()
     while len(candidates) > 0:
         v = candidates.pop()
         if v in paulis and g.vertex_degree(v) == 2: continue
         for w in g.neighbors(v):
-            if w in paulis: break
+            if w in paulis and w not in taken: break
         else:
             continue
         et = g.edge_type(g.edge(v,w))
@@ -84,8 +85,8 @@ def pauli_matcher(
                 (et == EdgeType.HADAMARD and types[w] == VertexType.Z)))
             ):
             m.append((w,v))
-            candidates.difference_update(g.neighbors(v))
-            candidates.difference_update(g.neighbors(w))
+            taken.update((v,w), g.neighbors(v), g.neighbors(w))
+            candidates.difference_update(taken)
     return m
 
 
@@ -131,6 +132,7 @@ def pauli_push(g: BaseGraph[VT,ET],
         if not vertex_is_zx(g.type(v)): # v is H_BOX
             if len(new_verts) == 2:
                 etab[upair(new_verts[0],new_verts[1])] = [0,1]
+                g.scalar.add_power(1) # Correct for the sqrt(2) difference in H-boxes and H-edges
             else:
                 r = (g.row(v) + sum(g.row(n) for n in new_verts)) / (len(new_verts) + 1)
                 q = (g.qubit(v) + sum(g.qubit(n) for n in new_verts))/(len(new_verts)+1)
-- 
2.43.0


From d28244370aaf0ff5534c84d852d331b5f1286efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:59 +0000
Subject: [PATCH 60/87] fix: scalar of the bialgebra rule for H-boxes

---
 pyzx/editor_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/editor_actions.py b/pyzx/editor_actions.py
index e696f6d..c44d950 100644
--- a/pyzx/editor_actions.py
+++ b/pyzx/editor_actions.py
@@ -275,7 +275,7 @@ def bialgebra(g: BaseGraph[VT,ET],
             g.scalar.add_power((g.vertex_degree(v)-2)*(g.vertex_degree(w)-2))
         else: #g.type(w) == VertexType.H_BOX
             t = VertexType.Z
-            g.scalar.add_power(g.vertex_degree(v)-2)
+            g.scalar.add_power(2-g.vertex_degree(v))
         for n in g.neighbors(w):
             if n == v: continue
             r = 0.6*g.row(w) + 0.4*g.row(n)
-- 
2.43.0


From a094909a71cbcf16c0ba80a87a0e4e570409bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 61/87] fix: graph differences keep vertex data, parallel
 edges, exact phases and variables

---
 pyzx/graph/diff.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index 66f2e64..b760abb 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -19,10 +19,10 @@ import json
 from collections import Counter
 from typing import Any, Callable, Generic, Optional, List, Dict, Tuple
 
-from ..utils import VertexType, EdgeType, FractionLike, FloatInt, phase_to_s
+from ..utils import VertexType, EdgeType, FractionLike, FloatInt
 from .base import BaseGraph, VT, ET
 from .graph_s import GraphS
-from .jsonparser import ComplexDecoder, ComplexEncoder, string_to_phase
+from .jsonparser import ComplexDecoder, ComplexEncoder, phase_to_string, string_to_phase
 
 class GraphDiff(Generic[VT, ET]):
 	removed_verts: List[VT]
@@ -70,8 +70,8 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_vertex_types[v] = g2.type(v)
 				if g1.phase(v) != g2.phase(v):
 					self.changed_phases[v] = g2.phase(v)
-				if g1._vdata.get(v, None) != g2._vdata.get(v, None):
-					self.changed_vdata[v] = g2._vdata.get(v, None)
+				if g1._vdata.get(v, {}) != g2._vdata.get(v, {}):
+					self.changed_vdata[v] = g2._vdata.get(v, {}).copy()
 				pos1 = g1.qubit(v), g1.row(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				if pos1 != pos2:
@@ -83,17 +83,17 @@ class GraphDiff(Generic[VT, ET]):
 					self.changed_phases[v] = g2.phase(v)
 				pos2 = g2.qubit(v), g2.row(v)
 				self.changed_pos[v] = pos2
+				if g2._vdata.get(v):
+					self.changed_vdata[v] = g2._vdata[v].copy()
 
 		for e in new_edges:
 			if e in old_edges:
 				if g1.edge_type(e) != g2.edge_type(e):
 					self.changed_edge_types[e] = g2.edge_type(e)
-			else:
-				if g2.edge_type(e) != EdgeType.HADAMARD: # We take Hadamard edges to be the default
-					self.changed_edge_types[e] = g2.edge_type(e)
 
 	def apply_diff(self,g: BaseGraph[VT,ET]) -> BaseGraph[VT,ET]:
 		g = copy.deepcopy(g)
+		g.variable_types.update(self.variable_types)
 		g.remove_edges(self.removed_edges)
 		g.remove_vertices(self.removed_verts)
 		for v in self.new_verts:
@@ -106,10 +106,7 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.changed_phases:
 				g.set_phase(v,self.changed_phases[v])
 			if v in self.changed_vdata:
-				g._vdata[v] = self.changed_vdata[v]
-		for st, ty in self.new_edges:
-			g.add_edge(st,ty)
-
+				g._vdata[v] = self.changed_vdata[v].copy()
 		for v in self.changed_pos:
 			if v in self.new_verts: continue
 			g.set_position(v,*self.changed_pos[v])
@@ -118,13 +115,20 @@ class GraphDiff(Generic[VT, ET]):
 			if v in self.new_verts: continue
 			g.set_type(v,self.changed_vertex_types[v])
 
+		# Now that the vertices have their type, the edges can be added, without simplifying the parallel ones
+		auto_simplify = getattr(g, '_auto_simplify', False)
+		if auto_simplify: g.set_auto_simplify(False) # type: ignore
+		for st, ty in self.new_edges:
+			g.add_edge(st,ty)
+		if auto_simplify: g.set_auto_simplify(True) # type: ignore
+
 		for v in self.changed_phases:
 			if v in self.new_verts: continue
 			g.set_phase(v,self.changed_phases[v])
 
 		for v in self.changed_vdata:
 			if v in self.new_verts: continue
-			g._vdata[v] = self.changed_vdata[v]
+			g._vdata[v] = self.changed_vdata[v].copy()
 
 		for e in self.changed_edge_types:
 			g.set_edge_type(e,self.changed_edge_types[e])
@@ -135,7 +139,7 @@ class GraphDiff(Generic[VT, ET]):
 		changed_edge_types_str_dict = {}
 		for key, value in self.changed_edge_types.items():
 			changed_edge_types_str_dict[f"{key[0]},{key[1]}"] = value # type: ignore
-		changed_phases_str = {k: phase_to_s(v) for k, v in self.changed_phases.items()}
+		changed_phases_str = {k: phase_to_string(v) for k, v in self.changed_phases.items()}
 		return json.dumps({
 			"removed_verts": self.removed_verts,
 			"new_verts": self.new_verts,
@@ -153,6 +157,7 @@ class GraphDiff(Generic[VT, ET]):
 	def from_json(json_str: str) -> "GraphDiff":
 		d = json.loads(json_str, cls=ComplexDecoder)
 		gd = GraphDiff(GraphS(),GraphS())
+		gd.variable_types = d["variable_types"]
 		gd.removed_verts = d["removed_verts"]
 		gd.new_verts = d["new_verts"]
 		gd.removed_edges = list(map(tuple, d["removed_edges"])) # type: ignore
-- 
2.43.0


From 7b1ca2407e274af7536f8337d97532db71f28a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 62/87] fix: substituting values in and dividing symbolic
 phases is exact

---
 pyzx/symbolic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 4a2db76..8af9253 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -136,7 +136,7 @@ class Term:
         """Substitute variables in the term with the given values. Returns a tuple
         of the coefficient and the new term.
         """
-        coeff: Union[float, complex, 'Fraction'] = 1.
+        coeff: Union[float, complex, 'Fraction'] = Fraction(1)
         new_vars = []
         for v, c in self.vars:
             if v in var_map:
@@ -202,8 +202,10 @@ class Poly:
     __rmul__ = __mul__
 
     def __truediv__(self, other: Union['Poly', Fraction, int, float, complex]) -> 'Poly':
-        if isinstance(other, (int, float, complex, Fraction)):
-            other = Poly([(other, Term([]))])
+        if isinstance(other, (int, Fraction)):
+            return self * Fraction(1, other)
+        if isinstance(other, (float, complex)):
+            return self * (1 / other)
         if len(other.terms) == 0:
             raise ZeroDivisionError("division by zero")
         quotient = Poly([])
-- 
2.43.0


From d09b3d913be5942398660493b281a59068f6c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 63/87] fix: a symbolic phase that is zero counts as false

---
 pyzx/symbolic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 8af9253..146e781 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -280,6 +280,9 @@ class Poly:
     def __hash__(self) -> int:
         return hash(tuple(sorted(self.terms)))
 
+    def __bool__(self) -> bool:
+        return any(c != 0 for c, _ in self.terms)
+
     @property
     def degree(self) -> int:
         powers = [sum(c for _, c in t.vars) for coeff, t in self.terms if coeff != 0]
-- 
2.43.0


From b7baa865690ba9b91fe9c618e83427c8024fcaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 64/87] fix: parsing products of numbers and Boolean variables

---
 pyzx/symbolic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/symbolic.py b/pyzx/symbolic.py
index 146e781..222c14d 100644
--- a/pyzx/symbolic.py
+++ b/pyzx/symbolic.py
@@ -373,7 +373,10 @@ class PolyTransformer(Transformer):
         return reduce(add, items)
 
     def term(self, items: List[Poly]) -> Poly:
-        return reduce(mul, items)
+        # The coefficients of Boolean terms are reduced modulo 2, so the numbers are multiplied in last
+        numbers = [p for p in items if not p.free_vars()]
+        variables = [p for p in items if p.free_vars()]
+        return reduce(mul, variables + ([reduce(mul, numbers)] if numbers else []))
 
     def neg(self, items: List[Poly]) -> Poly:
         return -items[0]
-- 
2.43.0


From 00d54a2cf410c85357b310d86aa34f17f4269e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 65/87] fix: scalar of strong complementarity with symbolic
 Pauli phases

---
 pyzx/basicrules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/basicrules.py b/pyzx/basicrules.py
index 15b472c..8e258b4 100644
--- a/pyzx/basicrules.py
+++ b/pyzx/basicrules.py
@@ -110,8 +110,7 @@ def strong_comp(g: BaseGraph[VT,ET], v1: VT, v2: VT) -> bool:
             g.add_edge((n1,n2))
 
     g.scalar.add_power((len(nhd[0]) - 1) * (len(nhd[1]) - 1))
-    if g.phase(v1) == 1 and g.phase(v2) == 1:
-        g.scalar.add_phase(1)
+    g.scalar.add_phase(g.phase(v1) * g.phase(v2))
 
     g.remove_vertex(v1)
     g.remove_vertex(v2)
-- 
2.43.0


From bdf1c405a6d7503166f3db817e8ab68bfcb0241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 66/87] fix: local complementation with symbolic phases that
 are constant

---
 pyzx/rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 322c21e..9ac6045 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -753,8 +753,7 @@ def lcomp(g: BaseGraph[VT,ET], matches: List[MatchLcompType[VT]]) -> RewriteOutp
     for m in matches:
         a = g.phase(m[0])
         rem.append(m[0])
-        assert isinstance(a,Fraction)  # For mypy
-        if a.numerator == 1: g.scalar.add_phase(Fraction(1,4))
+        if a == Fraction(1,2): g.scalar.add_phase(Fraction(1,4))
         else: g.scalar.add_phase(Fraction(7,4))
         n = len(m[1])
         g.scalar.add_power((n-2)*(n-1)//2)
-- 
2.43.0


From fa2f7e22ceedd35540d6f2b5e5a90688f8647177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 67/87] fix: boundary pivots, gadgets, supplementarity and
 phase teleportation with symbolic phases

---
 pyzx/rules.py    | 10 +++++-----
 pyzx/simplify.py | 12 ++++++------
 pyzx/utils.py    |  7 +++++++
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index 9ac6045..dd88819 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -55,7 +55,7 @@ import itertools
 
 import numpy as np
 
-from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_zx_like, vertex_is_z_like
+from .utils import VertexType, EdgeType, get_w_partner, get_z_box_label, phase_is_non_clifford, set_z_box_label, toggle_edge, vertex_is_w, vertex_is_zx, FloatInt, FractionLike, get_w_io, vertex_is_zx_like, vertex_is_z_like
 from .graph.base import BaseGraph, VT, ET, upair
 from .symbolic import Poly
 
@@ -587,7 +587,7 @@ def match_pivot_boundary(
                     wrong_match = True
             if len(boundaries) != 1 or wrong_match: # n is not on the boundary,
                 continue             # has too many boundaries or has neighbors of wrong type
-            if phases[n] and hasattr(phases[n], 'denominator') and phases[n].denominator == 2:
+            if phases[n] and not isinstance(phases[n], Poly) and phases[n].denominator == 2:
                 w = n
                 bound = boundaries[0]
             if not w:
@@ -851,8 +851,8 @@ def match_phase_gadgets(g: BaseGraph[VT,ET],vertexf:Optional[Callable[[VT],bool]
     outputs = g.outputs()
     # First we find all the phase-gadgets, and the list of vertices they act on
     for v in candidates:
-        non_clifford = phases[v] != 0 and getattr(phases[v], 'denominator', 1) > 2
         if isinstance(phases[v], Poly): non_clifford = True
+        else: non_clifford = phases[v] != 0 and phases[v].denominator > 2
         if non_clifford and len(list(g.neighbors(v)))==1:
             n = list(g.neighbors(v))[0]
             if phases[n] not in (0,1): continue # Not a real phase gadget (happens for scalar diagrams)
@@ -916,7 +916,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
     # First we find all the non-Clifford vertices and their list of neighbors
     while len(candidates) > 0:
         v = candidates.pop()
-        if phases[v] == 0 or phases[v].denominator <= 2: continue # Skip Clifford vertices
+        if not phase_is_non_clifford(phases[v]): continue # Skip Clifford vertices
         neigh = set(g.neighbors(v))
         if not neigh.isdisjoint(taken): continue
         par = frozenset(neigh)
@@ -933,7 +933,7 @@ def match_supplementarity(g: BaseGraph[VT,ET], vertexf:Optional[Callable[[VT],bo
             if v in taken: continue
         else: parities[par] = [v]
         for w in neigh:
-            if phases[w] == 0 or phases[w].denominator <= 2 or w in taken: continue
+            if not phase_is_non_clifford(phases[w]) or w in taken: continue
             diff = neigh.symmetric_difference(g.neighbors(w))
             if len(diff) == 2: # Perfect overlap
                 if (phases[v] + phases[w]) % 2 == 0 or (phases[v] - phases[w]) % 2 == 1:
diff --git a/pyzx/simplify.py b/pyzx/simplify.py
index a8bdd7a..1fec9b2 100644
--- a/pyzx/simplify.py
+++ b/pyzx/simplify.py
@@ -30,7 +30,7 @@ __all__ = ['bialg_simp','spider_simp', 'id_simp', 'phase_free_simp', 'pivot_simp
 from optparse import Option
 from typing import List, Callable, Optional, Union, Generic, Tuple, Dict, Iterator, cast
 
-from .utils import EdgeType, VertexType, toggle_edge, vertex_is_zx, toggle_vertex
+from .utils import EdgeType, VertexType, phase_is_non_clifford, toggle_edge, vertex_is_zx, toggle_vertex
 from .rules import *
 from .graph.base import BaseGraph, VT, ET
 from .circuit import Circuit
@@ -237,21 +237,21 @@ class Simplifier(Generic[VT, ET]):
         p2 = self.mastergraph.phase(v2)
         m1 = self.simplifygraph.phase_mult[i1]
         m2 = self.simplifygraph.phase_mult[i2]
-        if (p2 == 0 or p2.denominator <= 2): # Deleted vertex contains Clifford phase
+        if not phase_is_non_clifford(p2): # Deleted vertex contains Clifford phase
             if v2 in self.phantom_phases:
                 v3,i3 = self.phantom_phases[v2]
                 m2 = cast(Literal[1, -1], m2*self.simplifygraph.phase_mult[i3])
                 v2,i2 = v3,i3
                 p2 = self.mastergraph.phase(v2)
             else: return
-        if (p1 == 0 or p1.denominator <= 2): # Need to save non-Clifford location
+        if not phase_is_non_clifford(p1): # Need to save non-Clifford location
             self.simplifygraph.phase_mult[i1] = 1
             if v1 in self.phantom_phases: # Already fused with non-Clifford before
                 v3,i3 = self.phantom_phases[v1]
                 self.mastergraph.phase_index[v3] = i1
                 del self.mastergraph.phase_index[v1]
                 p1 = self.mastergraph.phase(v3)
-                if (p1+p2).denominator <= 2:
+                if not phase_is_non_clifford(p1+p2):
                     del self.phantom_phases[v1]
                 v1,i1 = v3,i3
                 m1 = cast(Literal[1, -1], m1*self.simplifygraph.phase_mult[i3])
@@ -259,7 +259,7 @@ class Simplifier(Generic[VT, ET]):
                 self.phantom_phases[v1] = (v2,i2)
                 self.simplifygraph.phase_mult[i2] = m2
                 return
-        if p1.denominator <= 2 or p2.denominator <= 2: raise Exception("Clifford phases here??")
+        if not phase_is_non_clifford(p1) or not phase_is_non_clifford(p2): raise Exception("Clifford phases here??")
         # Both have non-Clifford phase
         if m1*m2 == 1: phase = (p1 + p2)%2
         else: phase = p1 - p2
@@ -308,7 +308,7 @@ def tcount(g: Union[BaseGraph[VT,ET], Circuit]) -> int:
     count = 0
     phases = g.phases()
     for v in g.vertices():
-        if phases[v]!=0 and phases[v].denominator > 2:
+        if phase_is_non_clifford(phases[v]):
             count += 1
     return count
 
diff --git a/pyzx/utils.py b/pyzx/utils.py
index 6724137..ba29676 100644
--- a/pyzx/utils.py
+++ b/pyzx/utils.py
@@ -114,6 +114,13 @@ def phase_is_clifford(phase: FractionLike):
     else:
         return phase.is_clifford
 
+def phase_is_non_clifford(phase: FractionLike) -> bool:
+    """Whether the phase is not a multiple of pi/2. Symbolic phases only count as Clifford
+    if they are a multiple of pi/2 for any value of their variables."""
+    if isinstance(phase, Poly):
+        return not phase.is_clifford
+    return phase != 0 and phase.denominator > 2
+
 def phase_is_pauli(phase: FractionLike):
     if isinstance(phase, (Fraction, int)):
         return phase in (0, 1)
-- 
2.43.0


From 7f05ad25cfcaa108a547b9f30fae66bc219854a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:28 +0000
Subject: [PATCH 68/87] fix: Mat2.gauss keeps no pivot columns between calls

---
 pyzx/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyzx/linalg.py b/pyzx/linalg.py
index f042408..8730c8e 100644
--- a/pyzx/linalg.py
+++ b/pyzx/linalg.py
@@ -144,7 +144,7 @@ class Mat2(object):
         """Permute the columns of the matrix according to the permutation p."""
         self.data = [[self.data[i][j] for j in p] for i in range(self.rows())]
     
-    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:List[int]=[]) -> int:
+    def gauss(self, full_reduce:bool=False, x:Any=None, y:Any=None, blocksize:int=6, pivot_cols:Optional[List[int]]=None) -> int:
         """Compute the echelon form. Returns the number of non-zero rows in the result, i.e.
         the rank of the matrix.
 
@@ -174,7 +174,7 @@ class Mat2(object):
 
         rows = self.rows()
         cols = self.cols()
-        #pivot_cols = []
+        if pivot_cols is None: pivot_cols = []
         pivot_row = 0
         for sec in range(math.ceil(cols / blocksize)):
             i0 = sec * blocksize
-- 
2.43.0


From c020f5a4de3af1c7adfe337962b6a88ebf6fb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:28 +0000
Subject: [PATCH 69/87] fix: the parity of a number has as many qubits as asked
 for

---
 pyzx/routing/parity_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/routing/parity_maps.py b/pyzx/routing/parity_maps.py
index 07520ef..81fae57 100644
--- a/pyzx/routing/parity_maps.py
+++ b/pyzx/routing/parity_maps.py
@@ -143,7 +143,8 @@ class Parity:
 
     def __init__(self, par: Union[str, int, Iterable[Any]], n_qubits: Optional[int] = None):
         if isinstance(par, int):
-            self.parity = [bool(par & (1 << i)) for i in reversed(range(par.bit_length()))]
+            n_bits = max(par.bit_length(), n_qubits or 0)
+            self.parity = [bool(par & (1 << i)) for i in reversed(range(n_bits))]
         elif isinstance(par, str):
             self.parity = [p != "0" for p in par]
         else:
-- 
2.43.0


From 39eb631f5a9e10cf10c83f95124eb8bb6c0b4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:28 +0000
Subject: [PATCH 70/87] fix: random circuits of phase gadgets

---
 pyzx/generate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index a87dcce..7cf8212 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -657,13 +657,13 @@ def phase_poly_from_gadgets(n_qubits: int, n_gadgets: int) -> Circuit:
     :return: A random phase polynomial circuit.
     """
     parities: Set[Parity] = set()
-    if n_gadgets > 2**n_qubits:
-        n_gadgets = n_qubits ^ 3
+    if n_gadgets > 2**n_qubits - 1:
+        n_gadgets = 2**n_qubits - 1
     if n_qubits < 26:
         for integer in np.random.choice(
             2**n_qubits - 1, replace=False, size=n_gadgets
         ):
-            parities.add(Parity(integer + 1, n_qubits))
+            parities.add(Parity(int(integer) + 1, n_qubits))
     elif n_qubits < 64:
         while len(parities) < n_gadgets:
             parities.add(Parity(np.random.randint(1, 2**n_qubits), n_qubits))
-- 
2.43.0


From 64c876240cf1f125393457fff898c2eade5410af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:28 +0000
Subject: [PATCH 71/87] fix: matroid partitioning finds the least number of
 parts

---
 pyzx/routing/phase_poly.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index b3ad677..a086d9d 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -403,18 +403,16 @@ class PhasePoly:
             }
             # Check which parities can be added to another partition
             for partition in partitions:
-                # Check if the new parity can be added to the partition
-                if self._independent(list(partition) + [parity]):
-                    add_edge(graph, vs_dict, parity, partition)
-                for p in partition:
-                    # Check if p can be replaced with the new parity in the partition
-                    for partition2 in partitions:
-                        if partition2 != partition:
-                            for p2 in partition2:
-                                # Check if p2 can be replaced with p in their partitions
-                                new_partition = [e for e in partition if e != p] + [p2]
-                                if self._independent(new_partition):
-                                    add_edge(graph, vs_dict, p2, p)
+                others = [p for p2 in partitions if p2 != partition for p in p2]
+                for p2 in [parity] + others:
+                    # Check if p2 can be added to the partition
+                    if self._independent(partition + [p2]):
+                        add_edge(graph, vs_dict, p2, partition)
+                    for p in partition:
+                        # Check if p can be replaced with p2 in the partition
+                        new_partition = [e for e in partition if e != p] + [p2]
+                        if self._independent(new_partition):
+                            add_edge(graph, vs_dict, p2, p)
             # Find a path from the parity to a partition
             path = self._dfs([(parity, [parity])], graph, vs_dict, partitions)
             if path != []:
@@ -423,12 +421,12 @@ class PhasePoly:
                 p_idx = partitions.index(
                     path[-1]
                 )  # Last element in the path is always a partition
-                for p1, p2 in zip(path[:-1], path[1:]):
-                    # Replace p2 with p1 in p1's partition
+                for p1, p2 in zip(path[:-2], path[1:-1]):
+                    # Replace p2 with p1 in p2's partition
                     for partition in partitions:
-                        if p1 in partition:
-                            partition.pop(p1)
-                            partition.append(p2)
+                        if p2 in partition:
+                            partition.remove(p2)
+                            partition.append(p1)
                 partitions[p_idx].append(path[-2])
             else:
                 # Make a new partition if no such path exists.
-- 
2.43.0


From 3a119dbf7d89ca071eb3195503c0ac82cbd41d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:28 +0000
Subject: [PATCH 72/87] fix: placing the parities of a matroid partition

---
 pyzx/routing/phase_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/routing/phase_poly.py b/pyzx/routing/phase_poly.py
index a086d9d..53b61cb 100644
--- a/pyzx/routing/phase_poly.py
+++ b/pyzx/routing/phase_poly.py
@@ -488,7 +488,7 @@ class PhasePoly:
     def _place_parities(self, parities: Union[Mat2, MatLike]) -> List[int]:
         if isinstance(parities, Mat2):
             parities = parities.data
-        permutation = [0] * self.n_qubits
+        permutation: List[Any] = [None] * self.n_qubits
         skipped_parities = []
         # Greedily map identity rows
         for i, parity in enumerate(parities):
-- 
2.43.0


From 32685b11df9d0d90398cc9901e11597834b26102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:32 +0000
Subject: [PATCH 73/87] fix: todd_on_graph leaves alone what is not a proper
 phase gadget

---
 pyzx/todd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyzx/todd.py b/pyzx/todd.py
index f8742f6..e917827 100644
--- a/pyzx/todd.py
+++ b/pyzx/todd.py
@@ -450,11 +450,17 @@ def todd_on_graph(g: BaseGraph[VT,ET]) -> None:
     t_nodes = []
     inputs = g.inputs()
     outputs = g.outputs()
+    leaves = [v for v in g.vertices() if v not in inputs and v not in outputs and len(list(g.neighbors(v)))==1]
+    hubs = {n for v in leaves for n in g.neighbors(v)}
     for v in g.vertices():
-        if v not in inputs and v not in outputs and len(list(g.neighbors(v)))==1:
+        if v in leaves:
             if g.phase(v) != 0 and g.phase(v).denominator != 4: continue
             n = list(g.neighbors(v))[0]
             tgts = frozenset(set(g.neighbors(n)).difference({v}))
+            # Anything but a phase gadget on its own set of spiders is left alone
+            if len(tgts) < 2 or tgts in gadgets or g.phase(n) != 0 or any(t in leaves or t in hubs for t in tgts): continue
+            if any(g.type(w) != VertexType.Z for w in [v,n,*tgts]): continue
+            if any(g.edge_type(e) != EdgeType.HADAMARD for e in g.incident_edges(n)): continue
             gadgets[tgts] = (n,v)
         if g.phase(v) != 0 and g.phase(v).denominator == 4:
             t_nodes.append(v)
-- 
2.43.0


From 02173f81ee5ce337e659f75472daaa9b44a6c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:04 +0000
Subject: [PATCH 74/87] fix: inner products of states whose outputs are joined
 to each other

---
 pyzx/simulate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 0b4c295..3efd397 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -110,7 +110,8 @@ class SumGraph(object):
                 g.set_type(v, VertexType.Z)
                 g.set_phase(v, phases[i])
             g.set_outputs(())
-            g.add_edges([(vs[i1],vs[i2]) for (i1,i2) in connections],EdgeType.HADAMARD)
+            for i1,i2 in connections: # The outputs might already be connected to each other
+                g.add_edge((vs[i1],vs[i2]),EdgeType.HADAMARD)
             g.scalar.add_power(len(connections))
             # Now that we have composed g with a right sort of effect, 
             # we need to calculate the value of the resulting inner product.
-- 
2.43.0


From dc3e05f0cfdd90ff8f1fdcf328ad57d8e1553975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 75/87] fix: calculate_path_sum with phase-free spiders and
 degenerate gadgets

---
 pyzx/simulate.py | 53 ++++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/pyzx/simulate.py b/pyzx/simulate.py
index 3efd397..b7bdc4b 100644
--- a/pyzx/simulate.py
+++ b/pyzx/simulate.py
@@ -225,39 +225,26 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
     Calculates the scalar it represents."""
     if g.num_vertices() < 2: return g.to_tensor().flatten()[0]
     phases = g.phases()
+    if any(isinstance(phase, Poly) for phase in phases.values()):
+        raise NotImplementedError("Symbolic phases not supported")
     prefactor = 0
-    variable_dict : Dict[VT,int] = dict()
-    variables: List[int] = [] # Contains the phases of each of the variables
-    czs = []
-    xors = dict()
+    axles: Dict[VT,VT] = dict() # The phase gadgets: maps axles to leaves
     for v in g.vertices():
-        if v in variable_dict: continue
-        if not phases[v]: continue #It is the axle of a phase gadget, ignore it
-        if g.vertex_degree(v) == 1: # Probably phase gadget
-            w = list(g.neighbors(v))[0]
-            if not phases[w]: # It is indeed a phase gadget
-                targets = set()
-                for t in g.neighbors(w):
-                    if t == v: continue
-                    if t not in variable_dict:
-                        variable_dict[t] = len(variables)
-                        phase_t = phases[t]
-                        if isinstance(phase_t, Poly):
-                            raise NotImplementedError("Symbolic phases not supported")
-                        variables.append(int(float(phase_t*4)))
-                    targets.add(variable_dict[t])
-                prefactor += len(targets)-1
-                phase_v = phases[v]
-                if isinstance(phase_v, Poly):
-                    raise NotImplementedError("Symbolic phases not supported")
-                xors[frozenset(targets)] = int(float(phase_v*4))
-                continue
-        variable_dict[v] = len(variables)
-        phase_v = phases[v]
-        if isinstance(phase_v, Poly):
-            raise NotImplementedError("Symbolic phases not supported")
-        variables.append(int(float(phase_v*4)))
-    verts = sorted(list(variable_dict.keys()), key=lambda x: variable_dict[x])
+        if g.vertex_degree(v) != 1: continue
+        w = list(g.neighbors(v))[0]
+        if phases[w] or g.vertex_degree(w) == 1: continue
+        if w in axles or any(t in axles for t in g.neighbors(w)): continue
+        axles[w] = v
+    leaves = set(axles.values())
+    verts = [v for v in g.vertices() if v not in axles and v not in leaves]
+    variable_dict = {v: i for i, v in enumerate(verts)}
+    variables = [phases[v] for v in verts]
+    czs = []
+    xors: Dict[Any,Any] = dict()
+    for w, v in axles.items():
+        targets = frozenset(variable_dict[t] for t in g.neighbors(w) if t != v)
+        prefactor += len(targets)-1
+        xors[targets] = xors.get(targets, 0) + phases[v]
     n = len(verts)
     for i in range(n):
         v = verts[i]
@@ -269,9 +256,9 @@ def calculate_path_sum(g: BaseGraph[VT,ET]) -> complex:
 
     c = Circuit(n)
     for i in range(n):
-        c.add_gate("ZPhase",i,phase=Fraction(variables[i],4))
+        c.add_gate("ZPhase",i,phase=variables[i])
     for tgts, phase in xors.items():
-        c.add_gate("ParityPhase", Fraction(phase,4), *list(tgts))
+        c.add_gate("ParityPhase", phase, *list(tgts))
     for i,j in czs:
         c.add_gate("CZ", i,j)
     g2 = c.to_graph()
-- 
2.43.0


From ac861bf726eed036d2ba1c870797f56a297976c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 76/87] fix: random congruences of diagrams without a place for
 them

---
 pyzx/local_search/congruences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyzx/local_search/congruences.py b/pyzx/local_search/congruences.py
index ee509b1..a7be5d3 100644
--- a/pyzx/local_search/congruences.py
+++ b/pyzx/local_search/congruences.py
@@ -147,6 +147,8 @@ def apply_rand_lc(g, weight_func=uniform_weights):
     """Applies local complementation to randomly selected spider"""
 
     lc_vs = [v for v in g.vertices() if is_lc_vertex(g, v)]
+    if not lc_vs:
+        return
     weights = weight_func(g, lc_vs)
     lc_v = np.random.choice(lc_vs, 1, p=weights)[0]
     lc_cong2(g, lc_v)
@@ -204,8 +206,9 @@ def pivot_cong(g, v1, v2):
 def apply_rand_pivot(g, weight_func=uniform_weights):
     """Applies pivoting to a randomly selected pair of connected spiders"""
 
-    # assumes len(candidates) != 0
     candidates = [e for e in g.edges() if is_pivot_edge(g, e)]
+    if not candidates:
+        return
     weights = weight_func(g, candidates)
     e_idx = np.random.choice(len(candidates), 1, p=weights)[0]
     e = candidates[e_idx]
-- 
2.43.0


From 57a8b32dadc957baf9aaa157a40bde200e1e77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 77/87] fix: the genetic optimiser returned and shared mutated
 members

---
 pyzx/local_search/genetic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyzx/local_search/genetic.py b/pyzx/local_search/genetic.py
index c347049..773ba6b 100644
--- a/pyzx/local_search/genetic.py
+++ b/pyzx/local_search/genetic.py
@@ -133,11 +133,10 @@ class GeneticOptimizer():
             ms_tmp = self.mutants.copy()
             ms_tmp = sorted(ms_tmp, key=lambda m: m.score)
             n = self.n_mutants // 2
-            top_half = ms_tmp[:n]
-            if self.n_mutants % 2 == 0:
-                self.mutants = deepcopy(top_half) * 2
-            else:
-                self.mutants = deepcopy(top_half) * 2 + deepcopy([ms_tmp[0]])
+            top_half = ms_tmp[:n] * 2
+            if self.n_mutants % 2 == 1:
+                top_half.append(ms_tmp[0])
+            self.mutants = [deepcopy(m) for m in top_half]
         elif method == "top_n":
             n = 10
             ms_tmp = self.mutants.copy()
@@ -175,7 +174,7 @@ class GeneticOptimizer():
         self.mutants = [Mutant(self.c_orig, self.g_orig) for _ in range(self.n_mutants)]
 
         self.update_scores()
-        best_mutant = min(self.mutants, key=lambda m: m.score)
+        best_mutant = deepcopy(min(self.mutants, key=lambda m: m.score)) # mutate() changes mutants in place
         best_score = best_mutant.score
 
         gen_scores = [best_score]
-- 
2.43.0


From 38599c153add0a1a6c2e612df1169e517baa639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 78/87] fix: generate.cnots returned its outputs in reverse
 order

---
 pyzx/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 7cf8212..2f98256 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -234,7 +234,7 @@ def cnots(qubits: int, depth: int, backend:Optional[str]=None) -> BaseGraph:
     outputs = []
     for i in range(qubits):
         inputs.append(i)
-        outputs.append(v-i-1)
+        outputs.append(v-qubits+i)
 
     g.set_inputs(tuple(inputs))
     g.set_outputs(tuple(outputs))
-- 
2.43.0


From 07f869a32ad1ca45f2b9bc9de9b911343b6c37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 79/87] fix: cliffordTmeas refused probabilities that sum to 1
 up to rounding

---
 pyzx/generate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index 2f98256..b4c6a9c 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -293,7 +293,8 @@ def cliffordTmeas(
     if p_meas is None: num += 1.0
     else: rest -= p_meas
 
-    if rest < 0: raise ValueError("Probabilities are >1.")
+    if rest < -1e-9: raise ValueError("Probabilities are >1.")
+    rest = max(rest, 0.0) # the sum can exceed 1 by a rounding error
 
     if p_t is None: p_t = rest / num
     if p_s is None: p_s = rest / num
-- 
2.43.0


From 9711573885e5b2fb3a6e01cbb88d84b70ec083dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 80/87] fix: CNOT_HAD_PHASE_circuit never returned on a single
 qubit

---
 pyzx/generate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/generate.py b/pyzx/generate.py
index b4c6a9c..1556e3e 100644
--- a/pyzx/generate.py
+++ b/pyzx/generate.py
@@ -153,6 +153,7 @@ def CNOT_HAD_PHASE_circuit(
             if not clifford: c.add_gate("T",random.randrange(qubits))
             else: c.add_gate("S",random.randrange(qubits))
         else:
+            if qubits < 2: raise ValueError("A CNOT gate needs at least two qubits")
             tgt = random.randrange(qubits)
             while True:
                 ctrl = random.randrange(qubits)
-- 
2.43.0


From bf5e92e2f1d89941a9fb70db03eecb5cbded339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 81/87] fix: pyzx cnots parsed the arguments of the wrong
 program

---
 pyzx/scripts/cnot_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/scripts/cnot_generator.py b/pyzx/scripts/cnot_generator.py
index 6b49273..2388928 100644
--- a/pyzx/scripts/cnot_generator.py
+++ b/pyzx/scripts/cnot_generator.py
@@ -57,7 +57,7 @@ parser.add_argument(
 
 
 def main(args):
-    args = parser.parse_args()
+    args = parser.parse_args(args)
     if args.n_cnots is None:
         parser.error(
             message="Please specify the number of CNOT gates to be generated with the -d flag."
-- 
2.43.0


From b2e3968004f3924b816508cf199a8c860e96dd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 82/87] fix: to_quimb_tensor raised on multigraphs

---
 pyzx/quimb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 3ddc8a3..574bcaf 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -67,7 +67,7 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
 
     # Hadamard or Kronecker tensors, one for each edge of the diagram.
     for i, edge in enumerate(g.edges()):
-        x, y = edge
+        x, y = g.edge_st(edge)
         isHadamard = g.edge_type(edge) == EdgeType.HADAMARD
         t = qtn.Tensor(data = qu.hadamard() if isHadamard else np.array([1, 0, 0, 1]).reshape(2, 2),
                        inds = (f'{x}', f'{y}'),
-- 
2.43.0


From a28d5141cb21457e44f4d6b7980863ae8df18caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 83/87] fix: to_quimb_tensor left out spiders without phase and
 edges

---
 pyzx/quimb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 574bcaf..e6fb873 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -55,8 +55,9 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
     tensors = []
 
     # Here we have phase tensors corresponding to Z-spiders with only one output and no input.
+    # A spider without any edges needs one as well, since no other tensor has its index.
     for v in g.vertices():
-        if g.type(v) == VertexType.Z and g.phase(v) != 0:
+        if g.type(v) == VertexType.Z and (g.phase(v) != 0 or g.vertex_degree(v) == 0):
             phase = g.phase(v)
             if isinstance(phase, Poly):
                 raise NotImplementedError("Quimb does not support symbolic phases")
-- 
2.43.0


From 9c90b4df81add7ef75b8bbecfe8358dd8694b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 84/87] fix: to_quimb_tensor ignored that the scalar is zero

---
 pyzx/quimb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index e6fb873..39db546 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -77,7 +77,6 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
 
     # TODO: This is not taking care of all the stuff that can be in g.scalar
     # In particular, it doesn't check g.scalar.phasenodes
-    # TODO: This will give the wrong tensor when g.scalar.is_zero == True.
     # Grab the float factor and exponent from the scalar
     phase = g.scalar.phase
     if isinstance(phase, Poly):
@@ -87,6 +86,8 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
         if isinstance(node, Poly):
             raise NotImplementedError("Quimb does not support symbolic phases")
         scalar_float *= 1 + np.exp(1j * np.pi * node)
+    if g.scalar.is_zero:
+        scalar_float = 0
     scalar_exp = math.log10(math.sqrt(2)) * g.scalar.power2
 
     # If the TN is empty, create a single 0-tensor with scalar factor, otherwise
-- 
2.43.0


From 129a1fc3b4fe167f395f57d4c0629ac07468451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 85/87] fix: to_quimb_tensor gave a wrong tensor for H-boxes,
 Z-boxes and W nodes

---
 pyzx/quimb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyzx/quimb.py b/pyzx/quimb.py
index 39db546..1cba036 100644
--- a/pyzx/quimb.py
+++ b/pyzx/quimb.py
@@ -52,6 +52,9 @@ def to_quimb_tensor(g: BaseGraph) -> "qtn.TensorNetwork": # type:ignore
     # only Z spiders are handled below
     to_gh(g)
     
+    if any(g.type(v) not in (VertexType.BOUNDARY, VertexType.Z) for v in g.vertices()):
+        raise NotImplementedError("Quimb only supports diagrams of Z and X spiders")
+
     tensors = []
 
     # Here we have phase tensors corresponding to Z-spiders with only one output and no input.
-- 
2.43.0


From 13d26b363cb212dd10c1bd022fe5257df827ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:13 +0000
Subject: [PATCH 86/87] fix: match_lcomp_parallel ignored the number of matches
 asked for

---
 pyzx/rules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyzx/rules.py b/pyzx/rules.py
index dd88819..2246e32 100644
--- a/pyzx/rules.py
+++ b/pyzx/rules.py
@@ -740,6 +740,7 @@ def match_lcomp_parallel(
         if not all(types[n] == VertexType.Z for n in vn): continue
 
         for n in vn: candidates.discard(n)
+        i += 1
         m.append((v,vn))
     return m
 
-- 
2.43.0


From 05178db383891f5952eef8234cb94bc4791ef030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:13 +0000
Subject: [PATCH 87/87] fix: Multigraph.edge_set returned a Counter, on which
 every edge-based matcher fails

---
 pyzx/graph/diff.py       | 8 ++++----
 pyzx/graph/multigraph.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyzx/graph/diff.py b/pyzx/graph/diff.py
index b760abb..6826612 100644
--- a/pyzx/graph/diff.py
+++ b/pyzx/graph/diff.py
@@ -52,15 +52,15 @@ class GraphDiff(Generic[VT, ET]):
 		new_verts = g2.vertex_set()
 		self.removed_verts = list(old_verts - new_verts)
 		self.new_verts = list(new_verts - old_verts)
-		old_edges = g1.edge_set()
-		new_edges = g2.edge_set()
+		old_edges = Counter(g1.edges())
+		new_edges = Counter(g2.edges())
 		self.new_edges = []
 		self.removed_edges = []
 
-		for e in Counter(new_edges - old_edges).elements():
+		for e in (new_edges - old_edges).elements():
 			self.new_edges.append((g2.edge_st(e), g2.edge_type(e)))
 
-		for e in Counter(old_edges - new_edges).elements():
+		for e in (old_edges - new_edges).elements():
 			s,t = g1.edge_st(e)
 			self.removed_edges.append(e)
 
diff --git a/pyzx/graph/multigraph.py b/pyzx/graph/multigraph.py
index b2b555c..dd104da 100644
--- a/pyzx/graph/multigraph.py
+++ b/pyzx/graph/multigraph.py
@@ -314,7 +314,7 @@ class Multigraph(BaseGraph[int,Tuple[int,int,EdgeType]]):
         return (s,t) if s < t else (t,s)
 
     def edge_set(self):
-        return Counter(self.edges())
+        return set(self.edges())
 
     def edge_st(self, edge):
         return (edge[0], edge[1])
-- 
2.43.0

