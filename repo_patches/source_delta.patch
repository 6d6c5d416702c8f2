From 6bf1a8aa7aaacdb70bb8285d3f243e998053d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 001/101] fix: graph adjacency queries fail on networkx 3
 (to_numpy_matrix was removed)

---
 ylearn/causal_model/graph.py | 6 +++---
 ylearn/exp_dataset/gen.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 00e6820..6052ee0 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -150,8 +150,8 @@ class CausalGraph:
         list
 
         """
-        W = nx.to_numpy_matrix(self.dag)
-        a, w_t = np.where(W >= 1), W.T.A
+        W = nx.to_numpy_array(self.dag)
+        a, w_t = np.where(W >= 1), W.T
         arcs, nodes = [], list(self.dag.nodes)
         for row, col in zip(a[0], a[1]):
             if w_t[row][col] >= 1 and (nodes[col], nodes[row]) not in arcs:
@@ -168,7 +168,7 @@ class CausalGraph:
     def to_adj_matrix(self):
         """Return the adjacency matrix.
         """
-        W = nx.to_numpy_matrix(self.dag)
+        W = nx.to_numpy_array(self.dag)
         return W
 
     # def to_adj_list(self):
diff --git a/ylearn/exp_dataset/gen.py b/ylearn/exp_dataset/gen.py
index b4e185a..f690e58 100644
--- a/ylearn/exp_dataset/gen.py
+++ b/ylearn/exp_dataset/gen.py
@@ -232,7 +232,7 @@ def simulate_er_dag(degree, nodes_dim, Bernoulli_trial, is_acyclic):
         return np.tril(A_und, k=is_acyclic)
 
     def _graph_to_adjmat(G):
-        return nx.to_numpy_matrix(G)
+        return nx.to_numpy_array(G)
 
     p = float(degree) / (nodes_dim - Bernoulli_trial)
     G_und = nx.generators.erdos_renyi_graph(n=nodes_dim, p=p)
-- 
2.43.0


From ddf8c063a33089bc0281d97961c0ccd6a64379be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 002/101] fix: nodes without edges are missing from the
 observed graph

---
 ylearn/causal_model/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 6052ee0..5fc0632 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -287,6 +287,7 @@ class CausalGraph:
             for para in v:
                 edges.append((para, k, 0))
         ob_dag = nx.MultiDiGraph()
+        ob_dag.add_nodes_from(self.causation.keys())
         ob_dag.add_edges_from(edges)
         return ob_dag
 
-- 
2.43.0


From 7cacb456514a10f0587acd65bc8b9c044762e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 003/101] fix: adding nodes in place does not register them in
 the causation

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index 5fc0632..cc0f378 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -334,7 +334,7 @@ class CausalGraph:
         ----------
         CausalGraph
         """
-        ori_nodes = self.dag.nodes
+        ori_nodes = set(self.dag.nodes)
 
         if not new:
             self.dag.add_nodes_from(nodes)
-- 
2.43.0


From fcc5b0cfaf42d73f7745df48ef494b382d23b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 004/101] fix: edges added to a new graph next to a latent arc
 cannot be removed again

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index cc0f378..b3bcfe6 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -380,7 +380,7 @@ class CausalGraph:
             new_dag = deepcopy(self.dag)
             new_causation = deepcopy(self.causation)
             if observed:
-                new_dag.add_edges_from(edge_list)
+                new_dag.add_edges_from([(e[0], e[1], 0) for e in edge_list])
                 for edge in edge_list:
                     new_causation[edge[1]].append(edge[0])
             else:
-- 
2.43.0


From 2159907376bc0267c25d6c6fd367b21114d09df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 005/101] fix: add_edge(observed=False) does not add a latent
 confounding arc

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index b3bcfe6..fba280b 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -410,7 +410,7 @@ class CausalGraph:
             self.dag.add_edge(s, t, 0)
             self.causation[t].append(s)
         else:
-            self.dag.add_edge(s, t, 'n')
+            self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
     def remove_nodes(self, nodes, new=False):
         """
-- 
2.43.0


From 4d12923318f8d44ee3bce879a7e8ff6ead6cca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 006/101] fix: editing a causal graph changes the parent lists
 of the caller

---
 ylearn/causal_model/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index fba280b..deee411 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -119,7 +119,7 @@ class CausalGraph:
             where U is an unobserved confounder of X and Y, can be converted
             equivalently to X <-->Y where <--> is a latent confounding arc.
         """
-        self.causation = defaultdict(list, causation)
+        self.causation = defaultdict(list, {k: list(v) for k, v in causation.items()})
         self.ava_nodes = self.causation.keys()
         self.dag = self.observed_dag.copy() if dag is None else dag
 
-- 
2.43.0


From 02d86cb9a6a207a34c10516bedbfb11c136ff7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 007/101] fix: an edge added twice stays in the causation after
 it is removed

---
 ylearn/causal_model/graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index deee411..e3f4031 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -369,7 +369,8 @@ class CausalGraph:
         if not new:
             if observed:
                 for edge in edge_list:
-                    self.causation[edge[1]].append(edge[0])
+                    if edge[0] not in self.causation[edge[1]]:
+                        self.causation[edge[1]].append(edge[0])
                     self.dag.add_edge(edge[0], edge[1], 0)
             else:
                 for edge in edge_list:
@@ -382,7 +383,8 @@ class CausalGraph:
             if observed:
                 new_dag.add_edges_from([(e[0], e[1], 0) for e in edge_list])
                 for edge in edge_list:
-                    new_causation[edge[1]].append(edge[0])
+                    if edge[0] not in new_causation[edge[1]]:
+                        new_causation[edge[1]].append(edge[0])
             else:
                 for edge in edge_list:
                     new_dag.add_edges_from(
@@ -408,7 +410,8 @@ class CausalGraph:
         """
         if observed:
             self.dag.add_edge(s, t, 0)
-            self.causation[t].append(s)
+            if s not in self.causation[t]:
+                self.causation[t].append(s)
         else:
             self.dag.add_edges_from([(s, t, 'n'), (t, s, 'n')])
 
-- 
2.43.0


From 32f6671ad2a27c84118ab7caf9f00877259e2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 008/101] fix: names of explicit unobserved variables clash
 with observed nodes

---
 ylearn/causal_model/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/causal_model/graph.py b/ylearn/causal_model/graph.py
index e3f4031..995a4ea 100644
--- a/ylearn/causal_model/graph.py
+++ b/ylearn/causal_model/graph.py
@@ -301,10 +301,12 @@ class CausalGraph:
         nx.MultiDiGraph
         """
         new_dag = self.observed_dag
+        observed_nodes = set(new_dag.nodes)
         for i, (node1, node2) in enumerate(self.latent_confounding_arcs):
-            new_dag.add_edges_from(
-                [(f'U{i}', node1, 'n'), (f'U{i}', node2, 'n')]
-            )
+            u = f'U{i}'
+            while u in observed_nodes:
+                u = f'U_{u}'
+            new_dag.add_edges_from([(u, node1, 'n'), (u, node2, 'n')])
         return new_dag
 
     @property
-- 
2.43.0


From cf25e0d1c9db439e55146ff2340bd39420281b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 009/101] fix: backdoor sets that do not satisfy the backdoor
 criterion are returned, valid ones are missed

---
 ylearn/api/_identifier.py    |  2 +-
 ylearn/causal_model/model.py | 25 ++++++++++++-------------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea4256c..458307a 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -160,7 +160,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
             instrument = []
 
         ids = cm.identify(treatment, outcome, identify_method=method)
-        covariate = list(set(ids['backdoor'][0]))
+        covariate = list(set(ids['backdoor'][0])) if ids['backdoor'] is not None else []
         covariate = [c for c in covariate if c != outcome and c not in treatment]
         if not is_empty(instrument):
             covariate = [c for c in covariate if c not in instrument]
diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index f1018b1..8e1e662 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -619,16 +619,9 @@ class CausalModel:
             treatment, new=True
         ).explicit_unob_var_dag
 
-        def determine(modified_dag, treatment, outcome):
-            if all([self.causal_graph.causation[t] == [] for t in treatment]):
-                return nx.d_separated(modified_dag, treatment, outcome, set())
-            return True
-
-        # raise exception if no set can be used as the backdoor set
-        if not determine(modified_dag, treatment, outcome):
-            print("No set can satisfy the backdoor criterion.")
-
-            return None
+        des_set = set()
+        for t in treatment:
+            des_set.update(nx.descendants(self.causal_graph.observed_dag, t))
 
         # Simply take all parents of both treatment and outcome as the backdoor set
         if adjust == "simple":
@@ -636,14 +629,20 @@ class CausalModel:
             backdoor_list = []
             for t in treatment:
                 backdoor_list += self.causal_graph.causation[t]
+            backdoor_list = [p for p in dict.fromkeys(backdoor_list) if p not in treatment]
             adset = set(backdoor_list)
+            # the parents do not block the backdoor paths through latent confounders
+            if adset & (des_set | outcome) or not nx.d_separated(
+                modified_dag, treatment, outcome, adset
+            ):
+                print("The parents of the treatment do not satisfy the backdoor criterion.")
+
+                return None
         # use other methods
         else:
             # Get all backdoor sets. currently implenmented
             # in a brutal force manner. NEED IMPROVEMENT
-            des_set, backdoor_set_list = set(), []
-            for t in treatment:
-                des_set.update(nx.descendants(self.causal_graph.observed_dag, t))
+            backdoor_set_list = []
             initial_set = set(list(ava_nodes)) - treatment - outcome - des_set
 
             if adjust == "minimal":
-- 
2.43.0


From 0b6b96347f3c551a6684e761d6073910aa20b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 010/101] fix: descendants of the treatment are accepted as a
 backdoor set

---
 ylearn/causal_model/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 8e1e662..5824218 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -566,6 +566,11 @@ class CausalModel:
         ava_nodes = self.causal_graph.causation.keys()
         check_nodes(ava_nodes, treatment, outcome, set_)
 
+        # a valid backdoor set contains no descendant of the treatments
+        for t in treatment:
+            if nx.descendants(self.causal_graph.observed_dag, t).intersection(set_):
+                return False
+
         # build the causal graph with unobserved variables explicit
         modified_dag = self.causal_graph.remove_outgoing_edges(
             treatment, new=True
-- 
2.43.0


From 607b7c2852bfa3045219573166c049b4029daa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 011/101] fix: has_collider finds a collider in paths which
 have none

---
 ylearn/causal_model/model.py | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 5824218..6481a7a 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -742,32 +742,14 @@ class CausalModel:
         dag = self.causal_graph.explicit_unob_var_dag
         check_nodes(dag.nodes, path)
 
-        if path[1] not in dag.predecessors(path[0]):
-            backdoor_path = False
-
         if len(path) > 2:
             assert nx.is_path(dag.to_undirected(), path), "Not a valid path."
 
-            j = 0
-            if backdoor_path:
-                if len(path) == 3:
-                    return False
-
-                for i, node in enumerate(path[1:], 1):
-                    if node in dag.successors(path[i - 1]):
-                        # if path[i] is the last element, then it is impossible
-                        # to have collider
-                        if i == len(path) - 1:
-                            return False
-                        j = i
-                        break
-                for i, node in enumerate(path[j + 1 :], j + 1):
-                    if node in dag.predecessors(path[i - 1]):
-                        return True
-            else:
-                for i, node in enumerate(path[1:], 1):
-                    if node in dag.predecessors(path[i - 1]):
-                        return True
+            # a node is a collider if both of its neighbors in the path point to it
+            for i, node in enumerate(path[1:-1], 1):
+                parents = set(dag.predecessors(node))
+                if path[i - 1] in parents and path[i + 1] in parents:
+                    return True
 
         return False
 
-- 
2.43.0


From 15f5b22e897eebdb7ea19ff3ad9fb298bdd4ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 012/101] fix: get_frontdoor_set empties the sets of its caller
 and splits long names

---
 ylearn/causal_model/model.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 6481a7a..a8e9445 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -799,7 +799,7 @@ class CausalModel:
             of treatments on outcomes.
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set_, set(treatment), set(outcome))
+        check_nodes(ava_nodes, set_, {treatment}, {outcome})
 
         # rule 1, intercept all directed paths from treatment to outcome
         for path in nx.all_simple_paths(
@@ -836,14 +836,15 @@ class CausalModel:
             2 elements (adjustment_set, Prob)
         """
         ava_nodes = self.causal_graph.causation.keys()
-        check_nodes(ava_nodes, set(treatment), set(outcome))
-
-        if type(treatment) is set and type(outcome) is set:
-            assert (
-                len(treatment) == 1 and len(outcome) == 1
-            ), "Treatment and outcome should be sets which contain one"
-            "element for frontdoor adjustment."
-            treatment, outcome = treatment.pop(), outcome.pop()
+        check_nodes(ava_nodes, treatment, outcome)
+
+        treatment = {treatment} if isinstance(treatment, str) else set(treatment)
+        outcome = {outcome} if isinstance(outcome, str) else set(outcome)
+        assert (
+            len(treatment) == 1 and len(outcome) == 1
+        ), "Treatment and outcome should be sets which contain one"
+        "element for frontdoor adjustment."
+        treatment, outcome = treatment.pop(), outcome.pop()
 
         # Find the initial set which will then be used to generate all
         # possible frontdoor sets with the method powerset()
-- 
2.43.0


From c784e97a287c92c7d4952368b2b6001ba8240ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 013/101] fix: a parent of the treatment is accepted in a
 frontdoor set

---
 ylearn/causal_model/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a8e9445..cc900f2 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -809,10 +809,11 @@ class CausalModel:
                 return False
 
         # rule 2, there is no unblocked back-door path from treatment to set_
-        for subset in set_:
-            for path in self.get_backdoor_path(treatment, subset):
-                if self.is_connected_backdoor_path(path):
-                    return False
+        modified_dag = self.causal_graph.remove_outgoing_edges(
+            {treatment}, new=True
+        ).explicit_unob_var_dag
+        if set_ and not nx.d_separated(modified_dag, {treatment}, set(set_), set()):
+            return False
 
         # rule 3, all backdoor paths from set_ to outcome are blocked by
         # treatment
-- 
2.43.0


From c6c2c15ef3e7978b8802043a1335b0465e3a7dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 014/101] fix: the outcome and its descendants are returned as
 instruments

---
 ylearn/causal_model/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index cc900f2..9ad3508 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -927,6 +927,7 @@ class CausalModel:
         exp_unob_graph = self.causal_graph.explicit_unob_var_dag
         modified_graph = remove_ingo_edges(exp_unob_graph, True, treatment)
         excluded_nodes_an = nx.ancestors(modified_graph, outcome)
+        excluded_nodes_an = excluded_nodes_an.union({outcome})
         waited_instrument.difference_update(excluded_nodes_an)
 
         # We also should not count on descendents of ancestors of the outcome which
-- 
2.43.0


From 16fc99d1f3bd4bda7ed2b8fbb534a6ee5172f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 015/101] fix: id() ignores the current distribution after the
 recursion to a c-component

---
 ylearn/causal_model/model.py | 27 ++++++++++++++++++++-------
 ylearn/causal_model/prob.py  | 14 +++++++++++++-
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 9ad3508..a8a70ad 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -165,7 +165,8 @@ class CausalModel:
         v = set(graph.causation.keys())
         v_topo = list(graph.topo_order)
 
-        y, x = set(y), set(x)
+        y = {y} if isinstance(y, str) else set(y)
+        x = {x} if isinstance(x, str) else set(x)
 
         # 1
         if not x:
@@ -217,9 +218,8 @@ class CausalModel:
                 product_expression = set()
                 for element in s:
                     product_expression.add(
-                        Prob(
-                            variables={element},
-                            conditional=set(v_topo[: v_topo.index(element)]),
+                        self._conditional_prob(
+                            prob, element, set(v_topo[: v_topo.index(element)]), v
                         )
                     )
                 return Prob(marginal=s.difference(y), product=product_expression)
@@ -233,15 +233,28 @@ class CausalModel:
                         product_expressioin = set()
                         for element in subset:
                             product_expressioin.add(
-                                Prob(
-                                    variables={element},
-                                    conditional=set(v_topo[: v_topo.index(element)]),
+                                self._conditional_prob(
+                                    prob, element, set(v_topo[: v_topo.index(element)]), v
                                 )
                             )
                         sub_prob = Prob(product=product_expressioin)
                         sub_graph = graph.build_sub_graph(subset)
                         return self.id(y, x.intersection(subset), sub_prob, sub_graph)
 
+    @staticmethod
+    def _conditional_prob(prob, element, conditional, v):
+        """Return the conditional distribution of element given conditional in
+        the distribution prob of the variables v.
+        """
+        if not (prob.divisor or prob.product):
+            return Prob(variables={element}, conditional=conditional)
+
+        rest = v.difference(conditional)
+        divisor = {Prob(marginal=rest, product={prob})} if conditional else set()
+        return Prob(
+            marginal=rest.difference({element}), product={prob}, divisor=divisor
+        )
+
     def identify(self, treatment, outcome, identify_method="auto"):
         """Identify the causal effect expression. Identification is an operation that
         converts any causal effect quantity, e.g., quantities with the do operator, into
diff --git a/ylearn/causal_model/prob.py b/ylearn/causal_model/prob.py
index 775d2ad..ddd3d28 100644
--- a/ylearn/causal_model/prob.py
+++ b/ylearn/causal_model/prob.py
@@ -17,7 +17,8 @@ class Prob:
         The conditional set (y in the above example).
     
     divisor : set
-        Not defined yet.
+        If not set(), then the whole expression is divided by the product of the
+        probability objects saved in this set.
     
     marginal : set
         The sum set (w in the above example) for marginalizing the probability.
@@ -73,6 +74,17 @@ class Prob:
         """
         # TODO
         expression = ''
+        # A fraction, -> \frac{numerator}{divisor}
+        if self.divisor:
+            numerator = Prob(
+                variables=self.variables,
+                conditional=self.conditional,
+                marginal=self.marginal,
+                product=self.product,
+            )
+            divisor = ''.join(f'\\left[{p.parse()}\\right]' for p in self.divisor)
+            return '\\frac{' + numerator.parse() + '}{' + divisor + '}'
+
         # First find the marginal set, -> \sum_{marginal set}
         if self.marginal:
             mar = ', '
-- 
2.43.0


From ea090b3e1c037ddab616af6cb20c79d826a07d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 016/101] fix: matrix2array ignores the lower triangle of numpy
 matrices

---
 ylearn/causal_discovery/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index c1bef28..6bce99f 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -89,7 +89,7 @@ class BaseDiscovery:
                     vt = matrix.iloc[col, row]
                 else:
                     v = matrix[row, col]
-                    vt = matrix[row, col]
+                    vt = matrix[col, row]
                 if abs(v) >= abs(vt):
                     r.append([row, col, v])
                 else:
-- 
2.43.0


From 20339b2db95bea35694c93142ad12fdd2ab385b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 017/101] fix: trim_cycle fails on self loops and on negative
 weights

---
 ylearn/causal_discovery/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_base.py b/ylearn/causal_discovery/_base.py
index 6bce99f..576146e 100644
--- a/ylearn/causal_discovery/_base.py
+++ b/ylearn/causal_discovery/_base.py
@@ -17,13 +17,14 @@ class BaseDiscovery:
         assert matrix.ndim == 2 and matrix.shape[0] == matrix.shape[1]
 
         g = nx.from_numpy_array(matrix, create_using=nx.DiGraph)  # .reverse()
+        g.remove_edges_from(list(nx.selfloop_edges(g)))
 
         def trim_with_weight():
-            edge_weights = nx.get_edge_attributes(g, 'weight')
+            edge_weights = {e: abs(w) for e, w in nx.get_edge_attributes(g, 'weight').items()}
             edges = sorted(edge_weights.keys(), key=lambda e: edge_weights[e], reverse=True)
             for X, Y in edges:
                 if nx.has_path(g, Y, X):
-                    paths = list(nx.all_shortest_paths(g, Y, X, weight='weight'))
+                    paths = list(nx.all_shortest_paths(g, Y, X, weight=lambda u, v, d: abs(d['weight'])))
                     for p in paths:
                         es = sorted(zip(p[:-1], p[1:]), key=lambda e: edge_weights[e])
                         u, v = es[0]
-- 
2.43.0


From 65b61cbf1a334b36c1f06c458c243070d6844856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 018/101] fix: discovered causation is replaced with its
 closure in identification

---
 ylearn/api/_identifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index 458307a..a1d02d1 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -138,7 +138,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
             method = ('backdoor', 'simple')
 
         from ylearn.causal_discovery import BaseDiscovery
-        causal_dict = BaseDiscovery.matrix2dict(causal_matrix)
+        causal_dict = BaseDiscovery.matrix2dict(causal_matrix, depth=1)
         cg = CausalGraph(causal_dict)
         cm = CausalModel(cg)
         try:
-- 
2.43.0


From 97f84a5235474172e5695b259c6356682ed1d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 019/101] fix: 'straight' identification takes the effects for
 the causes

---
 ylearn/api/_identifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index a1d02d1..2b57d0c 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -187,9 +187,9 @@ class IdentifierWithDiscovery(DefaultIdentifier):
         if isinstance(treatment, str):
             treatment = [treatment, ]
         xy = treatment + [outcome]
-        var_x = [k for k, v in m0.items() if
-                 any(map(lambda t: t in v and k not in xy, treatment))]
-        var_y = [k for k, v in m0.items() if outcome in v and k not in xy]
+        var_x = [k for k in m0.keys() if
+                 any(map(lambda t: k in m0[t] and k not in xy, treatment))]
+        var_y = [k for k in m0.keys() if k in m0[outcome] and k not in xy]
 
         instrument = [c for c in var_x if c in set(var_x).difference(set(var_y)) and c not in xy]
         covariate = [c for c in var_y if c not in instrument and c not in xy]
-- 
2.43.0


From 16cb431386302d015d5c94b89233196748e191f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 020/101] fix: Why.causal_graph() reverses the edges and fails
 after discovery

---
 ylearn/api/_why.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 896ca40..add8890 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -538,22 +538,28 @@ class Why:
         if causation is not None:
             threshold = causation.values.diagonal().max()
             from ylearn.causal_discovery import BaseDiscovery
-            m = BaseDiscovery.matrix2dict(causation, threshold=threshold)
+            causation = causation.where(causation.abs() > threshold, 0.0)
+            m = BaseDiscovery.matrix2dict(causation, depth=1)
         else:
-            m = {}
             fmt = partial(utils.format, line_limit=1, line_width=20)
             label_y = f'Outcome({self.outcome_})'
             label_x = f'Treatments({fmt(self.treatment_)})'
+            m = {label_y: [label_x], label_x: []}  # node: its parents
 
             if self.adjustment_ is not None and len(self.adjustment_) > 0:
                 label_w = f'Adjustments({fmt(self.adjustment_)})'
-                m[label_w] = [label_x, label_y]
+                m[label_w] = []
+                m[label_x].append(label_w)
+                m[label_y].append(label_w)
             if self.covariate_ is not None and len(self.covariate_) > 0:
                 label_v = f'Covariates({fmt(self.covariate_)})'
-                m[label_v] = [label_x, label_y]
+                m[label_v] = []
+                m[label_x].append(label_v)
+                m[label_y].append(label_v)
             if self.instrument_ is not None and len(self.instrument_) > 0:
                 label_z = f'Instruments({fmt(self.instrument_)})'
-                m[label_z] = [label_x, ]
+                m[label_z] = []
+                m[label_x].append(label_z)
 
         cg = CausalGraph(m)
         return cg
-- 
2.43.0


From a8acfe372c9961e2817e6e2d72268d192e47993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 021/101] fix: GCastleProxy passes an unknown argument to
 matrix2dict

---
 ylearn/causal_discovery/_proxy_gcastle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/causal_discovery/_proxy_gcastle.py b/ylearn/causal_discovery/_proxy_gcastle.py
index b4ee6a1..0323b8c 100644
--- a/ylearn/causal_discovery/_proxy_gcastle.py
+++ b/ylearn/causal_discovery/_proxy_gcastle.py
@@ -9,7 +9,7 @@ import sys
 import numpy as np
 import pandas as pd
 
-from ylearn.utils import drop_none, set_random_state, logging
+from ylearn.utils import set_random_state, logging
 from ._base import BaseDiscovery
 
 devnull = open(os.devnull, "w")
@@ -66,7 +66,7 @@ class GCastleProxy(BaseDiscovery):
             matrix = pd.DataFrame(matrix, columns=columns, index=columns)
 
         if return_dict:
-            result = self.matrix2dict(matrix, **drop_none(threshold=threshold))
+            result = self.matrix2dict(matrix)
         else:
             result = matrix
 
-- 
2.43.0


From 4b57dba2dc043bff72a2c9c11001c7fb2904569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 022/101] fix: CausalTree.estimate returns nothing for the ATE,
 fit returns no estimator

---
 ylearn/estimator_model/causal_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 18947e4..d85933e 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -396,7 +396,7 @@ class CausalTree(BaseEstModel):
         )
 
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
-        self._fit_with_array(y, x, w, v, treat, control)
+        return self._fit_with_array(y, x, w, v, treat, control)
 
     def estimate(self, data=None, quantity=None):
         """Estimate the causal effect of the treatment on the outcome in the data.
@@ -425,7 +425,7 @@ class CausalTree(BaseEstModel):
         logger.debug(f"Start estimating the causal effect with the type of {quantity}.")
 
         if quantity == "ATE" or quantity == "CATE":
-            np.mean(effect, axis=0)
+            return np.mean(effect, axis=0)
         else:
             return effect
 
-- 
2.43.0


From 15ddf86368fe08dc0319c31bbf616a0b78d2f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 023/101] fix: an integer honest_subsample_num fails

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 4 ++--
 ylearn/estimator_model/causal_tree.py                      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 578e7ab..32f5b53 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -501,9 +501,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num
 
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index d85933e..7e81208 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -503,9 +503,9 @@ class CausalTree(BaseEstModel):
             return None
 
         if isinstance(self.honest_subsample_num, numbers.Integral):
-            if self.honest_subsample > sub_samples:
+            if self.honest_subsample_num > sub_samples:
                 raise ValueError(
-                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample}"
+                    f"honest_subsample must be <= sub_samples={sub_samples} but was given {self.honest_subsample_num}"
                 )
             return self.honest_subsample_num / sub_samples
 
-- 
2.43.0


From b3d82078f6a8da00769b0b69ec53d3edd2ecc08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 024/101] fix: the outcome of the generalized random forest is
 not centered at its weighted mean

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 32f5b53..f403aba 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -644,7 +644,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         inv_grad = inverse_grad(grad_)
 
         y = np.tile(y.reshape(1, -1), (n_test, 1))
-        y_dif = y - alpha * y
+        y_dif = y - (alpha * y).sum(axis=1, keepdims=True)
         theta_ = ((alpha * y_dif).reshape(n_test, n_train, 1) * x_dif).sum(1)
 
         return inv_grad, theta_
-- 
2.43.0


From f49168aa20b11d5ca59dcb0b28d41f12fe6c8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 025/101] fix: a tree of the generalized random forest without
 splits weights samples it has not seen

---
 .../estimator_model/_generalized_forest/_base_forest.py   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index f403aba..1bd54ca 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -572,13 +572,9 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             v_pred = t.apply(None, v[s][:honest_sample_num])
             idx = s[:honest_sample_num]
 
-        # TODO: note that if a predict value is 0 this line may cause some unexpected result, so it may be more approriate to create an nan array instead
-        leaf_record = np.zeros(v.shape[0])
-        leaf_record[idx] = v_pred
-
-        # #####: I modify this line
+        # only samples which belong to the tree are recorded
         collect_all = defaultdict(list)
-        for i, node_id in enumerate(leaf_record):
+        for i, node_id in zip(idx, v_pred):
             collect_all[node_id].append(i)
 
         # t.leaf_record = leaf_record.reshape(1, -1)
-- 
2.43.0


From a45ac691b258b1e928b88fe5ba160a59b2f9faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 026/101] fix: the outcome model of DoublyRobust predicts the
 same outcome for every treatment

---
 ylearn/estimator_model/doubly_robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/doubly_robust.py b/ylearn/estimator_model/doubly_robust.py
index 2761a77..7c5c2aa 100644
--- a/ylearn/estimator_model/doubly_robust.py
+++ b/ylearn/estimator_model/doubly_robust.py
@@ -32,7 +32,7 @@ class _YModelWrapper:
 
         for i in range(self.x_d):
             x = np.zeros((n, self.x_d))
-            x[:, i] == 1
+            x[:, i] = 1
             x = np.concatenate((wv, x), axis=1)
             y_nji[:, :, i] = self.model.predict(x).reshape(n, self.y_d)
 
-- 
2.43.0


From 3f07966d642e63b78fc2379c41e15ad65f1ef48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 027/101] fix: repeated estimates of SLearner encode the
 treatment again

---
 ylearn/estimator_model/meta_learner.py | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 04544c6..92a7434 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -352,8 +352,6 @@ class SLearner(BaseEstModel):
         x = self._comp_transformer(x, categories=categories)
 
         self._x_d = x.shape[1]
-        self.treat = treat
-        self.control = control
 
         x = np.concatenate((wv, x), axis=1)
         y = y.squeeze()
@@ -362,6 +360,21 @@ class SLearner(BaseEstModel):
 
         self._is_fitted = True
 
+        self.treat = get_tr_ctrl(
+            treat,
+            self._comp_transformer,
+            treat=True,
+            one_hot=False,
+            discrete_treat=True,
+        )
+        self.control = get_tr_ctrl(
+            control,
+            self._comp_transformer,
+            treat=False,
+            one_hot=False,
+            discrete_treat=True,
+        )
+
         return self
 
     @property
@@ -450,21 +463,6 @@ class SLearner(BaseEstModel):
 
     def _prepare_combined_treat(self, wv, target_outcome=None):
         n = wv.shape[0]
-        self.treat = get_tr_ctrl(
-            self.treat,
-            self._comp_transformer,
-            treat=True,
-            one_hot=False,
-            discrete_treat=True,
-        )
-        self.control = get_tr_ctrl(
-            self.control,
-            self._comp_transformer,
-            treat=False,
-            one_hot=False,
-            discrete_treat=True,
-        )
-
         treat = np.zeros(
             self._x_d,
         )
-- 
2.43.0


From cdd3d58d423c11f54e567fa0dd0da4160ace60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 028/101] fix: a refitted estimator reuses the encoders of its
 previous fit

---
 ylearn/estimator_model/approximation_bound.py | 10 +++++-----
 ylearn/estimator_model/base_models.py         |  5 +++++
 ylearn/estimator_model/effect_score.py        |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 9001c9c..6b429d6 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -160,13 +160,13 @@ class ApproxBound(BaseEstModel):
                     v = OneHotEncoder().fit_transform(v)
 
                 self.x_model.fit(v, self.x_label)
-                self.x_prob = self.x_model.predict_proba(v)
+                self._x_prob = self.x_model.predict_proba(v)
             else:
-                self.x_prob = np.unique(self.x_label, return_counts=True)[1]
-                self.x_prob = (self.x_prob / self._n).reshape(1, -1)
+                self._x_prob = np.unique(self.x_label, return_counts=True)[1]
+                self._x_prob = (self._x_prob / self._n).reshape(1, -1)
         else:
             # TODO: modify the following line for multiple treatment
-            self.x_prob = self.x_prob.reshape(1, -1)
+            self._x_prob = self.x_prob.reshape(1, -1)
 
         self._v = v
         xv = get_wv(x_one_hot, v)
@@ -312,7 +312,7 @@ class ApproxBound(BaseEstModel):
         y_lower,
     ):
         # x_d = self._x_d
-        x_prob = self.x_prob
+        x_prob = self._x_prob
 
         treat = get_tr_ctrl(
             treat,
diff --git a/ylearn/estimator_model/base_models.py b/ylearn/estimator_model/base_models.py
index 08294c3..a7de935 100644
--- a/ylearn/estimator_model/base_models.py
+++ b/ylearn/estimator_model/base_models.py
@@ -57,6 +57,11 @@ class BaseEstModel:
         if isinstance(treatment, str):
             treatment = [treatment]
 
+        # a fitted estimator starts over, nothing of the previous fit is reused
+        self._is_fitted = False
+        for k in ("ord_transformer", "oh_transformer", "treat", "control"):
+            self.__dict__.pop(k, None)
+
         self.treatment = treatment
         self.outcome = outcome
 
diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index d883c4e..c1f723b 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -241,6 +241,7 @@ class RLoss(DoubleML):
         assert covariate is not None, "Need covariates to use RLoss."
 
         self.combined_treatment = combined_treatment
+        self._is_fitted = False
 
         # super().fit(
         #     data, outcome, treatment,
-- 
2.43.0


From 99c2fc1d32808ef8c585282e56b3f694d53126d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 029/101] fix: DoubleML.estimate keeps the treat of the last
 call

---
 ylearn/estimator_model/double_ml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index f187985..1f5deb0 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -374,6 +374,8 @@ class DoubleML(BaseEstModel):
             **kwargs,
         )
 
+        self._treat = kwargs.get("treat")
+
         y, x, w, v = convert2array(data, outcome, treatment, adjustment, covariate)
         self._v = v
         self._y_d = y.shape[1]
@@ -475,8 +477,8 @@ class DoubleML(BaseEstModel):
             The estimated causal effect with the type of the quantity.
         """
         fij = self._prepare4est(data=data)
-        if hasattr(self, "treat") and treat is None:
-            treat = self.treat
+        if treat is None:
+            treat = self._treat
         if hasattr(self, "control") and control is None:
             control = self.control
 
-- 
2.43.0


From d2e23b28de2a4cfd5d63f7f16734eea1d48d93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 030/101] fix: an unfitted NP2SLS claims to be fitted

---
 ylearn/estimator_model/iv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ebcf7ff..e531859 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -86,7 +86,10 @@ class NP2SLS(BaseEstModel):
         self.y_model = LinearRegression() if y_model is None else y_model
 
         super().__init__(
-            random_state, is_discrete_treatment, is_discrete_outcome, categories
+            random_state,
+            is_discrete_treatment,
+            is_discrete_outcome,
+            categories=categories,
         )
 
     def fit(
-- 
2.43.0


From 4593079ebb0ece9f22301351e20e4a417347e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 031/101] fix: NP2SLS fails to estimate the ATE, the CATE and
 effect_nji

---
 ylearn/estimator_model/iv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index e531859..ef4e94e 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -255,9 +255,9 @@ class NP2SLS(BaseEstModel):
             assert (
                 self.covariate is not None
             ), "Need caovariate to compute the CATE in this case."
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         if quantity == "ATE":
-            return (yt - y0).mean(dim=0)
+            return (yt - y0).mean(axis=0)
         elif quantity is None:
             return yt - y0
         else:
@@ -284,7 +284,7 @@ class NP2SLS(BaseEstModel):
 
                     y_nji[:, :, treat] = y_pred
 
-                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, aixs=2)
+                y_ctrl = y_nji[:, :, 0].reshape(n, -1, 1).repeat(x_d, axis=2)
             else:
                 labels = [
                     np.arange(len(i)) for i in self.treatment_transformer.categories_
@@ -306,14 +306,16 @@ class NP2SLS(BaseEstModel):
                 )
 
         else:
-            yt, y0 = self._prepare4est(data=data, marginal_effect=False)
+            yt, y0 = self._prepare4est(
+                data=data, treat=None, control=None, marginal_effect=False
+            )
             # TODO: the definition of effect_nji may need to be modified in the future verison in this case
             if yt.ndim == 1:
                 yt = yt.reshape(-1, 1)
                 y0 = y0.reshape(-1, 1)
 
             n, y_d = yt.shape
-            y_nji = np.full(n, y_d, 2)
+            y_nji = np.full((n, y_d, 2), np.nan)
 
             y_nji[:, :, 0] = y0
             y_nji[:, :, 1] = yt
-- 
2.43.0


From 09b1a460062d87c88b94e84ba5d6b3164bfc828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 032/101] fix: NP2SLS cannot be fitted without covariates

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index ef4e94e..9bc29ff 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -197,7 +197,7 @@ class NP2SLS(BaseEstModel):
         # get expansion basis functions for parameters
         x_transformed = self._x_basis_func.fit_transform(x)
         z_transformed = self._z_basis_func.fit_transform(z)
-        v_transformed = self._v_basis_func.fit_transform(v)
+        v_transformed = self._v_basis_func.fit_transform(v) if v is not None else None
 
         self._v_transformed = v_transformed
         self._w = w
-- 
2.43.0


From b7510cf8d36d0d348d7d5e536b07cbf80796b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 033/101] fix: NP2SLS cannot be fitted with discrete
 instruments

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 9bc29ff..53ef8b7 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -172,7 +172,7 @@ class NP2SLS(BaseEstModel):
         if self.is_discrete_instrument:
             self.instrument_transformer = OneHotEncoder()
             self.instrument_transformer.fit(z)
-            z = self.instrument_transformer.transform(z)
+            z = self.instrument_transformer.transform(z).toarray()
 
         if isinstance(treatment_basis, list) or isinstance(treatment_basis, tuple):
             method, degree = treatment_basis[0], treatment_basis[1]
-- 
2.43.0


From 12550954a4b2b8651c90b63fe8cf57cdd917bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 034/101] fix: DeepIVWrapper fails on data with non-float
 columns

---
 ylearn/estimator_model/_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_factory.py b/ylearn/estimator_model/_factory.py
index df8717e..1322960 100644
--- a/ylearn/estimator_model/_factory.py
+++ b/ylearn/estimator_model/_factory.py
@@ -339,7 +339,7 @@ try:
             data_f64 = data.select_dtypes(include='float64')
             if len(data_f64.columns) > 0:
                 data = data.copy()
-                data[data.columns] = data_f64.astype('float32')
+                data[data_f64.columns] = data_f64.astype('float32')
             return data
 
 except ImportError as e:
-- 
2.43.0


From 2ac88fe47243c168880bdd7a9503a5a92138db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 035/101] fix: a Why which is not fitted takes itself for
 fitted

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index add8890..31675dc 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -168,7 +168,7 @@ class Why:
         self.random_state = random_state
 
         # fitted
-        self._is_fitted = False,
+        self._is_fitted = False
         self.feature_names_in_ = None
         self.treatment_ = None
         self.outcome_ = None
-- 
2.43.0


From 23fb69321a0205476646f0fea5600a22d263b780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 036/101] fix: target_outcome is decoded instead of encoded

---
 ylearn/api/_why.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 31675dc..be6507c 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -518,9 +518,9 @@ class Why:
         assert self._is_fitted
         return utils.safe_treat_control_list(treatment, t_or_c, name)
 
-    def _inverse_transform_outcome(self, v):
+    def _transform_outcome(self, v):
         if self.y_encoder_ is not None and v is not None:
-            return self.y_encoder_.inverse_transform([v])[0]
+            return self.y_encoder_.transform([v]).tolist()[0]
         else:
             return v
 
@@ -807,7 +807,7 @@ class Why:
         if control is None:
             control = [self.x_encoders_[x].classes_.tolist()[0] for x in self.treatment_]
         if target_outcome is not None:
-            target_outcome = self._inverse_transform_outcome(target_outcome)
+            target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
         for ri in test_data_preprocessed.index:
@@ -1036,7 +1036,7 @@ class Why:
             options = drop_none(control=control, )
             if target_outcome is not None \
                     and 'target_outcome' in inspect.signature(estimator.effect_nji).parameters.keys():
-                options['target_outcome'] = self._inverse_transform_outcome(target_outcome)
+                options['target_outcome'] = self._transform_outcome(target_outcome)
             effect = estimator.effect_nji(preprocessed_data, **options)
             assert isinstance(effect, np.ndarray)
             assert effect.ndim == 3
@@ -1303,7 +1303,7 @@ class Why:
         test_data_preprocessed = self._preprocess(test_data, encode_treatment=True)
         treat = self._safe_treat_control(treatment, treat, 'treat')
         control = self._safe_treat_control(treatment, control, 'control')
-        target_outcome = self._inverse_transform_outcome(target_outcome)
+        target_outcome = self._transform_outcome(target_outcome)
 
         encoders = [self.x_encoders_[x] for x in treatment]
         estimator = self._get_estimator(treatment)
-- 
2.43.0


From 97f89b5dbc73ce3ebe72580bbf5f6071f3e88d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 037/101] fix: whatif with fn_cost fails for discrete
 treatments

---
 ylearn/api/_why.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index be6507c..3b1c346 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -900,7 +900,7 @@ class Why:
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
                 eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data, eff, self.effect_name)
+                eff = utils.cost_effect(self.fn_cost, test_data.loc[tc_rows.index], eff, self.effect_name)
             effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
         effect = pd.concat(effect, axis=0)
         assert len(effect) == len(df)
-- 
2.43.0


From 633093020b265344ff3e2cd96f997cc1dbb0a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 038/101] fix: identify removes the treatments from the
 caller's lists

---
 ylearn/api/_why.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 3b1c346..3b6a9f4 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -399,9 +399,9 @@ class Why:
         covariate = utils.to_list(covariate, name='covariate')
         instrument = utils.to_list(instrument, name='instrument')
 
-        utils.safe_remove(adjustment, treatment)
-        utils.safe_remove(covariate, treatment)
-        utils.safe_remove(instrument, treatment)
+        adjustment = utils.safe_remove(adjustment, treatment, copy=True)
+        covariate = utils.safe_remove(covariate, treatment, copy=True)
+        instrument = utils.safe_remove(instrument, treatment, copy=True)
 
         if all(map(utils.is_empty, (adjustment, covariate, instrument))):
             if identifier is None:
-- 
2.43.0


From 836390ce268d3d2ebd0edcfb40895e6f04fdb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 039/101] fix: score ignores target_outcome

---
 ylearn/api/_why.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 3b6a9f4..13f56dc 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -955,7 +955,8 @@ class Why:
         assert test_data is not None
 
         if scorer in ['auuc', 'qini']:
-            return self._score_auuc_qini(test_data, treat=treat, control=control, scorer=scorer)
+            return self._score_auuc_qini(test_data, treat=treat, control=control,
+                                         target_outcome=target_outcome, scorer=scorer)
         else:
             return self._score_rloss(test_data, treat=treat, control=control)
 
-- 
2.43.0


From 9990dfa668ea1d3d0ce074599c985cd2249731ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 040/101] fix: effect_nji of permuted learners fails without
 data

---
 ylearn/estimator_model/_permuted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index c438ea0..7d695ba 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -46,7 +46,7 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
     y_count = 1 if isinstance(outcome, str) else len(outcome)
 
     if treat == control:
-        effect = np.zeros((len(data), y_count, y_count))
+        effect = None  # no effect, its shape is known from the other pairs
     else:
         assert isinstance(learner_and_sign, tuple)
 
@@ -250,7 +250,8 @@ class PermutedLearner(BaseEstModel):
                 data, self.outcome, self.treatment, treat, control, target_outcome
             ) for treat in treats)
 
-        effects = np.concatenate(effects, axis=2)
+        no_effect = np.zeros_like([e for e in effects if e is not None][0])
+        effects = np.concatenate([no_effect if e is None else e for e in effects], axis=2)
         return effects
 
     @staticmethod
-- 
2.43.0


From 93b4bc43c36c7d9cbbf56bd38ab1b700ff2b9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 041/101] fix: SafeOrdinalEncoder cannot decode what it encodes
 by default

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index a1a9c00..f613853 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -92,7 +92,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
                 default_value = None
                 dtype = object
             unseen = len(categories)
-            vf = np.vectorize(lambda x: categories[x] if unseen > x >= 0 else default_value,
+            vf = np.vectorize(lambda x: categories[int(x)] if unseen > x >= 0 else default_value,
                               otypes=[dtype])
             return vf
 
-- 
2.43.0


From 70986b5b1deae83e830bfd601212645df3c82b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 042/101] fix: SafeOrdinalEncoder drops the index of its data

---
 ylearn/sklearn_ex/_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index f613853..eefbbe4 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -71,7 +71,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data, dtype=self.dtype)
+            result = pd.DataFrame(data, index=X.index, dtype=self.dtype)
         else:
             result = np.stack(result, axis=1)
             if self.dtype != result.dtype:
@@ -103,7 +103,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         if isinstance(X, pd.DataFrame):
             assert len(result) == len(X.columns)
             data = {c: result[i] for i, c in enumerate(X.columns)}
-            result = pd.DataFrame(data)
+            result = pd.DataFrame(data, index=X.index)
         else:
             result = np.stack(result, axis=1)
 
-- 
2.43.0


From 17748d3b4ef07f0679b008937b1046cdd57ce297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 043/101] fix: get_blanket of a single node returns the node
 itself

---
 ylearn/bayesian/_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index ccef825..1b8b80b 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -134,7 +134,7 @@ class DiGraph(nx.DiGraph):
             blanket = self.get_upstream_blanket(nodes, topo_sorted=topo_sorted)
 
         if not return_self:
-            for n in nodes:
+            for n in to_list(nodes, name='nodes'):
                 if n in blanket:
                     blanket.remove(n)
         return blanket
-- 
2.43.0


From 9ce42db1463eb6d89504b7e029d4d43a4692e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 044/101] fix: estimate adjusts for the set of other treatments
 and outcomes

---
 ylearn/causal_model/model.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index a8a70ad..0eddebe 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -112,6 +112,7 @@ class CausalModel:
         """
         self.data = data
         self._adjustment_set = None
+        self._adjustment_for = None
         self.treatment = None
         self.outcome = None
         self.cached_result = defaultdict(list)
@@ -410,12 +411,19 @@ class CausalModel:
 
         # make sure the adjustment and the covariate are valid backdoor adjustment sets
         if adjustment is None and covariate is None:
-            if self._adjustment_set is None:
-                adjustment = self.get_backdoor_set(
-                    self.treatment, self.outcome, "simple"
-                )[0]
+            # a set found for other treatments or outcomes adjusts for nothing here
+            t_set = {treatment} if isinstance(treatment, str) else set(treatment)
+            o_set = {outcome} if isinstance(outcome, str) else set(outcome)
+            if self._adjustment_set is None or self._adjustment_for != (t_set, o_set):
+                backdoor = self.get_backdoor_set(treatment, outcome, 'simple')
+                if backdoor is None:
+                    raise IdentificationError(
+                        'The parents of the treatment do not satisfy the backdoor '
+                        'criterion, please provide the adjustment set.'
+                    )
+                adjustment = backdoor[0]
             else:
-                adjustment = self._adjustment_set[0]
+                adjustment = list(self._adjustment_set[0])
         else:
             if adjustment is not None and covariate is not None:
                 temp_set = set(adjustment).union(set(covariate))
@@ -691,6 +699,7 @@ class CausalModel:
             if any((adjust == "all", adjust == "minimal")):
                 backdoor_list = backdoor_set_list
                 self._adjustment_set = backdoor_set_list
+                self._adjustment_for = (treatment, outcome)
             else:
                 raise IdentificationError(
                     "Do not support backdoor set styles other than simple, all"
-- 
2.43.0


From b95a1707a93363651cb19a3b3bcfb7430dd7b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 045/101] fix: estimate checks a given set for the given
 treatment and outcome

---
 ylearn/causal_model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/causal_model/model.py b/ylearn/causal_model/model.py
index 0eddebe..fd090ad 100644
--- a/ylearn/causal_model/model.py
+++ b/ylearn/causal_model/model.py
@@ -432,7 +432,7 @@ class CausalModel:
                 temp_set = temp_set.pop()
 
             assert self.is_valid_backdoor_set(
-                temp_set, self.treatment, self.outcome
+                temp_set, treatment, outcome
             ), "The adjustment set should be a valid backdoor adjustment set,"
             f"but was given {temp_set}."
 
-- 
2.43.0


From 56756bb5cca1cfd467845d777bad0474337b0cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 046/101] fix: a treatment_count_limit of 1 selects two
 treatments

---
 ylearn/api/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/utils.py b/ylearn/api/utils.py
index 58477b1..df9712e 100644
--- a/ylearn/api/utils.py
+++ b/ylearn/api/utils.py
@@ -67,11 +67,11 @@ def align_task_to_first(data, columns, count_limit):
     selected = columns[:1]
     discrete = is_discrete(data[selected[0]])
     for x in columns[1:]:
+        if len(selected) >= count_limit:
+            break
         x_discrete = is_discrete(data[x])
         if x_discrete is discrete:
             selected.append(x)
-            if len(selected) >= count_limit:
-                break
 
     return selected
 
-- 
2.43.0


From 69c1758e1ab36db091b41b3918f8c97fba91a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 047/101] fix: dfs identification drops the edges with negative
 weights

---
 ylearn/api/_identifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index 2b57d0c..ea26d12 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -205,7 +205,7 @@ class IdentifierWithDiscovery(DefaultIdentifier):
 
         n = len(causal_matrix)
         names = causal_matrix.columns.tolist()
-        matrix_values = np.where(causal_matrix.values > 0, 1, 0)
+        matrix_values = np.where(causal_matrix.values != 0, 1, 0)
         g = nx.from_numpy_array(matrix_values, create_using=nx.DiGraph).reverse()
 
         yi = names.index(outcome)
-- 
2.43.0


From ca4d24fdb75e5c6b34cfe8d161a56f007b94c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 048/101] fix: identification with the backdoor styles
 'minimal' and 'all' fails

---
 ylearn/api/_identifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ylearn/api/_identifier.py b/ylearn/api/_identifier.py
index ea26d12..e815b7e 100644
--- a/ylearn/api/_identifier.py
+++ b/ylearn/api/_identifier.py
@@ -160,7 +160,9 @@ class IdentifierWithDiscovery(DefaultIdentifier):
             instrument = []
 
         ids = cm.identify(treatment, outcome, identify_method=method)
-        covariate = list(set(ids['backdoor'][0])) if ids['backdoor'] is not None else []
+        covariate = list(ids['backdoor'][0]) if ids['backdoor'] is not None else []
+        if any(isinstance(c, (set, list, tuple)) for c in covariate):  # 'minimal' and 'all' find lists of sets
+            covariate = list(covariate[0])
         covariate = [c for c in covariate if c != outcome and c not in treatment]
         if not is_empty(instrument):
             covariate = [c for c in covariate if c not in instrument]
-- 
2.43.0


From 3cea22795033707b5818fcde693331c7411a651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 049/101] fix: ApproxBound does not encode the treatments of
 new data

---
 ylearn/estimator_model/approximation_bound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 6b429d6..78f820b 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -349,6 +349,7 @@ class ApproxBound(BaseEstModel):
                     data, self.outcome, self.covariate, self.treatment
                 )
                 n = y.shape[0]
+                x = convert4onehot(self.comp_transormer(x))
                 x_prob = self.x_model.predict_proba(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
-- 
2.43.0


From e63c39055bbad44aaa72663f7b0e83dd557a2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 050/101] fix: ApproxBound ignores the given x_prob for new
 data

---
 ylearn/estimator_model/approximation_bound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index 78f820b..d9c2b53 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -350,7 +350,8 @@ class ApproxBound(BaseEstModel):
                 )
                 n = y.shape[0]
                 x = convert4onehot(self.comp_transormer(x))
-                x_prob = self.x_model.predict_proba(v)
+                if self.x_prob is None:
+                    x_prob = self.x_model.predict_proba(v)
 
         y_treat = get_groups(treat, x.reshape(-1, 1), False, y)[0]
         y_ctrl = get_groups(control, x.reshape(-1, 1), False, y)[0]
-- 
2.43.0


From 58e9c0c4d2f0d2e4c9da81ea165dda504390ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 051/101] fix: ApproxBound fails with discrete covariates

---
 ylearn/estimator_model/approximation_bound.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/approximation_bound.py b/ylearn/estimator_model/approximation_bound.py
index d9c2b53..2528785 100644
--- a/ylearn/estimator_model/approximation_bound.py
+++ b/ylearn/estimator_model/approximation_bound.py
@@ -154,11 +154,12 @@ class ApproxBound(BaseEstModel):
 
         self.x_label = np.array(convert4onehot(x_one_hot).astype(int))
 
+        if v is not None and self.is_discrete_covariate:
+            self.covariate_transformer = OneHotEncoder().fit(v)
+            v = self.covariate_transformer.transform(v).toarray()
+
         if self.x_prob is None:
             if v is not None:
-                if self.is_discrete_covariate:
-                    v = OneHotEncoder().fit_transform(v)
-
                 self.x_model.fit(v, self.x_label)
                 self._x_prob = self.x_model.predict_proba(v)
             else:
@@ -349,6 +350,8 @@ class ApproxBound(BaseEstModel):
                     data, self.outcome, self.covariate, self.treatment
                 )
                 n = y.shape[0]
+                if self.is_discrete_covariate:
+                    v = self.covariate_transformer.transform(v).toarray()
                 x = convert4onehot(self.comp_transormer(x))
                 if self.x_prob is None:
                     x_prob = self.x_model.predict_proba(v)
-- 
2.43.0


From 579a1d8df7aac4f4e14ce6b4ee30e83627280a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 052/101] fix: RLoss.score labels its data with the names of
 the tested estimator

---
 ylearn/estimator_model/effect_score.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/effect_score.py b/ylearn/estimator_model/effect_score.py
index c1f723b..2a4b855 100644
--- a/ylearn/estimator_model/effect_score.py
+++ b/ylearn/estimator_model/effect_score.py
@@ -335,13 +335,13 @@ class RLoss(DoubleML):
         v = self._v
         w = self._w
 
+        # the columns of v and w are in the order of the names given to fit
         data_dict = {}
-        if self.covariate is not None:
-            for i, name in enumerate(test_estimator.covariate):
-                data_dict[name] = v[:, i]
-        if self.adjustment is not None:
-            for i, name in enumerate(test_estimator.adjustment):
-                data_dict[name] = w[:, i]
+        for names, values in ((self.covariate, v), (self.adjustment, w)):
+            if names is not None:
+                names = [names] if isinstance(names, str) else names
+                for i, name in enumerate(names):
+                    data_dict[name] = values[:, i]
 
         test_data = pd.DataFrame(data_dict)
 
-- 
2.43.0


From d77dcaad2a8beeea98f77d88fe8c4b9170733c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 053/101] fix: DoubleML misaligns an array of treats without an
 array of controls

---
 ylearn/estimator_model/double_ml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 1f5deb0..89fde92 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -517,9 +517,11 @@ class DoubleML(BaseEstModel):
                 treat = treat.reshape(-1, self._x_d)
             if isinstance(control, np.ndarray):
                 control = control.reshape(-1, self._x_d)
-                effect = np.einsum("nji, ni->nji", fij, treat - control)
+            diff = treat - control
+            if isinstance(diff, np.ndarray) and diff.ndim == 2:
+                effect = np.einsum("nji, ni->nji", fij, diff)
             else:
-                effect = fij * (treat - control)
+                effect = fij * diff
 
         if target_outcome is not None:
             assert (
-- 
2.43.0


From 464c3feeabaca4cb1261f24cfd5d3746cf447afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 054/101] fix: DoubleML calls predict_proba of the model of a
 continuous treatment

---
 ylearn/estimator_model/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 89fde92..1fb1190 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -686,7 +686,7 @@ class DoubleML(BaseEstModel):
             pred_func = self.x_pred_func
         else:
             target_converted = target
-            pred_func = self.y_pred_func
+            pred_func = self.y_pred_func if is_ymodel else self.x_pred_func
 
         if folds is None:
             wv = args[0]
-- 
2.43.0


From ad71354756598357cc730907ac985348e8e14873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 055/101] fix: DoubleML with proba_output fails when it is
 cross-fitted

---
 ylearn/estimator_model/double_ml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/double_ml.py b/ylearn/estimator_model/double_ml.py
index 1fb1190..ec819b2 100644
--- a/ylearn/estimator_model/double_ml.py
+++ b/ylearn/estimator_model/double_ml.py
@@ -669,7 +669,7 @@ class DoubleML(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            return self.y_model.classes_
+            return self.y_hat_dict["models"][0].classes_
         else:
             return None
 
@@ -699,8 +699,6 @@ class DoubleML(BaseEstModel):
             idx = np.arange(start=0, stop=wv.shape[0])
             fitted_result["train_test_id"].append((idx, idx))
         else:
-            fitted_result["paras"].append(np.ones_like(target) * np.nan)
-
             for i, (train_id, test_id) in enumerate(folds):
                 model_ = clone(model)
                 temp_wv = args[0][train_id]
@@ -709,6 +707,10 @@ class DoubleML(BaseEstModel):
                 model_.fit(temp_wv, target_train, **kwargs)
                 target_predict = model_.__getattribute__(pred_func)(temp_wv_test)
 
+                if i == 0:
+                    shape = target.shape[:1] + target_predict.shape[1:]
+                    fitted_result["paras"].append(np.full(shape, np.nan))
+
                 fitted_result["models"].append(model_)
                 fitted_result["paras"][0][test_id] = target_predict
                 fitted_result["train_test_id"].append((train_id, test_id))
-- 
2.43.0


From 2f5e4d69b362f04814c9cc2b1454724edc1666f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 056/101] fix: effects of separate treatments lose the axis of
 the examples or mix outcomes with treatments

---
 ylearn/estimator_model/meta_learner.py | 12 ++++++++----
 ylearn/estimator_model/utils.py        | 10 ++++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 92a7434..07e81d3 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -9,6 +9,7 @@ from .base_models import BaseEstModel
 from .utils import (
     convert2array,
     get_groups,
+    squeeze_effect,
     get_wv,
     cartesian,
     get_tr_ctrl,
@@ -285,6 +286,7 @@ class SLearner(BaseEstModel):
             target_outcome = check_classes(target_outcome, self.model.classes_)
 
         effect = self._prepare4est(data, target_outcome=target_outcome, **kwargs)
+        effect = squeeze_effect(effect)
         if quantity == "CATE" or quantity == "ATE":
             return np.mean(effect, axis=0)
         else:
@@ -523,7 +525,7 @@ class SLearner(BaseEstModel):
                 fnji = (self.model.predict(x_treat) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        return f_nji
 
     # def __repr__(self) -> str:
     #     return f'SLearner'
@@ -780,6 +782,7 @@ class TLearner(BaseEstModel):
         target_outcome = check_classes(target_outcome, self.outcome_classes_)
 
         effect = self._prepare4est(data, target_outcome=target_outcome)
+        effect = squeeze_effect(effect)
         if quantity == "CATE" or quantity == "ATE":
             return np.mean(effect, axis=0)
         else:
@@ -1022,7 +1025,7 @@ class TLearner(BaseEstModel):
                 fnji = (model.predict(wv) - f_nj0).reshape(n, self._y_d)
                 f_nji[:, :, i] = fnji
 
-        return f_nji.squeeze()
+        return f_nji
 
     # def __repr__(self) -> str:
     #     return f'TLearner'
@@ -1307,6 +1310,7 @@ class XLearner(BaseEstModel):
             data, rho, target_outcome=target_outcome, *args, **kwargs
         )
 
+        effect = squeeze_effect(effect)
         if quantity == "CATE" or quantity == "ATE":
             return np.mean(effect, axis=0)
         else:
@@ -1575,9 +1579,9 @@ class XLearner(BaseEstModel):
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-            return f_nji.squeeze()
+            return f_nji
         else:
-            return f_nji[:, target_outcome, :].squeeze()
+            return f_nji[:, target_outcome, :]
 
     # def __repr__(self) -> str:
     #     return f'XLearner'
diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index ee0dfbd..458c7e7 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -157,6 +157,16 @@ def convert4onehot(x):
     return np.dot(x, np.arange(0, x.shape[1]).T)
 
 
+def squeeze_effect(effect):
+    """Remove the axes of outcomes and treatments of length 1 from effects of shape
+    (n, y_d, x_d), but never the axis of the examples.
+    """
+    if effect.ndim < 3:
+        return effect
+
+    return effect.squeeze(tuple(i for i in (1, 2) if effect.shape[i] == 1))
+
+
 def get_groups(target, a, one_hot, *arrays):
     arrays = list(arrays)
 
-- 
2.43.0


From 5d4b4f9aa0e2bf7d1cd107377037c513ed3b9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 057/101] fix: separate treatments with class probabilities:
 XLearner fails, TLearner may report classes of an earlier fit

---
 ylearn/estimator_model/meta_learner.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index 07e81d3..b8f9174 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -792,9 +792,9 @@ class TLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = self.xt_model.classes_
-            except:
+            else:
                 classes_ = self._fitted_dict_separa["models"][0].classes_
         else:
             classes_ = None
@@ -1260,12 +1260,12 @@ class XLearner(BaseEstModel):
     def outcome_classes_(self):
         if self.is_discrete_outcome:
             assert self._is_fitted, "The model has not been fitted yet."
-            try:
+            if self.combined_treat:
                 classes_ = (
                     self.ft_model.classes_
                 )  # TODO: note that, in some extreme case when the treat group only has one class of outcome, then this will render an error, but currently we ignore such case
-            except:
-                classes_ = self._fitted_dict_separa["models"][0].classes_
+            else:
+                classes_ = self._fitted_dict_separa["outcome_classes"][0]
             # else:
             #     classes_ = None
         else:
@@ -1503,6 +1503,9 @@ class XLearner(BaseEstModel):
         _wv_control, _y_control = get_groups(treat_arrays[0], x, False, wv, y)
         _y_control = _y_control.squeeze()
         f0_model.fit(_wv_control, _y_control)
+        self._fitted_dict_separa["outcome_classes"].append(
+            getattr(f0_model, "classes_", None)
+        )
 
         if self.proba_output:
             self._outcome_oh = ArrayOneHotEncoder(categories=[f0_model.classes_])
@@ -1575,7 +1578,7 @@ class XLearner(BaseEstModel):
         for i, (kt_model, k0_model) in enumerate(model_list):
             pred_t = kt_model.predict(wv)
             pred_0 = k0_model.predict(wv)
-            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, self._y_d)
+            fnji = (rho * pred_t + (1 - rho) * pred_0).reshape(n, y_d)
             f_nji[:, :, i] = fnji
 
         if target_outcome is None:
-- 
2.43.0


From 7b9b0dfa1d31c5a0b82a7003b799a815ea7b39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 058/101] fix: permuted learners of a discrete outcome fail
 without class probabilities

---
 ylearn/estimator_model/_permuted.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/_permuted.py b/ylearn/estimator_model/_permuted.py
index 7d695ba..f57e032 100644
--- a/ylearn/estimator_model/_permuted.py
+++ b/ylearn/estimator_model/_permuted.py
@@ -21,9 +21,14 @@ except ImportError as e:
             raise ImportError(_msg_causal_tree)
 
 
+def _has_class_effects(learner):
+    # one effect per class of the outcome, rather than one effect on its (numeric) value
+    return learner.is_discrete_outcome and getattr(learner, 'proba_output', True)
+
+
 def _default_estimate_options(learner, effect_nji=False):
     options = {}
-    if learner.is_discrete_outcome:
+    if _has_class_effects(learner):
         if effect_nji:
             fn = learner.effect_nji
         else:
@@ -55,7 +60,7 @@ def _effect_nji(learner_and_sign, data, outcome, treatment, treat, control, targ
         assert len(effect.shape) == 3
         assert effect.shape[2] == 2
 
-        classes = getattr(learner, 'outcome_classes_', None) if learner.is_discrete_outcome else None
+        classes = getattr(learner, 'outcome_classes_', None) if _has_class_effects(learner) else None
         if classes is not None:
             assert effect.shape[1] == len(classes)
             if target_outcome is not None:
-- 
2.43.0


From ef4c656060424bcb6917514f651bb01b3d9f9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 059/101] fix: effect_nji of CausalForest fails, as there is no
 linear model of the effects

---
 ylearn/estimator_model/causal_forest.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index 25ec0aa..f64c790 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -219,6 +219,22 @@ class CausalForest(DoubleML):
     def estimate(self, data=None, **kwargs):
         return self.yx_model.estimate(data=data)
 
+    def _prepare4est(self, data=None, *args, **kwargs):
+        # the effects of all treatments, where the one of the control is zero
+        effect = self.estimate(data=data)
+        if self.is_discrete_treatment:
+            ctrl = getattr(self, "control", None)
+            ctrl = get_tr_ctrl(
+                ctrl,
+                self.comp_transormer,
+                treat=False,
+                one_hot=False,
+                discrete_treat=True,
+            )
+            effect = np.insert(effect, np.ravel(ctrl)[0], 0, axis=1)
+
+        return effect.reshape(len(effect), 1, -1)
+
     def apply(self, v):
         """
         Apply trees in the forest to X, return leaf indices.
-- 
2.43.0


From fa2d906ef0a0463ebdfbcdb2f8cbd181c8226bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 060/101] fix: CTCausalForest cannot estimate the effects of
 the data it was fitted with

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 1bd54ca..1091d66 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -384,7 +384,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         if x.ndim == 1:
             x = x.reshape(-1, 1)
 
-        for k, value in {"y": y, "x": x, "v": v}.items():
+        for k, value in {"y": y, "x": x, "w": w, "v": v}.items():
             setattr(self, "_" + k, value)
 
         # Determin treatment settings
-- 
2.43.0


From 44e0c46b765d69cce8dcc449363e946802ce4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 061/101] fix: labels of treatments other than int are rejected
 by causal trees

---
 ylearn/estimator_model/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/utils.py b/ylearn/estimator_model/utils.py
index 458c7e7..09e29e6 100644
--- a/ylearn/estimator_model/utils.py
+++ b/ylearn/estimator_model/utils.py
@@ -94,7 +94,7 @@ def get_treat_control(treat_ctrl, trans, treat=False):
     n_treat = len(trans.categories_)
 
     if treat_ctrl is not None:
-        if not isinstance(treat_ctrl, int):
+        if isinstance(treat_ctrl, (list, tuple, np.ndarray)):
             assert len(treat_ctrl) == n_treat
         else:
             treat_ctrl = [
-- 
2.43.0


From d12592b3a5627911746ea9e918e38c44a66f0445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 062/101] fix: CausalForest does not transform the covariates
 of new data

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 7 +++++--
 ylearn/estimator_model/causal_forest.py                    | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 1091d66..056e196 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -511,8 +511,11 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return round(self.honest_subsample_num * sub_samples)
 
     def _check_features(self, data):
-        v = self._v if data is None else convert2array(data, self.covariate)[0]
-        return v
+        if data is None:
+            return self._v
+        if isinstance(data, np.ndarray):
+            return data
+        return convert2array(data, self.covariate)[0]
 
     def _prepare4est(self, data=None, batch_size=100):
         assert self._is_fitted, "The model is not fitted yet."
diff --git a/ylearn/estimator_model/causal_forest.py b/ylearn/estimator_model/causal_forest.py
index f64c790..fb7f8d1 100644
--- a/ylearn/estimator_model/causal_forest.py
+++ b/ylearn/estimator_model/causal_forest.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from . import DoubleML
-from .utils import get_tr_ctrl
+from .utils import get_tr_ctrl, convert2array
 from ._generalized_forest._grf import GRForest
 
 
@@ -217,6 +217,10 @@ class CausalForest(DoubleML):
         return x_prime
 
     def estimate(self, data=None, **kwargs):
+        if data is not None and self.covariate_transformer is not None:
+            v = convert2array(data, self.covariate)[0]
+            data = self.covariate_transformer.transform(v)
+
         return self.yx_model.estimate(data=data)
 
     def _prepare4est(self, data=None, *args, **kwargs):
-- 
2.43.0


From b93b5d79b3b6bd3b87196a26f4388e4a9d89e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 063/101] fix: trees grown best-first ignore sample_weight

---
 ylearn/sklearn_ex/cloned/tree/_tree.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/cloned/tree/_tree.pyx b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
index 6e405ca..fd039dd 100644
--- a/ylearn/sklearn_ex/cloned/tree/_tree.pyx
+++ b/ylearn/sklearn_ex/cloned/tree/_tree.pyx
@@ -361,7 +361,7 @@ cdef class BestFirstTreeBuilder(TreeBuilder):
 
         # init splitter
         cdef Splitter splitter = self.splitter
-        self._init_splitter(splitter,X,y)
+        self._init_splitter(splitter, X, y, sample_weight)
 
         # build tree
         self._build_tree(tree,splitter)
-- 
2.43.0


From fafe5b7192b7a4f9b54ad23d1307a3ff7e29c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:50 +0000
Subject: [PATCH 064/101] fix: a policy tree fitted again transforms covariates
 as for its previous estimator

---
 ylearn/policy/policy_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/policy/policy_model.py b/ylearn/policy/policy_model.py
index cee3c0b..6aa1c03 100644
--- a/ylearn/policy/policy_model.py
+++ b/ylearn/policy/policy_model.py
@@ -274,6 +274,7 @@ class PolicyTree:
         """
         ce, v = convert2array(data, effect, covariate)
         self.covariate = covariate
+        self.cov_transformer = None
 
         if effect_array is not None:
             ce = effect_array
@@ -598,7 +599,7 @@ class PolicyTree:
             assert isinstance(data, pandas.DataFrame)
 
             v = convert2array(data, self.covariate)[0]
-            if hasattr(self, "cov_transformer"):
+            if self.cov_transformer is not None:
                 v = self.cov_transformer.transform(v)
 
             assert v.shape[1] == self.tree_.n_features
-- 
2.43.0


From c645e8cb4e111b178071885a8e1d09db086f1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 065/101] fix: causal trees ignore the control group

---
 ylearn/estimator_model/_tree/tree_criterion.pyx | 2 +-
 ylearn/estimator_model/causal_tree.py           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index ab5964b..137d553 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -161,7 +161,7 @@ cdef class HonestCMSE(RegressionCriterion):
                 y0_sq_sum_total += y_ik * y_ik
                 n0_total +=1
             #
-            weighted_n_node_samples += w
+            weighted_n_node_samples += 1
             #
 
         self.nt_total = nt_total
diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 7e81208..3e9f24c 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -752,7 +752,8 @@ class CausalTree(BaseEstModel):
         label = np.any((_tr, _crtl), axis=0)
         y = y[label]
         wv = wv[label]
-        sample_weight = _tr[label].astype(int)
+        # the splitter drops samples with zero weights, so controls are marked with -1
+        sample_weight = np.where(_tr[label], 1, -1)
 
         check_scalar(
             self.ccp_alpha,
@@ -965,7 +966,7 @@ class CausalTree(BaseEstModel):
                 random_state=random_state,
             )
             builder.build(self.tree_, wv_train, y_train, sample_weight_train)
-            self._assign_honest_values(self.tree_, wv_test, y_test, sample_weight_test)
+            self._assign_honest_values(self.tree_, wv_test, y_test, sample_weight_test > 0)
 
         self._is_fitted = True
 
-- 
2.43.0


From f37cf8144914b52f35a8a3041ab7b5e00ada4c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 066/101] fix: min_impurity_decrease has no effect on causal
 trees

---
 ylearn/estimator_model/_tree/tree_criterion.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ylearn/estimator_model/_tree/tree_criterion.pyx b/ylearn/estimator_model/_tree/tree_criterion.pyx
index 137d553..e4fb1ae 100644
--- a/ylearn/estimator_model/_tree/tree_criterion.pyx
+++ b/ylearn/estimator_model/_tree/tree_criterion.pyx
@@ -429,9 +429,10 @@ cdef class HonestCMSE(RegressionCriterion):
     cdef double impurity_improvement(self, double impurity_parent,
                                      double impurity_left,
                                      double impurity_right) nogil:
-        cdef DOUBLE_t n_total = self.nt_total + self.n0_total + eps
-        return (impurity_parent - ((self.nt_right + self.n0_right) / n_total * impurity_right)
-                                - ((self.nt_left + self.n0_left) / n_total * impurity_left))
+        cdef DOUBLE_t n_total = self.nt_total + self.n0_total
+        return n_total / self.y.shape[0] * (
+            impurity_parent - ((self.nt_right + self.n0_right) / n_total * impurity_right)
+                            - ((self.nt_left + self.n0_left) / n_total * impurity_left))
 
 
 cdef class CMSE(HonestCMSE):
-- 
2.43.0


From 04da0c3f1535e73acba3a9cfa1816a182aff00c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 067/101] fix: a tree of a CTCausalForest mistakes the
 treatments if its sub-sample lacks one

---
 ylearn/estimator_model/causal_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/estimator_model/causal_tree.py b/ylearn/estimator_model/causal_tree.py
index 3e9f24c..7a21c24 100644
--- a/ylearn/estimator_model/causal_tree.py
+++ b/ylearn/estimator_model/causal_tree.py
@@ -1091,6 +1091,8 @@ class CTCausalForest(BaseCausalForest):
         # TODO: Note that this step can be improved by updating the procedure of making treat and control
         w = w[s] if w is not None else None
         v = v[s] if v is not None else None
+        # the sub-sample may lack some treatments
+        t.categories = [np.unique(x[:, j]) for j in range(x.shape[1])]
         t._fit_with_array(y[s], x[s], w, v, treat=treat, control=control)
 
         return t
-- 
2.43.0


From fae77490d64b2cfa7e598e9cf7c4db9bd8a06a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 068/101] fix: apply of a causal forest always raises a
 TypeError

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index 056e196..f7c1527 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -355,7 +355,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
             return the index of the leaf v ends up in.
         """
         results = Parallel(**self._job_options())(
-            delayed(tree.apply)(v, v, check_input=False) for tree in self.estimators_
+            delayed(tree.apply)(None, v) for tree in self.estimators_
         )
 
         return np.array(results).T
-- 
2.43.0


From e305431dd3000542fe928d052c10104e617f1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 069/101] fix: the feature importance of a causal forest
 without any split raises an AttributeError

---
 ylearn/estimator_model/_generalized_forest/_base_forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/_generalized_forest/_base_forest.py b/ylearn/estimator_model/_generalized_forest/_base_forest.py
index f7c1527..f7191ce 100644
--- a/ylearn/estimator_model/_generalized_forest/_base_forest.py
+++ b/ylearn/estimator_model/_generalized_forest/_base_forest.py
@@ -372,7 +372,7 @@ class BaseCausalForest(BaseEstModel, BaseForest):
         )
 
         if not all_importances:
-            return np.zeros(self.n_features_in_, dtype=np.float64)
+            return np.zeros(self.estimators_[0].n_features_in_, dtype=np.float64)
 
         all_importances = np.mean(all_importances, axis=0, dtype=np.float64)
         return all_importances / np.sum(all_importances)
-- 
2.43.0


From 63d2cb4bfd6b0955b48938106be26fc62bac7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 070/101] fix: growing a causal forest with several treatments
 writes beyond its work memory

---
 .../_generalized_forest/tree/_util_lib.cpp               | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
index d73096c..0dbdc5c 100644
--- a/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
+++ b/ylearn/estimator_model/_generalized_forest/tree/_util_lib.cpp
@@ -87,7 +87,6 @@ int init_criterion( /* input */
         mem_size += n_node_samples * d_tr; // grad_coef
         mem_size += n_node_samples * d_y; // y_dif
         mem_size += n_node_samples * d_tr; // tr_dif
-        mem_size += n_node_samples * d_y; // y_node_cpy
 
         double *mem_work = new double[mem_size];
         double *y_node = mem_work;
@@ -97,7 +96,6 @@ int init_criterion( /* input */
         double *grad_coef = f_grad + d_tr * d_tr;
         double *y_dif = grad_coef + n_node_samples * d_tr;
         double *tr_dif = y_dif + n_node_samples * d_y;
-        double *y_node_cpy = tr_dif + n_node_samples * d_tr;
 
 
         int p, i, idx, k, k_tr, j_tr;
@@ -143,12 +141,7 @@ int init_criterion( /* input */
         }
 
         // 0: compute ls_coef
-        eigen_solve(n_node_samples, d_tr, d_y, tr_node, y_node, y_node_cpy);
-        for(k_tr=0; k_tr<d_tr; k_tr++){
-            for(k=0; k<d_y; k++){
-                ls_coef[k_tr + k * d_tr] = y_node_cpy[k_tr + k * n_node_samples];
-            }
-        }
+        eigen_solve(n_node_samples, d_tr, d_y, tr_node, y_node, ls_coef);
 
         // 1: compute tr_dif and y_dif
         double grad_coef_ik=0.0;
-- 
2.43.0


From 069729a3d13da1bae7a2a7568e676249f0e70336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 071/101] fix: learners fail for a treatment arm with a single
 individual

---
 ylearn/estimator_model/meta_learner.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ylearn/estimator_model/meta_learner.py b/ylearn/estimator_model/meta_learner.py
index b8f9174..4e891ca 100644
--- a/ylearn/estimator_model/meta_learner.py
+++ b/ylearn/estimator_model/meta_learner.py
@@ -17,6 +17,11 @@ from .utils import (
 )
 
 
+def _squeeze_outcome(y):
+    # the models expect a 1d array for a single outcome, also if there is a single sample
+    return y.ravel() if y.ndim == 2 and y.shape[1] == 1 else y
+
+
 class SLearner(BaseEstModel):
     r"""
     SLearn uses one machine learning model to compute the causal effects.
@@ -893,8 +898,8 @@ class TLearner(BaseEstModel):
         wv_treat, y_treat = get_groups(treat, x, True, wv, y)
         wv_control, y_control = get_groups(control, x, True, wv, y)
 
-        y_treat = y_treat.squeeze()
-        y_control = y_control.squeeze()
+        y_treat = _squeeze_outcome(y_treat)
+        y_control = _squeeze_outcome(y_control)
 
         self.xt_model.fit(wv_treat, y_treat, **kwargs)
         self.x0_model.fit(wv_control, y_control, **kwargs)
@@ -988,7 +993,7 @@ class TLearner(BaseEstModel):
         for treat in treat_arrays:
             model = clone(self.xt_model)
             _wv, _y = get_groups(treat, x, False, wv, y)
-            _y = _y.squeeze()
+            _y = _squeeze_outcome(_y)
 
             model.fit(_wv, _y, **kwargs)
             self._fitted_dict_separa["treatment"].append(treat)
@@ -1390,8 +1395,8 @@ class XLearner(BaseEstModel):
         wv_treat, y_treat = get_groups(treat, x, True, wv, y)
         wv_control, y_control = get_groups(control, x, True, wv, y)
 
-        y_treat = y_treat.squeeze()
-        y_control = y_control.squeeze()
+        y_treat = _squeeze_outcome(y_treat)
+        y_control = _squeeze_outcome(y_control)
 
         self.ft_model.fit(wv_treat, y_treat, **kwargs)
         self.f0_model.fit(wv_control, y_control, **kwargs)
@@ -1501,7 +1506,7 @@ class XLearner(BaseEstModel):
 
         f0_model = clone(self.f0_model)
         _wv_control, _y_control = get_groups(treat_arrays[0], x, False, wv, y)
-        _y_control = _y_control.squeeze()
+        _y_control = _squeeze_outcome(_y_control)
         f0_model.fit(_wv_control, _y_control)
         self._fitted_dict_separa["outcome_classes"].append(
             getattr(f0_model, "classes_", None)
@@ -1513,7 +1518,7 @@ class XLearner(BaseEstModel):
             for treat in treat_arrays[1:]:
                 ft_model = clone(self.ft_model)
                 _wv, _y = get_groups(treat, x, False, wv, y)
-                _y = _y.squeeze()
+                _y = _squeeze_outcome(_y)
 
                 # Step 1
                 ft_model.fit(_wv, _y, *args, **kwargs)
@@ -1535,7 +1540,7 @@ class XLearner(BaseEstModel):
             for treat in treat_arrays[1:]:
                 ft_model = clone(self.ft_model)
                 _wv, _y = get_groups(treat, x, False, wv, y)
-                _y = _y.squeeze()
+                _y = _squeeze_outcome(_y)
 
                 # Step 1
                 ft_model.fit(_wv, _y, *args, **kwargs)
-- 
2.43.0


From 32cbb7f88635e3a23d8cf44d2d35449c6934d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:22 +0000
Subject: [PATCH 072/101] fix: causal_effect of a continuous treatment given by
 name takes it for a list of letters

---
 ylearn/api/_why.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 13f56dc..f5b6c16 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -720,8 +720,7 @@ class Why:
         assert not combine_treatment, \
             '"combine_treatment" is not supported for continuous treatment.'
 
-        if treatment is None:
-            treatment = self.treatment_
+        treatment = utils.to_list(treatment, 'treatment') if treatment is not None else self.treatment_
 
         test_data_preprocessed = self._preprocess(test_data)
         treat = self._safe_treat_control(treatment, treat, 'treat')
-- 
2.43.0


From be3646f368f4378374043efc03fb6b10d27c3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 073/101] fix: individual_causal_effect mixes up individuals
 whose indices are not unique

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index f5b6c16..1f2fb61 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -809,8 +809,8 @@ class Why:
             target_outcome = self._transform_outcome(target_outcome)
 
         dfs = []
-        for ri in test_data_preprocessed.index:
-            row_df = test_data_preprocessed.loc[ri:ri]
+        for i, ri in enumerate(test_data_preprocessed.index):
+            row_df = test_data_preprocessed.iloc[i:i + 1]
             for xi, x in enumerate(self.treatment_):
                 treat_i = row_df[x].tolist()[0]
                 control_i = control[xi]
-- 
2.43.0


From e8e016cb0032c85d84d25b892f9f012e368c64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 074/101] fix: whatif fails for discrete treatments when the
 indices of individuals are not unique

---
 ylearn/api/_why.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 1f2fb61..05e683d 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -889,23 +889,20 @@ class Why:
         df = pd.DataFrame(dict(c=old_value, t=new_value), index=old_value.index)
         df['tc'] = df[['t', 'c']].apply(tuple, axis=1)
         tc_pairs = df['tc'].unique().tolist()
-        effect = []
+        effect = np.zeros((len(df),))
         for t, c in tc_pairs:
-            tc_rows = df[df['tc'] == (t, c)]
+            tc_rows = (df['tc'] == (t, c)).values  # a mask, indices may be not unique
             if t == c:
-                eff = np.zeros((len(tc_rows),))
+                eff = np.zeros((tc_rows.sum(),))
             else:
-                data_rows = data.loc[tc_rows.index]
+                data_rows = data[tc_rows]
                 t_encoded, c_encoded = xe.transform([t, c]).tolist()
                 eff = estimator.estimate(data_rows, treat=t_encoded, control=c_encoded)
             if self.fn_cost is not None:
-                eff = utils.cost_effect(self.fn_cost, test_data.loc[tc_rows.index], eff, self.effect_name)
-            effect.append(pd.DataFrame(dict(e=eff.ravel()), index=tc_rows.index))
-        effect = pd.concat(effect, axis=0)
-        assert len(effect) == len(df)
-        df['e'] = effect['e']  # align indices
+                eff = utils.cost_effect(self.fn_cost, test_data[tc_rows], eff, self.effect_name)
+            effect[tc_rows] = eff.ravel()
 
-        y_new = y_old + df['e']
+        y_new = y_old + effect
         return y_new
 
     def _whatif_continuous(self, test_data, new_value, treatment, estimator):
-- 
2.43.0


From 2cc1ed702d27de07fc6a349527bb543bafacf344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 075/101] fix: Why swaps the values of columns when numeric and
 categorical columns are mixed

---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 05e683d..79504e6 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -280,7 +280,7 @@ class Why:
         assert len(columns) > 0
         data_t = preprocessor.fit_transform(data[columns], y)
         assert isinstance(data_t, pd.DataFrame) and set(data_t.columns.tolist()) == set(columns)
-        data[columns] = data_t
+        data[columns] = data_t[columns]
 
         # fit estimator
         estimator_keys = treatment.copy()
@@ -498,7 +498,7 @@ class Why:
             if self.preprocessor_ is not None:
                 var_columns = utils.join_list(self.adjustment_, self.covariate_, self.instrument_)
                 assert len(var_columns) > 0
-                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])
+                test_data[var_columns] = self.preprocessor_.transform(test_data[var_columns])[var_columns]
 
             if encode_outcome and self.y_encoder_ is not None and self.outcome_ in columns:
                 test_data[self.outcome_] = self.y_encoder_.transform(test_data[self.outcome_])
-- 
2.43.0


From 0665caf47dc7b48877cfb4d650296497b241fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 076/101] fix: infer_task_type counts missing labels as classes

The missing values in an array or a Series of numbers are not the object
np.nan, so they were never removed from the unique labels: a binary label
with missing values was taken for a regression.
---
 ylearn/utils/_common.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index d27fd50..8848c34 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -190,10 +190,7 @@ def infer_task_type(y, *, dropna=True, excludes=None, regression_exponent=0.382)
 
     uniques = unique(y)
     if dropna:
-        if uniques.__contains__(np.nan):
-            uniques.remove(np.nan)
-        if uniques.__contains__(None):
-            uniques.remove(None)
+        uniques = {u for u in uniques if not pd.isnull(u)}
     if excludes is not None and len(excludes) > 0:
         uniques -= set(excludes)
     n_unique = len(uniques)
-- 
2.43.0


From 44c0fdf44b08f2c51a7b55bf25c8470227397cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 077/101] fix: infer_task_type rejects a label with a single
 column

A label of shape (n, 1) failed with an unhashable type as an array, and was
inferred from the name of its column as a DataFrame.
---
 ylearn/utils/_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/utils/_common.py b/ylearn/utils/_common.py
index 8848c34..980fb59 100644
--- a/ylearn/utils/_common.py
+++ b/ylearn/utils/_common.py
@@ -188,6 +188,9 @@ def infer_task_type(y, *, dropna=True, excludes=None, regression_exponent=0.382)
         task = const.TASK_MULTILABEL
         return task, labels
 
+    if len(y.shape) > 1:
+        y = y.iloc[:, 0] if hasattr(y, 'iloc') else y.reshape(-1)
+
     uniques = unique(y)
     if dropna:
         uniques = {u for u in uniques if not pd.isnull(u)}
-- 
2.43.0


From 14aebf7e3f20949b7f39c118f6d4a391c8a90b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 078/101] fix: general_estimator takes every inferred task for
 a classification

infer_task_type returns the task and its labels.
---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index eefbbe4..dc57c84 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -388,7 +388,7 @@ def general_estimator(X, y=None, estimator=None, task=None, random_state=None, *
 
     if task is None:
         assert y is not None, '"y" or "task" is required.'
-        task = infer_task_type(y)
+        task, _ = infer_task_type(y)
     elif isinstance(task, bool):  # discrete or not
         task = const.TASK_MULTICLASS if task else const.TASK_REGRESSION
 
-- 
2.43.0


From 02f642e5c688a5aeba8b5aea584e8c363f80a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 079/101] fix: feature_importances_ are not in the order of
 feature_names_in_

The preprocessor puts categorical and boolean columns first; the importances
were put back in the order of the input only if some column was dropped.
---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index dc57c84..13850a1 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -179,7 +179,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
         columns = X.columns.to_list()
         selected = [columns[i] for i in selected]
 
-        if len(columns) != len(columns_in):
+        if columns != columns_in:
             importances = [0.0 if c not in columns else importances[columns.index(c)] for c in columns_in]
             importances = np.array(importances)
 
-- 
2.43.0


From 6c0e2682d3715148abb6680fdef089c79730f583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 080/101] fix: DataCleaner drops the columns of an earlier fit
 when fitted again

fit_transform found the columns dropped by the last fit_transform and dropped
these instead of looking for those of the new data.
---
 ylearn/sklearn_ex/_data_cleaner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index a102852..34bbb94 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -285,6 +285,10 @@ class DataCleaner:
         if copy_data:
             X, y = self._copy(X, y)
 
+        self.dropped_constant_columns_ = None
+        self.dropped_idness_columns_ = None
+        self.dropped_duplicated_columns_ = None
+
         X, y = self.clean_data(X, y, reduce_mem_usage=self.reduce_mem_usage)
 
         logger.debug('collect meta info from data')
-- 
2.43.0


From bc2a696891e3401cd28e932c490c6a04d07d4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 081/101] fix: DataCleaner.append_drop_columns fails before
 fitting

---
 ylearn/sklearn_ex/_data_cleaner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_data_cleaner.py b/ylearn/sklearn_ex/_data_cleaner.py
index 34bbb94..b48cff5 100644
--- a/ylearn/sklearn_ex/_data_cleaner.py
+++ b/ylearn/sklearn_ex/_data_cleaner.py
@@ -342,7 +342,8 @@ class DataCleaner:
                 meta[dtype] = [c for c in cols if c not in columns]
             self.df_meta_ = meta
 
-        self.columns_ = [c for c in self.columns_ if c not in columns]
+        if self.columns_ is not None:
+            self.columns_ = [c for c in self.columns_ if c not in columns]
 
     def _repr_html_(self):
         cleaner_info = [
-- 
2.43.0


From 6e771f097d50698c7449c098d2b18007df3e4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 082/101] fix: SafeOrdinalEncoder cannot encode data without
 rows

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index 13850a1..f84af4a 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -61,7 +61,7 @@ class SafeOrdinalEncoder(OrdinalEncoder):
         def make_encoder(categories):
             unseen = len(categories)
             m = dict(zip(categories, range(unseen)))
-            vf = np.vectorize(lambda x: m[x] if x in m.keys() else unseen)
+            vf = np.vectorize(lambda x: m[x] if x in m.keys() else unseen, otypes=[int])
             return vf
 
         values = X if isinstance(X, np.ndarray) else X.values
-- 
2.43.0


From dc0e4f232dbb7abfcacb9240c5d6114d00a77261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 083/101] fix: Bayesian network estimates no effect when the
 data contains the outcome

---
 ylearn/bayesian/_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index c285c5d..931ff76 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -498,6 +498,8 @@ class BayesianNetwork(BObject):
 
         # sampling
         test_data = DataLoader(self.state_).spread(data)
+        for c in outcome:
+            test_data.pop(c, None)
         for i in range(num_samples):
             with pyro.condition(data=treat_kv):
                 trace = poutine.trace(model).get_trace(test_data)
-- 
2.43.0


From 53b2050c77aa5f9c95407e66cb53c184ac5e0884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 084/101] fix: Bayesian network predicts wrong values of an
 intervened outcome

---
 ylearn/bayesian/_collectors.py | 4 ++--
 ylearn/bayesian/_network.py    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ylearn/bayesian/_collectors.py b/ylearn/bayesian/_collectors.py
index 85efc43..c105796 100644
--- a/ylearn/bayesian/_collectors.py
+++ b/ylearn/bayesian/_collectors.py
@@ -15,7 +15,7 @@ class NumberSampleCollector(_base.BCollector):
         if self.value is None:
             self.value = value
         else:
-            self.value += value
+            self.value = self.value + value
         self.n_sample += 1
 
     def to(self, result):
@@ -37,7 +37,7 @@ class CategorySampleCollector(_base.BCollector):
         if self.value is None:
             self.value = value
         else:
-            self.value += value
+            self.value = self.value + value
         self.n_sample += 1
 
     def to(self, result):
diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 931ff76..da0d5d6 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -270,7 +270,7 @@ class BayesianNetwork(BObject):
         if len(interventions) > 0:
             states = self.state_
             interventions = {k: torch.tensor(states[k].encode(v)) for k, v in interventions.items()}
-            condition.update(interventions)
+            condition = {**condition, **interventions}
         model = poutine.condition(model, condition)
 
         samples = model(data=data_t, n_samples=n_samples, nodes=nodes)
@@ -308,8 +308,8 @@ class BayesianNetwork(BObject):
         condition = self.fitted_params
         interventions = self.interventions
         if len(interventions) > 0:
-            interventions = {k: torch.tensor(states[k].encode(v)) for k, v in interventions.items()}
-            condition.update(interventions)
+            interventions = {k: torch.tensor(states[k].encode(v)).repeat(len(data)) for k, v in interventions.items()}
+            condition = {**condition, **interventions}
 
         # sampling
         conditioned_model = poutine.condition(model, condition)
-- 
2.43.0


From 3d13a7d99c95c762a5f162bd787f3c29398475ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 085/101] fix: do fails when the blanket of the intervened
 nodes is empty

---
 ylearn/bayesian/_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index da0d5d6..ab8660e 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -689,7 +689,7 @@ class SviBayesianNetwork(BayesianNetwork):
         # nodes = obj.graph.get_nodes()
         blanket_nodes = obj.graph.get_blanket(list(intervention.keys()), kind=blanket, return_self=False)
         # print('blanket:', blanket_nodes)
-        n_weight = len(blanket_nodes) * n_samples
+        n_weight = max(len(blanket_nodes), 1) * n_samples
         for i in range(epochs):
             loss = svi.step(data=data_t, n_samples=n_samples, nodes=blanket_nodes) / n_weight
             if verbose and (i + 1) % 20 == 0:
-- 
2.43.0


From 72b314064fff602748faf0014aafd9e840ce4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 086/101] fix: random_state=0 is ignored by Bayesian networks

---
 ylearn/bayesian/_network.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index ab8660e..1293eec 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -254,7 +254,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         interventions = self.interventions
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if data is not None:
@@ -287,7 +287,7 @@ class BayesianNetwork(BObject):
         states = self.state_
         model = self.model_
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         test_data = DataLoader(states).spread(data)
@@ -334,7 +334,7 @@ class BayesianNetwork(BObject):
                     num_samples=_DEFAULT_SAMPLE_NUMBER, proba=False, random_state=None):
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         if self.infer_ is not None:
@@ -369,7 +369,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -455,7 +455,7 @@ class BayesianNetwork(BObject):
         treatment = to_list(treatment, 'treatment')
         outcome = to_list(outcome, 'outcome')
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         def default_treat_control(node):
@@ -592,7 +592,7 @@ class SviBayesianNetwork(BayesianNetwork):
         nodes = self.graph.get_nodes()
         assert set(columns) >= set(nodes)
 
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         loader = DataLoader(data=data)
@@ -650,7 +650,7 @@ class SviBayesianNetwork(BayesianNetwork):
            blanket='markov', epochs=100, lr=0.005, ce_loss=False,
            inplace=True, random_state=None, verbose=1):
         assert isinstance(intervention, dict) and len(intervention) > 0
-        if random_state:
+        if random_state is not None:
             set_random_state(random_state)
 
         obj = self._get_stub(inplace)
-- 
2.43.0


From 405d1c5d4f5d865c7d9bffc70e7ab7356eb8c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 087/101] fix: CategoryNodeState encodes unknown classes as
 known ones

---
 ylearn/bayesian/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ylearn/bayesian/_base.py b/ylearn/bayesian/_base.py
index d6e9568..dd1b3a4 100644
--- a/ylearn/bayesian/_base.py
+++ b/ylearn/bayesian/_base.py
@@ -65,6 +65,8 @@ class CategoryNodeState(BState):
         """
         classes to indices
         """
+        if not np.isin(value, self.classes).all():
+            raise ValueError(f'Found unknown classes, expected: {self.classes.tolist()}')
         r = np.searchsorted(self.classes, value)
         return r
 
-- 
2.43.0


From 1523bb9ca709ce884123cc682544679877f49f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 088/101] fix: a Bayesian network fitted again keeps the
 interventions of the earlier fit

---
 ylearn/bayesian/_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 1293eec..20947f7 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -639,6 +639,7 @@ class SviBayesianNetwork(BayesianNetwork):
         obj = self._get_stub(inplace)
         obj.state_ = state
         obj.model_ = model
+        obj.interventions_ = None
         obj.params_ = params
         obj.guide_ = guide
         obj.pyro_param_state_ = _get_pyro_params()
-- 
2.43.0


From 8af88502bb7dd4150045ee0ca0307212cde2c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 089/101] fix: DiGraph drops the nodes without edges

---
 ylearn/bayesian/_dag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index 1b8b80b..8c24e0b 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -31,6 +31,7 @@ class DiGraph(nx.DiGraph):
                 raise ValueError(f'The given structure graph include {n_graph} subgraph.')
 
         super().__init__(graph_data)
+        self.add_nodes_from(g.nodes)
 
     @property
     def is_dag(self):
-- 
2.43.0


From a49561b3d7badfc80228f4d14638707cb0e418ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 090/101] fix: blankets without self contain nodes which are
 related to each other

---
 ylearn/bayesian/_dag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index 8c24e0b..1e6dc06 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -84,6 +84,8 @@ class DiGraph(nx.DiGraph):
 
         if return_self:
             blanket.update(nodes)
+        else:
+            blanket.difference_update(nodes)
 
         return self.sort_nodes(blanket, topo_sorted=topo_sorted)
 
@@ -97,6 +99,8 @@ class DiGraph(nx.DiGraph):
 
         if return_self:
             blanket.update(nodes)
+        else:
+            blanket.difference_update(nodes)
 
         return self.sort_nodes(blanket, topo_sorted=topo_sorted)
 
-- 
2.43.0


From 85f64d1e2fbb852513fa53c25096e7f10d4ab9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:19 +0000
Subject: [PATCH 091/101] fix: Bayesian network estimates no effect of a
 treatment which is not a parent of the outcome

---
 ylearn/bayesian/_network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 20947f7..950454b 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -500,12 +500,16 @@ class BayesianNetwork(BObject):
         test_data = DataLoader(self.state_).spread(data)
         for c in outcome:
             test_data.pop(c, None)
+        treat_kv = {k: torch.tensor(v).repeat(len(data)) for k, v in treat_kv.items()}
+        control_kv = {k: torch.tensor(v).repeat(len(data)) for k, v in control_kv.items()}
+        treat_data = {**test_data, **treat_kv}
+        control_data = {**test_data, **control_kv}
         for i in range(num_samples):
             with pyro.condition(data=treat_kv):
-                trace = poutine.trace(model).get_trace(test_data)
+                trace = poutine.trace(model).get_trace(treat_data)
                 t_collectors(trace)
             with pyro.condition(data=control_kv):
-                trace = poutine.trace(model).get_trace(test_data)
+                trace = poutine.trace(model).get_trace(control_data)
                 c_collectors(trace)
 
             if callable(verbose):
-- 
2.43.0


From a760223d5036277f175b4319ae3eae699fbca0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:19 +0000
Subject: [PATCH 092/101] fix: Bayesian network ignores interventions when
 estimating effects

---
 ylearn/bayesian/_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 950454b..5a283e8 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -486,6 +486,9 @@ class BayesianNetwork(BObject):
         states = [self.state_[node] for node in treatment]
         treat_kv = {t: s.encode(v) for t, s, v in zip(treatment, states, treat)}
         control_kv = {t: s.encode(v) for t, s, v in zip(treatment, states, control)}
+        for c, v in self.interventions.items():
+            treat_kv.setdefault(c, self.state_[c].encode(v))
+            control_kv.setdefault(c, self.state_[c].encode(v))
 
         model = self.model_
         nodes = self.graph.get_blanket(outcome, kind='upstream', topo_sorted=True)
-- 
2.43.0


From 0746fed4b68dcee40c5cc22e50341c44795eb88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:28 +0000
Subject: [PATCH 093/101] fix: predict_raw of a Bayesian network fails

---
 ylearn/bayesian/_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_network.py b/ylearn/bayesian/_network.py
index 5a283e8..e2486ae 100644
--- a/ylearn/bayesian/_network.py
+++ b/ylearn/bayesian/_network.py
@@ -337,7 +337,7 @@ class BayesianNetwork(BObject):
         if random_state is not None:
             set_random_state(random_state)
 
-        if self.infer_ is not None:
+        if getattr(self, 'infer_', None) is not None:
             mcmc_samples = self.infer_.get_samples(num_samples=num_samples)
             predictive = Predictive(self.model_, posterior_samples=mcmc_samples, num_samples=num_samples,
                                     return_sites=outcome)
-- 
2.43.0


From ddf332403e316ac0889f37707808e1c2ae3d63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:36 +0000
Subject: [PATCH 094/101] fix: Bayesian networks learn nearly uniform
 distributions of categories without parents

---
 ylearn/bayesian/_modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_modules.py b/ylearn/bayesian/_modules.py
index 7859fa3..0ed8c45 100644
--- a/ylearn/bayesian/_modules.py
+++ b/ylearn/bayesian/_modules.py
@@ -350,7 +350,7 @@ class NiCategorical(NiModule):
             dist.Dirichlet(torch.ones(n_classes)), )
 
     def __call__(self, X=None, obs=None):
-        result = self.sample(self.name, dist.Categorical(logits=self.weight), obs=obs)
+        result = self.sample(self.name, dist.Categorical(probs=self.weight), obs=obs)
         return result
 
     @classmethod
-- 
2.43.0


From 58e7e511b4fe6d4032d6e72a108030483ab62089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:04 +0000
Subject: [PATCH 095/101] fix: DAG cannot be created from a CausalGraph

---
 ylearn/bayesian/_dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/bayesian/_dag.py b/ylearn/bayesian/_dag.py
index 1e6dc06..1848eb7 100644
--- a/ylearn/bayesian/_dag.py
+++ b/ylearn/bayesian/_dag.py
@@ -11,7 +11,7 @@ class DiGraph(nx.DiGraph):
     def __init__(self, graph, acyclic=None):
         if isinstance(graph, CausalGraph):
             g = graph.dag
-            graph_data = g.edges
+            graph_data = g.edges()
         elif isinstance(graph, nx.Graph):
             g = graph
             graph_data = graph.edges(data=True)
-- 
2.43.0


From af1f54e937a94e931c11422630b45538be018cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:02 +0000
Subject: [PATCH 096/101] fix: NP2SLS fails to give counterfactuals of the
 training data and of discrete treatments

---
 ylearn/estimator_model/iv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 53ef8b7..b54bdea 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -192,6 +192,7 @@ class NP2SLS(BaseEstModel):
         else:
             self._v_basis_func = deepcopy(covar_basis)
 
+        self._x = x
         self._x_d = x.shape[1]
 
         # get expansion basis functions for parameters
@@ -421,13 +422,15 @@ class NP2SLS(BaseEstModel):
         if data is None:
             v = self._v_transformed
             w = self._w
-            x = None
+            x = self._x
             n = self._n
         else:
             w, x, v = convert2array(
                 data, self.adjustment, self.treatment, self.covariate
             )
             v = self._v_basis_func.transform(v) if v is not None else None
+            if self.is_discrete_treatment:
+                x = self.treatment_transformer.transform(x)
 
             n = len(data)
 
-- 
2.43.0


From c7a1c89703d57f039fa735cb5d3a7d26849af907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:02 +0000
Subject: [PATCH 097/101] fix: NP2SLS takes the default treat and control of
 discrete treatments for labels

---
 ylearn/estimator_model/iv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index b54bdea..64b87a0 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -337,6 +337,7 @@ class NP2SLS(BaseEstModel):
         v, w, x, n = self._check_data(data=data)
 
         if quantity != "CF":
+            treat_given, control_given = treat is not None, control is not None
             if treat is not None:
                 if not isinstance(treat, np.ndarray):
                     treat = np.array([treat]).reshape(1, -1)
@@ -374,8 +375,10 @@ class NP2SLS(BaseEstModel):
                 ), f"The number of control {x0.shape[0]} does not match the number of the samples"
 
             if self.is_discrete_treatment:
-                xt = self.treatment_transformer.transform(xt)
-                x0 = self.treatment_transformer.transform(x0)
+                if treat_given:
+                    xt = self.treatment_transformer.transform(xt)
+                if control_given:
+                    x0 = self.treatment_transformer.transform(x0)
             # else:
             #     if treat is not None and not isinstance(treat, np.ndarray):
             #         treat = np.array([treat]).reshape(-1, 1)
-- 
2.43.0


From 8e87070794b163991ab61dacbd1ab2a69e595bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:02 +0000
Subject: [PATCH 098/101] fix: NP2SLS does not take a list as covar_basis

---
 ylearn/estimator_model/iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/estimator_model/iv.py b/ylearn/estimator_model/iv.py
index 64b87a0..4a05656 100644
--- a/ylearn/estimator_model/iv.py
+++ b/ylearn/estimator_model/iv.py
@@ -186,7 +186,7 @@ class NP2SLS(BaseEstModel):
         else:
             self._z_basis_func = deepcopy(instrument_basis)
 
-        if isinstance(covar_basis, str) or isinstance(covar_basis, tuple):
+        if isinstance(covar_basis, list) or isinstance(covar_basis, tuple):
             method, degree = covar_basis[0], covar_basis[1]
             self._v_basis_func = self.get_basis_func(degree, method, v, **kwargs)
         else:
-- 
2.43.0


From 969f60c91871203e1c41ee29b15331da95c5dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:59 +0000
Subject: [PATCH 099/101] fix: CEInterpreter.predict does not select the
 covariates of a DataFrame

---
 ylearn/effect_interpreter/ce_interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ylearn/effect_interpreter/ce_interpreter.py b/ylearn/effect_interpreter/ce_interpreter.py
index b7043f6..22ddd60 100644
--- a/ylearn/effect_interpreter/ce_interpreter.py
+++ b/ylearn/effect_interpreter/ce_interpreter.py
@@ -275,7 +275,10 @@ class CEInterpreter:
         return self.predict(data)
 
     def predict(self, data):
-        data_t = self._transform_data(data)
+        if isinstance(data, pd.DataFrame):
+            data_t = self._check_features(data=data)
+        else:
+            data_t = self._transform_data(data)
         return self._tree_model.predict(data_t)
 
     def plot(
-- 
2.43.0


From c79c0cc42ac648d599bb2a907c6e4c63bafc9a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:44 +0000
Subject: [PATCH 100/101] fix: uplift models of Why without covariates

The check for missing covariates iterated over None when Why was fitted
with adjustments only, so uplift_model and the auuc and qini scores raised
a TypeError.
---
 ylearn/api/_why.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ylearn/api/_why.py b/ylearn/api/_why.py
index 79504e6..4bd5195 100644
--- a/ylearn/api/_why.py
+++ b/ylearn/api/_why.py
@@ -1132,11 +1132,11 @@ class Why:
 
         columns = test_data.columns.tolist()
 
-        if check_covariate:
+        if check_covariate and self.covariate_ is not None:
             notfound = [c for c in self.covariate_ if c not in columns]
             assert len(notfound) == 0, f'[{reason}] Not found covariate: {notfound} in test_data.'
 
-        if check_instrument:
+        if check_instrument and self.instrument_ is not None:
             notfound = [c for c in self.instrument_ if c not in columns]
             assert len(notfound) == 0, f'[{reason}] Not found instrument: {notfound} in test_data.'
 
-- 
2.43.0


From ef30518c0fa25f696f5694533aa84acb365c16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:44 +0000
Subject: [PATCH 101/101] fix: feature importances cannot be learned for
 integer classes other than 0..k-1

---
 ylearn/sklearn_ex/_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ylearn/sklearn_ex/_transformer.py b/ylearn/sklearn_ex/_transformer.py
index f84af4a..f0daa90 100644
--- a/ylearn/sklearn_ex/_transformer.py
+++ b/ylearn/sklearn_ex/_transformer.py
@@ -158,7 +158,7 @@ class FeatureImportancesSelectionTransformer(BaseEstimator):
 
         preprocessor = general_preprocessor()
 
-        if self.task != 'regression' and y.dtype != 'int':
+        if self.task != 'regression':
             logger.info('label encoding')
             le = LabelEncoder()
             y = le.fit_transform(y)
-- 
2.43.0

