From 9baa285549451c4da557c57a56b49792ba8e7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 01/61] fix: a rejected cyclic (re)definition no longer damages
 the network

---
 src/sims_pars/bayesnet/bn.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 124f6dd..5a1ce83 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -72,23 +72,21 @@ class BayesianNetwork:
         #     if not isinstance(self.DAG.nodes[name]['loci'], ExoValueLoci):
         #         raise KeyError('Duplicated variable name')
 
+        # Check acyclic or not before changing anything
+        closed = {name}
+        if name in self.DAG:
+            closed.update(self.DAG.descendants(name))
+        if any(pa in closed for pa in loci.Parents):
+            raise AttributeError('The node causes cyclic paths')
+
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        new_pa = list()
         for pa in loci.Parents:
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
-                new_pa.append(pa)
             self.DAG.add_edge(pa, name)
 
-        # Check acyclic or not
-        if not self.DAG.check_acyclic():
-            self.DAG.remove_node(name)
-            for pa in new_pa:
-                self.DAG.remove_node(pa)
-            raise AttributeError('The node causes cyclic paths')
-
     def append_from_js(self, js):
         loci = loci_from_json(js)
         if 'Des' in js:
-- 
2.43.0


From 3538ed9d7e2d1883546a408184889c7b179d79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 02/61] fix: rebuilding a network from its own JSON export (and
 clone) raised KeyError

---
 src/sims_pars/bayesnet/bn.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 5a1ce83..d9e30d5 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -318,11 +318,5 @@ def bayes_net_from_json(js):
 
     for node in js['Nodes']:
         bn.append_from_js(node)
-    nx.freeze(bn)
-    bn.json = js
-    bn.__order = js['Order']
-    bn.__roots = js['Roots']
-    bn.__rv_roots = js['RVRoots']
-    bn.__leaves = js['Leaves']
-    bn.__exo = js['Exo']
+    bn.complete()
     return bn
-- 
2.43.0


From 9e5ab0ca472d1d746bd3f29f97520c83fb1e4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 03/61] fix: merge dropped an overridden node whose children
 are not overridden too

---
 src/sims_pars/bayesnet/bn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index d9e30d5..3d5385b 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -234,11 +234,11 @@ class BayesianNetwork:
 
         bn = self.copy(name)
         bn.defrost()
-        for node in sub_bn.Order:
-            if sub_bn.is_exogenous(node):
-                continue
+        nodes = [node for node in sub_bn.Order if not sub_bn.is_exogenous(node)]
+        for node in nodes:
             if node in bn:
-                bn.DAG.remove_node(node)
+                bn.DAG.remove_in_edges(node)
+        for node in nodes:
             bn.append_from_js(sub_bn[node].to_json())
 
         bn.__check_edges()
-- 
2.43.0


From d1a0f6f2a034efe9d919011f4b6b06c87cf841d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 04/61] fix: extend turned every node into an exogenous
 variable

---
 src/sims_pars/bayesnet/bn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 3d5385b..3d30bee 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -256,7 +256,7 @@ class BayesianNetwork:
 
         for node in self.Order:
             if override or node not in ext:
-                new_bn.append_from_definition(node)
+                new_bn.append_from_js(self[node].to_json())
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From 4c361c919b80896a3cd3b79c5459fcd1fa8f525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 05/61] fix: node descriptions were lost by JSON export, copy
 and merge

---
 src/sims_pars/bayesnet/bn.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 3d30bee..dfe971e 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -27,8 +27,16 @@ def find_exo(bn):
     return [k for k, v in bn.DAG.nodes.data() if isinstance(v['loci'], ExoValueLoci)]
 
 
+def node_to_js(bn, node):
+    dat = bn.DAG.nodes[node]
+    js = dat['loci'].to_json()
+    if 'Des' in dat:
+        js['Des'] = dat['Des']
+    return js
+
+
 def form_js(bn):
-    nodes = [bn.DAG.nodes[node]['loci'].to_json() for node in bn.DAG.nodes()]
+    nodes = [node_to_js(bn, node) for node in bn.DAG.nodes()]
     return {
         'Name': bn.Name,
         'Nodes': nodes,
@@ -79,6 +87,8 @@ class BayesianNetwork:
         if any(pa in closed for pa in loci.Parents):
             raise AttributeError('The node causes cyclic paths')
 
+        if name in self.DAG:
+            self.DAG.nodes[name].clear()
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
@@ -239,7 +249,7 @@ class BayesianNetwork:
             if node in bn:
                 bn.DAG.remove_in_edges(node)
         for node in nodes:
-            bn.append_from_js(sub_bn[node].to_json())
+            bn.append_from_js(node_to_js(sub_bn, node))
 
         bn.__check_edges()
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
@@ -256,7 +266,7 @@ class BayesianNetwork:
 
         for node in self.Order:
             if override or node not in ext:
-                new_bn.append_from_js(self[node].to_json())
+                new_bn.append_from_js(node_to_js(self, node))
 
         new_bn.complete()
         return new_bn
@@ -274,7 +284,7 @@ class BayesianNetwork:
 
         else:
             for node in self.DAG.nodes():
-                bn.append_from_js(self[node].to_json())
+                bn.append_from_js(node_to_js(self, node))
         bn.UserDefinedFunctions.update(self.UserDefinedFunctions)
         return bn
 
-- 
2.43.0


From 2e41e6ada4061ded854d41c79260d69e9e9ec847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 06/61] fix: a distribution written with all-default arguments
 could not be a node

---
 src/sims_pars/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 4d08de6..a83e4db 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -189,7 +189,7 @@ class ParsedFunction:
 
     @property
     def Parents(self):
-        return set.union(*[arg['value'].Var for arg in self.Arguments])
+        return set().union(*[arg['value'].Var for arg in self.Arguments])
 
     def to_json(self, loc=None):
         return {
-- 
2.43.0


From b8cb617175ec12d9b38d23718b2536d1b3296073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 07/61] fix: graph queries over an empty selection raised
 TypeError

---
 src/sims_pars/bayesnet/dag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a671f0a..cf74d0d 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -51,7 +51,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.ancestors(d) for d in nodes])
+        return set().union(*[self.ancestors(d) for d in nodes])
 
     def downstream(self, nodes):
         """
@@ -59,7 +59,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.descendants(d) for d in nodes])
+        return set().union(*[self.descendants(d) for d in nodes])
 
     def roots(self):
         """
@@ -184,7 +184,7 @@ def get_sufficient_nodes(g, included, given=None):
         for pa in pas:
             mi.remove_edge(pa, nod)
     # find the nodes supporting the included nodes
-    return set.union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
+    return set().union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
 
 
 def get_minimal_nodes(g, included, given=None):
@@ -207,7 +207,7 @@ def get_offsprings(g, nodes):
     :param nodes: targeted nodes
     :return: a set of offspring nodes
     """
-    return set.union(*[g.descendants(d) for d in nodes])
+    return set().union(*[g.descendants(d) for d in nodes])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 7aff3c6d2d362f0dc28b5474434a541cafba1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:34 +0000
Subject: [PATCH 08/61] fix: an intervention touching no known locus raised
 TypeError

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index fa9450a..01dc9e0 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set.union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys()])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
-- 
2.43.0


From 6f7627eefbb408ab1ea7c2603bbd34a5e0d4fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 09/61] fix: removing the incoming edges of a node raised
 NetworkXError (reversed edge)

---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index cf74d0d..64dd135 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -110,7 +110,7 @@ class DAG(nx.DiGraph):
         :param node: targeted node
         """
         for par in self.parents(node):
-            self.remove_edge(node, par)
+            self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
-- 
2.43.0


From 3924ebcbd531385ecf430d31da41f848ba0d30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 10/61] fix: a constant had infinite density away from its
 value

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index a87605c..7b09455 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -163,7 +163,7 @@ class Const(AbsDistribution):
         return self.K
 
     def logpdf(self, v):
-        return 0 if v == self.K else float('inf')
+        return 0 if v == self.K else -float('inf')
 
     def mean(self):
         return self.K
-- 
2.43.0


From 22bcf946c949c84b09b4d221a56f7d5dbe127cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 11/61] fix: categorical log density used the unnormalised
 weights

---
 src/sims_pars/prob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 7b09455..12197ed 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -201,10 +201,11 @@ class CategoricalRV(AbsDistribution):
         return 'Category'
 
     def logpdf(self, v):
+        pr = dict(zip(self.cat, self.p))
         try:
-            return np.array([x*np.log(self.kv[k]) for k, x in v.items()]).sum()
+            return np.array([x*np.log(pr[k]) for k, x in v.items()]).sum()
         except AttributeError:
-            return np.log(self.kv[v])
+            return np.log(pr[v])
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From 12a766387efb62fde5e72e0aa4330c4bbb258204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/61] fix: repr of a distribution without source raised
 TypeError

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 12197ed..db8566b 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -70,7 +70,7 @@ class AbsDistribution(metaclass=ABCMeta):
         if self.source:
             return repr(self.source)
         else:
-            return id(self)
+            return object.__repr__(self)
 
     __str__ = __repr__
 
-- 
2.43.0


From 43eff3147bbd790f65da51e99c9d413d8ace756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 13/61] fix: parsing a definition added __builtins__ to the
 registry of families

---
 src/sims_pars/factory/craftstation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ed63a0f..2023b9c 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -58,7 +58,7 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, self.Creators, loc)
+        return eval(seq, dict(self.Creators), loc)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From a04c44a9b90b1b96b651b20cdf86274dd5323101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 14/61] fix: evaluating an expression added __builtins__ to the
 table of functions

---
 src/sims_pars/bayesnet/loci.py | 2 +-
 src/sims_pars/util.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 8e92d90..6584fe9 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -51,7 +51,7 @@ class Loci(metaclass=ABCMeta):
 class ValueLoci(Loci):
     def __init__(self, name, val):
         Loci.__init__(self, name)
-        self.Value = eval(val, MATH_FUNC) if isinstance(val, str) else val
+        self.Value = eval(val, dict(MATH_FUNC)) if isinstance(val, str) else val
 
     @property
     def Parents(self):
diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index a83e4db..14be27e 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -136,7 +136,7 @@ class MathExpression:
 
     def execute(self, loc=None):
         loc = dict(loc) if loc else dict()
-        return eval(self.Expression, MATH_FUNC, loc)
+        return eval(self.Expression, dict(MATH_FUNC), loc)
 
     @property
     def Parents(self):
-- 
2.43.0


From 848c0ebabca4ecaf5efb9fc9f2b6641acbe0061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 15/61] fix: parameter sets shadowed __dict__ with a method,
 which broke pickling and deep copies

---
 src/sims_pars/bayesnet/chromosome.py | 3 ---
 src/sims_pars/simulation/parcore.py  | 6 ------
 2 files changed, 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index 01dc9e0..c483a8c 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -81,9 +81,6 @@ class Chromosome:
         loc = [('{}: {:g}' if isinstance(v, float) else '{}: {}').format(k, v) for k, v in self.Locus.items()]
         return ", ".join(loc)
 
-    def __dict__(self):
-        return dict(self.Locus)
-
     def to_json(self):
         return {
             'Locus': self.Locus,
diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 400a411..f261f60 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -201,9 +201,6 @@ class ParameterCore(Chromosome):
         if shocked_locus:
             self.reset_probability()
 
-    def __dict__(self):
-        return dict(self.Locus)
-
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
@@ -408,9 +405,6 @@ class PseudoParameterCore(ParameterCore):
             else:
                 self.Locus[k] = s.render(self.Locus, **exo)
 
-    def __dict__(self):
-        return dict()
-
     def reset_sc(self, sc):
         pass
 
-- 
2.43.0


From f36ef26443dda8c78b0b19874437fee7f1204a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 16/61] fix: duplicating a parameter core raised AttributeError

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index f261f60..cf59644 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -61,7 +61,7 @@ class ParameterCore(Chromosome):
     def duplicate(self, nickname):
         if not self.Parent:
             raise AttributeError('Root node can not be duplicated')
-        return self.Parent.bread(nickname, self.Group, exo=self.Locus)
+        return self.Parent.breed(nickname, self.Group, exo=self.Locus)
 
     def detach_from_parent(self, collect_pars=False):
         """
-- 
2.43.0


From bab88bc54e00a0df170ae0548fe1ffb44e0fe625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 17/61] fix: detaching with collected parameters raised
 AttributeError

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index cf59644..13289d5 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -74,7 +74,7 @@ class ParameterCore(Chromosome):
         if collect_pars:
             for k, v in self.Parent:
                 self[k] = v
-            self.SG.set_local_actors(self)
+            self.SG.put_local_actors(self)
 
         self.Parent = None
 
-- 
2.43.0


From 2ad24b42ee3d5982a80686b47b4285990b3cfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 18/61] fix: get_child_samplers failed unless a child had asked
 for samplers before

---
 src/sims_pars/simulation/parcore.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 13289d5..67c2b1b 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -132,11 +132,9 @@ class ParameterCore(Chromosome):
     def get_child_samplers(self, group):
         assert group in self.SG.Children
 
-        try:
-            ca = self.ChildrenActors[group]
-        except KeyError:
-            ca = self.SG.SC[group].get_shared_actors(self)
-        return ca
+        if self.ChildrenActors is None or group not in self.ChildrenActors:
+            self.SG.SC[group].put_shared_actors_on_parent(self)
+        return self.ChildrenActors[group]
 
     def find_descendant(self, address):
         """
-- 
2.43.0


From ae620bbbaceb74a654db144f02481a4ca1ae4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 19/61] fix: reset_sc on a core with children raised TypeError

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 67c2b1b..b980bbe 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -202,7 +202,7 @@ class ParameterCore(Chromosome):
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
-            v.reset_sc(self, sc)
+            v.reset_sc(sc)
 
     @property
     def DeepLogPrior(self):
-- 
2.43.0


From b49557a4f21684c298a5887d8460094deb07383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 20/61] fix: log probability of parameter cores: stale after
 interventions on leaves, missing attributes in clone and DeepLogPrior

---
 src/sims_pars/simulation/parcore.py   | 15 +++++----------
 src/sims_pars/simulation/simugroup.py |  2 +-
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index b980bbe..fd73b93 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -196,9 +196,6 @@ class ParameterCore(Chromosome):
         for v in self.Children.values():
             v.__set_response(imp, shocked)
 
-        if shocked_locus:
-            self.reset_probability()
-
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
@@ -210,7 +207,7 @@ class ParameterCore(Chromosome):
         Log prior with that of offsprings
         :return: log prior probability
         """
-        return self.LogPrior + sum(v.DeepLogPrior for v in self.Children.values())
+        return self.LogProb + sum(v.DeepLogPrior for v in self.Children.values())
 
     def __iter__(self):
         if self.Parent:
@@ -246,8 +243,7 @@ class ParameterCore(Chromosome):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, exo=dict(self))
-        pc_new.LogLikelihood = self.LogLikelihood
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -258,8 +254,7 @@ class ParameterCore(Chromosome):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
-            chd_new.LogLikelihood = chd.LogLikelihood
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
 
 
@@ -442,7 +437,7 @@ class PseudoParameterCore(ParameterCore):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, dict(self))
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -453,5 +448,5 @@ class PseudoParameterCore(ParameterCore):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index d843ba8..c8a0f8c 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -91,7 +91,7 @@ class SimulationGroup:
                 loci.fill(pc)
             prior += loci.evaluate(pc)
 
-        pc.LogPrior = prior
+        pc.LogProb = prior
 
         for act in actors:
             pc.Actors[act].update(pc)
-- 
2.43.0


From d89bb3307bf5a4aa5977e617b69183f1e9c6195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 21/61] fix: pseudo parameter cores returned a list of samplers
 instead of a dict

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index fd73b93..ef1319a 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -341,7 +341,7 @@ class PseudoParameterCore(ParameterCore):
         :return: Random variable generators
         :rtype: dict
         """
-        return list()
+        return dict()
 
     def get_sampler(self, sampler, shared=True):
         """
-- 
2.43.0


From a785e14afb6ee58497602a5758415e2708f953fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 22/61] fix: generate stored None for an exogenous node taken
 from its definition

---
 src/sims_pars/simulation/simugroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index c8a0f8c..1798a32 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -36,7 +36,7 @@ class SimulationGroup:
                 try:
                     vs[d] = parent[d]
                 except (TypeError, KeyError):
-                    vs[d] = self.BN[d].fill(vs)
+                    self.BN[d].fill(vs)
 
         prior = 0
         for d in self.Fixed:
-- 
2.43.0


From f093f807a3169567b07dfff338d05e4f1daaeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 23/61] fix: reading upstream values only tolerated KeyError

---
 src/sims_pars/simulation/actor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/actor.py b/src/sims_pars/simulation/actor.py
index 8a4a604..a2f632d 100644
--- a/src/sims_pars/simulation/actor.py
+++ b/src/sims_pars/simulation/actor.py
@@ -21,7 +21,7 @@ class SimulationActor(metaclass=ABCMeta):
             for p in self.ToRead:
                 try:
                     up[p] = pas[p]
-                except KeyError or AttributeError or TypeError:
+                except (KeyError, AttributeError, TypeError):
                     pass
         return up
 
-- 
2.43.0


From f21f5555ede7f6de79c41b47d6089977aca2b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 24/61] fix: stepping a monitor to time 0 was taken as a step
 of one

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index 3d8a9a5..c8d05be 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -47,7 +47,7 @@ class Monitor:
         self.Last = dict()
 
     def step(self, time=None):
-        time = time if time else self.Time + 1
+        time = time if time is not None else self.Time + 1
         if time < self.Time:
             raise KeyError('Backward time specified')
         elif time == self.Time:
-- 
2.43.0


From a684c64c2c19bbe34e6f44a21a5e146843494988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 25/61] fix: errors of fitters were logged as information

---
 src/sims_pars/fit/base.py       | 2 +-
 src/sims_pars/fitting/fitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/base.py b/src/sims_pars/fit/base.py
index 03d4d1d..71fa7d7 100644
--- a/src/sims_pars/fit/base.py
+++ b/src/sims_pars/fit/base.py
@@ -193,7 +193,7 @@ class Fitter(metaclass=ABCMeta):
         self.Monitor.info(msg)
 
     def error(self, msg):
-        self.Monitor.info(msg)
+        self.Monitor.error(msg)
 
     @property
     def DefaultSettings(self) -> dict:
diff --git a/src/sims_pars/fitting/fitter.py b/src/sims_pars/fitting/fitter.py
index a4c9007..37dd59c 100644
--- a/src/sims_pars/fitting/fitter.py
+++ b/src/sims_pars/fitting/fitter.py
@@ -57,7 +57,7 @@ class Fitter(metaclass=ABCMeta):
         self.Monitor.info(msg)
 
     def error(self, msg):
-        self.Monitor.info(msg)
+        self.Monitor.error(msg)
 
     @property
     def DefaultSettings(self) -> dict:
-- 
2.43.0


From 8ae0e0181a231334705e8b69ac04df793601ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 26/61] fix: history matching with n_sims but not n_ems raised
 UnboundLocalError

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4c526f9..3bb172b 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -68,10 +68,10 @@ class BayesHistoryMatching(Fitter):
         self.Settings['n_pars'] = n_pars = len(model.Domain)
 
         if self.Settings['n_sims'] <= 0:
-            self.Settings['n_sims'] = n_sims = n_pars * 10
+            self.Settings['n_sims'] = n_pars * 10
 
         if self.Settings['n_ems'] <= 0:
-            self.Settings['n_ems'] = n_sims * 100
+            self.Settings['n_ems'] = self.Settings['n_sims'] * 100
 
         v_m = self.Settings['var_model']
 
-- 
2.43.0


From de31a2421ec377dee7910651af413871cece6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 27/61] fix: targets with negative values had negative scale,
 so distances were negative

---
 src/sims_pars/fit/targets/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/single.py b/src/sims_pars/fit/targets/single.py
index 5d04d05..9443613 100644
--- a/src/sims_pars/fit/targets/single.py
+++ b/src/sims_pars/fit/targets/single.py
@@ -14,7 +14,7 @@ class DataPointError(AbsSingleData):
     def __init__(self, name, v, error=0.1):
         AbsSingleData.__init__(self, name, v)
         self.Error = error
-        self.Std = error * v / 2 / 1.96
+        self.Std = abs(error * v) / 2 / 1.96
 
     def get_var_obs(self):
         return self.Std ** 2
-- 
2.43.0


From 0c8d68141a5b43e5d7da5e3183b12181cc3e28ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 28/61] fix: nodes following a registered data function could
 neither be defined nor sampled

---
 src/sims_pars/bayesnet/loci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 6584fe9..2aba2fb 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -113,8 +113,8 @@ class ExoValueLoci(Loci):
 class DistributionLoci(Loci):
     def __init__(self, name, val, pas=None):
         Loci.__init__(self, name)
-        self.Func = complete_function(val)
         self.Parsed = parse_function(val)
+        self.Func = val if self.Parsed.Function in DATA_FUNC else complete_function(val)
         self.__parents = pas if pas else self.Parsed.Parents
 
     @property
@@ -129,7 +129,7 @@ class DistributionLoci(Loci):
         try:
             return parse_distribution(self.Func, loc=pas)
         except KeyError:
-            return find_data_sampler(self.Func.Function, loc=pas)
+            return find_data_sampler(self.Parsed.Function, loc=pas)
 
     def render(self, pas=None):
         return self.get_distribution(pas).sample()
-- 
2.43.0


From be1c8b2dcdab4401c6d7104fd01e6cd4e5c3d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 29/61] fix: a mutation giving up after 20 tries had no
 distance to fall back on

---
 src/sims_pars/fit/abc_smc/alg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 17a097a..6473886 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -69,7 +69,8 @@ def mutate(p0, steps):
 def sample_mutation(model, pt0, steps, unpack=False):
     di = np.Inf
     n_eval = 0
-    p0 = pt0.Pars if isinstance(pt0, Particle) else pt0['Pars']['Locus']
+    pt0 = pt0 if isinstance(pt0, Particle) else Particle.from_json(pt0)
+    p0 = pt0.Pars
     while np.isinf(di):
         p1 = mutate(p0, steps)
         p1 = model.serve(p1)
@@ -83,7 +84,7 @@ def sample_mutation(model, pt0, steps, unpack=False):
 
         if n_eval > 20:
             sim = pt0
-            di = pt0['distance']
+            di = model.calc_distance(pt0)
             break
 
     sim = sim.to_json() if unpack else sim
-- 
2.43.0


From 8b4052386dadc41eb34b100a1ea89939c3a13780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 30/61] fix: a proposal outside the support of a downstream
 distribution crashed the sampler

---
 src/sims_pars/fit/abc_smc/alg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 6473886..0be3667 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -4,6 +4,7 @@ import numpy as np
 import numpy.random as rd
 from joblib import Parallel, delayed
 from tqdm import tqdm
+from pydantic import ValidationError
 
 __author__ = 'Chu-Chang Ku'
 __all__ = ['ApproxBayesComSMC']
@@ -73,7 +74,10 @@ def sample_mutation(model, pt0, steps, unpack=False):
     p0 = pt0.Pars
     while np.isinf(di):
         p1 = mutate(p0, steps)
-        p1 = model.serve(p1)
+        try:
+            p1 = model.serve(p1)
+        except ValidationError:
+            continue
         if np.isinf(p1.LogProb):
             continue
 
-- 
2.43.0


From 90c53b041ee07e6f2d9f8815bd6d407022c9a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 31/61] fix: accepted posterior mutations were thrown away

---
 src/sims_pars/fit/abc_smc/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 0be3667..4b61ebf 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -327,7 +327,7 @@ class ApproxBayesComSMC(Fitter):
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
             if d_p < eps:
-                post.append(pt1)
+                post.append(ptp)
             else:
                 post.append(pt1)
 
-- 
2.43.0


From 6ccf348b106937018384045a733eedfa8a0872f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 32/61] fix: the serial ABC sampler collected dictionaries
 instead of particles

---
 src/sims_pars/fit/abcom/alg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e08de05..f876a06 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -25,7 +25,7 @@ def sample_fin(model):
     return di, n_eval
 
 
-def sample_ess(model, eps):
+def sample_ess(model, eps, unpack=False):
     di = np.Inf
     n_eval = 0
     while di > eps:
@@ -33,7 +33,9 @@ def sample_ess(model, eps):
         p = model.sample_prior()
         sim = model.simulate(p)
         di = model.calc_distance(sim)
-    return di, sim.to_json(), n_eval
+
+    sim = sim.to_json() if unpack else sim
+    return di, sim, n_eval
 
 
 class ApproxBayesCom(Fitter):
@@ -98,7 +100,7 @@ class ApproxBayesCom(Fitter):
 
         if self.Settings['parallel']:
             with Parallel(n_jobs=self.Settings['n_core'], verbose=self.Settings['verbose']) as parallel:
-                samples = parallel(delayed(sample_ess)(self.Model, eps=eps) for _ in range(n_collect))
+                samples = parallel(delayed(sample_ess)(self.Model, eps=eps, unpack=True) for _ in range(n_collect))
             n_eval = sum([ne for _, _, ne in samples])
             for _, sim, _ in samples:
                 post.append(Particle.from_json(sim))
-- 
2.43.0


From 001ac291a2841824b2ec67f9bf98630c371cc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 33/61] fix: ABC posteriors were labelled as history matching

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index f876a06..36f412e 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -95,7 +95,7 @@ class ApproxBayesCom(Fitter):
         state = self.State
         eps = state.Eps
 
-        post = ParameterSet('HME')
+        post = ParameterSet('ABC')
         post.keep('Eps', eps)
 
         if self.Settings['parallel']:
-- 
2.43.0


From 65910a1efa0df579f2ddbe8f350290b05022d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 34/61] fix: the data package imported a module that does not
 exist

---
 src/sims_pars/data/__init__.py     | 10 +++++-----
 src/sims_pars/data/reg/__init__.py |  8 ++++----
 src/sims_pars/data/reg/glm.py      |  4 ++--
 src/sims_pars/data/reg/hazard.py   |  2 +-
 src/sims_pars/data/reg/linear.py   |  2 +-
 src/sims_pars/data/reg/survival.py |  4 ++--
 src/sims_pars/data/static.py       |  4 ++--
 src/sims_pars/data/timeseries.py   |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims_pars/data/__init__.py b/src/sims_pars/data/__init__.py
index 72ba13f..41ab4af 100644
--- a/src/sims_pars/data/__init__.py
+++ b/src/sims_pars/data/__init__.py
@@ -1,7 +1,7 @@
-from epidag.data.frame import *
-from epidag.data.static import *
-from epidag.data.timeseries import *
-from epidag.data.datafunction import *
-from epidag.data.reg import *
+from sims_pars.data.frame import *
+from sims_pars.data.static import *
+from sims_pars.data.timeseries import *
+from sims_pars.data.datafunction import *
+from sims_pars.data.reg import *
 
 __author__ = 'TimeWz667'
diff --git a/src/sims_pars/data/reg/__init__.py b/src/sims_pars/data/reg/__init__.py
index ff9a9a1..c53d8e2 100644
--- a/src/sims_pars/data/reg/__init__.py
+++ b/src/sims_pars/data/reg/__init__.py
@@ -1,4 +1,4 @@
-from epidag.data.reg.linear import *
-from epidag.data.reg.glm import *
-from epidag.data.reg.hazard import *
-from epidag.data.reg.survival import *
+from sims_pars.data.reg.linear import *
+from sims_pars.data.reg.glm import *
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.survival import *
diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index fcce1e8..522660a 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.distribution import parse_distribution
-from epidag.data.reg.linear import LinearCombination, Regression
+from sims_pars.prob import parse_distribution
+from sims_pars.data.reg.linear import LinearCombination, Regression
 
 
 __author__ = ['TimeWz667']
diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 459cb73..28f66c2 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -3,7 +3,7 @@ import numpy.random as rd
 from scipy.special import gamma
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import AbsDistribution
+from sims_pars.prob import AbsDistribution
 
 
 __all__ = ['Hazard', 'ExponentialHazard', 'WeibullHazard', 'EmpiricalHazard',
diff --git a/src/sims_pars/data/reg/linear.py b/src/sims_pars/data/reg/linear.py
index e84a4e6..9df8909 100644
--- a/src/sims_pars/data/reg/linear.py
+++ b/src/sims_pars/data/reg/linear.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import parse_distribution
+from sims_pars.prob import parse_distribution
 
 __author__ = 'TimeWz667'
 __all__ = ['LinearCombination', 'Regression', 'LinearRegression']
diff --git a/src/sims_pars/data/reg/survival.py b/src/sims_pars/data/reg/survival.py
index aab424f..d601f6f 100644
--- a/src/sims_pars/data/reg/survival.py
+++ b/src/sims_pars/data/reg/survival.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.data.reg.hazard import *
-from epidag.data.reg.linear import Regression, LinearCombination
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.linear import Regression, LinearCombination
 
 __author__ = 'TimeWz667'
 __all__ = ['CoxRegression', 'ZeroInflatedCoxRegression']
diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 232670d..d48dfc0 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -1,6 +1,6 @@
 import pandas as pd
-from epidag.distribution import CategoricalRV
-from epidag.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
 
 __author__ = 'TimeWz667'
 __all__ = ['TransitionMatrix', 'ConditionalProbabilityTable']
diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index c9f6b84..bb6ee1a 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
-from epidag.data.frame import AbsDataSet
-from epidag.distribution import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
 
 __author__ = 'TimeWz667'
 __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeCarter']
-- 
2.43.0


From b740d6d40b3773af677231547b166fa6ed5b9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 35/61] fix: sampling a transition matrix raised TypeError

---
 src/sims_pars/data/static.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index d48dfc0..65c2d54 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -26,15 +26,12 @@ class TransitionMatrix(AbsDataSet):
         return self[current]()
 
     def sample(self, n=1, **kwargs):
-        if n == 1:
-            return self(current=kwargs)
+        if 'currents' in kwargs:
+            return [self(current=k) for k in kwargs['currents']]
+        elif n == 1:
+            return self(current=kwargs['current'])
         else:
-            if 'currents' in kwargs:
-                ks = kwargs['currents']
-            else:
-                ks = [kwargs['current']]
-            n = max(n, len(ks))
-            return [self(current=k) for k in zip(range(n), ks)]
+            return [self(current=kwargs['current']) for _ in range(n)]
 
     def __repr__(self):
         return 'Transition Matrix: {}'.format(', '.join(self.StateFrom))
-- 
2.43.0


From 31b16c1568eca6e801608d3308f1deb1c47bcb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 36/61] fix: Poisson predictions used the mean as sample size

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 522660a..6eff0a2 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -44,7 +44,7 @@ class PoissonRegression(Regression):
         return np.exp(mu)
 
     def predict(self, xs):
-        return np.random.poisson(1, self.expectation(xs))
+        return np.random.poisson(self.expectation(xs))
 
     def get_sampler(self, xs):
         return parse_distribution('pois(lam)', {'lam': self.expectation(xs)})
-- 
2.43.0


From f33ef6e9bae3948f6f95a0e40012f8ecd5d0a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 37/61] fix: mean and spread of the Weibull hazard took the
 rate as a scale

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 28f66c2..b7dba92 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -57,10 +57,10 @@ class WeibullHazard(Hazard):
         return pow(h, 1/self.K) / self.Lambda
 
     def mean(self):
-        return gamma(1+1/self.K) * self.Lambda
+        return gamma(1+1/self.K) / self.Lambda
 
     def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.Lambda
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / self.Lambda
 
 
 class EmpiricalHazard(Hazard):
-- 
2.43.0


From ffb37a42c66981b00af18919643463cbcb53a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 38/61] fix: minimal requirements left out nodes needed
 directly when they also lead to a given node

---
 src/sims_pars/bayesnet/dag.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 64dd135..f59daf8 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -159,12 +159,9 @@ def minimal_dag(g, nodes):
 
 
 def minimal_requirements(g, target, cond):
-    anc = set(g.ancestors(target))
-
-    for s in cond:
-        if s in anc:
-            anc.difference_update(g.ancestors(s))
-
+    given = [s for s in cond if s in g and s != target]
+    anc = get_sufficient_nodes(g, [target], given)
+    anc.discard(target)
     return g.sort(anc)
 
 
-- 
2.43.0


From 41ae4747d0a3cd425980ed60f22685f99a7b86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 39/61] fix: surplus positional arguments of a definition were
 silently dropped

---
 src/sims_pars/factory/craftstation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index 2023b9c..bb5d7b1 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -42,6 +42,9 @@ class Atelier:
 
         full = ast.unparse(inputs)
 
+        if len(args) > len(unnamed):
+            raise TypeError(f'Too many arguments for {tp}')
+
         temp = list()
         for i, (k, v) in enumerate(unnamed.items()):
             try:
-- 
2.43.0


From e13f54c5f5718dab7c6d2fd14b583db6a03b38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 40/61] fix: a comment-only line or an empty comment aborted
 reading a script

---
 src/sims_pars/bayesnet/loci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index 2aba2fb..e0533ce 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -248,7 +248,7 @@ def parse_loci(df):
     df = df.replace(' ', '')
 
     if '#' in df:
-        df, des = re.match(r'\A(\S+)#(\S+)', df).groups()
+        df, des = df.split('#', 1)
     else:
         des = ''
 
-- 
2.43.0


From 5aa8059d9ff0730a97e3ba762ef785e18d4f6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 41/61] fix: building a probability table normalised the table
 of the caller in place

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 65c2d54..c324e26 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -43,7 +43,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         self.Indices = indices
         self.IndexProb = i_prob
         self.Ps = mat[i_prob]
-        self.Ps /= sum(self.Ps)
+        self.Ps = self.Ps / sum(self.Ps)
         self.Ps = list(self.Ps)
         self.Groups = dict()
         self.InvGroups = dict()
-- 
2.43.0


From 94f92e67dc20ca6a9d348992f59e598801c71869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:33 +0000
Subject: [PATCH 42/61] fix: hazard log density took the log of a negative
 number

---
 src/sims_pars/data/reg/hazard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index b7dba92..6226a51 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -107,7 +107,7 @@ class HazardDistribution(AbsDistribution):
     def logpdf(self, v):
         s1 = np.expm1(-self.Hazard.cum_hazard(v))
         s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
-        return np.log((s1 - s2)/1E-5)
+        return np.log((s2 - s1)/1E-5)
 
     def mean(self):
         return 1 / self.Hazard.mean() / self.RiskRatio
-- 
2.43.0


From f111f33a150fbf5e2351a8ec9739b63d33590967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 43/61] fix: emulators were trained on parameter values but
 queried in unit coordinates

---
 src/sims_pars/fit/hme/alg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 3bb172b..fda4c32 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -118,6 +118,7 @@ class BayesHistoryMatching(Fitter):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
             sim = model.simulate(pars)
             model.flatten(sim)
+            sim['Xs'] = xs
             pts_sim.append(sim)
         return pts_sim
 
-- 
2.43.0


From 760af3dc77ca3d26ca240337f1726bcdf8b7a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 44/61] fix: hazard log density ignored the risk ratio its
 samples are drawn with

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 6226a51..f642da8 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -105,8 +105,8 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
+        s1 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(v))
+        s2 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(v - 1E-5))
         return np.log((s2 - s1)/1E-5)
 
     def mean(self):
-- 
2.43.0


From 20908757e5587002a6e43781cfbda91f5567acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:55 +0000
Subject: [PATCH 45/61] fix: mean and std of a hazard distribution are those of
 the scaled hazard it samples

---
 src/sims_pars/data/reg/hazard.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index f642da8..496d47a 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -20,11 +20,11 @@ class Hazard(metaclass=ABCMeta):
         pass
 
     @abstractmethod
-    def mean(self):
+    def mean(self, rr=1):
         pass
 
     @abstractmethod
-    def std(self):
+    def std(self, rr=1):
         pass
 
 
@@ -38,11 +38,11 @@ class ExponentialHazard(Hazard):
     def inv_cum_hazard(self, h):
         return h / self.Rate
 
-    def mean(self):
-        return 1 / self.Rate
+    def mean(self, rr=1):
+        return 1 / (rr * self.Rate)
 
-    def std(self):
-        return 1 / self.Rate
+    def std(self, rr=1):
+        return 1 / (rr * self.Rate)
 
 
 class WeibullHazard(Hazard):
@@ -56,11 +56,11 @@ class WeibullHazard(Hazard):
     def inv_cum_hazard(self, h):
         return pow(h, 1/self.K) / self.Lambda
 
-    def mean(self):
-        return gamma(1+1/self.K) / self.Lambda
+    def mean(self, rr=1):
+        return gamma(1+1/self.K) / (pow(rr, 1/self.K) * self.Lambda)
 
-    def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / self.Lambda
+    def std(self, rr=1):
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / (pow(rr, 1/self.K) * self.Lambda)
 
 
 class EmpiricalHazard(Hazard):
@@ -76,10 +76,10 @@ class EmpiricalHazard(Hazard):
     def inv_cum_hazard(self, h):
         return self.FnInvCumHaz(h)
 
-    def mean(self):
+    def mean(self, rr=1):
         return None  # todo
 
-    def std(self):
+    def std(self, rr=1):
         return None  # todo
 
 
@@ -110,10 +110,10 @@ class HazardDistribution(AbsDistribution):
         return np.log((s2 - s1)/1E-5)
 
     def mean(self):
-        return 1 / self.Hazard.mean() / self.RiskRatio
+        return self.Hazard.mean(self.RiskRatio)
 
     def std(self):
-        return pow(self.RiskRatio, -2) / self.Hazard.std()
+        return self.Hazard.std(self.RiskRatio)
 
 
 class ZeroInflatedHazardDistribution(HazardDistribution):
-- 
2.43.0


From f4c5c29e9d914e988cf5d29b8de487e30ec26852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:55 +0000
Subject: [PATCH 46/61] fix: std of a zero-inflated hazard distribution
 accounts for the zeros

---
 src/sims_pars/data/reg/hazard.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 496d47a..02f2534 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -139,3 +139,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
 
     def mean(self):
         return HazardDistribution.mean(self) * (1-self.Prob)
+
+    def std(self):
+        m, s = HazardDistribution.mean(self), HazardDistribution.std(self)
+        return np.sqrt((1-self.Prob) * (s**2 + self.Prob * m**2))
-- 
2.43.0


From fbc994372475cac83e3a297478298bcfe9f81337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 47/61] fix: a pseudo core bred from another did not know its
 parent

---
 src/sims_pars/simulation/parcore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index ef1319a..63d155d 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -281,6 +281,7 @@ class PseudoParameterCore(ParameterCore):
         if nickname in self.Children:
             raise ValueError('{} has already existed'.format(nickname))
         chd = PseudoParameterCore(nickname, group)
+        chd.Parent = self
         self.Children[nickname] = chd
         return chd
 
-- 
2.43.0


From 6aeba0cb5a661fd1a5b145bef818f14b804d339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 48/61] fix: removing the nodes upstream and downstream of
 given nodes was swapped

---
 src/sims_pars/bayesnet/dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index f59daf8..4f2bf18 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -120,7 +120,7 @@ class DAG(nx.DiGraph):
         for s in od:
             if s in nodes:
                 continue
-            if nodes.intersection(self.ancestors(s)):
+            if nodes.intersection(self.descendants(s)):
                 self.remove_node(s)
 
     def remove_downstream(self, nodes):
@@ -132,7 +132,7 @@ class DAG(nx.DiGraph):
         for s in od:
             if s in nodes:
                 continue
-            if nodes.intersection(self.descendants(s)):
+            if nodes.intersection(self.ancestors(s)):
                 self.remove_node(s)
 
     def __str__(self):
-- 
2.43.0


From 9f18abad8a22a77fe76855673245270252ce6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:20 +0000
Subject: [PATCH 49/61] fix: node sets of one parent kept the same set of fixed
 nodes, so hoisting a node for one changed its siblings

---
 src/sims_pars/simulation/nodeset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index fcfc6dc..8096fa6 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -140,7 +140,7 @@ class NodeSet:
 
         # pass down fixed
         if self.__parent:
-            self.__was_fixed = fixed if fixed else set()
+            self.__was_fixed = set(fixed) if fixed else set()
         else:
             self.__was_fixed = set()
         all_fixed = set.union(self.__was_fixed, self.FixedNodes)
-- 
2.43.0


From 3c9e6ec4113fa854f9c73e963edfa70ff4f010b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 50/61] fix: the minimal nodes for no given nodes raised an
 error

---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 4f2bf18..8c181b7 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -193,7 +193,7 @@ def get_minimal_nodes(g, included, given=None):
     :return: a set of the required nodes
     """
     suf = get_sufficient_nodes(g, included=included, given=given)
-    suf.difference_update(given)
+    suf.difference_update(given if given else ())
     return suf
 
 
-- 
2.43.0


From ab2e174bf83e567a20c46472ff1cf70936a5181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:16 +0000
Subject: [PATCH 51/61] fix: detaching with collected parameters replaced the
 values a core holds itself by those of its parent

---
 src/sims_pars/simulation/parcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 63d155d..27b2649 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -72,7 +72,7 @@ class ParameterCore(Chromosome):
             return
         self.Parent.remove_children(self.Nickname)
         if collect_pars:
-            for k, v in self.Parent:
+            for k, v in list(self):
                 self[k] = v
             self.SG.put_local_actors(self)
 
-- 
2.43.0


From 42c9c530808c9942099a97e19b2446520fba0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:16 +0000
Subject: [PATCH 52/61] fix: an impulse left a named value alone where it was
 supplied from outside rather than fixed by the group

---
 src/sims_pars/simulation/simugroup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index 1798a32..69e19ea 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -82,6 +82,10 @@ class SimulationGroup:
         self.put_shared_actors_on_parent(parent)
 
     def set_response(self, imp, shocked, actors, hoist, pc):
+        for d, v in imp.items():
+            if d in pc.Locus:
+                pc.Locus[d] = v
+
         prior = 0
         for d in self.Fixed:
             loci = self.BN[d]
-- 
2.43.0


From f21b569a9a5126a718f41dc700944a0790c8525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 53/61] fix: history matching ran the model on the bare random
 roots, without fixed outside values and the other nodes

---
 src/sims_pars/fit/hme/alg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index fda4c32..832cf21 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -116,7 +116,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in tqdm.tqdm(xss, desc='Simulation'):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             sim['Xs'] = xs
             pts_sim.append(sim)
@@ -188,7 +188,7 @@ class BayesHistoryMatching(Fitter):
 
         for xs in xss:
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
-            sim = model.simulate(pars)
+            sim = model.simulate(model.serve(pars))
             model.flatten(sim)
             post.append(sim)
 
-- 
2.43.0


From 2d2ca2821dc9aab0fe2c440401a42ed56905f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:00 +0000
Subject: [PATCH 54/61] fix: intervening on a held value that is no node of the
 network raised an error

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index c483a8c..f2a57be 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys() if k in g])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
-- 
2.43.0


From c075c266e631f6b1a5e5ba6ea4352f50381b3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:09 +0000
Subject: [PATCH 55/61] fix: an empirical hazard could not be constructed nor
 asked outside its times

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 02f2534..0359988 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -67,8 +67,8 @@ class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
-        self.FnCumHaz = interp1d(times, cum_haz, fill_value=[0, self.MaxHaz])
-        self.FnInvCumHaz = interp1d(cum_haz, times, fill_value=[0, self.MaxTime])
+        self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From e98c8cece9f401d546ed6aeb9fb400c98fd63a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:09 +0000
Subject: [PATCH 56/61] fix: hazard distributions had densities for negative
 times, and none at time zero

---
 src/sims_pars/data/reg/hazard.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 0359988..e04ca70 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -105,9 +105,10 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(v - 1E-5))
-        return np.log((s2 - s1)/1E-5)
+        t = np.maximum(v, 0)
+        s1 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(t))
+        s2 = np.expm1(-self.RiskRatio * self.Hazard.cum_hazard(t + 1E-5))
+        return np.where(v < 0, -np.inf, np.log((s1 - s2)/1E-5))
 
     def mean(self):
         return self.Hazard.mean(self.RiskRatio)
@@ -122,7 +123,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
         self.Prob = pr
 
     def logpdf(self, v):
-        if v <= 0:
+        if v == 0:
             return np.log(self.Prob)
         else:
             return np.log(1-self.Prob) + HazardDistribution.logpdf(self, v)
-- 
2.43.0


From 4baa9f7912315d75303b38cf69732c436bd3826f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:09 +0000
Subject: [PATCH 57/61] fix: time series given out of order took the wrong
 values before and after their times

---
 src/sims_pars/data/timeseries.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index bb6ee1a..b412368 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -14,7 +14,7 @@ class TimeSeries(AbsDataSet):
         xs = np.array(mat[i_x])
         self.IndexTime = i_time
         self.IndexX = i_x
-        self.Line = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[0], xs[-1]))
+        self.Line = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[ts.argmin()], xs[ts.argmax()]))
 
     def __call__(self, t):
         return self.Line(t)
@@ -33,7 +33,7 @@ class TimeSeriesVector(AbsDataSet):
 
         for i_x in self.IndexXs:
             xs = np.array(mat[i_x])
-            self.Lines[i_x] = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[0], xs[-1]))
+            self.Lines[i_x] = interp1d(x=ts, y=xs, kind=kind, bounds_error=False, fill_value=(xs[ts.argmin()], xs[ts.argmax()]))
 
     def __call__(self, t):
         return {x: self.Lines[x](t) for x in self.IndexXs}
@@ -48,7 +48,7 @@ class TimeSeriesProbabilityTable(AbsDataSet):
         self.IndexTime = i_time
         self.IndexXs = i_xs
         ts = np.array(mat[i_time])
-        self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts[0], ts[-1]))
+        self.Ts = interp1d(x=ts, y=ts, kind='nearest', bounds_error=False, fill_value=(ts.min(), ts.max()))
         self.PTs = dict()
 
         for i, ir in mat.iterrows():
@@ -75,7 +75,7 @@ class LeeCarter(AbsDataSet):
         self.Alpha = {ent[i_age]: ent[i_al] for _, ent in mat_a.iterrows()}
         self.Beta = {ent[i_age]: ent[i_be] for _, ent in mat_a.iterrows()}
         self.KappaFn = interp1d(x=self.Times, y=self.Kappa, kind=kind,
-                                bounds_error=False, fill_value=(self.Kappa[0], self.Kappa[-1]))
+                                bounds_error=False, fill_value=(self.Kappa[self.Times.argmin()], self.Kappa[self.Times.argmax()]))
 
     def __call__(self, t):
         return {a: self.get_rate(t, a) for a in self.Ages}
-- 
2.43.0


From d05b1787d6640326e960363bb381a2d5b67e865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:09 +0000
Subject: [PATCH 58/61] fix: a probability table with repeated rows counted
 only the last of them

---
 src/sims_pars/data/static.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index c324e26..6cb916c 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -51,7 +51,7 @@ class ConditionalProbabilityTable(AbsDataSet):
         for i, (k, ir) in enumerate(mat.iterrows()):
             key = ':'.join([ir[x] for x in indices])
             p = self.Ps[i]
-            self.InvGroups[key] = p
+            self.InvGroups[key] = self.InvGroups.get(key, 0) + p
             self.Groups[key] = {x: ir[x] for x in indices}
         self.Sampler = CategoricalRV(self.InvGroups)
 
-- 
2.43.0


From 6de9f2c5ec65a210367416a63caa085971b8ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:18 +0000
Subject: [PATCH 59/61] fix: scripts with tabs, such as those a network writes
 itself, could not be read

---
 src/sims_pars/bayesnet/bn.py   | 2 +-
 src/sims_pars/bayesnet/loci.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index dfe971e..ef0da13 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -300,7 +300,7 @@ def bayes_net_from_script(script):
     :return: BayesianNetwork
     """
     lines = script.split('\n')
-    lines = [line.replace(' ', '') for line in lines]
+    lines = [re.sub(r'\s+', '', line) for line in lines]
     for line in lines:
         mat = re.match(r'pcore(\w+){', line, re.I)
         if mat:
diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index e0533ce..b6b0795 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -245,7 +245,7 @@ def loci_from_json(js):
 
 
 def parse_loci(df):
-    df = df.replace(' ', '')
+    df = re.sub(r'\s+', '', df)
 
     if '#' in df:
         df, des = df.split('#', 1)
-- 
2.43.0


From 24f17280be13b307975a9f0d225087accb8b1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:40 +0000
Subject: [PATCH 60/61] fix: networks with text values could not be cloned or
 read back from their records and scripts

---
 src/sims_pars/bayesnet/loci.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/bayesnet/loci.py b/src/sims_pars/bayesnet/loci.py
index b6b0795..41989a8 100644
--- a/src/sims_pars/bayesnet/loci.py
+++ b/src/sims_pars/bayesnet/loci.py
@@ -59,7 +59,7 @@ class ValueLoci(Loci):
 
     @property
     def Definition(self):
-        return self.Value
+        return repr(self.Value) if isinstance(self.Value, str) else self.Value
 
     def render(self, pas=None):
         return self.Value
@@ -73,7 +73,7 @@ class ValueLoci(Loci):
         return js
 
     def __repr__(self):
-        return '{} = {}'.format(self.Name, self.Value)
+        return '{} = {}'.format(self.Name, self.Definition)
 
     __str__ = __repr__
 
-- 
2.43.0


From da49cfff04e5176109c3bb427b76d0ab3852eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:20 +0000
Subject: [PATCH 61/61] fix: a data function's JSON description was built but
 not returned

---
 src/sims_pars/data/datafunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/data/datafunction.py b/src/sims_pars/data/datafunction.py
index 6f5b27d..7f84630 100644
--- a/src/sims_pars/data/datafunction.py
+++ b/src/sims_pars/data/datafunction.py
@@ -27,3 +27,4 @@ class AbsDataFunction(metaclass=ABCMeta):
         js['Type'] = self.Type
         js['Selectors'] = list(self.Selectors)
         js['RawData'] = self.RawData
+        return js
-- 
2.43.0

