From 9fdcff2a56bf20652978743362df8f500f014974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 01/45] fix: comparing a pre/post-condition action to another
 kind of action

---
 task_models/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..819b33c 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -86,7 +86,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
-- 
2.43.0


From 0eab20ea4ed35c8bebea454ec9e5b018ab8c9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 02/45] fix: comparing a condition to the always true condition

---
 task_models/action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/action.py b/task_models/action.py
index 819b33c..0f99c51 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -28,6 +28,7 @@ class Condition(object):
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
+                not isinstance(other, MatchAllCondition) and
                 np.array_equal(self.mask, other.mask) and
                 np.array_equal(self.value, other.value))
 
-- 
2.43.0


From 7ccd1148471bddab6a6cbe8917ede16480e2a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 03/45] fix: equal conditions must have equal hash whatever
 their dtype

---
 task_models/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 0f99c51..30c01ac 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -24,7 +24,8 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        return hash((tuple(np.ravel(self.mask).tolist()),
+                     tuple(np.ravel(self.value).tolist())))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
-- 
2.43.0


From f771d62d7b05602d95657bb6d2e6228c0b8d8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 04/45] fix: hash of snap circuit states must not depend on set
 order

---
 task_models/snap_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..88ce6e4 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self.parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
-- 
2.43.0


From 6a5290dcd29306c1a24f70c76e9cf2bebb89fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 05/45] fix: n-dimensional states could not be compared

---
 task_models/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..38375d2 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -6,6 +6,8 @@ with the `task.py` module, states must be hashable and implement a method
 that yield a feature vector from the state.
 """
 
+import numpy as np
+
 
 class State(object):
     """Any kind of state. Must be hashable and are immutable.
@@ -32,7 +34,11 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        return hash(self.features.tostring())
+        return hash(tuple(np.ravel(self.features).tolist()))
+
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                np.array_equal(self.features, other.features))
 
     @property
     def n_dim(self):
-- 
2.43.0


From 5b03b728fe669372402b6677ca079357db43b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 06/45] fix: check of long paths exceeded the recursion limit

---
 task_models/task.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..0cd612a 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -38,18 +38,11 @@ def check_path(path):
     pre-condition of a and s' its post-conditions.
     Empty paths are allowed.
     """
-    try:
-        return (len(path) == 0 or  # Empty path
-                isinstance(path[0], State) and (
-                    len(path) == 1 or (  # [s] or [s, a, s, ...]
-                        isinstance(path[1], Action) and
-                        isinstance(path[2], State) and
-                        path[1].check(path[0], path[2]) and  # pre/post
-                        check_path(path[2:])
-                    ))
-                )
-    except IndexError:
-        return False
+    return (len(path) == 0 or (  # Empty path
+            len(path) % 2 == 1 and  # [s] or [s, a, s, ...]
+            all(isinstance(s, State) for s in path[::2]) and
+            all(isinstance(a, Action) for a in path[1::2]) and
+            all(a.check(s1, s2) for (s1, a, s2) in split_path(path))))
 
 
 def split_path(path):
-- 
2.43.0


From ee1f572b9fb44b92f12d78e4bbfe5174d07cc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 07/45] fix: self loops broke the search of maximum cliques

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 0cd612a..02b238a 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -311,7 +311,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 38642bc394be8c70098444d8f42c20eae51ea999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 08/45] fix: chains repeated or never ending in search of
 maximum chains

---
 task_models/task.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 02b238a..db11790 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -261,8 +261,9 @@ class ConjugateTaskGraph(BaseGraph):
 
         :returns: iterator over chains (as lists)
         """
-        in_degree = {}
+        in_degree = {self.initial: 1}  # starting point
         unique_transitions = {n: set() for n in self.all_nodes()}
+        unique_transitions.setdefault(self.initial, set())
         for (s, l, d) in self.all_transitions():
             if d not in unique_transitions[s]:
                 in_degree[d] = in_degree.get(d, 0) + 1
@@ -295,7 +296,8 @@ class ConjugateTaskGraph(BaseGraph):
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    if next_node not in explored:
+                        to_explore.add(next_node)
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From 05542db9b7c855077bcbdacb02f2a8ad6e59863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 09/45] fix: conjugate failed on states without outgoing
 transition

---
 task_models/task.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index db11790..a730153 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -234,7 +234,7 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
@@ -243,7 +243,8 @@ class ConjugateTaskGraph(BaseGraph):
                     ctg.add_transition(a, next_state, ctg.terminal)
                 else:
                     # Look ahead...
-                    for (next_action, _) in tg.transitions[next_state]:
+                    for (next_action, _) in tg.transitions.get(
+                            next_state, ()):
                         # ...and add transitions of the form: a --(s')--> a'
                         ctg.add_transition(a, next_state, next_action)
         return ctg
-- 
2.43.0


From 7c13d9cecadd943870f550279320e3606d6a1a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 10/45] fix: graphs with same transitions must be equal after
 removal of others

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index a730153..2906493 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -92,7 +92,7 @@ class BaseGraph(object):
 
     def __eq__(self, other):
         return (isinstance(other, BaseGraph) and
-                self.transitions == other.transitions)
+                set(self.all_transitions()) == set(other.all_transitions()))
 
     def add_transition(self, source, label, destination):
         if source not in self.transitions:
-- 
2.43.0


From 6fc57e7c0827816ff5c07a7cf0fd9e08ea183d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 11/45] fix: conversion of meta actions to combinations

---
 task_models/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 2906493..561f523 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -354,7 +354,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return self.COMBINATIONS[self.kind](children)
 
     @classmethod
     def _name(cls, kind, actions):
@@ -602,3 +602,8 @@ COMBINATION_CLASSES = {'Sequential': SequentialCombination,
                        'Parallel': ParallelCombination,
                        'Alternative': AlternativeCombination,
                        }
+
+MetaAction.COMBINATIONS = {'sequence': SequentialCombination,
+                           'parallel': ParallelCombination,
+                           'alternative': AlternativeCombination,
+                           }
-- 
2.43.0


From 2c2f56538d781e8cfbed7d287d0d78b4216f2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 12/45] fix: equal meta actions must have equal hash

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 561f523..9a23cf0 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -340,7 +340,7 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.kind, frozenset(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From 467de7a0dee9ce17a33d43569aba4924453142d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:03 +0000
Subject: [PATCH 13/45] fix: probabilities given at creation of alternatives
 were lost

---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 9a23cf0..f6df374 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -469,7 +469,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From 1ab7e774e5d98f2c4ea9bdad5d9ac10e6d069d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 14/45] fix: copies of actions lost their type and attributes

---
 task_models/action.py | 7 +++++++
 task_models/task.py   | 4 ----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 30c01ac..7d2d299 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -8,6 +8,8 @@ simultaneously satisfied.
 """
 
 
+from copy import copy
+
 import numpy as np
 
 
@@ -73,6 +75,11 @@ class Action(object):
         """
         raise NotImplementedError
 
+    def copy(self, rename_format='{}'):
+        action = copy(self)
+        action.name = rename_format.format(self.name)
+        return action
+
 
 class PrePostConditionAction(Action):
     """Action which can apply to states verifying the pre-condition and can
diff --git a/task_models/task.py b/task_models/task.py
index f6df374..eb61467 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -219,10 +219,6 @@ class AbstractAction(Action):
     def check(self, pre, post):
         return True
 
-    def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
-
-
 class ConjugateTaskGraph(BaseGraph):
 
     initial = AbstractAction('initial')
-- 
2.43.0


From acbdf0ad76f5430c36198bc9f285e1d1c75b4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 15/45] fix: loading of highlighted nodes and leaves without
 agent from json

---
 task_models/json_to_htm.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..62d7bc2 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -14,10 +14,13 @@ def build_htm(node):
     idx = node['id']
     parent = node['parent']
 
+    highlighted = 'highlighted' in node['attributes']
+    agent = [a for a in node['attributes'] if not a == 'highlighted']
+
     # Base case, if no children than node is an action
-    if node['attributes']:
-        agent = [a for a in node['attributes'] if not a == 'highlighted']
-        return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
+    if agent or not combination:
+        action = Action(name=name, agent=agent[0]) if agent else Action(name=name)
+        return LeafCombination(action, idx=idx, parent=parent, highlighted=highlighted)
 
     children = []
     for c in node['children']:
@@ -25,7 +28,8 @@ def build_htm(node):
         children.append(build_htm(c))
 
     # Will wrap subtree in a combination depending on combination attribute
-    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent)
+    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent,
+                                            highlighted=highlighted)
 
 
 def json_to_htm(json_path):
-- 
2.43.0


From 675b005283ec6ab5b5425544950d2daf0b7a42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 16/45] fix: stop asynchronous exploration without breaking
 thread internals

---
 task_models/lib/pomcp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 4194f96..9bbbce1 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -532,11 +532,11 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = False
             self._lock = threading.Lock()
 
-        def _stop(self):
+        def _set_done(self):
             self._done = True
 
         def stop(self):
-            self.execute(self._stop)
+            self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
@@ -583,7 +583,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.isAlive():
+        if self.thread.is_alive():
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From d27d22c964fe232ae527aab3fd72f3973e4a70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 17/45] fix: data race between step and asynchronous
 exploration

---
 task_models/lib/pomcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 9bbbce1..7ae5d47 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -568,7 +568,9 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
         self.thread.start()
 
     def step(self, observation):
-        super(AsyncPOMCPPolicyRunner, self).step(observation)
+        # The search tree must not be modified during exploration
+        self.thread.execute(
+            super(AsyncPOMCPPolicyRunner, self).step, observation)
         self.thread.execute(self.thread.set_node, self._node)
 
     def reset(self, belief=None):
-- 
2.43.0


From 0765e0702599bd14a6c05adf08a301cf428e699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 18/45] fix: asynchronous runner ignored the number of
 iterations

---
 task_models/lib/pomcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 7ae5d47..155c995 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -579,7 +579,8 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def get_action(self, iterations=None):
         # Start with minimal number of iterations to have explored all actions
-        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action)
+        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action,
+                                iterations=iterations)
         self.thread.execute(self.thread.set_action, self._last_action)
         return a
 
-- 
2.43.0


From 9c71105c09a92506c3a629d8c4fcc58c267c4a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 19/45] fix: asynchronous runner dropped the value of executed
 function

---
 task_models/lib/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 155c995..59911d1 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -590,7 +590,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-        self.thread.execute(*args, **kwargs)
+        return self.thread.execute(*args, **kwargs)
 
     def __del__(self):
         self.stop()
-- 
2.43.0


From 80be5d171a32a3deee6aeb424e3f49199de739e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 20/45] fix: observed indices in exports with belief quotient

---
 task_models/lib/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 59911d1..c574e85 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -625,8 +625,8 @@ def export_pomcp(policy, destination, belief_as_quotient=False):
                 child = children[i]
                 d['observations'] = child['observations']
                 d['children'] = child['children']
-                for c, o in zip(d['children'], d['observations']):
-                    c['observed'] = model.observations.index(o)
+                for i, c in enumerate(d['children']):
+                    c['observed'] = i
             return d
 
         dic['graphs'] = [policy.tree.map(to_dict, join_children)]
-- 
2.43.0


From 3387b3bea5e27792fc20acf4943db1e023d4e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 21/45] fix: equal beliefs must have equal hash whatever their
 dtype

---
 task_models/lib/belief.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 0e43555..05e93e8 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,7 +22,7 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        return hash(self.array.tostring())
+        return hash(tuple(self.array.tolist()))
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-- 
2.43.0


From 93baf0da657a20ae9cfa6ddf7845d48a1666e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 22/45] fix: parsing of policy graphs with blank lines

---
 task_models/lib/pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..1e19941 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -44,13 +44,13 @@ def parse_value_function(reader):
 def parse_policy_graph(reader):
     actions = []
     transitions = []
-    for i, line in enumerate(reader):
+    for line in reader:
         line = line.rstrip('\n').rstrip()
-        if not line.isspace():
+        if line:
             # 'N A  Z1 Z2 Z3'.split(' ') -> ['N', 'A', '', 'Z1', 'Z2', 'Z3']
             l = line.split(' ')
             n = int(l[0])  # Node name
-            assert(n == i)
+            assert(n == len(actions))
             actions.append(int(l[1]))
             transitions.append([None if x == '-' else int(x) for x in l[3:]])
     return actions, transitions
-- 
2.43.0


From 76a80392d232d98060ead8af1ec4b7cc5dc09c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 23/45] fix: check of transitions from solver

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 1e19941..fba16e4 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -372,7 +372,7 @@ class POMDP:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
         assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
+        assert(all([t < len(pg) for ts in pg for t in ts if t is not None]))
         # (transitions are well-formed)
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
-- 
2.43.0


From 5081201e6b7d1ba0d1e0c537592babe2e8c2dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 24/45] fix: policy runner was broken after an unexpected
 observation

---
 task_models/lib/pomdp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index fba16e4..4d589a2 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -455,9 +455,10 @@ class GraphPolicyRunner(object):
         return self.gp.get_action(self.current)
 
     def step(self, observation):
-        self.current = self.gp.next(self.current, observation)
-        if self.current is None:
+        current = self.gp.next(self.current, observation)
+        if current is None:
             raise Impossible('Got unexpected observation')
+        self.current = current
 
 
 class GraphPolicyBeliefRunner(GraphPolicyRunner):
-- 
2.43.0


From 35dd132e0767681a7aab6c5f79df9a38cf65c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 25/45] fix: one trajectory tree must be given for each
 starting state

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 4d589a2..f21bcd7 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -506,7 +506,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From 8490110313bad4c12b8884fc72a90e3fab6cee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 26/45] fix: copies of states had a different number of HTM
 states

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..96035a3 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From cd8329684555262fe0630f05d2d4f79b2ef703b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 27/45] fix: indexing in belief on preferences

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 96035a3..444c4fd 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From 9a7f4686702ae8894402a94ce6bf1c9cd61adf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 28/45] fix: discount in return of evaluations was applied
 backward

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..73645d5 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -70,6 +70,7 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
     h_r = []
     horizon = FinishedOrNTransitionsHorizon(model, max_horizon)
     full_return = 0
+    gamma_t = 1.
     while not horizon.is_reached():
         a = model.actions.index(pol.get_action())
         h_a.append(a)
@@ -79,7 +80,8 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
+        full_return += gamma_t * r
+        gamma_t *= gamma
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From 3b0f04e792df0b0f94ad39bb9620f9d2080be423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 29/45] fix: copies of finished horizons were not finished

---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 73645d5..9474b4a 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -31,7 +31,9 @@ class FinishedOrNTransitionsHorizon(NTransitionsHorizon):
         self._is_final = self.model._int_to_state(new_s).is_final()
 
     def copy(self):
-        return FinishedOrNTransitionsHorizon(self.model, self.n)
+        h = FinishedOrNTransitionsHorizon(self.model, self.n)
+        h._is_final = self._is_final
+        return h
 
     @classmethod
     def generator(cls, model, n=100):
-- 
2.43.0


From 9fc237507696bb11964931b75f80e8d5cb33e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 30/45] fix: processes killed by a signal were not reported as
 failed

---
 task_models/utils/multiprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 5f6ad23..f9700f6 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -57,7 +57,7 @@ class RepeatPool:
                         for w in self.workers]
 
     def _clean_job(self, w):
-        if w.exitcode > 0:
+        if w.exitcode != 0:
             raise RuntimeError("A subprocess has failed.")
         w.join()
         return None
-- 
2.43.0


From 67ce948d6db2be573afec1864b55935e359ac06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 31/45] fix: structured conversion used an undefined attribute

---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..9741e17 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -270,8 +270,8 @@ class _LeafToPOMDP(_NodeToPOMDP):
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
             R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From 263815309cd6a70bed3de1fd352ec158c1c04626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 32/45] fix: probabilities of next states in deterministic
 conversion

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 9741e17..ba8d1de 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -201,7 +201,7 @@ class _LeafToPOMDP(_NodeToPOMDP):
         if 'deterministic' in self.flags:
             T[:, s_h, s_h] = 1.
             T[a_af, s_h, s_h] = 0.
-            T[a_af, s_h, s_next] = uniform(len(s_next))
+            T[a_af, s_h, s_next] = s_next_probas
         else:
             p_h_not_finish = self._h_probas_not_finished_from_d(
                     np.asarray(durations))
-- 
2.43.0


From 5e1e3df725dfe4dd08f2e7eb19b60b8f5b2359c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 33/45] fix: error message on unknown combination

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index ba8d1de..be01963 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -118,7 +118,7 @@ class _NodeToPOMDP(object):
                                         subtask_reward=subtask_reward,
                                         flags=flags)
         else:
-            raise ValueError('Unkown combination: ' + type(node))
+            raise ValueError('Unkown combination: ' + str(type(node)))
 
 
 class _LeafToPOMDP(_NodeToPOMDP):
-- 
2.43.0


From cc7028e97eebee7c643b685de75579df44d1b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 34/45] fix: probabilities when looping on tasks with several
 starts

---
 task_models/task_to_pomdp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index be01963..aa3c050 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -409,12 +409,12 @@ class HTMToPOMDP:
         if subtask_reward is not None:
             self.flags.add('subtask_reward')
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, init, start):
+        if 'reward_state' in self.flags:
+            T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, init] = start  # go back to start
         else:
-            if 'reward_state' in self.flags:
-                T[:, self.endr, self.end] = 1.  # go to end after reward
             T[:, self.end, self.end] = 1.  # end stats is stable
 
     def update_O_wait(self, O):
@@ -450,7 +450,7 @@ class HTMToPOMDP:
         durations = [self.t_wait] + n2p.durations
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self.wait, 1, 0, [end], [1.], durations)
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, n2p.init, n2p.start)
         O = np.zeros((n_a, n_s, n_o))
         n2p.update_O(O, 1, 0, [end], [], [end])
         self.update_O_wait(O)
-- 
2.43.0


From 7dcfbf0bb7d7bac392959cf235280961e090bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 35/45] fix: task must restart according to start probabilities

---
 task_models/bring_next_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/bring_next_to_pomdp.py b/task_models/bring_next_to_pomdp.py
index 4381b6f..3184ad4 100644
--- a/task_models/bring_next_to_pomdp.py
+++ b/task_models/bring_next_to_pomdp.py
@@ -203,10 +203,10 @@ class HTMToPOMDP:
         if no_answer:
             self.flags.add(NO_ANSWER)
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, init, start):
         if LOOP in self.flags:
             # Loop on success
-            T[:, self.end, init] = 1. / len(init)
+            T[:, self.end, init] = start
         else:
             T[:, self.end, self.end] = 1.
 
@@ -241,7 +241,7 @@ class HTMToPOMDP:
         end = n_s - 1
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self, 0, [end], [1.])
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, n2p.init, n2p.start)
         O = np.zeros((n_a, n_s, n_o))
         self.init_O(O)
         n2p.update_O(O, self, 0, [end])
-- 
2.43.0


From e734fb06d45a1e3aa7dafa30b9f2ca5fa53d47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 36/45] fix: comparing beliefs on different numbers of states

---
 task_models/lib/belief.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 05e93e8..f68757a 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -26,7 +26,7 @@ class ArrayBelief(BaseBelief):
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-                (self.array == other.array).all())
+                np.array_equal(self.array, other.array))
 
     def sample(self):
         return np.random.choice(self.array.shape[0], p=self.array)
-- 
2.43.0


From ae526af278a72c2d091da6fcbbe199338686eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:13 +0000
Subject: [PATCH 37/45] fix: numbered names must be dumped as counts

---
 task_models/lib/pomdp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index f21bcd7..0367611 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -80,8 +80,11 @@ def _dump_list(lst):
 def _dump_list_or_count(lst_or_int):
     if isinstance(lst_or_int, int):
         return str(lst_or_int)
-    else:
-        return _dump_list(lst_or_int)
+    names = _dump_list(lst_or_int)
+    if names == _dump_list(range(len(lst_or_int))):
+        # Numbers are not valid names but can be used with a count
+        return str(len(lst_or_int))
+    return names
 
 
 def _dump_1d_array(a):
-- 
2.43.0


From c74fcb39b94c2844b323a5cd1a3c2863d0855957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:09:17 +0000
Subject: [PATCH 38/45] fix: repetition blocked if a process was killed while
 sending its result

---
 task_models/utils/multiprocess.py | 39 +++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index f9700f6..695dbea 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -1,8 +1,8 @@
 import os
 import subprocess
-from queue import Empty
 from datetime import timedelta
-from multiprocessing import Process, cpu_count, Queue
+from multiprocessing import Process, cpu_count, Pipe
+from multiprocessing.connection import wait
 
 import numpy as np
 
@@ -18,26 +18,37 @@ class RepeatPool:
         self.n_processes = cpu_count()
         self.target = target
 
-    def work(self, seed):
+    def work(self, seed, pipe):
         np.random.seed(seed)
         result = self.target()
-        self.result_queue.put(result)
+        pipe.send(result)
 
     def run(self, n):
         self.workers = [None] * self.n_processes
         self.to_go = n  # Number of repetitions still to be run
-        self.result_queue = Queue()
+        # One pipe per job: a job that is killed while sending its result must
+        # not prevent from reading, as it would with a common queue.
+        self.pipes = []
         results = []
         while self._still_working():
             self._clean()
             self._fill()
-            try:  # Waits for at least one job to push results.
-                results.append(self.result_queue.get(False, 1))
-            except Empty:  # The timeout prevents blocking if jobs fail to push
-                pass
+            results.extend(self._collect())
         # Collect remaining results just in case
-        results.extend([self.result_queue.get_nowait()
-                        for _ in range(n - len(results))])
+        while len(self.pipes) > 0:
+            results.extend(self._collect())
+        return results
+
+    def _collect(self):
+        results = []
+        for pipe in wait(self.pipes, .01):
+            self.pipes.remove(pipe)
+            try:
+                results.append(pipe.recv())
+            except (EOFError, OSError):
+                raise RuntimeError("A subprocess has failed.")
+            finally:
+                pipe.close()
         return results
 
     def _still_working(self):
@@ -46,8 +57,12 @@ class RepeatPool:
     def _start_or_None(self):
         if self.to_go > 0:
             self.to_go -= 1
-            p = Process(target=self.work, args=(np.random.randint(2**32),))
+            pipe, sender = Pipe(duplex=False)
+            p = Process(target=self.work,
+                        args=(np.random.randint(2**32), sender))
             p.start()
+            sender.close()
+            self.pipes.append(pipe)
             return p
         else:
             return None
-- 
2.43.0


From a1a9a58274c8511bf97072e73a8d9aeb93a4d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:34:11 +0000
Subject: [PATCH 39/45] fix: preference experiment failed with the never-hold
 policy

---
 samples/supportive_evaluation_preference_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/supportive_evaluation_preference_job.py b/samples/supportive_evaluation_preference_job.py
index d45ef2e..1da57cd 100644
--- a/samples/supportive_evaluation_preference_job.py
+++ b/samples/supportive_evaluation_preference_job.py
@@ -33,7 +33,7 @@ class Experiment(SupportiveExperiment):
             self.policy = PolicyLongSupportiveSequence(self.model)
         elif self.parameters['policy'] == 'never-hold':
             self.policy = PolicyLongSupportiveSequence(self.model)
-            self.policy._a_next = self.policy._a_wait
+            self.policy._a_next_list = [self.policy._a_wait]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 1a55cefb87741f6f43af72e247714fba4a89d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:06 +0000
Subject: [PATCH 40/45] fix: samples imported names from modules that do not
 have them

---
 samples/pomcp.py          | 2 +-
 samples/supportive.py     | 2 +-
 samples/tower_scenario.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index 229285d..9bde2a5 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -3,7 +3,7 @@ import os
 import json
 from heapq import heappush, heappop
 
-from task_models.lib.pomdp import GraphPolicyBeliefRunner, POMCPPolicyRunner
+from task_models.lib.pomcp import POMCPPolicyRunner
 from task_models.task_to_pomdp import HTMToPOMDP
 from task_models.stool_scenarios import (stool_task_sequential, T_WAIT, T_ASK,
                                          T_TELL, C_INTR)
diff --git a/samples/supportive.py b/samples/supportive.py
index 93f0695..09f4fbc 100644
--- a/samples/supportive.py
+++ b/samples/supportive.py
@@ -6,7 +6,7 @@ import logging
 from task_models.task import SequentialCombination, LeafCombination
 from task_models.supportive import (SupportivePOMDP, AssembleLeg,
                                     AssembleLegToTop, NHTMHorizon)
-from task_models.lib.pomdp import POMCPPolicyRunner, export_pomcp
+from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
 
 
 logging.getLogger().setLevel(logging.INFO)
diff --git a/samples/tower_scenario.py b/samples/tower_scenario.py
index daab940..e93de70 100644
--- a/samples/tower_scenario.py
+++ b/samples/tower_scenario.py
@@ -1,7 +1,7 @@
 import os
 
 from task_models.lib.pomdp import GraphPolicyBeliefRunner
-from task_models.bring_next_to_pomdp import task_modelsToPOMDP
+from task_models.bring_next_to_pomdp import HTMToPOMDP
 from task_models.tower_problem import TowerProblem
 
 
-- 
2.43.0


From 7efccf954dc0300411e5448845338c2da19aef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:13:42 +0000
Subject: [PATCH 41/45] fix: compacting the nodes of an iterator kept the
 former initial and terminal nodes

---
 task_models/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/task.py b/task_models/task.py
index eb61467..d01f588 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -247,6 +247,7 @@ class ConjugateTaskGraph(BaseGraph):
 
     def compact(self, nodes, new_node):
         # TODO: is this really the desired behavior?
+        nodes = set(nodes)  # may be an iterator
         super(ConjugateTaskGraph, self).compact(nodes, new_node)
         if self.initial in nodes:
             self.initial = new_node
-- 
2.43.0


From 45bb9cffc216ae4921fbe5c5d96def2064e08b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 42/45] fix: reject negative actions and nodes from solver

---
 task_models/lib/pomdp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 0367611..39f1018 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -374,8 +374,9 @@ class POMDP:
         with open(policy_graph_file, 'r') as pf:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
-        assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(all([t < len(pg) for ts in pg for t in ts if t is not None]))
+        assert(all([0 <= a < len(self.actions) for a in actions]))
+        # (actions are well-formed)
+        assert(all([0 <= t < len(pg) for ts in pg for t in ts if t is not None]))
         # (transitions are well-formed)
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
-- 
2.43.0


From 5ad380e4d49fec24f9de4ac77b36761f1efc7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:01 +0000
Subject: [PATCH 43/45] fix: plot_var fails when showing both bars and area

---
 task_models/utils/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index b44a103..8a77080 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -104,7 +104,7 @@ def plot_var(y, x=None, color=None, var=True, var_style='fill', **kwargs):
     lines = plot_fun(x, mean, **kwargs)
     if color is None:
         color = lines[0].get_color()
-    x = lines[0].get_xdata()
+    x = lines[0].get_xdata(orig=False)
     if var and var_style in ('fill', 'both'):
         ax.fill_between(x, mean - std, mean + std, alpha=.2, linewidth=0, color=color)
     remove_chartjunk(ax, ['top', 'right'])
-- 
2.43.0


From 2081e368858defffef4930a47a2ba698f35b2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:01 +0000
Subject: [PATCH 44/45] fix: removing tick labels always fails, or forgets
 those of y

---
 task_models/utils/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index 8a77080..ba66bf0 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -208,8 +208,8 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
     if ticklabels is not None:
         if type(ticklabels) is str:
             ticklabels = [ticklabels]
-        assert set(ticklabels) | set(('x', 'y')) > 0
+        assert set(ticklabels) <= set(('x', 'y'))
         if 'x' in ticklabels:
             ax.set_xticklabels([])
-        elif 'y' in ticklabels:
+        if 'y' in ticklabels:
             ax.set_yticklabels([])
-- 
2.43.0


From c991abcd803c0dc255b2b139d94d4fb852ca570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:01 +0000
Subject: [PATCH 45/45] fix: parameters for printing hold one that does not
 exist

---
 task_models/evaluation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 9474b4a..136fdf1 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -239,7 +239,6 @@ class ExpLauncher(Launcher):
         'font.size': 10,
         'font.serif': 'Computer Modern Roman',
         'text.usetex': 'True',
-        'text.latex.unicode': 'True',
         'axes.titlesize': 'medium',
         'xtick.labelsize': 'xx-small',
         'ytick.labelsize': 'xx-small',
-- 
2.43.0

