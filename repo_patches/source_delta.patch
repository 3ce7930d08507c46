From 45b13a136772072b99f7e3c9c6e8ecb2dbf6eae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 01/31] fix: validate constructor arguments unless the caller
 belongs to the library

---
 pydtmc/utilities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..e8fc90d 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -226,7 +226,13 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
 
 def get_caller(stack: _tstack) -> str:
 
-    caller = stack[1][3]
+    frame, caller = stack[1][0], stack[1][3]
+
+    package_caller = frame.f_globals.get('__name__', '').split('.')[0]
+    package_library = __name__.split('.')[0]
+
+    if package_caller != package_library:
+        return ''
 
     return caller
 
-- 
2.43.0


From f02913cd39ff851247d98811ae7234a904fdb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 02/31] fix: give equal models equal hashes when their matrices
 contain negative zeros

---
 pydtmc/hidden_markov_model.py | 2 +-
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..81543a3 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -180,7 +180,7 @@ class HiddenMarkovModel(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), self.e.tobytes(), tuple(self.states), tuple(self.symbols)))
+        return hash(((self.p + 0.0).tobytes(), (self.e + 0.0).tobytes(), tuple(self.states), tuple(self.symbols)))
 
     def __repr__(self) -> str:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..99997df 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -239,7 +239,7 @@ class MarkovChain(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), tuple(self.states)))
+        return hash(((self.p + 0.0).tobytes(), tuple(self.states)))
 
     def __repr__(self) -> str:
 
-- 
2.43.0


From 442f105201b14627c92183860890381571b2cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 03/31] fix: reject files whose probabilities lie outside the
 unit interval

---
 pydtmc/hidden_markov_model.py | 6 ++++++
 pydtmc/markov_chain.py        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 81543a3..8862309 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -793,6 +793,12 @@ class HiddenMarkovModel(_Model):
         if not _np.allclose(_np.sum(e, axis=1), _np.ones(n, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the emission matrix defined by the dictionary must sum to 1.0.')
 
+        if not _np.all((p >= 0.0) & (p <= 1.0)):  # pragma: no cover
+            raise ValueError('The values of the transition matrix defined by the file must be between 0.0 and 1.0.')
+
+        if not _np.all((e >= 0.0) & (e <= 1.0)):  # pragma: no cover
+            raise ValueError('The values of the emission matrix defined by the file must be between 0.0 and 1.0.')
+
         hmm = HiddenMarkovModel(p, e, states, symbols)
 
         return hmm
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 99997df..0ead980 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2456,6 +2456,9 @@ class MarkovChain(_Model):
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(size, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the file must sum to 1.0.')
 
+        if not _np.all((p >= 0.0) & (p <= 1.0)):  # pragma: no cover
+            raise ValueError('The values of the transition matrix defined by the file must be between 0.0 and 1.0.')
+
         mc = MarkovChain(p, states)
 
         return mc
-- 
2.43.0


From 399e5b2fc04c6c07da85d80529606a1b3744e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 04/31] fix: preserve whitespace of labels read from xml and
 csv files

---
 pydtmc/files_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index df5e128..c638e91 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -81,7 +81,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     if not isinstance(label, str) or len(label) < 3:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
-                    label = label.strip()
+                    label = label.lstrip()
                     label_prefix = label[:2]
 
                     if label_prefix == 'E_':
@@ -306,9 +306,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
         if sorted(attributes_keys) != valid_params_keys:  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
-        attributes_values = [attribute[1].strip() for attribute in attributes]
+        attributes_values = [attribute[1] for attribute in attributes]
 
-        if any(len(attributes_value) == 0 for attributes_value in attributes_values):  # pragma: no cover
+        if any(len(attributes_value.strip()) == 0 for attributes_value in attributes_values):  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
         values = []
-- 
2.43.0


From 10f60c924b529026588eabc18f30e515163753a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 05/31] fix: stop expected_transitions from corrupting its
 running distribution through an alias

---
 pydtmc/measures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..1a06a83 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -176,11 +176,11 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
     if steps <= p.shape[0]:
 
         idist = initial_distribution
-        idist_sum = initial_distribution
+        idist_sum = _np.copy(initial_distribution)
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum += idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From 833fb89796539400cec9a53500e272e870775166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 06/31] fix: compare restricted symbols with the emission
 matrix columns

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..77cf9bb 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -171,7 +171,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From d0c609e05ba16864611ed512e86fdb44f6f590fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 07/31] fix: skip the trellis edges of null-probability initial
 states by state rather than by time

---
 pydtmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a5f36cc..a0f6d9f 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1334,7 +1334,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gte_initial_distribution[col] > 0.0:
+                if col == 0 and not gte_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
@@ -1390,7 +1390,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gts_initial_distribution[col] > 0.0:
+                if col == 0 and not gts_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
-- 
2.43.0


From 46c172cf53e39611f7cba47a42d2e67586350307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 08/31] fix: reject graphs with infinite edge weights

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..b843869 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -393,7 +393,7 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
 
     edge_weights = list(value.edges(data='weight', default=0.0))
 
-    if not all(_is_number(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
+    if not all(_is_number(edge_weight[2]) and _np.isfinite(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
         raise ValueError('The "@arg@" parameter must define edge weight attributes as non-negative numbers.')
 
     if edge_attributes is not None:
-- 
2.43.0


From 418a231ccbd4b75b4311f674db9981910989fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 09/31] fix: reject selection intensities that make the Moran
 model probabilities negative

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 0ead980..63734ec 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2636,6 +2636,9 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
+        if model == 'moran' and s > 1.0:
+            raise _ValidationError('The selection intensity specified is too high for the Moran model.')
+
         if model == 'wright-fisher' and (4.0 * n * max(u, v)) > 1.0:
             raise _ValidationError('The highest mutation rate specified is too high for the Wright-Fisher model.')
 
-- 
2.43.0


From f3885998abde97a09f6ff8457d32136b71efae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 10/31] fix: validate the output_indices argument of
 HiddenMarkovModel.predict

---
 pydtmc/hidden_markov_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 8862309..ad8e6b0 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -401,6 +401,7 @@ class HiddenMarkovModel(_Model):
             prediction_type = _validate_enumerator(prediction_type, ['map', 'mle', 'viterbi'])
             symbols = _validate_sequence(symbols, self.__symbols)
             initial_status = _np.full(self.__size[0], 1.0 / self.__size[0], dtype=float) if initial_status is None else _validate_status(initial_status, self.__states)
+            output_indices = _validate_boolean(output_indices)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
-- 
2.43.0


From 60eaaf2eff6a436b56093920a549f1e80acb0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 11/31] fix: stop validate_sequences from modifying the list it
 is given

---
 pydtmc/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index b843869..6302ff3 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -909,6 +909,8 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
 
     if value_type in ['integer', 'string']:
         value = [value]
+    else:
+        value = value.copy()
 
     for index, value_current in enumerate(value):
         try:
-- 
2.43.0


From a44b7a2e11a1355e3a722d4857196171097b3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 12/31] fix: order the periods by state position, as the
 communicating classes are, rather than by label

---
 pydtmc/computations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..90100d0 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,7 +100,9 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
+    positions = {node: position for position, node in enumerate(graph.nodes)}
+
+    classes = [sorted(positions[c] for c in scc) for scc in sccs]
     indices = sorted(classes, key=lambda x: (-len(x), x[0]))
 
     periods = [0] * len(indices)
@@ -113,7 +115,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(sorted(positions[c] for c in scc))
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
-- 
2.43.0


From efc8c7dea3c09683bbef2f5c6e59c2d736d11b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 13/31] fix: stop the labels and probabilities of a model from
 being shared with its callers

---
 pydtmc/hidden_markov_model.py | 4 ++--
 pydtmc/markov_chain.py        | 4 ++--
 pydtmc/validation.py          | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index ad8e6b0..7792a4e 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -277,7 +277,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -286,7 +286,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 63734ec..bb567cc 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -965,7 +965,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
@@ -1192,7 +1192,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 6302ff3..871a8b4 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -610,7 +610,7 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
     if size is not None and labels_length != size:
         raise ValueError(f'The "@arg@" parameter must contain a number of elements equal to {size:d}.')
 
-    return value
+    return value.copy()
 
 
 def validate_markov_chain(value: _tany, size: _oint = None) -> _tmc:
-- 
2.43.0


From 37221d5bbd7b0aaeb18b4c5ca11ddb1ef34f5fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 14/31] fix: hand out copies of cached values so that callers
 cannot alter them

---
 pydtmc/decorators.py   | 7 +++++--
 pydtmc/markov_chain.py | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pydtmc/decorators.py b/pydtmc/decorators.py
index 9749b3f..5768c2d 100644
--- a/pydtmc/decorators.py
+++ b/pydtmc/decorators.py
@@ -13,6 +13,7 @@ __all__ = [
 
 # Standard
 
+import copy as _cp
 import functools as _ft
 import re as _re
 import threading as _th
@@ -59,9 +60,11 @@ class cached_property(property):
 
         with self._lock:
             try:
-                return instance.__dict__[self._func_name]
+                value = instance.__dict__[self._func_name]
             except KeyError:
-                return instance.__dict__.setdefault(self._func_name, self._func(instance))
+                value = instance.__dict__.setdefault(self._func_name, self._func(instance))
+
+        return _cp.deepcopy(value)
 
     def __set__(self, instance, value):
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index bb567cc..627795e 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1014,7 +1014,7 @@ class MarkovChain(_Model):
         if 'ap' not in self.__cache:
             self.__cache['ap'] = _absorption_probabilities(self)
 
-        return self.__cache['ap']
+        return _cp.deepcopy(self.__cache['ap'])
 
     @_object_mark(instance_generator=True)
     def aggregate(self, s: int, method: str = 'adaptive') -> _tmc:
@@ -1525,7 +1525,7 @@ class MarkovChain(_Model):
         if 'mat' not in self.__cache:
             self.__cache['mat'] = _mean_absorption_times(self)
 
-        return self.__cache['mat']
+        return _cp.deepcopy(self.__cache['mat'])
 
     @_object_mark(aliases=['mfpt_between', 'mfptb'])
     def mean_first_passage_times_between(self, origins: _tstates, targets: _tstates) -> _ofloat:
@@ -1596,7 +1596,7 @@ class MarkovChain(_Model):
         if 'mnv' not in self.__cache:
             self.__cache['mnv'] = _mean_number_visits(self)
 
-        return self.__cache['mnv']
+        return _cp.deepcopy(self.__cache['mnv'])
 
     @_object_mark(aliases=['mrt'])
     def mean_recurrence_times(self) -> _oarray:
@@ -1613,7 +1613,7 @@ class MarkovChain(_Model):
         if 'mrt' not in self.__cache:
             self.__cache['mrt'] = _mean_recurrence_times(self)
 
-        return self.__cache['mrt']
+        return _cp.deepcopy(self.__cache['mrt'])
 
     @_object_mark(instance_generator=True)
     def merge_with(self, other: _tmc, gamma: float) -> _tmc:
-- 
2.43.0


From c7aceb4e24811e1df3453161e782bec802932803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 15/31] fix: keep plot_graph from drawing from the global
 random state

---
 pydtmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a0f6d9f..f06f781 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -885,7 +885,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
     def _plot_mc_standard(pms_mc, pms_nodes_color, pms_nodes_shape, phe_edges_label, pms_dpi):
 
         g = pms_mc.to_graph()
-        positions = _nx.spring_layout(g)
+        positions = _nx.spring_layout(g, seed=0)
         magnitude = _calculate_magnitude(pms_mc.p)
 
         node_colors = _node_colors(len(pms_mc.communicating_classes)) if pms_nodes_color else []
-- 
2.43.0


From a675a5a77f0033129c2196f51df2dac8f94653ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 16/31] fix: raise the documented ValidationError when estimate
 receives sequences of different lengths

---
 pydtmc/hidden_markov_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 7792a4e..fb150f8 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -602,7 +602,7 @@ class HiddenMarkovModel(_Model):
             raise _ValidationError('State names and symbol names must be different.')
 
         if len(sequence_states) != len(sequence_symbols):
-            raise ValueError('The observed sequence of states and the observed sequence of symbols must have the same length.')
+            raise _ValidationError('The observed sequence of states and the observed sequence of symbols must have the same length.')
 
         p, e = _estimate(len(possible_states), len(possible_symbols), sequence_states, sequence_symbols, True)
         hmm = HiddenMarkovModel(p, e, possible_states, possible_symbols)
-- 
2.43.0


From c474e796712ccc5ace9aff73d26c9abc84c20f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 17/31] fix: name the offending argument when an object without
 module is passed as a model

---
 pydtmc/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 871a8b4..bb64544 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -410,7 +410,7 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
 
 def validate_hidden_markov_model(value: _tany) -> _thmm:
 
-    if value is None or (f'{value.__module__}.{value.__class__.__name__}' != 'pydtmc.hidden_markov_model.HiddenMarkovModel'):
+    if value is None or (f'{value.__class__.__module__}.{value.__class__.__name__}' != 'pydtmc.hidden_markov_model.HiddenMarkovModel'):
         raise TypeError('The "@arg@" parameter is null or wrongly typed.')
 
     return value
@@ -615,7 +615,7 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
 
 def validate_markov_chain(value: _tany, size: _oint = None) -> _tmc:
 
-    if value is None or (f'{value.__module__}.{value.__class__.__name__}' != 'pydtmc.markov_chain.MarkovChain'):
+    if value is None or (f'{value.__class__.__module__}.{value.__class__.__name__}' != 'pydtmc.markov_chain.MarkovChain'):
         raise TypeError('The "@arg@" parameter is null or wrongly typed.')
 
     if size is not None and value.size != size:
-- 
2.43.0


From 6cc1c49c7f1ab0bbfd2743547b56bdcdfe6c7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 18/31] fix: reject transition functions that return negative
 values

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..c8147c5 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -275,7 +275,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             except Exception:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            if not _np.isfinite(f_result) or not _np.isreal(f_result):  # pragma: no cover
+            if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
             p[i, j] = f_result * weights[j]
-- 
2.43.0


From 24b84d2410d7f5b675038f63d51fad12c9567766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 19/31] fix: keep the accessibility matrix exact for larger
 chains (integer overflow of the matrix power)

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 627795e..f31966c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -394,8 +394,8 @@ class MarkovChain(_Model):
         a = self.adjacency_matrix
         i = _np.eye(self.__size, dtype=int)
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
-        am = (am > 0).astype(int)
+        am = _npl.matrix_power((i + a) > 0, self.__size - 1)
+        am = am.astype(int)
 
         return am
 
-- 
2.43.0


From 7d1a778797339401aefed506d7443f4ee013d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 20/31] fix: decide regularity on the zero pattern with the
 Wielandt exponent (rounding errors for larger chains)

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index f31966c..b24035a 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -709,9 +709,9 @@ class MarkovChain(_Model):
         if nz > 0:
             k = (2 * self.__size) - nz - 1
         else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
+            k = self.__size**2 - (2 * self.__size) + 2
 
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        result = _np.all(_npl.matrix_power(self.__p > 0.0, k))
 
         return result
 
-- 
2.43.0


From f13268e8896900ef2c21a3241d41d72dbea4cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 21/31] fix: validate_boundary_condition refuses NaN

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index bb64544..99201fb 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -149,7 +149,7 @@ def validate_boundary_condition(value: _tany) -> _tbcond:
 
         value = float(value)
 
-        if (value < 0.0) or (value > 1.0):
+        if not 0.0 <= value <= 1.0:
             raise ValueError('The "@arg@" parameter, when specified as a number, must have a value between 0 and 1.')
 
         return value
-- 
2.43.0


From f75aa556fdf93f3f76ba38c2087cb88334511ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 22/31] fix: numeric arguments with imaginary parts are refused
 instead of truncated

---
 pydtmc/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index e8fc90d..f450ed2 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -219,7 +219,11 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
         raise TypeError('The data type is not supported.')
 
     if dtype is not None:
-        output = output.astype(dtype)
+
+        if _np.iscomplexobj(output) and not _np.all(_np.isreal(output)):
+            raise TypeError('The data type is not supported.')
+
+        output = _np.real(output).astype(dtype)
 
     return output
 
-- 
2.43.0


From 2ac6e39e92e2e2f8c290e9784224f7d7e2dad8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 23/31] fix: masks whose fully defined rows cannot sum to 1 are
 refused

---
 pydtmc/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 99201fb..903cf66 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -664,6 +664,9 @@ def validate_mask(value: _tany, rows: int, columns: int) -> _tarray:
     if _np.any(_np.nansum(value, axis=1, dtype=float) > 1.0):
         raise ValueError('The "@arg@" parameter row sums must not exceed 1.')
 
+    if any(not _np.any(_np.isnan(row)) and not _np.isclose(_np.sum(row), 1.0) for row in value):
+        raise ValueError('The "@arg@" parameter rows must sum to 1 when they contain no NaNs.')
+
     return value
 
 
-- 
2.43.0


From ab01842f3a520c84de2372a578b81729c71380e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 24/31] fix: Newton-Cotes nodes lie in the quadrature interval

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index c8147c5..d66ca85 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From a9082dc99cbec8ef26731fde44923db64b34e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 25/31] fix: XML files are written in the encoding they declare

---
 pydtmc/files_io.py   | 2 +-
 pydtmc/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index c638e91..da8dfdb 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -450,5 +450,5 @@ def write_xml(mc: bool, d: _tobj_dict, file_path: _tpath):
     xml_content = xml_content.replace('<Item', '\t<Item')
     xml_content = xml_content.replace('" />', '"/>\n')
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         file.write(xml_content)
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 903cf66..20d0c0b 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -315,7 +315,7 @@ def validate_file_path(value: _tany, accepted_extensions: _olist_str, write_perm
 
         try:
 
-            with open(file_path, mode='r') as file:
+            with open(file_path, mode='rb') as file:
                 file.seek(0)
 
                 if not file.read(1):
-- 
2.43.0


From 6fb3df2c3403b6b17b26cb18a074f9972e8d0fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 26/31] fix: csv and json files with blank labels are refused

---
 pydtmc/files_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index da8dfdb..7ce687c 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -84,6 +84,9 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     label = label.lstrip()
                     label_prefix = label[:2]
 
+                    if len(label[2:].strip()) == 0:  # pragma: no cover
+                        raise ValueError('The file header is invalid.')
+
                     if label_prefix == 'E_':
                         label_value = label[2:]
                         symbols.append(label_value)
@@ -136,7 +139,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             if index == 0:
 
-                if not all(isinstance(state, str) and len(state) > 0 for state in row):  # pragma: no cover
+                if not all(isinstance(state, str) and len(state.strip()) > 0 for state in row):  # pragma: no cover
                     raise ValueError('The file header is invalid.')
 
                 states = row
@@ -216,7 +219,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             elif param_type == 'string':
 
-                if not isinstance(value, str) or len(value) == 0:  # pragma: no cover
+                if not isinstance(value, str) or len(value.strip()) == 0:  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
             if len(param_possible_values) > 0 and value not in param_possible_values:  # pragma: no cover
-- 
2.43.0


From 7839a4731d89f1c8516287d9d108f0cf8a8d172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 27/31] fix: booleans are no probabilities in json files

---
 pydtmc/files_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 7ce687c..8ef9910 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -212,7 +212,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             if param_type == 'number':
 
-                if not isinstance(value, (float, int, _np.floating, _np.integer)):  # pragma: no cover
+                if isinstance(value, bool) or not isinstance(value, (float, int, _np.floating, _np.integer)):  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
                 value = float(value)
-- 
2.43.0


From b7ed951b105fec723061a4596e8b0c9cf9c6858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 28/31] fix: the spectral top-down aggregation kept every state
 that lies between two merged ones

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 77cf9bb..9c21283 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -300,7 +300,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vi = _np.ravel(_np.argwhere(cq_phi[:, cq_index] == 1.0))
         vi0, vi1 = vi[0], vi[1]
-        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):(vi1 - 1)], cq_eta[:, (vi1 + 1):]))
+        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):vi1], cq_eta[:, (vi1 + 1):]))
 
         z = phi_i.shape[1]
 
-- 
2.43.0


From 1dea5a8449dea3244f25ea07fca9207272075bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 29/31] fix: the spectral top-down aggregation did not end when
 an eigenvector has no change of sign

---
 pydtmc/generators.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 9c21283..66faa75 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -343,6 +343,11 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
         v2 = _np.copy(vt)
         v2[indices] = evector < 0.0
 
+        if not (_np.any(v1) and _np.any(v2)):  # no change of sign, the state with the lowest component is isolated
+            lowest = _np.flatnonzero(indices)[_np.argmin(evector)]
+            v1, v2 = _np.copy(vt), _np.zeros_like(vt)
+            v1[lowest], v2[lowest] = 0.0, 1.0
+
         cbc_phi = cbc_phi[:, :-1]
 
         if _np.sum(v1) > 1.0:
@@ -363,7 +368,11 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
         q_pi = pi if i == 0 else _calculate_invariant(q)
         phi = _np.ones((q.shape[0], 1), dtype=float)
 
-        while _np.any(_np.sum(phi, axis=0) > 2.0):
+        for _ in range(q.shape[0]):
+
+            if not _np.any(_np.sum(phi, axis=0) > 2.0):
+                break
+
             phi = _update_bipartition_candidates(q, q_pi, phi)
 
         u = []
-- 
2.43.0


From 71efd67c2a288b9cc41bda2b8d3215c860e27436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 30/31] fix: approximation accepted unit roots that its methods
 divide by

---
 pydtmc/markov_chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index b24035a..b4c8336 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2146,7 +2146,11 @@ class MarkovChain(_Model):
             approximation_type = _validate_enumerator(approximation_type, ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
             alpha = _validate_float(alpha)
             sigma = _validate_float(sigma, lower_limit=(0.0, True))
-            rho = _validate_float(rho, lower_limit=(-1.0, False), upper_limit=(1.0, False))
+
+            if approximation_type == 'adda-cooper' or (approximation_type == 'tauchen-hussey' and k is None):
+                rho = _validate_float(rho, lower_limit=(-1.0, True), upper_limit=(1.0, True))
+            else:
+                rho = _validate_float(rho, lower_limit=(-1.0, approximation_type == 'tauchen'), upper_limit=(1.0, False))
 
             if states is not None:  # pragma: no cover
                 states = _validate_labels_input(states, size)
-- 
2.43.0


From baa4f9cb797e0fcd333054f9216bd8f21c60ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:13 +0000
Subject: [PATCH 31/31] fix: HiddenMarkovModel.fit accepted an emission guess
 with another number of symbols

---
 pydtmc/hidden_markov_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index fb150f8..4ea1dba 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -646,6 +646,9 @@ class HiddenMarkovModel(_Model):
         if len(list(set(possible_states) & set(possible_symbols))) > 0:  # pragma: no cover
             raise _ValidationError('State names and symbol names must be different.')
 
+        if e_guess.shape[1] != len(possible_symbols):  # pragma: no cover
+            raise _ValidationError(f'The "e_guess" parameter must be a 2d matrix with {len(possible_symbols):d} columns.')
+
         p, e, error_message = _fit(fitting_type, p_guess, e_guess, initial_status, symbols)
 
         if error_message is not None:  # pragma: no cover
-- 
2.43.0

