From 3e240fa0a0241f22c64d02ba0dfe63d61a5a6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:41 +0000
Subject: [PATCH 01/16] fix: pseudo-parse empty Python source instead of
 raising IndexError

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From 4bf52279a91dc980961b484f7a97d67d79c33257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:05 +0000
Subject: [PATCH 02/16] fix: count dedented lines when inferring Python spaces
 per indent

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 2a33f85..6f18c0e 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -44,12 +44,15 @@ def infer_python_spaces_per_indent(
           'python', python_code, spaces_per_indent=1))
 
   indent_lengths = []
-  for (token_type, previous_token_type, token_raw) in (
-      zip(token_types[1:], token_types[:-1], tokens_maybe_corrected_raw[1:])):
-    if (token_type == stack_parser.TokenType.WHITE_SPACE and
-        previous_token_type in (
-            stack_parser.TokenType.PYTHON_INDENT,
-            stack_parser.TokenType.PYTHON_DEDENT) and
+  for i in range(1, len(token_types)):
+    # A dedent is emitted before the newline that precedes the dedented line.
+    previous_token_types = token_types[max(i - 2, 0):i]
+    token_raw = tokens_maybe_corrected_raw[i]
+    if (token_types[i] == stack_parser.TokenType.WHITE_SPACE and
+        (previous_token_types[-1] == stack_parser.TokenType.PYTHON_INDENT or
+         previous_token_types == [
+             stack_parser.TokenType.PYTHON_DEDENT,
+             stack_parser.TokenType.NEWLINE]) and
         len(token_raw)):
       indent_lengths.append(len(token_raw))
 
-- 
2.43.0


From 7e873b7954fdd81dfd24711acc06e08e6c35c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:07 +0000
Subject: [PATCH 03/16] fix: keep markers before the first text node when
 truncating at offset 0

---
 r_u_sure/tree_structure/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/tree_structure/transforms.py b/r_u_sure/tree_structure/transforms.py
index b1d90b9..b0fb267 100644
--- a/r_u_sure/tree_structure/transforms.py
+++ b/r_u_sure/tree_structure/transforms.py
@@ -290,7 +290,7 @@ def truncate_prefix_at_offset(
     Extended sequence with region start/end nodes.
   """
   # Tracks whether we have seen the start point yet.
-  past_start_point = False
+  past_start_point = start_offset == 0
   # If past_start_point is False, tracks the characters we have seen so far.
   prefix_chars_seen_so_far = 0
 
-- 
2.43.0


From 1dea75973fc97e9f0b4c4e6cebdc5bf6ff500a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 04/16] fix: report out-of-order DAG edges as ValueError, not
 KeyError

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..a389f4b 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From 671f2e88a0415ea83fe57a924b3bfc5736148ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 05/16] fix: refuse self-loops when building a state DAG

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index a389f4b..a5d6196 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -245,6 +245,9 @@ def adding_edge_tracebacks():
 
 def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
   """Adds an edge to the DAG."""
+  if edge.source == edge.dest:
+    raise ValueError(f"Edge {edge} is a self-loop")
+
   if edge.dest in dag.seen_outgoing:
     raise ValueError(
         (
-- 
2.43.0


From 0e74e4ef37a26d10ec3f2a1e1d1cb64a59c47c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 06/16] fix: do not assign a second ID to a state evicted from
 the scratch table

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index a5d6196..c291f4f 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -427,6 +427,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but previously evicted.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From af0fb65a7d958046b6910e4689cb83bfd75aba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:48 +0000
Subject: [PATCH 07/16] fix: raise the documented error when the final state is
 unreachable

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index c291f4f..1b99189 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -456,8 +456,12 @@ def prune_unreachable_and_rewrite_states(
 
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
+  final_state_id = lookup_id_for_state(dag.final_state)
+  if final_state_id == -1:
+    raise ValueError("No path from start to end")
+
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  reachable_from_end[final_state_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From 3cffb1007eafd2cc1af673e04184eadcb2c66bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 08/16] fix: compute the minimal cost of a DAG without
 variables

---
 r_u_sure/decision_diagrams/packed_dags.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..6c4bfaa 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1423,6 +1423,10 @@ def compute_minimal_cost(
     update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
     return memo.prefix_table[-1]
   elif strategy == MinimalCostComputationStrategy.FROM_MIDDLE:
+    if memo.dag.num_variable_keys == 0:
+      # There are no variables to compute min-marginals for.
+      update_suffixes_up_to(memo, -1)
+      return memo.suffix_table[0]
     target_var = memo.suffixes_valid_starting_from_tag[()]
     target_var = max(0, target_var)
     target_var = min(target_var, memo.dag.num_variable_keys - 1)
-- 
2.43.0


From 83b47fdea9557028c422f77f87c06439aaebfe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:28 +0000
Subject: [PATCH 09/16] fix: stop the dual solver after the sweep that exceeds
 the soft timeout

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..d877323 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -695,6 +695,7 @@ def solve_system_with_sweeps(
 
   # Keep track of how many sweeps we have run without seeing any change.
   reached_plateau = False
+  timed_out = False
 
   while True:
     saw_any_change = False
@@ -728,12 +729,15 @@ def solve_system_with_sweeps(
       steps_at_sweep.append(step_count)
       times_at_sweep.append(stamp - base_time)
       if stamp - base_time > soft_timeout:
+        timed_out = True
         break
 
     # Check for exit criteria.
     if not saw_any_change:
       reached_plateau = True
       break
+    if timed_out:
+      break
 
   return MinMarginalSweepSolverResults(
       objective_at_step=np.asarray(objective_at_step),
-- 
2.43.0


From 72cc1ef64d369516676ae89edbd098a43cabc06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:33 +0000
Subject: [PATCH 10/16] fix: update the only variable of a single-variable
 system in the dual solver

---
 .../decision_diagrams/consistent_path_dual_solver.py   | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index d877323..07f0c69 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -702,8 +702,14 @@ def solve_system_with_sweeps(
 
     for sweep_direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):
       if sweep_direction == SweepDirection.FORWARD:
-        # 0, 1, ..., len-3, len-2
-        variables_in_sweep = range(0, system_data.num_variable_keys - 1)
+        # 0, 1, ..., len-3, len-2 (or just 0, if it is the only variable)
+        variables_in_sweep = range(
+            0,
+            max(
+                system_data.num_variable_keys - 1,
+                min(system_data.num_variable_keys, 1),
+            ),
+        )
       else:
         # len-1, len-2, ..., 2, 1
         variables_in_sweep = range(system_data.num_variable_keys - 1, 0, -1)
-- 
2.43.0


From 8211e92e23ce1c68d64738d56b6d04f65f32cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:25 +0000
Subject: [PATCH 11/16] fix: allow a selected part to continue past a leading
 region end

---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From 10168ef9a36b5edf96dbc3d313e31523f0bf7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:20 +0000
Subject: [PATCH 12/16] fix: prefix baselines contradicted the constraints at
 region starts after the exit

---
 r_u_sure/wrappers/prefix_truncation_wrapper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/prefix_truncation_wrapper.py b/r_u_sure/wrappers/prefix_truncation_wrapper.py
index a86d89e..0100f7f 100644
--- a/r_u_sure/wrappers/prefix_truncation_wrapper.py
+++ b/r_u_sure/wrappers/prefix_truncation_wrapper.py
@@ -260,7 +260,8 @@ class PrefixByEditDistanceBaselineBuilder:
         else:
           constraints[key] = region_decisions.DecisionValue.FALSE
       elif node_id.category == PackedSequenceNodeCategory.REGION_START_NODE:
-        # Never allow low-confidence regions to start.
+        # Never allow low-confidence regions to start. (After exiting, there is
+        # no decision left to make.)
         constraints[
             region_decisions.DecisionKey(
                 prototype_preorder_index=node_id.preorder_index,
@@ -268,7 +269,11 @@ class PrefixByEditDistanceBaselineBuilder:
                     region_decisions.DecisionCategory.REGION_SHOULD_START
                 ),
             )
-        ] = region_decisions.DecisionValue.FALSE
+        ] = (
+            region_decisions.DecisionValue.NOT_APPLICABLE
+            if already_exited
+            else region_decisions.DecisionValue.FALSE
+        )
 
     if early_exit_preorder_index is not None and not already_exited:
       raise ValueError(
-- 
2.43.0


From f2e846cb3a98c6c8d978cb8f8a2da5b958fec0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:45 +0000
Subject: [PATCH 13/16] fix: with an empty context, the first suggested token
 counted as seen in the context

---
 r_u_sure/wrappers/call_sequence_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/call_sequence_wrapper.py b/r_u_sure/wrappers/call_sequence_wrapper.py
index 6158af4..f54362f 100644
--- a/r_u_sure/wrappers/call_sequence_wrapper.py
+++ b/r_u_sure/wrappers/call_sequence_wrapper.py
@@ -63,14 +63,14 @@ def extract_context_tokens(
   for node, _, _ in sequence_node_helpers.walk_with_paths(
       context_and_prototype
   ):
+    if position >= prediction_location:
+      break
     if isinstance(node, sequence_nodes.TextTokenNode):
       seen_tokens.add(node.text_contents)
     if isinstance(
         node, (sequence_nodes.TextTokenNode, sequence_nodes.TextDecorationNode)
     ):
       position += len(node.text_contents)
-      if position >= prediction_location:
-        break
   return seen_tokens
 
 
-- 
2.43.0


From 66895c25277555dba73bec57a3f07d2db89f08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:22 +0000
Subject: [PATCH 14/16] fix: SVG labels directed up from a point were drawn
 below it

---
 r_u_sure/rendering/svg_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..76910d0 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = -(len(lines) - 0.5) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
-- 
2.43.0


From c41f2eca8b25c313a634e814a247ce14607e08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:22 +0000
Subject: [PATCH 15/16] fix: multi-line SVG labels beside a point were not
 centred on it

---
 r_u_sure/rendering/svg_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index 76910d0..8787e46 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0


From 045cb1866422ca77d8706ab7596143cf423b4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 16/16] fix: C-like string literals are strings, not comments

In the cpp, java and javascript presets the pattern of COMMENT_SLASHSTAR
also matched quoted strings, ahead of STRING.  f("a b", c); was therefore
split after the string as if a statement ended there, and string literals
were never turned into groups of sub-tokens as they are in Python.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index e20ca22..2b7209f 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -173,11 +173,10 @@ class RegexCodec:
     ]
     c_comments = [
         ('COMMENT_SLASHSLASH', r'(//)[^\n]*'),
-        ('COMMENT_SLASHSTAR',
-         r'//.*?$|/\*.*?\*/|\'(?:\\.|[^\\\'])*\'|"(?:\\.|[^\\"])*"'),
+        ('COMMENT_SLASHSTAR', r'/\*.*?\*/'),
     ]
     c_strings = [
-        ('STRING', r'''(\")((?<!\\)\\\2|.)*?\2'''),
+        ('STRING', r'\'(?:\\.|[^\\\'])*\'|"(?:\\.|[^\\"])*"'),
     ]
     c_macros = [
         ('C_PREPROCESSOR',
-- 
2.43.0

