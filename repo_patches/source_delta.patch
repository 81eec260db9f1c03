From 711d32fd5d58381fc4b29b15ac3cebd6cee1edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:15 +0000
Subject: [PATCH 01/15] fix: parse empty Python text instead of raising
 IndexError

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From c461bb33ef117cde9931dc32a85b83af609e22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 02/15] fix: lex quoted literals of C-like languages as
 strings, not as comments

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index e20ca22..6616468 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -173,11 +173,10 @@ class RegexCodec:
     ]
     c_comments = [
         ('COMMENT_SLASHSLASH', r'(//)[^\n]*'),
-        ('COMMENT_SLASHSTAR',
-         r'//.*?$|/\*.*?\*/|\'(?:\\.|[^\\\'])*\'|"(?:\\.|[^\\"])*"'),
+        ('COMMENT_SLASHSTAR', r'//.*?$|/\*.*?\*/'),
     ]
     c_strings = [
-        ('STRING', r'''(\")((?<!\\)\\\2|.)*?\2'''),
+        ('STRING', r'\'(?:\\.|[^\\\'])*\'|"(?:\\.|[^\\"])*"'),
     ]
     c_macros = [
         ('C_PREPROCESSOR',
-- 
2.43.0


From 84233f8eed93c0c0bf8859760d7a6174a593736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:25 +0000
Subject: [PATCH 03/15] fix: do not silently drop a closing bracket that
 nothing opened

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index 6616468..b756ddc 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -576,12 +576,9 @@ def stack_based_bracket_match(tokens: List[Union[int, str]],
         (token in closers) and
         opener_stack and
         (opener_stack[-1] == closer_to_opener[token]))
-    # is this token an ill formed parenthesis closer that could not have been
-    # fixed by prefixing the entire code block with a matching opener ?
-    unprefixable_unmatched_closer = (
-        (token in closers) and
-        opener_stack and
-        (opener_stack[-1] != closer_to_opener[token]))
+    # is this token an ill formed parenthesis closer, i.e. one that does not
+    # close the innermost open parenthesis (if there is any) ?
+    unmatched_closer = (token in closers) and not matched_closer
     if token in openers:
       # n will have three children: left, middle, and right. left and right
       # have no children, and will represent the opening and closing braces.
@@ -609,8 +606,8 @@ def stack_based_bracket_match(tokens: List[Union[int, str]],
       parent.parent.hi = i + 1
       opener_stack.pop()
       parent = parent.parent.parent
-    elif plain_token or unprefixable_unmatched_closer:
-      if unprefixable_unmatched_closer and not error_tolerant:
+    elif plain_token or unmatched_closer:
+      if unmatched_closer and not error_tolerant:
         raise ParseError('empty stack')
       n = Node(lo=i, hi=i+1, parent=parent, annotation='sibling')
       parent.children.append(n)
-- 
2.43.0


From 109dc788a639391f9dfefb60d957105ef3037e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:53 +0000
Subject: [PATCH 04/15] fix: accept splitters=None in
 infer_split_truncation_index as documented

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 2a33f85..13ef0b1 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -287,7 +287,7 @@ def infer_split_truncation_index(
       if after_cursor:
         if (node.parent.annotation == 'split' and
             node.parent.children[-1] == node and
-            tokens_raw[node.lo] in splitters):
+            (splitters is None or tokens_raw[node.lo] in splitters)):
           # we found the split immediately proceeding the cursor
           return code_index
 
-- 
2.43.0


From 028615340461444f4e832173db1086965588a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:21 +0000
Subject: [PATCH 05/15] fix: infer the largest consistent indent for candidates
 in any order

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 13ef0b1..add2079 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -60,7 +60,8 @@ def infer_python_spaces_per_indent(
   for candidate_indent_length in candidate_spaces_per_indent:
     if all([not this_indent_length % candidate_indent_length for
             this_indent_length in indent_lengths]):
-      inferred_indent_length = candidate_indent_length
+      inferred_indent_length = max(
+          inferred_indent_length, candidate_indent_length)
 
   return inferred_indent_length
 
-- 
2.43.0


From a78b07ea61ef6f48d9d1c46009f380f3f535815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 06/15] fix: reject a diagram whose final state is never
 reached when renumbering states

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..c4f378c 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -450,8 +450,11 @@ def prune_unreachable_and_rewrite_states(
 
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
+  final_state_id = lookup_id_for_state(dag.final_state)
+  if final_state_id == -1:
+    raise ValueError("No path from start to end")
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  reachable_from_end[final_state_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From df05b6fb2555590f58f3e3f0e6692ea251ea718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:16 +0000
Subject: [PATCH 07/15] fix: do not give an evicted state a second id when
 renumbering states

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index c4f378c..5c0e4db 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -424,6 +424,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but evicted earlier.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From efd8830dfad80c8be3aae1152cca9f103337467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:30 +0000
Subject: [PATCH 08/15] fix: report an out-of-order edge with a ValueError
 instead of a KeyError

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 5c0e4db..7b8a736 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From faf200d46270cb74514fe7c50d7a74de3bf9f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:10 +0000
Subject: [PATCH 09/15] fix: compute the minimal cost of a diagram without
 decisions from the middle

---
 r_u_sure/decision_diagrams/packed_dags.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..3b5b79e 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1423,6 +1423,10 @@ def compute_minimal_cost(
     update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
     return memo.prefix_table[-1]
   elif strategy == MinimalCostComputationStrategy.FROM_MIDDLE:
+    if memo.dag.num_variable_keys == 0:
+      # There are no min-marginals to compute the cost from.
+      update_suffixes_up_to(memo, -1)
+      return memo.suffix_table[0]
     target_var = memo.suffixes_valid_starting_from_tag[()]
     target_var = max(0, target_var)
     target_var = min(target_var, memo.dag.num_variable_keys - 1)
-- 
2.43.0


From 7950141e55f865265650b1c8c028b1f029c93f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:36 +0000
Subject: [PATCH 10/15] fix: update the only decision of a system with a single
 decision

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..8ce16bd 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -700,7 +700,10 @@ def solve_system_with_sweeps(
     saw_any_change = False
 
     for sweep_direction in (SweepDirection.FORWARD, SweepDirection.REVERSE):
-      if sweep_direction == SweepDirection.FORWARD:
+      if system_data.num_variable_keys == 1:
+        # The only variable is both the first and the last one.
+        variables_in_sweep = range(0, 1)
+      elif sweep_direction == SweepDirection.FORWARD:
         # 0, 1, ..., len-3, len-2
         variables_in_sweep = range(0, system_data.num_variable_keys - 1)
       else:
-- 
2.43.0


From 6b64c9564062da8f571e267fc1f34ade257eddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:00 +0000
Subject: [PATCH 11/15] fix: leave the optimisation loop when the soft time-out
 has elapsed

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 8ce16bd..6b171dd 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -695,6 +695,7 @@ def solve_system_with_sweeps(
 
   # Keep track of how many sweeps we have run without seeing any change.
   reached_plateau = False
+  timed_out = False
 
   while True:
     saw_any_change = False
@@ -731,12 +732,15 @@ def solve_system_with_sweeps(
       steps_at_sweep.append(step_count)
       times_at_sweep.append(stamp - base_time)
       if stamp - base_time > soft_timeout:
+        timed_out = True
         break
 
     # Check for exit criteria.
     if not saw_any_change:
       reached_plateau = True
       break
+    if timed_out:
+      break
 
   return MinMarginalSweepSolverResults(
       objective_at_step=np.asarray(objective_at_step),
-- 
2.43.0


From 878a332d6145aae74e8a3aaf1d4a961744185ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 12/15] fix: let an unmatched selected part pass a region end
 it does not use

The branch set can_skip_prototype instead of can_advance_unmatched, so the
value of the previous position was used; a prototype that starts with a region
end raised UnboundLocalError.
---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From 85b50c28fa76fcdb8ff6e4721e55356ac170833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:06 +0000
Subject: [PATCH 13/15] fix: count open among the built-in names of Python

---
 r_u_sure/parsing/python_builtin_tokens.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r_u_sure/parsing/python_builtin_tokens.py b/r_u_sure/parsing/python_builtin_tokens.py
index d99fee8..80e3fb3 100644
--- a/r_u_sure/parsing/python_builtin_tokens.py
+++ b/r_u_sure/parsing/python_builtin_tokens.py
@@ -141,6 +141,7 @@ PYTHON_BUILTIN_TOKENS = frozenset(
         'min',
         'next',
         'oct',
+        'open',
         'ord',
         'pow',
         'print',
-- 
2.43.0


From 598e09b7a3d7653d733c79da787eb49e4054dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 14/15] fix: do not count the first token of a suggestion
 without context as seen

---
 r_u_sure/wrappers/call_sequence_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/call_sequence_wrapper.py b/r_u_sure/wrappers/call_sequence_wrapper.py
index 6158af4..f54362f 100644
--- a/r_u_sure/wrappers/call_sequence_wrapper.py
+++ b/r_u_sure/wrappers/call_sequence_wrapper.py
@@ -63,14 +63,14 @@ def extract_context_tokens(
   for node, _, _ in sequence_node_helpers.walk_with_paths(
       context_and_prototype
   ):
+    if position >= prediction_location:
+      break
     if isinstance(node, sequence_nodes.TextTokenNode):
       seen_tokens.add(node.text_contents)
     if isinstance(
         node, (sequence_nodes.TextTokenNode, sequence_nodes.TextDecorationNode)
     ):
       position += len(node.text_contents)
-      if position >= prediction_location:
-        break
   return seen_tokens
 
 
-- 
2.43.0


From 93ef13c91adfe1fd065c01c86c38254e94ad9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:45 +0000
Subject: [PATCH 15/15] fix: draw labels above their point and centre labels
 beside it

---
 r_u_sure/rendering/svg_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..8787e46 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = -(len(lines) - 0.5) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0

