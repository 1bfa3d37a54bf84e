From e1d5fd5826fb41a8444416dd7cf5d1f01b2de422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 01/15] fix: parse empty Python source instead of raising
 IndexError

parse_and_maybe_preprocess('python', '') indexed code[-1] of an empty string.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From c422464cfcfbba7ca40c77304f1e65576dcbcd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:44 +0000
Subject: [PATCH 02/15] fix: infer_split_truncation_index accepts
 splitters=None as documented

None (consider all splitters) raised TypeError at the first statement end.
---
 r_u_sure/parsing/pseudo_parser/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 2a33f85..13ef0b1 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -287,7 +287,7 @@ def infer_split_truncation_index(
       if after_cursor:
         if (node.parent.annotation == 'split' and
             node.parent.children[-1] == node and
-            tokens_raw[node.lo] in splitters):
+            (splitters is None or tokens_raw[node.lo] in splitters)):
           # we found the split immediately proceeding the cursor
           return code_index
 
-- 
2.43.0


From b352b2dca3f6854ec56135b5fe29f4a72b90f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:18 +0000
Subject: [PATCH 03/15] fix: report an out-of-order edge as ValueError, not
 KeyError

The message looked up the previous outgoing edge of the edge's source, which
need not exist, instead of the one of its destination.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..a389f4b 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From df7e276c3273423fbde32127b7796bb2937cb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:18 +0000
Subject: [PATCH 04/15] fix: keep the id of evicted states when rewriting a DAG

A state evicted from the scratch table by a hash conflict got a second id the
next time it was the destination of an edge, which lost paths or reported
that there is none.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index a389f4b..d92d842 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -424,6 +424,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but evicted.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From 9b2d50c36c6d2579b0a2957c452f73d1b35228c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:18 +0000
Subject: [PATCH 05/15] fix: report 'No path from start to end' when the end is
 unreachable

The id created for an unreached final state was out of the bounds of the
reachability table allocated before it.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index d92d842..befcbec 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -453,8 +453,9 @@ def prune_unreachable_and_rewrite_states(
 
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
+  final_id = lookup_or_create_id_for_state(dag.final_state)
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  reachable_from_end[final_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From 7924bfcac62b3b456ae1c6751187e486b09bb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 06/15] fix: reject self-loop edges when building a DAG

An edge whose destination is its own source is a cycle, and was accepted
because the source is only recorded after the check.
---
 r_u_sure/decision_diagrams/gated_state_dag.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index befcbec..c8a8d76 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -253,6 +253,9 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
         ),
     )
 
+  if edge.dest == edge.source:
+    raise ValueError(f"Edge {edge} leads from {edge.source} to itself")
+
   if EDGE_TRACEBACKS_ENABLED:
     # Extract only the direct caller of this function.
     tb_frame = traceback.extract_stack(limit=2)[0]
@@ -299,6 +302,12 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
             ),
         )
 
+      if edge.dest == edge.source:
+        numba_raise.safe_raise(
+            ValueError,
+            ("Edge", edge, "leads from", edge.source, "to itself"),
+        )
+
       dag.seen_outgoing[edge.source] = edge.dest
       # Note: this line may cast `edge` to an optional type if any of its fields
       # were None. This is handled by the import of `patch_namedtuple_cast``.
-- 
2.43.0


From 9e6a3fbd8a0f4ded1fbd44bf98a9f378c33a50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 07/15] fix: minimal cost of a DAG without variables

The default FROM_MIDDLE strategy asked for the min marginals of variable -1
and failed with an AssertionError when the DAG assigns no variables.
---
 r_u_sure/decision_diagrams/packed_dags.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..79e3049 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1423,6 +1423,10 @@ def compute_minimal_cost(
     update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
     return memo.prefix_table[-1]
   elif strategy == MinimalCostComputationStrategy.FROM_MIDDLE:
+    if memo.dag.num_variable_keys == 0:
+      # There is no variable whose min marginals we could use.
+      update_suffixes_up_to(memo, -1)
+      return memo.suffix_table[0]
     target_var = memo.suffixes_valid_starting_from_tag[()]
     target_var = max(0, target_var)
     target_var = min(target_var, memo.dag.num_variable_keys - 1)
-- 
2.43.0


From 297076a3cb096a4dee7e2117a7589b837612cb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:12 +0000
Subject: [PATCH 08/15] fix: stop sweeping after the soft timeout

The timeout only left the loop over the two sweep directions, so the solver
kept sweeping until it converged however long that took.
---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..a7f5b41 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -734,6 +734,8 @@ def solve_system_with_sweeps(
     if not saw_any_change:
       reached_plateau = True
       break
+    if times_at_sweep[-1] > soft_timeout:
+      break
 
   return MinMarginalSweepSolverResults(
       objective_at_step=np.asarray(objective_at_step),
-- 
2.43.0


From ccdcd80b06398697a44ae06d77584f998cd1d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:05 +0000
Subject: [PATCH 09/15] fix: greedy decoding of a system without variables
 reports its cost

It returned NaN instead of the summed minimal costs of the subproblems.
---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index a7f5b41..39dd761 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -780,6 +780,11 @@ def greedy_extract(
     iteration_order = range(system_data.num_variable_keys - 1, -1, -1)
 
   last_cost = np.nan
+  if system_data.num_variable_keys == 0:
+    # Nothing to decide: each subproblem just takes its best path.
+    last_cost = 0.0
+    for memo in system_data.dag_tables:
+      last_cost += packed_dags.compute_minimal_cost(memo)
   for variable in iteration_order:
     min_marginals = system_min_marginals(system_data, variable)
     choice = np.argmin(min_marginals)
-- 
2.43.0


From 6ae48e48aa5c0ec2e0b18cdb5b2ad2af1382a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:14 +0000
Subject: [PATCH 10/15] fix: unmatched selections may pass a region end

The branch set can_skip_prototype instead of can_advance_unmatched, so the
decision reused whatever the previously visited node had set; a prototype
beginning with a region end raised UnboundLocalError.
---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From 8c3b03e66281f4d512540176f7eeee9c8fb42506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:22 +0000
Subject: [PATCH 11/15] fix: an empty context contains no tokens

extract_context_tokens added the first token of the suggestion to the set of
tokens seen in the context when the context is empty.
---
 r_u_sure/wrappers/call_sequence_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/call_sequence_wrapper.py b/r_u_sure/wrappers/call_sequence_wrapper.py
index 6158af4..f54362f 100644
--- a/r_u_sure/wrappers/call_sequence_wrapper.py
+++ b/r_u_sure/wrappers/call_sequence_wrapper.py
@@ -63,14 +63,14 @@ def extract_context_tokens(
   for node, _, _ in sequence_node_helpers.walk_with_paths(
       context_and_prototype
   ):
+    if position >= prediction_location:
+      break
     if isinstance(node, sequence_nodes.TextTokenNode):
       seen_tokens.add(node.text_contents)
     if isinstance(
         node, (sequence_nodes.TextTokenNode, sequence_nodes.TextDecorationNode)
     ):
       position += len(node.text_contents)
-      if position >= prediction_location:
-        break
   return seen_tokens
 
 
-- 
2.43.0


From 774be90265fac21cf98f485c3a2cc631ba0247e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:46 +0000
Subject: [PATCH 12/15] fix: truncating a prefix of no characters keeps the
 whole sequence

With start_offset=0 the decision nodes before the first text (and empty leading
nodes) were dropped, so that with an empty context the first token could never
be put in a region and the suggestion could not end right at its start.
---
 r_u_sure/tree_structure/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/tree_structure/transforms.py b/r_u_sure/tree_structure/transforms.py
index b1d90b9..b0fb267 100644
--- a/r_u_sure/tree_structure/transforms.py
+++ b/r_u_sure/tree_structure/transforms.py
@@ -290,7 +290,7 @@ def truncate_prefix_at_offset(
     Extended sequence with region start/end nodes.
   """
   # Tracks whether we have seen the start point yet.
-  past_start_point = False
+  past_start_point = start_offset == 0
   # If past_start_point is False, tracks the characters we have seen so far.
   prefix_chars_seen_so_far = 0
 
-- 
2.43.0


From e4ac4e3c525126a236a926bb6045ddfc2ceade8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:07 +0000
Subject: [PATCH 13/15] fix: draw labels above their point for UP directions
 and centre LEFT/RIGHT labels

label_at_point shifted labels with an UP direction downwards, below the
point, and centred labels of several lines the wrong way for LEFT and
RIGHT (further down instead of around the point).
---
 r_u_sure/rendering/svg_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..86dc75d 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = (0.5 - len(lines)) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0


From b7e6487535c359e2d8111e3f01b0f377e8800050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:48 +0000
Subject: [PATCH 14/15] fix: infer the largest candidate indent width whatever
 the candidates' order

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 13ef0b1..add2079 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -60,7 +60,8 @@ def infer_python_spaces_per_indent(
   for candidate_indent_length in candidate_spaces_per_indent:
     if all([not this_indent_length % candidate_indent_length for
             this_indent_length in indent_lengths]):
-      inferred_indent_length = candidate_indent_length
+      inferred_indent_length = max(
+          inferred_indent_length, candidate_indent_length)
 
   return inferred_indent_length
 
-- 
2.43.0


From 8a914d4cfe6b850909716b7155d35d9a49990ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:00 +0000
Subject: [PATCH 15/15] fix: bracket matching dropped a closer that has no
 opener, and accepted it in strict mode

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index e20ca22..652d166 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -577,12 +577,9 @@ def stack_based_bracket_match(tokens: List[Union[int, str]],
         (token in closers) and
         opener_stack and
         (opener_stack[-1] == closer_to_opener[token]))
-    # is this token an ill formed parenthesis closer that could not have been
-    # fixed by prefixing the entire code block with a matching opener ?
-    unprefixable_unmatched_closer = (
-        (token in closers) and
-        opener_stack and
-        (opener_stack[-1] != closer_to_opener[token]))
+    # is this token an ill formed parenthesis closer, i.e. one that does not
+    # match the innermost opener, or that has no opener at all ?
+    unmatched_closer = (token in closers) and not matched_closer
     if token in openers:
       # n will have three children: left, middle, and right. left and right
       # have no children, and will represent the opening and closing braces.
@@ -610,8 +607,8 @@ def stack_based_bracket_match(tokens: List[Union[int, str]],
       parent.parent.hi = i + 1
       opener_stack.pop()
       parent = parent.parent.parent
-    elif plain_token or unprefixable_unmatched_closer:
-      if unprefixable_unmatched_closer and not error_tolerant:
+    elif plain_token or unmatched_closer:
+      if unmatched_closer and not error_tolerant:
         raise ParseError('empty stack')
       n = Node(lo=i, hi=i+1, parent=parent, annotation='sibling')
       parent.children.append(n)
-- 
2.43.0

