SP = 'r_u_sure/parsing/pseudo_parser/stack_parser.py'
UT = 'r_u_sure/parsing/pseudo_parser/utilities.py'
PD = 'r_u_sure/decision_diagrams/packed_dags.py'
GD = 'r_u_sure/decision_diagrams/gated_state_dag.py'
SV = 'r_u_sure/decision_diagrams/consistent_path_dual_solver.py'
ED = 'r_u_sure/edit_distance_utility/edit_dags.py'
PS = 'r_u_sure/edit_distance_utility/part_selection_dags.py'
CD = 'r_u_sure/edit_distance_utility/constraint_dags.py'
RD = 'r_u_sure/edit_distance_utility/region_decisions.py'
UR = 'r_u_sure/wrappers/uncertainty_regions_wrapper.py'
PT = 'r_u_sure/wrappers/prefix_truncation_wrapper.py'
CS = 'r_u_sure/wrappers/call_sequence_wrapper.py'
SVG = 'r_u_sure/rendering/svg_renderer.py'

DAGS = '''
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
from r_u_sure.decision_diagrams import consistent_path_dual_solver as S
import numpy as np
E = g.Edge; A = g.SharedVariableAssignment; INF = float("inf")
def make(edges, last, values=None):
  b = g.partial_state_dag_starting_from(0)
  for e in edges:
    g.partial_state_dag_add_edge(b, e)
  return p.convert_dag_to_packed(g.prune_to_reachable(g.partial_state_dag_finish(b, last)), -1, values)
'''
EDIT = '''
from r_u_sure.tree_structure import sequence_nodes as n, packed_sequence_nodes as pk
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.edit_distance_utility import edit_dags as ed, part_selection_dags as ps
from r_u_sure.edit_distance_utility import constraint_dags as cd, region_decisions as rd
T = lambda s: n.TextTokenNode(s, "t"); G = lambda *c: n.GroupNode(list(c), "g"); D = n.TextDecorationNode
RS, RE, X = n.RegionStartNode(), n.RegionEndNode(), n.EarlyExitNode()
K = rd.DecisionKey; C = rd.DecisionCategory; V = rd.DecisionValue
pack = lambda t: pk.pack(list(t))
def best(dag, want=None):
  """Cheapest path, optionally only through edges agreeing with `want`."""
  inf = float("inf")
  dist = {dag.initial_state: 0.0}
  for e in dag.edges:
    r = e.required_assignment
    if want is not None and r is not None and want.get(r.key, r.value) != r.value:
      continue
    d = dist.get(e.source, inf) + e.cost
    if d < dist.get(e.dest, inf):
      dist[e.dest] = d
  return dist.get(dag.final_state, inf)
'''
SEEDS = [

 dict(id='c01_comment_star', property='R01',
  edits=[(SP, r'''r'//.*?$|/\*.*?\*/|''', r'''r'//.*?$|/\*[^*]*\*+/|''')],
  demo='''
from r_u_sure.parsing.pseudo_parser import stack_parser as s
for code in ['/* a; (b */', '/* 2*x; */\\nf();']:
  toks = s.PseudoParser.parse_and_maybe_preprocess('cpp', code)[3]
  assert any(t.startswith('/*') and t.endswith('*/') for t in toks), toks
''', needs='a block comment with a star inside', breaks='the comment falls apart and its separators and brackets shape the tree'),
 dict(id='c02_unsplittable_nested', property='R02',
  edits=[(SP, '''        if right == un_splittable_closers[un_splittable_openers.index(left)]:
          return
''', '''        if right == un_splittable_closers[un_splittable_openers.index(left)]:
          for child in node.children[1].children:
            if child.annotation == 'paired':
              _split(child)
          return
''')],
  demo='''
from r_u_sure.parsing.pseudo_parser import stack_parser as s
root = s.PseudoParser.parse_and_maybe_preprocess('simple', 'f(g{a;b;});\\n')[0]
def splits(node, inside):
  k = sum(splits(c, inside or node.annotation == 'paired') for c in node.children)
  return k + (inside and node.annotation == 'split')
got = splits(root, False)
assert got == 0, got
''', needs='a block nested inside parentheses', breaks='statements are separated inside brackets within which nothing may be split'),
 dict(id='c03_docstring_first_copy', property='R05',
  edits=[(UT, 'n_chars_before_rhs_sibling = len(range_code(rhs_sibling.lo))',
              'n_chars_before_rhs_sibling = python_code.index(\n        node_code + rhs_sibling_code) + len(node_code)')],
  demo='''
from r_u_sure.parsing.pseudo_parser import utilities as u
one = 'def f():\\n  """x."""\\n  pass\\n'
got = list(u.find_python_function_docstrings(one + '\\n' + one))
assert got == [14, 14 + len(one) + 1], got
''', needs='two functions with the same signature and docstring', breaks='the second docstring is reported at the position of the first'),
 dict(id='c04_cursor_boundary', property='R04',
  edits=[(UT, '''      if code_index > cursor_position and not after_cursor:''',
              '''      if code_index >= cursor_position and not after_cursor:''')],
  demo='''
from r_u_sure.parsing.pseudo_parser import stack_parser as s, utilities as u
code = 'a;b;c;'
root, _, _, raw, _ = s.PseudoParser.parse_and_maybe_preprocess('java', code)
got = [u.infer_split_truncation_index(root, raw, (';',), c) for c in range(len(code))]
assert got == [2, 4, 4, 6, 6, 6], got
''', needs='a cursor directly before a separator', breaks='the point found is not the end of the statement being written'),
 dict(id='c05_order_forgets_inf', property='R11',
  edits=[(GD, '''  dag.seen_outgoing[edge.source] = edge.dest
  dag.edges.append(edge)


CHECK''', '''  if edge.cost < INFINITE_COST:
    dag.seen_outgoing[edge.source] = edge.dest
  dag.edges.append(edge)


CHECK''')],
  demo=DAGS + '''
b = g.partial_state_dag_starting_from(0)
g.partial_state_dag_add_edge(b, E(1, 2, INF))
try:
  g.partial_state_dag_add_edge(b, E(0, 1, 1.0))
except ValueError:
  pass
else:
  raise AssertionError('an out-of-order edge was accepted')
''', needs='the earlier edge out of the state has infinite cost', breaks='an edge into a state that already has an outgoing edge is accepted'),
 dict(id='c06_prune_forward_only', property='R11',
  edits=[(GD, '''    if reachable_from_end[dest_id]:
      edge = dag.edges[original_edge_index]''', '''    if reachable_from_end[source_id]:
      edge = dag.edges[original_edge_index]''')],
  demo=DAGS + '''
b = g.partial_state_dag_starting_from("s")
for e in [E("s", "t", 1.0), E("s", "dead", 2.0)]:
  g.partial_state_dag_add_edge(b, e)
d = g.prune_unreachable_and_rewrite_states(g.partial_state_dag_finish(b, "t"), np.full((64,), -1, dtype=np.int32))
assert len(d.edges) == 1 and d.edges[0].cost == 1.0, d
''', needs='a dead end next to a live edge', breaks='rewriting keeps edges into dead ends, merged with other states'),
 dict(id='c07_bound_uncounted', property='R15',
  edits=[(SV, '''      cost_for_non_participating_subproblems += subproblem_cost
''', '''      cost_for_non_participating_subproblems = max(
          cost_for_non_participating_subproblems, subproblem_cost
      )
''')],
  demo=DAGS + '''
vals = [0, 1]
mk = lambda key, c: make([E(0, 1, c, A(key, 0)), E(0, 1, c + 1, A(key, 1))], 1, [-1, 0, 1])
s = S.make_system([mk("a", 1.0), mk("b", 2.0), mk("b", 4.0)])
k = list(s.variable_keys).index("a")
assert S.min_marginal_average(s.data, k) == 7.0
''', needs='a variable that two or more subproblems do not mention', breaks='the reported bound is not the value of the dual objective'),
 dict(id='c08_clone_shares_unary', property='R16',
  edits=[(SV, 'extra_unary_costs=np.copy(system_data.extra_unary_costs),', 'extra_unary_costs=system_data.extra_unary_costs,')],
  demo=DAGS + '''
mk = lambda c: make([E(0, 1, c, A("a", 0)), E(0, 1, c + 1, A("a", 1))], 1, [-1, 0, 1])
s = S.make_system([mk(1.0), mk(2.0)])
t = S.clone_system(s)
S.constrain_system(t, {"a": 1})
assert not s.data.extra_unary_costs.any(), s.data.extra_unary_costs
''', needs='a clone is constrained while the original is still in use', breaks='constraining a clone changes the original system'),
 dict(id='c09_greedy_drops_bonus', property='R16',
  edits=[(SV, '''          + penalty_vector / num_relevant
      )
      packed_dags.set_penalties(
          memo=system.data.dag_tables[subproblem_index],
          variable_index=sub_variable_index,
          penalties=new_penalties,
      )


def break''', '''          + penalty_vector / len(subprob_var_indices)
      )
      packed_dags.set_penalties(
          memo=system.data.dag_tables[subproblem_index],
          variable_index=sub_variable_index,
          penalties=new_penalties,
      )


def break''')],
  demo=DAGS + '''
mk = lambda key, c: make([E(0, 1, c, A(key, 0)), E(0, 1, c + 1, A(key, 1))], 1, [-1, 0, 1])
s = S.make_system([mk("a", 1.0), mk("b", 2.0)])
S.constrain_system(s, {"a": 1}, penalty=1.5)
a, cost = S.greedy_extract(s.data, S.SweepDirection.FORWARD)
assert S.assignments_from_assignment_vector(s, a)["a"] == 1, (a, cost)
''', needs='a finite penalty on a variable that not every subproblem mentions', breaks='penalties no longer add up to the constraint, so it is enforced too weakly'),

 dict(id='c10_region_over_trailing_space', property='R17',
  edits=[(CD, '''      # Handle decorations.
      if prototype_node_id.category == PSNCategory.TEXT_DECORATION_NODE:
        for category in (
            ConstraintDagStateCategory.OUTSIDE_ANNOTATED_REGION,
            ConstraintDagStateCategory.IN_REGION_TEMPORARY,
        ):''', '''      # Handle decorations.
      if prototype_node_id.category == PSNCategory.TEXT_DECORATION_NODE:
        for category in (
            ConstraintDagStateCategory.OUTSIDE_ANNOTATED_REGION,
            ConstraintDagStateCategory.IN_REGION_TEMPORARY,
        ):
          if (
              category == ConstraintDagStateCategory.IN_REGION_TEMPORARY
              and prototype_position > 0
              and prototype_node_ids[prototype_position - 1].category
              == PSNCategory.REGION_END_NODE
          ):
            continue''')],
  demo=EDIT + '''
d = cd.make_constraint_dag_builder(with_numba=False)(pack([RS, T("a"), RE, D(" "), T("b"), RE]))
want = {K(0, C.REGION_SHOULD_START): V.TRUE, K(2, C.REGION_SHOULD_END): V.FALSE}
assert best(d, want) == 0.0, best(d, want)
''', needs='a region continued past a possible end that whitespace follows', breaks='a well-formed annotation is rejected'),
 dict(id='c11_delete_group_low', property='R18',
  edits=[(ED, '''      for confidence in (
          EditDagStateConfidence.HIGH_CONFIDENCE,
          EditDagStateConfidence.LOW_CONFIDENCE,
      ):
        gated_state_dag.partial_state_dag_add_edge(
            incomplete_graph,
            Edge(
                source=relative_state_for_delete(confidence=confidence),
                dest=relative_state_for_delete(
                    confidence=confidence, advance_prototype=True
                ),
                cost=0,
                info=EditDagEdgeInfo(
                    prototype_node_preorder_index=prototype_node_id.preorder_index,
                    target_node_preorder_index=NO_PREORDER_INDEX,
                    edit_action=EditAction.PROTOTYPE_DECORATION,''', '''      for confidence in (
          EditDagStateConfidence.HIGH_CONFIDENCE,
          EditDagStateConfidence.LOW_CONFIDENCE,
      ):
        if alignment_type == EditDagStateAlignment.PROCESS_PROTOTYPE and (
            before_target_node == 0 and prototype_position == 0
        ):
          continue
        gated_state_dag.partial_state_dag_add_edge(
            incomplete_graph,
            Edge(
                source=relative_state_for_delete(confidence=confidence),
                dest=relative_state_for_delete(
                    confidence=confidence, advance_prototype=True
                ),
                cost=0,
                info=EditDagEdgeInfo(
                    prototype_node_preorder_index=prototype_node_id.preorder_index,
                    target_node_preorder_index=NO_PREORDER_INDEX,
                    edit_action=EditAction.PROTOTYPE_DECORATION,''')],
  demo=EDIT + '''
P = ed.TrustRegionUtilityParameters(1., 1., .5, .5, 0., 2., 5., 2.)
dag, _ = ed.make_edit_dag_builder(with_numba=False)(pack([D(" "), T("ab")]), pack([T("ab")]), P)
assert best(dag) == -2.0, best(dag)
''', needs='a suggestion (or group) that begins with whitespace', breaks='an edit is charged for a suggestion that already agrees with the target'),
 dict(id='c12_match_ignores_type', property='R19',
  edits=[(PS, '''              prototype_node.text_contents == target_node.text_contents
              and prototype_node.match_type == target_node.match_type''', '''              prototype_node.text_contents == target_node.text_contents
              and (
                  prototype_node.match_type == target_node.match_type
                  or not prototype_node.text_contents.strip()
              )''')],
  demo=EDIT + '''
P = ps.PartSelectionUtilityParameters(lambda t: ps.UtilitiesAndCostsForNode(match_utility=3.0, delete_cost=2.0))
b = ps.make_selection_dag_builder(P, with_numba=False)
d = b(pack([RS, n.TextTokenNode("", "EMPTY_ARGS"), RE]), pack([n.TextTokenNode("", "NOVEL")]))
want = {K(0, C.REGION_SHOULD_START): V.TRUE}
assert best(d, want) == 2.0, best(d, want)
''', needs='an empty token of one kind in the suggestion and of another kind in the target', breaks='tokens of different kinds count as the same call part'),
 dict(id='c13_unmatched_resume', property='R19',
  edits=[(PS, '''          can_advance_unmatched = True
          cost = 0.0
          required_assignment = SharedVariableAssignment(
              key=DecisionKey(
                  category=DecisionCategory.REGION_SHOULD_START,''', '''          can_advance_unmatched = target_position == 0
          cost = 0.0
          required_assignment = SharedVariableAssignment(
              key=DecisionKey(
                  category=DecisionCategory.REGION_SHOULD_START,''')],
  demo=EDIT + '''
P = ps.PartSelectionUtilityParameters(lambda t: ps.UtilitiesAndCostsForNode(match_utility=3.0, delete_cost=2.0))
b = ps.make_selection_dag_builder(P, with_numba=False)
d = b(pack([RS, T("a"), RE, RS, RS, T("b"), RE]), pack([T("a")]))
want = {K(0, C.REGION_SHOULD_START): V.TRUE, K(2, C.REGION_SHOULD_END): V.TRUE, K(3, C.REGION_SHOULD_START): V.TRUE}
assert best(d, want) == -1.0, best(d, want)
''', needs='an unmatched selection that passes a possible start after an earlier match', breaks='such a selection has no path, or one that gives up the earlier match'),
 dict(id='c14_region_marker_lost', property='R20',
  edits=[(RD, '''      node = prototype.text_decoration_nodes[node_id.index_in_category]
      yield TokenWithRegionMembership(node.text_contents, in_region)
      empty_region = False''', '''      node = prototype.text_decoration_nodes[node_id.index_in_category]
      yield TokenWithRegionMembership(node.text_contents, in_region)
      empty_region = empty_region and not node.text_contents''')],
  demo=EDIT + '''
t = pack([RS, D(""), RE])
a = {K(0, C.REGION_SHOULD_START): V.TRUE, K(2, C.REGION_SHOULD_END): V.TRUE}
got = [(x.token_or_decoration, x.in_annotated_region) for x in rd.extract_sequence_with_regions(t, a, "#")]
assert got == [("", True)], got
''', needs='a region that holds only an empty piece', breaks='a region that has a piece is shown as empty too'),

 dict(id='c15_decoration_after_insert', property='R21',
  edits=[(ED, '''      if last_edit_action_for_decorations == EditAction.KEEP:
        # Skip''', '''      if last_edit_action_for_decorations != EditAction.INSERT:
        # Skip'''), (ED, '''      if last_edit_action_for_decorations == EditAction.DELETE:
        edit_action = EditAction.DELETE
''', '''      if last_edit_action_for_decorations == EditAction.INSERT:
        continue
      elif last_edit_action_for_decorations == EditAction.DELETE:
        edit_action = EditAction.DELETE
''')],
  demo=EDIT + '''
P = ed.TrustRegionUtilityParameters(1., 1., .5, .5, 0., 2., 5., 2.)
a, t = pack([T("ab"), T("x"), D(" ")]), pack([T("y"), T("x")])
dag, _ = ed.make_edit_dag_builder(with_numba=False)(a, t, P)
dist, back = {dag.initial_state: 0.0}, {}
for e in dag.edges:
  if e.source in dist and dist[e.source] + e.cost < dist.get(e.dest, float("inf")):
    dist[e.dest], back[e.dest] = dist[e.source] + e.cost, e
def texts(path, a, t):
  import re, ast
  out = []
  for l in ed.extract_edit_sequence_text(path, a, t).splitlines()[:-1]:
    m = re.match("(.*?), .*?: (.*) => ", l)
    out.append((m.group(1), ast.literal_eval(m.group(2))))
  return out
a, t = pack([D(" "), T("ab")]), pack([T("y")])
dag, _ = ed.make_edit_dag_builder(with_numba=False)(a, t, P)
# the path that first inserts "y", then passes the space and deletes "ab"
import itertools
def paths(s):
  if s == dag.final_state:
    yield []
  for e in dag.edges:
    if e.source == s:
      for rest in paths(e.dest):
        yield [e] + rest
for path in itertools.islice(paths(dag.initial_state), 400):
  shown = "".join(c for k, c in texts(path, a, t) if k in ("KEEP", "DELETE"))
  assert shown == " ab", (shown, texts(path, a, t))
''', needs='whitespace of the suggestion reached directly after an insertion', breaks='the reported script loses a piece of the suggestion'),
 dict(id='c16_region_price', property='R22',
  edits=[(UR, '''  low_conf_delete_cost = 1 - 2 * p * (1 - low_confidence_edit_sensitivity)
''', '''  low_conf_delete_cost = max(
      0.0, 1 - 2 * p * (1 - low_confidence_edit_sensitivity)
  )
''')],
  demo='''
from r_u_sure.wrappers import uncertainty_regions_wrapper as u
q = u.derive_uncertainty_region_costs(0.75, 4.0, 0.25)
p = 0.75
high = p * q.high_confidence_match_utility_per_char - (1 - p) * q.high_confidence_delete_cost_per_char
low = p * q.low_confidence_match_utility_per_char - (1 - p) * q.low_confidence_delete_cost_per_char
assert abs(high - low) < 1e-9, (high, low)
''', needs='a high threshold with a low sensitivity, where the derived price of a deletion is negative', breaks='the break-even probability is no longer the requested one'),

 dict(id='c17_line_count', property='R24',
  edits=[(PT, '''        characters_so_far += len(node.text_contents)
        if characters_so_far >= max_token_characters:''', '''        if characters_so_far >= max_token_characters:
          should_exit_at_next_opportunity = True
        characters_so_far += len(node.text_contents)
        if characters_so_far > max_token_characters:''')],
  demo=EDIT + '''
from r_u_sure.wrappers import prefix_truncation_wrapper as pt
tree = [T("abc"), X, T("de"), X, T("f"), X]
b = pt.PrefixByEditDistanceBaselineBuilder(pack(tree), pack([T("abc"), T("de"), T("f")]), {}, [("abcdef", -1.0)])
got = {k.prototype_preorder_index: v for k, v in b.baseline_assignment_from_characters(3).items()}
assert got[1] == V.TRUE, got
''', needs='a token that ends exactly at the limit', breaks='the suggestion runs on past the limit'),
 dict(id='c18_average_ties', property='R24',
  edits=[(PT, '''          current_log_prob += node_log_prob
          current_token_count += 1
''', '''          current_log_prob += node_log_prob
          current_token_count += 1 if node_log_prob else 0
''')],
  demo=EDIT + '''
from r_u_sure.wrappers import prefix_truncation_wrapper as pt
tree = [T("a"), X, T("b"), T("c"), X]
b = pt.PrefixByEditDistanceBaselineBuilder(pack(tree), pack([T("a"), T("b"), T("c")]), {}, [("a", -1.0), ("b", 0.0), ("c", -1.5)])
got = {k.prototype_preorder_index: v for k, v in b.baseline_assignment_from_max_average_log_prob().items()}
assert got == {1: V.FALSE, 4: V.TRUE}, got
''', needs='a token the model was certain of (log probability 0)', breaks='the exit is not the one with the best average score'),
 dict(id='c19_context_newline', property='R25',
  edits=[(CS, '''raw_text[:prediction_location].rfind("\\n")''', '''raw_text.rfind(
        "\\n", 0, prediction_location + 1
    )''')],
  demo='''
from r_u_sure.wrappers import call_sequence_wrapper as cs, parser_tools
from r_u_sure.tree_structure import packed_sequence_nodes as pk
w = cs.ApiCallSequenceWrapper(use_numba=False)
h = parser_tools.ParserHelper("python")
ctx, rest = "x = open(a)", "\\nfoo(b)\\n"
t, _ = w.process_prototype_and_context(h.parse_to_nodes(ctx + rest), len(ctx))
names = [t.text_token_nodes[i.index_in_category].text_contents for i in t.preorder_traversal if i.category == pk.PackedSequenceNodeCategory.TEXT_TOKEN_NODE]
assert "open" in names and "foo" in names, names
''', needs='a cursor directly before a line break', breaks='the call on the cursor line is lost'),
 dict(id='c20_svg_view_right', property='R26',
  edits=[(SVG, '''        right=bounds.right + padding,''', '''        right=bounds.right + min(bounds.left, 0) + padding,''')],
  demo='''
from r_u_sure.rendering import svg_renderer, rendering
import re
r = svg_renderer.SVGRenderer()
r.container(rendering.BoundingBox.from_boundary(left=5, right=9, top=0, bottom=2))
r.container(rendering.BoundingBox.from_boundary(left=-5, right=9, top=0, bottom=2))
l, t, w, h = map(float, re.search('viewBox="(.*?)"', r.to_html()).group(1).split())
assert (l, t, w, h) == (-5, 0, 14, 2), (l, t, w, h)
''', needs="a drawing that extends left of the origin", breaks="the right side of the drawing is cut off"),
]
