import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch2.py'))
EDIT, DAGS = _b['EDIT'], _b['DAGS']
ED, PD, SV = _b['ED'], _b['PD'], _b['SV']
PN = 'r_u_sure/tree_structure/packed_sequence_nodes.py'
WB = 'r_u_sure/wrappers/wrapper_base.py'
EB = 'r_u_sure/wrappers/edit_distance_wrapper_base.py'
RN = 'r_u_sure/rendering/rendering.py'

SEEDS = [
 dict(id='d01_deleted_space_hidden', property='R21',
  edits=[(ED, '''    elif not content:
      continue

    class_names = []''', '''    elif not content or (
        edit_action == EditAction.DELETE and content.isspace()
    ):
      continue

    class_names = []''')],
  demo=EDIT + '''
import re, html
I = ed.EditDagEdgeInfo
a, t = pack([T("ab"), D(" ")]), pack([T("y")])
Q = ed.EditDagStateConfidence
e = lambda p, q, act, c: g.Edge(0, 1, 1.0, None, I(p, q, act, c))
path = [e(0, -1, ed.EditAction.DELETE, Q.HIGH_CONFIDENCE), e(-1, 0, ed.EditAction.INSERT, Q.NOT_APPLICABLE),
        e(1, -1, ed.EditAction.DELETE, Q.HIGH_CONFIDENCE)]
path = [x._replace(info=x.info._replace(
    prototype_node_preorder_index=ed.NO_PREORDER_INDEX if x.info.prototype_node_preorder_index < 0 else x.info.prototype_node_preorder_index,
    target_node_preorder_index=ed.NO_PREORDER_INDEX if x.info.target_node_preorder_index < 0 else x.info.target_node_preorder_index)) for x in path]
src = re.sub("<style>.*?</style>", "", ed.extract_edit_sequence_html(path, a, t), flags=re.S)
assert html.unescape(re.sub("<[^>]*>", "", src)) == "aby ", src
''', needs='whitespace deleted on its own, between insertions', breaks='the shown script does not contain all of the suggestion'),
 dict(id='d02_empty_groups_skipped', property='R09',
  edits=[(PN, '''        node = storage.group_nodes[node_id.index_in_category]
        dest.append(
            InOrderTraversalItem(InOrderTraversalCategory.BEFORE_GROUP, node_id)''', '''        node = storage.group_nodes[node_id.index_in_category]
        if strip_decorations and not node.children_ids:
          continue
        dest.append(
            InOrderTraversalItem(InOrderTraversalCategory.BEFORE_GROUP, node_id)''')],
  demo=EDIT + '''
p = pack([T("a"), G(), T("b")])
names = [x.category.name for x in pk.in_order_traversal(p, True)]
assert names == ["LEAF", "BEFORE_GROUP", "AFTER_GROUP", "LEAF"], names
''', needs='a group without children', breaks='the traversal does not visit the group'),
 dict(id='d03_constraint_finite', property='R14',
  edits=[(PD, '''    var_penalties = np.full((dag.num_variable_values,), INFINITE_COST)
    var_penalties[value_index] = 0
    set_penalties(memo, key_index, var_penalties)''', '''    var_penalties = np.full((dag.num_variable_values,), 1e4)
    var_penalties[value_index] = 0
    set_penalties(memo, key_index, var_penalties)''')],
  demo=DAGS + '''
d, c = make([E(0, 1, 3e6, A("a", 0)), E(0, 1, 1.0, A("a", 1))], 1, [-1, 0, 1])
path, a = p.constrained_best_path(d, c, {"a": 0})
assert a == {"a": 0} and [e.cost for e in path] == [3e6], (path, a)
''', needs='the required decision is more expensive than the alternative by more than the constant', breaks='the extracted path ignores the required decision'),
 dict(id='d04_rank_ties', property='R23',
  edits=[(WB, '''bisect.bisect_left(''', '''bisect.bisect(''')],
  demo='''
from r_u_sure.wrappers import uncertainty_regions_wrapper as u, parser_tools
w = u.UncertaintyRegionsWrapper(0.7, 5.0, 0.5, use_numba=False)
h = parser_tools.ParserHelper("python")
ctx, s = "x = 1\\n", ["y = f(a)\\n", "y = f(a)\\n"]
proto, info = w.process_prototype_and_context(h.parse_to_nodes(ctx + s[0]), len(ctx))
ts = [w.process_target(h.parse_to_nodes(ctx + x), len(ctx)) for x in s]
sysm, one = w.build_system(proto, info, ts), w.build_system(proto, info, ts[:1])
from r_u_sure.decision_diagrams import consistent_path_dual_solver as so
so.solve_system_with_sweeps(system_data=sysm.data, soft_timeout=5.0)
v, _ = so.greedy_extract(sysm.data, direction=so.SweepDirection.FORWARD)
i = w.solution_info(prototype=proto, evaluation_target=ts[0], context_info=info, system=one,
                    assignments=so.assignments_from_assignment_vector(sysm, v), sample_system=sysm)
assert i["true_cost_rank_in_sample_system"] == 0, i
''', needs='a sample whose cost equals that of the evaluation target', breaks='the rank counts samples that are not cheaper'),
 dict(id='d05_constraint_unweighted', property='R23',
  edits=[(EB, '''          packed_dag, scale_factor
      )
      dags_and_conversion_data.append((packed_dag_scaled, conversion_data))
      dag_update_proportions.append(scale_factor)

    # Constraint dag''', '''          packed_dag, max(scale_factor, 1e-2)
      )
      dags_and_conversion_data.append((packed_dag_scaled, conversion_data))
      dag_update_proportions.append(scale_factor)

    # Constraint dag''')],
  demo='''
from r_u_sure.wrappers import uncertainty_regions_wrapper as u, parser_tools
from r_u_sure.decision_diagrams import consistent_path_dual_solver as so
w = u.UncertaintyRegionsWrapper(0.7, 5.0, 0.5, use_numba=False)
h = parser_tools.ParserHelper("python")
ctx, s = "x = 1\\n", ["y = f(a)\\n", "zzzzzz = gggg(a, b, c, dd)\\n"]
proto, info = w.process_prototype_and_context(h.parse_to_nodes(ctx + s[0]), len(ctx))
ts = [w.process_target(h.parse_to_nodes(ctx + x), len(ctx)) for x in s]
wt = [1.0, 1 / 512]
sysm = w.build_system(proto, info, ts, wt)
so.solve_system_with_sweeps(system_data=sysm.data, soft_timeout=5.0)
v, cost = so.greedy_extract(sysm.data, direction=so.SweepDirection.FORWARD)
i = w.solution_info(prototype=proto, evaluation_target=None, context_info=info, system=None,
                    assignments=so.assignments_from_assignment_vector(sysm, v), sample_system=sysm)
want = sum(a * b for a, b in zip(wt, i["sample_system_costs_unsorted"]))
assert abs(cost - want) < 1e-6, (cost, want)
''', needs='a sample with a weight below one hundredth', breaks='the reported utility is not the weighted sum over the samples'),
 dict(id='d06_noise_reseeded', property='R15',
  edits=[(SV, '''INF''', '''INF''')], demo='', needs='', breaks=''),
]
SEEDS = SEEDS[:-1]
