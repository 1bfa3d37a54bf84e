"""Observes packing of decision diagrams."""
import numba
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.decision_diagrams import packed_dags as pd
from harness.dags import dag, jedge, num


def describe(p, cd, scale, unit=1.0):
  infos = [int(e.info) for e in cd.tagged_edges]

  def rows(q, u=1.0):
    return [[int(e['source_index']), int(e['dest_index']), num(float(e['cost']) / u),
             int(e['required_assignment_key_index']),
             int(e['required_assignment_value_index']), infos[i]]
            for i, e in enumerate(q.packed_edge_matrix)]
  ts = lambda s: [int(s.original_state), int(s.last_variable_index)]
  out = {'edges': rows(p), 'keys': [int(k) for k in cd.variable_keys],
         'values': [int(v) for v in cd.variable_values],
         'nums': [int(p.num_tagged_states), int(p.num_variable_keys), int(p.num_variable_values)],
         'states': [ts(s) for s in cd.tagged_states],
         'eb': [int(x) for x in p.edge_group_boundary_indices],
         'sb': [int(x) for x in p.state_variable_boundary_indices],
         'orig': [jedge(e) for e in cd.original_edges],
         'tagged': [[ts(e.source), ts(e.dest), num(e.cost)] + (
             [-1, -1] if e.required_assignment is None else
             [int(e.required_assignment.key), int(e.required_assignment.value)]) + [int(e.info)]
             for e in cd.tagged_edges],
         'outgoing': [[int(x) for x in l] for l in cd.outgoing_edge_indices_for_tagged_state_index],
         'keyix': [int(cd.variable_key_index_from_key[k]) for k in cd.variable_keys],
         'valix': [int(cd.variable_value_index_from_value[v]) for v in cd.variable_values]}
  sc = pd.scale_packed_dag_costs(p, scale * unit)
  out['scaled'] = rows(sc, unit)
  out['again'] = rows(p)
  return out


def observe(inp):
  d = dag(inp['dag'])
  order = inp['order'] or None
  out = {}

  def guarded(f):
    try:
      p, cd = f()
    except Exception as ex:
      return {'exc': type(ex).__name__}
    return describe(p, cd, inp['scale'], 2.0 ** -inp['den'])
  out['plain'] = guarded(lambda: pd.convert_dag_to_packed(d, inp['missing'], order))
  fn, prep = pd.make_specialized_fn__convert_dag_to_packed(0, 0, 0, 0, with_numba=True)
  tord = None if order is None else numba.typed.List(order)
  out['typed'] = guarded(lambda: fn(prep(d), inp['missing'], tord))
  return out
