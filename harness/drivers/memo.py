"""Runs a history of penalty updates and queries on real shortest-path tables."""
import numpy as np
from r_u_sure.decision_diagrams import packed_dags as pd
from harness.dags import scaled, num, INF
from harness.drivers.pack import describe

M = pd.MinimalCostComputationStrategy
STRAT = [M.AT_END, M.AT_START, M.FROM_MIDDLE]


def best(memo, cd, unit):
  ts = lambda s: [int(s.original_state), int(s.last_variable_index)]
  path, a = pd.extract_minimal_cost_path_and_assignments(memo, cd)
  tpath, _ = pd.extract_minimal_cost_path_and_assignments(memo, cd, tagged=True)
  return {'path': [int(e.info) for e in path],
          'dec': [int(a.get(k, -77)) for k in cd.variable_keys],
          'tpath': [[ts(e.source), ts(e.dest), num(e.cost / unit)] + (
              [-1, -1] if e.required_assignment is None else
              [int(e.required_assignment.key), int(e.required_assignment.value)]) + [int(e.info)]
              for e in tpath]}


def observe(inp):
  d = scaled(inp['dag'], inp['unit'])
  unit = 2.0 ** inp['unit']
  one = lambda x: num(float(x) / unit)
  vec = lambda v: [one(x) for x in v]
  order = inp.get('order') or None
  p, cd = pd.convert_dag_to_packed(d, inp['missing'], order)
  memos = [pd.empty_unpenalized_table(p)]
  ans = []
  for op in inp['ops']:
    m = memos[op['m']]
    o = op['op']
    if o == 'set':
      pd.set_penalties(m, op['k'], np.array(
          [np.inf if x >= INF else float(x) * unit for x in op['vec']]))
      ans.append(0)
    elif o == 'marg':
      ans.append(vec(pd.compute_min_marginals_for_variable(m, op['k'])))
    elif o == 'all':
      ans.append([vec(r) for r in pd.compute_all_min_marginals(m)])
    elif o == 'min':
      ans.append(one(pd.compute_minimal_cost(m, STRAT[op['k']]) if op['k'] < 3
                     else pd.compute_minimal_cost(m)))
    elif o == 'copy':
      # a copy, or fresh tables for the same penalties
      memos.append(pd.copy_memo(m) if op['k'] == 0 else pd.empty_table(p, m.penalties))
      ans.append(0)
    elif o == 'tables':
      ans.append({'pre': vec(pd.masked_prefixes(m)), 'suf': vec(pd.masked_suffixes(m)),
                  'pen': [vec(r) for r in m.penalties]})
    elif o == 'best':
      ok = np.isfinite(pd.compute_minimal_cost(pd.empty_table(p, m.penalties), M.AT_END))
      ans.append(best(m, cd, unit) if ok else {'path': [], 'dec': [], 'tpath': []})
  dd = describe(*pd.convert_dag_to_packed(scaled(inp['dag'], 0), inp['missing'], order), 1)
  return {'ans': ans, 'values': dd['values'], 'packed': dd['edges'], 'tagged': dd['tagged']}
