"""Runs histories of operations on real systems of decision diagrams."""
import time
import numba
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as S
from r_u_sure.decision_diagrams import packed_dags as pd
from harness.clock import Clock, NAMES
from harness.dags import dag, INF

U = 1024


def num(x):
  x = float(x)
  if x != x:
    return -INF - 1
  if x == float('inf'):
    return INF
  if x == float('-inf'):
    return -INF
  return int(round(x * U))


def snap(sy):
  d = sy.data
  return {'pens': [[[num(x) for x in row] for row in t.penalties] for t in d.dag_tables],
          'extra': [[num(x) for x in row] for row in d.extra_unary_costs]}


DIR = [S.SweepDirection.FORWARD, S.SweepDirection.REVERSE]


def run(sy, op):
  o = op['op']
  if o == 'avg':
    return num(S.min_marginal_average(sy.data, op['k']))
  if o == 'sweep':
    timeout = float('inf') if op['timeout'] < 0 else float(op['timeout'])
    names = NAMES
    real = {n: getattr(time, n) for n in names}
    clock = Clock(op['clock'])
    try:
      for n in names:
        setattr(time, n, clock)
      r = S.solve_system_with_sweeps(sy.data, soft_timeout=timeout)
    finally:
      for n in names:
        setattr(time, n, real[n])
    last, diff = -np.inf, []
    for x in r.objective_at_step:
      dd = float(x) - last if not (np.isinf(x) and np.isinf(last) and x == last) else 0.0
      diff.append(int(max(-1e6, min(1e6, dd * 1e6))))
      last = float(x)
    return {'steps': [num(x) for x in r.objective_at_step], 'diff': diff,
            'vars': [int(v) for v in r.variable_at_step],
            'sweeps': [num(x) for x in r.objective_at_sweep],
            'sweepsteps': [int(x) for x in r.steps_at_sweep],
            'late': [bool(x > timeout) for x in r.time_at_sweep],
            'plateau': bool(r.reached_plateau)}
  if o == 'greedy':
    a, cost = S.greedy_extract(sy.data, DIR[op['dir']])
    named = S.assignments_from_assignment_vector(sy, a)
    return {'a': [int(v) for v in a], 'cost': num(cost),
            'named': [[int(k), int(v)] for k, v in named.items()]}
  if o == 'marg':
    return [num(x) for x in S.system_min_marginals(sy.data, op['k'])]
  if o == 'constrain':
    pen = np.inf if op['pen'] >= INF else op['pen'] / U
    S.constrain_system(sy, {k: v for k, v in op['cons']}, **({} if pen == np.inf and op['dflt'] else {'penalty': pen}))
    return 0
  if o == 'noise':
    twin = S.clone_system(sy)
    S.break_symmetry_randomly(sy, noise_scale=float(op['scale']), random_seed=op['seed'])
    S.break_symmetry_randomly(twin, noise_scale=float(op['scale']), random_seed=op['seed'])
    return {'same': snap(twin) == snap(sy)}
  if o == 'commit':
    st = S.partially_commit(sy.data, DIR[op['dir']], op['target'], op['strict'])
    return {'status': st.name}
  raise AssertionError(o)


def observe(inp):
  np.seterr(all='ignore')
  conv = []
  for i, d in enumerate(inp['dags']):
    order = inp['order']
    if not inp['agree'] and i:  # another list of values, or the same values in another order
      order = order[::-1] if inp['mirror'] else order + [77]
    if inp['typed']:
      fn, prep = pd.make_specialized_fn__convert_dag_to_packed(0, 0, 0, 0, with_numba=True)
      conv.append(fn(prep(dag(d)), inp['missing'], numba.typed.List(order)))
    else:
      conv.append(pd.convert_dag_to_packed(dag(d), inp['missing'], list(order)))
  w = np.array(inp['weights'], dtype=np.float64) if inp['weights'] else None
  systems = [S.make_system(conv, w) if w is not None else S.make_system(conv)]
  out = {'keys': [int(k) for k in systems[0].variable_keys],
         'imap': [[int(x) for x in r] for r in systems[0].data.dag_variable_index_map],
         'init': snap(systems[0]), 'ans': []}
  for op in inp['ops']:
    if op['op'] == 'clone':
      systems.append(S.clone_system(systems[op['m']]))
      ret = 0
    else:
      ret = run(systems[op['m']], op)
    out['ans'].append({'ret': ret, 'sys': [snap(s) for s in systems]})
  return out
