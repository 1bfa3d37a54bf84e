"""Observes the edit diagram: for each decision vector the cost of its cheapest path."""
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.edit_distance_utility import edit_dags as ed
from harness.dags import num
from harness.regions import packed, packed_edges, flat, CAT

_B = {}


def builder(nb):
  if nb not in _B:
    _B[nb] = (ed.make_edit_dag_builder(with_numba=nb),
              ed.make_specialized_dag_packer() if nb else (ed.pack_dag, lambda d: d))
  return _B[nb]


def parameters(pr):
  f = float
  return ed.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=f(pr['hm']), high_confidence_delete_cost_per_char=f(pr['hd']),
      low_confidence_match_utility_per_char=f(pr['lm']), low_confidence_delete_cost_per_char=f(pr['ld']),
      insert_cost_per_char=f(pr['ins']), low_confidence_region_cost=f(pr['reg']),
      high_confidence_start_editing_cost=f(pr['hs']), low_confidence_start_editing_cost=f(pr['ls']))


def min_cost(d, want):
  """Cheapest path of a packed diagram that makes exactly the decisions `want`."""
  for k, v in want.items():
    if k not in d['keys'] and v != 3:
      return float('inf')
  if any(k not in want for k in d['keys']):
    return 'a decision about nothing'
  out = {}
  for e in d['edges']:
    out.setdefault(e[0], []).append(e)
  memo = {d['final']: 0}

  def go(s):
    if s not in memo:
      memo[s] = float('inf')
      memo[s] = min([e[2] + go(e[1]) for e in out.get(s, []) if e[3] == -1 or want[e[3]] == e[4]],
                    default=float('inf'))
    return memo[s]
  return go(d['init'])


def keys(p, v):
  return {i * 4 + CAT[k] - 1: v[i] for i, (k, _, _) in enumerate(flat(p)) if k in CAT}


def observe(inp):
  import sys
  sys.setrecursionlimit(100000)
  nb = inp['numba']
  build, (pack, conv) = builder(nb)
  d, _ = build(packed(inp['p'], nb), packed(inp['t'], nb), parameters(inp['pr']))
  try:
    pr = (g.prune_to_reachable_jit if nb else g.prune_to_reachable)(conv(d))
  except ValueError as ex:
    if 'No path' in str(ex):
      return {'costs': [1000000 for _ in inp['vs']]}
    raise
  pe = packed_edges(*pack(pr), num)
  return {'costs': [num(min_cost(pe, keys(inp['p'], v))) for v in inp['vs']]}
