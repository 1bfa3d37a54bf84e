"""Observes the part-selection diagram: for each decision vector its cheapest path's cost."""
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.edit_distance_utility import part_selection_dags as ps
from harness.dags import num
from harness.regions import packed, packed_edges
from harness.drivers.edit import min_cost, keys

_P = {}


def builder(pr, nb):
  def fn(tok):
    u = tok.match_type == 'u'
    return ps.UtilitiesAndCostsForNode(
        match_utility=float((len(tok.text_contents) + pr['e']) * pr['mu' if u else 'm']),
        delete_cost=float((len(tok.text_contents) + pr['e']) * pr['du' if u else 'd']))
  return ps.make_selection_dag_builder(ps.PartSelectionUtilityParameters(fn), with_numba=nb)


def packer(nb):
  if nb not in _P:
    _P[nb] = ps.make_specialized_dag_packer() if nb else (ps.pack_dag, lambda d: d)
  return _P[nb]


def observe(inp):
  nb = inp['numba']
  d = builder(inp['pr'], nb)(packed(inp['p'], nb), packed(inp['t'], nb))
  pack, conv = packer(nb)
  try:
    pr = (g.prune_to_reachable_jit if nb else g.prune_to_reachable)(conv(d))
  except ValueError as ex:
    if 'No path' in str(ex):
      return {'costs': [1000000 for _ in inp['vs']]}
    raise
  pe = packed_edges(*pack(pr), num)
  return {'costs': [num(min_cost(pe, keys(inp['p'], v))) for v in inp['vs']]}
