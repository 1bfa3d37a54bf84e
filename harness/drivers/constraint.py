"""Observes the constraint diagram of a suggestion tree, before and after packing."""
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.edit_distance_utility import constraint_dags as cdg
from harness.dags import num
from harness.regions import packed, raw_edges, packed_edges

_B = {}


def builder(nb):
  if nb not in _B:
    _B[nb] = (cdg.make_constraint_dag_builder(with_numba=nb),
              cdg.make_specialized_dag_packer() if nb else (cdg.pack_dag, lambda d: d))
  return _B[nb]


def observe(inp):
  nb = inp['numba']
  build, (pack, conv) = builder(nb)
  d = build(packed(inp['tree'], nb))
  pr = (g.prune_to_reachable_jit if nb else g.prune_to_reachable)(conv(d))
  return {'raw': raw_edges(d, num), 'packed': packed_edges(*pack(pr), num)}
