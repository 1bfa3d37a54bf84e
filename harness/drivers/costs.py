"""Observes the costs that wrappers derive from their settings."""
import dataclasses
from r_u_sure.decision_diagrams import packed_dags as pd
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.wrappers import call_sequence_wrapper as cs
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper as pt
from r_u_sure.wrappers import uncertainty_regions_wrapper as ur

NAMES = dict(hm='high_confidence_match_utility_per_char', hd='high_confidence_delete_cost_per_char',
             lm='low_confidence_match_utility_per_char', ld='low_confidence_delete_cost_per_char',
             ins='insert_cost_per_char', reg='low_confidence_region_cost',
             hs='high_confidence_start_editing_cost', ls='low_confidence_start_editing_cost')


def unit(x, k):
  """x in units of 1/k; far from a multiple of it, a value no amount can have."""
  y = float(x) * k
  return int(round(y)) if abs(y - round(y)) < 1e-6 * max(1, abs(y)) + 1e-7 else 999999937


def wrapper(inp):
  D = inp['D']
  p, s, c = inp['P'] / D, inp['S'] / D, inp['C']
  if inp['w'] == 'unc':
    return ur.UncertaintyRegionsWrapper(p, c, s, use_numba=inp['numba'])
  return pt.PrefixByEditDistanceWrapper(c, True, p, s, use_numba=inp['numba'])


def best(system, which, prot, assign):
  path, _ = pd.constrained_best_path(system.data.dag_tables[which].dag,
                                     system.conversion_data[which], assign)
  return sum(e.cost for e in path)


def shown(prot, low):
  """Decisions that show the only token plainly, or in a region around it."""
  C, V, K = psn.PackedSequenceNodeCategory, rd.DecisionValue, rd.DecisionCategory
  out, opened, seen = {}, False, False
  for n in prot.preorder_traversal:
    if n.category == C.REGION_START_NODE:
      new = low and not opened and not seen
      out[rd.DecisionKey(n.preorder_index, K.REGION_SHOULD_START)] = (
          V.TRUE if new else V.NOT_APPLICABLE if opened else V.FALSE)
      opened = opened or new
    elif n.category == C.REGION_END_NODE:
      out[rd.DecisionKey(n.preorder_index, K.REGION_SHOULD_END)] = (
          V.NOT_APPLICABLE if not opened else V.TRUE if seen else V.FALSE)
      opened = opened and not seen
    elif n.category == C.EARLY_EXIT_NODE:
      out[rd.DecisionKey(n.preorder_index, K.SHOULD_EARLY_EXIT)] = V.FALSE
    else:
      seen = True
      out[rd.DecisionKey(n.preorder_index, K.NODE_IN_REGION)] = V.TRUE if opened else V.FALSE
  return out


def observe(inp):
  D = inp['D']
  p = inp['P'] / D
  if inp['kind'] == 'derive':
    x = ur.derive_uncertainty_region_costs(
        effective_precision=p, high_confidence_start_editing_cost=inp['C'],
        low_confidence_edit_sensitivity=inp['S'] / D)
    return {'x': {k: unit(getattr(x, n), D * D) for k, n in NAMES.items()}}
  if inp['kind'] == 'token':
    w = wrapper(inp)
    t = lambda s: sn.TextTokenNode(s, 'CONTENT_LEAF')
    prot, info = w.process_prototype_and_context([t('a' * inp['n'])], 0)
    right = w.process_target([t('a' * inp['n'])], 0)
    wrong = w.process_target([t('b' * (inp['n'] + 1))], 0)
    system = w.build_system(prot, info, [right, wrong])
    out = {}
    for nm, low in (('h', False), ('l', True)):
      for nn, k in (('r', 0), ('w', 1)):
        out[nm + nn] = unit(best(system, k, prot, shown(prot, low)), D * D)
    return out
  w = cs.ApiCallSequenceWrapper(p, use_numba=inp['numba'])
  proc = lambda s: parser_tools_sequence(s)
  ctx = inp['ctx']
  prot, info = w.process_prototype_and_context(proc(ctx + inp['call']), len(ctx))
  right = w.process_target(proc(ctx + inp['call']), len(ctx))
  wrong = w.process_target(proc(ctx + 'zz9(0)\n'), len(ctx))
  system = w.build_system(prot, info, [right, wrong])
  full = w.build_baseline_assignments(prot, right, info, [])['all_calls_full']
  return {'found': unit(best(system, 0, prot, full), D), 'wrong': unit(best(system, 1, prot, full), D)}


def parser_tools_sequence(s):
  return parser_tools.ParserHelper(language='python').parse_to_nodes(s)
