"""Observes the baselines of the edit-distance wrappers."""
import math
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import prefix_truncation_wrapper as pt
from r_u_sure.wrappers import uncertainty_regions_wrapper as ur
from harness.clock import steady
from harness import trees as T
from harness.drivers.pipeline import cps, vector


def thr(m):
  """Threshold that exactly the scores above m fall below (m: quarter nats)."""
  return {'one': 1.0, 'never': 0.0}.get(m) if isinstance(m, str) else math.exp(-(m + .5) / 4)


def mval(m):
  return {'one': 0, 'never': 1000000}[m] if isinstance(m, str) else m


def build(w, cfg, numba):
  D = w['D']
  p, s, c = w['P'] / D, w['S'] / D, w['C']
  rules = []
  toks = tuple(thr(m) for m in cfg['tok'])
  if w['w'] == 'unc':
    for m, x in zip(cfg['tok'], toks):
      rules.append((f'prob_threshold_{x}_nonempty', 'token', mval(m), 0))
      rules.append((f'prob_threshold_{x}_cumulative', 'cumulative', mval(m), 0))
    fr = tuple(a / b for a, b in cfg['frac'])
    for (a, b), x in zip(cfg['frac'], fr):
      rules.append((f'example_fraction_{x}', 'fraction', a, b))
    for a, b in cfg['depth']:
      rules.append((f'cutoff_anc_{a}_child_{b}', 'depth', a, b))
    return ur.UncertaintyRegionsWrapper(
        p, c, s, use_numba=numba, baseline_token_prob_thresholds=toks,
        baseline_example_fractions=fr,
        baseline_depth_cutoffs=tuple(tuple(x) for x in cfg['depth'])), rules
  pre = tuple(thr(m) for m in cfg['pre'])
  for m, x in zip(cfg['tok'], toks):
    rules.append((f'prob_threshold_{x}', 'token', mval(m), 0))
  for m, x in zip(cfg['pre'], pre):
    rules.append((f'prefix_prob_threshold_{x}', 'prefix', mval(m), 0))
  if cfg['intel']:
    rules.append(('intellicode', 'intellicode', 0, 0))
  if cfg['avg']:
    rules.append(('max_avg_log_prob', 'average', 0, 0))
  for n in cfg['chars']:
    rules.append((f'character_length_{n}', 'chars', n, 0))
  for n in cfg['lines']:
    rules.append((f'line_length_{n}', 'lines', n, 0))
  return pt.PrefixByEditDistanceWrapper(
      c, w['w'] == 'both', p, s, baseline_token_prob_thresholds=toks,
      baseline_prefix_prob_thresholds=pre, baseline_max_avg_log_prob=cfg['avg'],
      baseline_intellicode=cfg['intel'], baseline_max_characters=tuple(cfg['chars']),
      baseline_max_lines=tuple(cfg['lines']), use_numba=numba), rules


@steady
def observe(inp):
  w, rules = build(inp['w'], inp['cfg'], inp['w']['numba'])
  model = [(''.join(map(chr, t)), -k / 4) for t, k in inp['model']]
  out = {'model': inp['model']}
  if inp['mode'] == 'text':
    r = demo_runner.DemoRunner(w, language=inp['lang'])
    res = r.build_baselines(inp['ctx'], model)
    nodes = r.parser_helper.parse_to_nodes(inp['ctx'] + ''.join(t for t, _ in model))
    proto, info = w.process_prototype_and_context(nodes, len(inp['ctx']))
    target = w.process_target(nodes, len(inp['ctx']))
    got = {k: (b.assignment_map, b.solution_info['extracted_parts']) for k, b in res.items()}
  else:
    nodes = T.from_json(inp['tree'])
    proto, info = w.process_prototype_and_context(nodes, 0)
    target = w.process_target(nodes, 0)
    res = w.build_baseline_assignments(proto, target, info, model)
    if inp['w']['w'] == 'unc':  # rules no wrapper asks for
      b = ur.UncertaintyRegionsBaselineBuilder(w, proto, target, info, model)
      for m in inp['cfg']['tok'][:1]:
        for cum in (False, True):
          name = f'all_{cum}'
          res[name] = b.baseline_assignment_from_token_probabilities(
              thr(m), only_constrain_nonempty=False, cumulative=cum)
          rules.append((name, 'cumulative-all' if cum else 'token-all', mval(m), 0))
      for n in inp['cfg']['chars'][:1]:
        res['offset'] = b.baseline_assignment_from_character_offset(n)
        rules.append(('offset', 'offset', n, 0))
    got = {k: (a, w.solution_info(prototype=proto, evaluation_target=None, context_info=info,
                                  system=None, assignments=a)['extracted_parts'])
           for k, a in res.items()}
  tree = T.to_json(psn.unpack(proto))
  out['prototype'], out['target'] = tree, T.to_json(psn.unpack(target))
  out['names'] = len(got)
  out['results'] = [
      {'rule': rule, 'a': a, 'b': b, 'v': vector(tree, got[name][0]),
       'parts': [[cps(t), bool(x)] for t, x in got[name][1]]}
      for name, rule, a, b in rules if name in got]
  return out
