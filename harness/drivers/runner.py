"""Calls on wrappers and runners that are shared by all calls of a process."""
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import call_sequence_wrapper as cw
from r_u_sure.wrappers import demo_runner
from harness.clock import steady
from harness import trees as T
from harness.drivers.baselines import build
from harness.drivers.pipeline import cps, shown, wrapper, untag

_RUNNERS, _WRAPPERS = {}, {}
CFG = {'tok': [1, 3], 'pre': [2, 6], 'frac': [[1, 2], [1, 4]], 'depth': [[1, 1]], 'intel': True, 'avg': True,
       'chars': [2, 5], 'lines': [1, 2]}


def runner(w, lang):
  key = repr((w, lang))
  if key not in _RUNNERS:
    if repr(w) not in _WRAPPERS:
      _WRAPPERS[repr(w)] = (cw.ApiCallSequenceWrapper(w['P'] / w['D'], use_numba=False) if w['w'] == 'calls'
                            else build(w, CFG, False)[0])
    _RUNNERS[key] = demo_runner.DemoRunner(_WRAPPERS[repr(w)], language=lang)
  return _RUNNERS[key]


def amap(a):
  return None if a is None else sorted((repr(k), repr(v)) for k, v in a.items())


def info(i):
  return None if i is None else sorted((k, repr(v)) for k, v in i.items())


@steady
def observe(inp):
  r = runner(inp['w'], inp['lang'])
  ctx, samples = inp['ctx'], list(inp['samples'])
  model = [(''.join(map(chr, t)), -k / 4) for t, k in inp['model']]
  kept = list(model)
  out = {}
  if inp['do'] == 'combine':
    res = r.combine(ctx, samples, inp['proto'])
    view = lambda: [T.to_json(psn.unpack(t)) for t in [res.packed_prototype] + list(res.packed_targets)]
    out['trees'] = view()
    out['answer'] = [repr(res.solution_utility), repr(res.utility_dual_bound), amap(res.assignment_map),
                     info(res.solution_info), repr(res.context_info)]
    out['parts'] = repr(r.get_extracted_parts(res))
    out['shown'] = [shown(lambda f=f: f(res)) for f in (r.show_suggestion, r.show_edits, r.show_utilities)]
    out['again'] = [amap(res.assignment_map), info(res.solution_info)]
    out['changed'] = (view() != out['trees'] or samples != inp['samples']
                      or out['again'] != [amap(res.assignment_map), info(res.solution_info)])
  elif inp['do'] == 'baselines':
    res = r.build_baselines(ctx, model)
    out['answer'] = [[k, amap(b.assignment_map), info(b.solution_info)] for k, b in res.items()]
    out['changed'] = model != kept
  elif inp['do'] == 'probs':
    out['shown'] = shown(lambda: r.show_token_probs(ctx, model, True))
    out['changed'] = model != kept
  else:
    nodes = r.parser_helper.parse_to_nodes(ctx)
    out['answer'] = T.to_json(nodes)
    out['changed'] = False
  return out
