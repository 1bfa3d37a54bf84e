"""Observes the API-call wrapper end to end."""
import html, random, re
from r_u_sure.decision_diagrams import consistent_path_dual_solver as so
from r_u_sure.parsing import python_builtin_tokens
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import call_sequence_wrapper as cs
from r_u_sure.wrappers import demo_runner
from harness.clock import steady
from harness import regions as R, trees as T
from harness.drivers.costs import unit
from harness.drivers.pipeline import cps, untag, vector, info_out, shown, bound

_W = {}


def wrapper(w):
  key = repr(w)
  if key not in _W:
    _W.clear()
    _W[key] = cs.ApiCallSequenceWrapper(w['P'] / w['D'], use_numba=w['numba'])
  return _W[key]


class Given:
  """Stands in for the parser: hands out prepared trees."""

  def __init__(self, trees):
    self.trees = trees

  def parse_to_nodes(self, text):
    return T.from_json(self.trees[text])


def words(tree):
  out = set()
  for n in tree:
    if n[0] == 'TOK':
      out.add(''.join(map(chr, n[1])))
    out |= words(n[3])
  return out


def text_of(tree):
  return ''.join(''.join(map(chr, n[1])) + text_of(n[3]) for n in tree)


@steady
def observe(inp):
  w = wrapper(inp['w'])
  D = inp['w']['D']
  r = demo_runner.DemoRunner(w, language=inp.get('lang', 'python'))
  if 'trees' in inp:
    ctx = text_of(inp['ctxtree'])
    texts, table = [], {}
    for t in inp['trees']:
      whole = inp['ctxtree'] + t
      texts.append(text_of(t))
      table[ctx + texts[-1]] = whole
    r.parser_helper = Given(table)
    samples, ev_text = texts[:-1], texts[-1]
  else:
    ctx, samples, ev_text = inp['ctx'], inp['samples'], inp['eval']
  n = len(samples)
  parse = r.parser_helper.parse_to_nodes
  parsed = [T.to_json(parse(ctx + s)) for s in samples]
  seen = set().union(*map(words, parsed)) | words(T.to_json(parse(ctx + ev_text)))
  out = {'parsed': parsed, 'ctxlen': len(ctx),
         'builtin': [cps(x) for x in sorted(seen & set(python_builtin_tokens.PYTHON_BUILTIN_TOKENS))]}
  res = r.combine(ctx, samples, inp['proto'])
  tree = T.to_json(psn.unpack(res.packed_prototype))
  out['prototype'] = tree
  out['targets'] = [T.to_json(psn.unpack(t)) for t in res.packed_targets]
  out['empty'] = res.assignment_map is None
  if not out['empty']:
    o = info_out(res.solution_info, D, n)
    o.update(v=vector(tree, res.assignment_map), utility=unit(res.solution_utility, D * n),
             ub=bound(res.utility_dual_bound, D * n * 16))
    data, _ = shown(lambda: r.show_suggestion(res))
    o['html'] = cps(untag(data[0])) if len(data) == 1 and data[0] is not None else [0]
    data, _ = shown(lambda: r.show_edits(res))
    o['edits'] = []
    for part in ((data[0] or '').split('========== Target ') if len(data) == 1 else [])[1:]:
      rows = re.findall(r'(MATCHED|WRONG): (.*?)<br>', part, flags=re.S)
      o['edits'].append([[a == 'MATCHED', cps(html.unescape(b))] for a, b in rows])
    out['combine'] = o
  base = r.build_baselines(ctx, [(samples[inp['proto']], -1.0)])
  out['rules'] = [{'rule': k, 'v': vector(tree, b.assignment_map),
                   'parts': [[cps(t), bool(x)] for t, x in b.solution_info['extracted_parts']]}
                  for k, b in sorted(base.items())]
  out['evals'] = []
  if tree:
    rng = random.Random(inp['seed'])
    info = res.context_info
    sysm = w.build_system(res.packed_prototype, info, res.packed_targets,
                          [x / inp['wd'] for x in inp['weights']])
    opt = so.solve_system_with_sweeps(system_data=sysm.data, soft_timeout=5.)
    vec, cost = so.greedy_extract(sysm.data, direction=so.SweepDirection.REVERSE)
    amap = so.assignments_from_assignment_vector(sysm, vec)
    out['weighted'] = {'v': vector(tree, amap), 'cost': unit(cost, D * inp['wd']),
                       'ub': bound(-float(opt.objective_at_step[-1]), D * 16 * inp['wd'])}
    et = w.process_target(parse(ctx + ev_text), len(ctx))
    out['evaltree'] = T.to_json(psn.unpack(et))
    out['evalparsed'] = T.to_json(parse(ctx + ev_text))
    one = w.build_system(res.packed_prototype, info, [et])
    for _ in range(inp['nv']):
      v = R.random_vector(rng, tree, p_start=rng.choice([.2, .5]), p_exit=0)
      if v is None:
        continue
      i = w.solution_info(prototype=res.packed_prototype, evaluation_target=et, context_info=info,
                          system=one, assignments=R.assignments(tree, v), sample_system=sysm)
      o = info_out(i, D, n)
      o.update(v=v, novel=[i['correct_novel'], i['deleted_novel']],
               known=[i['correct_not_novel'], i['deleted_not_novel']],
               args=[i['correct_args'], i['deleted_args']])
      out['evals'].append(o)
  return out
