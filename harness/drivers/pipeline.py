"""Observes the end-to-end pipeline for the edit-distance wrappers."""
import contextlib, html, io, math, random, re
import numpy as np
from r_u_sure.decision_diagrams import consistent_path_dual_solver as so
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import prefix_truncation_wrapper as pt
from r_u_sure.wrappers import uncertainty_regions_wrapper as ur
from harness.clock import steady
from harness import regions as R, trees as T
from harness.drivers import script
from harness.drivers.costs import unit

_W = {}


def wrapper(w):
  key = repr(w)
  if key not in _W:
    _W.clear()
    D = w['D']
    p, s, c = w['P'] / D, w['S'] / D, w['C']
    if w['w'] == 'unc':
      _W[key] = ur.UncertaintyRegionsWrapper(p, c, s, use_numba=w['numba'])
    else:
      _W[key] = pt.PrefixByEditDistanceWrapper(c, w['w'] == 'both', p, s, use_numba=w['numba'])
  return _W[key]


def cps(s):
  return [ord(c) for c in s]


def untag(s):
  s = re.sub(r'<style>.*?</style>', '', s, flags=re.S)
  return html.unescape(re.sub(r'<[^>]*>', '', s))


def vector(tree, amap):
  """Decisions as one value per node; a decision nobody makes is 3 (not applicable)."""
  by = {R.kint(k): int(v) for k, v in amap.items()}
  fl = R.flat(tree)
  v = [by.pop(i * 4 + R.CAT[k] - 1, 3) if k in R.CAT else 3 for i, (k, _, _) in enumerate(fl)]
  return v if not by else ['unknown decisions']


def info_out(info, k, n):
  """Reported costs as multiples of 1/k."""
  c = info['sample_system_costs_unsorted']
  var = info['sample_system_cost_variance']
  o = {'costs': [unit(x, k) for x in c],
       'sorted': [unit(x, k) for x in info['sample_system_costs']],
       'avg': unit(info['sample_system_cost_average'], k * n),
       'var': unit(var, k * k * n * (n - 1)) if n > 1 else 0,
       'parts': [[cps(t), bool(r)] for t, r in info['extracted_parts']]}
  if 'total_cost' in info:
    o['total'] = unit(info['total_cost'], k)
    o['rank'] = int(info['true_cost_rank_in_sample_system'])
  return o


def shown(call):
  import IPython.display as disp
  got, old = [], disp.display
  disp.display = lambda x: got.append(x)
  buf = io.StringIO()
  try:
    with contextlib.redirect_stdout(buf):
      call()
  finally:
    disp.display = old
  data = [x if isinstance(x, str) else getattr(x, 'data', None) for x in got]
  return data, buf.getvalue()


class Axis:
  """Stands in for an axis of a plot: remembers the curves and lines."""

  def __init__(self):
    self.curves, self.lines = [], []

  def plot(self, xs, ys, *_, **__):
    self.curves.append(([float(x) for x in xs], [float(y) for y in ys]))

  def axhline(self, y=0, *_, **__):
    self.lines.append(float(y))

  def __getattr__(self, name):
    return lambda *_, **__: None


def plots(call, k):
  """The curves drawn by call, in 1/k (rounded up) over 1/16, and the lines."""
  import matplotlib.pyplot as plt
  axs, old = [Axis() for _ in range(3)], getattr(plt, 'subplots', None)
  plt.subplots = lambda *_, **__: (None, axs)
  try:
    call()
  finally:
    plt.subplots = old
  return [{'n': [len(c[0]), len(c[1])], 'xs': [int(round(x * 16)) for x in c[0]], 'curve': [bound(y, k) for y in c[1]], 'line': unit(a.lines[0], k)}
          for a in axs for c in a.curves[:1] if len(a.lines) == 1]


def edits_shown(src):
  """Per target: its number, the context, and the pieces with action and confidence."""
  out = []
  for part in src.split('========== Target ')[1:]:
    m = re.match(r'(\d+) ==========<br>(.*)<br>$', part, re.S)
    if not m:
      return []
    body = m.group(2)
    cut = body.index('<style>')
    p = script.P()
    p.feed(body[cut:])
    p.close()
    out.append({'k': int(m.group(1)), 'ctx': cps(untag(body[:cut]) + p.prefix), 'parts': p.parts,
                'odd': p.odd + [x for x, _ in p.stack]})
  return out


def bound(x, k):
  """An integer that is certainly not below x * k."""
  return 1000000000 if not math.isfinite(x) else int(math.floor(x * k + 1e-4 * max(1, abs(x * k))) + 1)


@steady
def observe(inp):
  w = wrapper(inp['w'])
  D = inp['w']['D']
  r = demo_runner.DemoRunner(w, language=inp['lang'])
  ctx, samples = inp['ctx'], inp['samples']
  n = len(samples)
  parse = r.parser_helper.parse_to_nodes
  out = {'parsed': [T.to_json(parse(ctx + s)) for s in samples], 'ctxlen': len(ctx), 'ctx': cps(ctx)}
  res = r.combine(ctx, samples, inp['proto'])
  tree = T.to_json(psn.unpack(res.packed_prototype))
  out['prototype'] = tree
  out['targets'] = [T.to_json(psn.unpack(t)) for t in res.packed_targets]
  out['empty'] = res.assignment_map is None
  if not out['empty']:
    v = vector(tree, res.assignment_map)
    o = info_out(res.solution_info, D * D, n)
    o.update(v=v, utility=unit(res.solution_utility, D * D * n),
             ub=bound(res.utility_dual_bound, D * D * n * 16),
             grouped=[[cps(t), bool(x)] for t, x in r.get_extracted_parts(res)])
    data, _ = shown(lambda: r.show_suggestion(res))
    o['html'] = cps(untag(data[0])) if len(data) == 1 and data[0] is not None else [0]
    data, _ = shown(lambda: r.show_edits(res))
    o['edits'] = edits_shown(data[0]) if len(data) == 1 else []
    o['plots'] = plots(lambda: r.show_optimization_details(res), D * D * n * 16)
    o['moved'] = [16 * int(x) for x in res.opt_results.variable_at_step]
    _, text = shown(lambda: r.show_utilities(res))
    o['shown'] = [[int(a), unit(float(b), D * D)] for a, b in
                  re.findall(r'Target (\d+): (\S+)', text)]
    out['combine'] = o
  else:
    said = [shown(lambda f=f: f(res)) for f in (r.show_suggestion, r.show_edits, r.show_utilities,
                                               r.show_optimization_details)]
    out['mute'] = [len(d) for d, _ in said] + [
        sum(demo_runner.EMPTY_RESULT_MESSAGE in t for _, t in said), int(r.get_extracted_parts(res) is None)]
  # the same prototype with chosen decisions, weights and an evaluation target
  rng = random.Random(inp['seed'])
  ev = []
  if inp['weights'] is not None:
    wt = [x / inp['wd'] for x in inp['weights']]
    info = res.context_info
    sysm = w.build_system(res.packed_prototype, info, res.packed_targets, wt)
    opt = so.solve_system_with_sweeps(system_data=sysm.data, soft_timeout=inp['timeout'])
    if opt.objective_at_step.shape[0]:
      vec, cost = so.greedy_extract(sysm.data, direction=so.SweepDirection.REVERSE)
      amap = so.assignments_from_assignment_vector(sysm, vec)
      out['weighted'] = {'v': vector(tree, amap), 'cost': unit(cost, D * D * inp['wd']),
                         'ub': bound(-float(opt.objective_at_step[-1]), D * D * 16 * inp['wd'])}
    et = w.process_target(parse(ctx + inp['eval']), len(ctx))
    out['evaltree'] = T.to_json(psn.unpack(et))
    out['evalparsed'] = T.to_json(parse(ctx + inp['eval']))
    one = w.build_system(res.packed_prototype, info, [et])
    for k in range(inp['nv']):
      v = R.random_vector(rng, tree, p_start=rng.choice([.1, .3]) if k else 0,
                          p_exit=rng.choice([0, .05, .3]) if k else 0)
      if v is None:
        continue
      i = w.solution_info(prototype=res.packed_prototype, evaluation_target=et, context_info=info,
                          system=one, assignments=R.assignments(tree, v), sample_system=sysm)
      o = info_out(i, D * D, n)
      o['v'] = v
      ev.append(o)
  out['evals'] = ev
  return out
