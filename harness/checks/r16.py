import random
from harness import common, solver_inputs as SI


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Solver.tla', 'MC_Solver.cfg',
                env={'NK': '2', 'MAXLEN': '2', 'COSTS': 'small' if q else 'large'})
  rng = random.Random(ctx.seed + 7)
  ins = []
  while len(ins) < (3600 if q else 12000):
    s, keys = SI.system(rng)
    kinds = rng.choice([['greedy', 'constrain', 'clone'], ['greedy', 'avg', 'sweep', 'clone'],
                        ['commit', 'greedy', 'sweep', 'clone'], ['commit', 'avg', 'constrain', 'greedy'],
                        ['noise', 'constrain', 'greedy', 'clone', 'commit', 'sweep', 'marg']])
    s['ops'] = SI.history(rng, s, keys, kinds, rng.randint(1, 6)) + [
        {'op': 'greedy', 'm': 0, 'dir': 0}, {'op': 'greedy', 'm': 0, 'dir': 1}]
    if len(s['dags']) > 1 and rng.random() < .03:
      s['agree'], s['mirror'] = False, len(s['order']) > 1 and rng.random() < .5
    ins.append(s)
  ins.append({'dags': [], 'missing': 0, 'order': [0], 'agree': False, 'mirror': False, 'typed': False,
              'weights': [], 'ops': []})
  common.conform(ctx, 'solver', 'Trace_Solver.tla', ins)
