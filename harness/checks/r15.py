import random
from harness import common, solver_inputs as SI


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Solver.tla', 'MC_Solver.cfg',
                env={'NK': '2', 'MAXLEN': '3', 'COSTS': 'small' if q else 'large'})
  rng = random.Random(ctx.seed)
  ins = []
  while len(ins) < (2700 if q else 12000):
    s, keys = SI.system(rng)
    kinds = rng.choice([['avg'], ['avg', 'avg', 'avg', 'constrain', 'marg'], ['avg', 'sweep'],
                        ['avg', 'avg', 'noise', 'sweep', 'clone', 'greedy', 'constrain'], ['sweep']])
    s['ops'] = SI.history(rng, s, keys, kinds, rng.randint(1, 7))
    ins.append(s)
  for s, keys in SI.slow():
    s['ops'] = [{'op': 'sweep', 'm': 0, 'timeout': -1, 'clock': [1]}]
    ins.append(s)
  common.conform(ctx, 'solver', 'Trace_Solver.tla', ins)
