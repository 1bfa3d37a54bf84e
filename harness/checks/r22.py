import random
from harness import common

KW = ['len', 'print', 'range']           # names the language knows
NEW = ['qqa', 'qqb', 'qqcc', 'foo_1']


def call(rng):
  """A context, a call on a line of its own, and the kinds of the call's tokens."""
  known = rng.sample(NEW, rng.randint(0, 2))
  kinds, parts = [], []
  for _ in range(rng.randint(1, 3)):
    n = rng.choice(NEW + KW)
    parts.append(n)
    kinds.append('EXPECTED' if n in known + KW else 'NOVEL')
  args = rng.choice(['', 'x', '1, y', 'qqa', 'f(3)'])
  ctx = ''.join('%s\n' % k for k in known)
  return {'kind': 'call', 'ctx': ctx, 'call': '.'.join(parts) + '(' + args + ')\n',
          'kinds': kinds + ['ARGS' if args else 'EMPTY_ARGS']}


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  common.design(ctx, 'MC_Costs.tla', 'MC_Costs.cfg')
  ins = []
  for D in ((1, 3, 8, 10, 20) if q else (1, 2, 3, 5, 7, 8, 10, 16, 20, 25)):
    for P in range(D + 1):
      for S in range(D + 1):
        ins.append({'kind': 'derive', 'D': D, 'P': P, 'S': S, 'C': rng.choice([0, 1, 2, 5, 100])})
  common.conform(ctx, 'costs', 'Trace_Costs.tla', ins, tag='derive')
  ins = []
  for _ in range(1200 if q else 3000):
    D = rng.choice([1, 2, 4, 7, 8, 10, 16])
    ins.append({'kind': 'token', 'D': D, 'P': rng.randint(0, D), 'S': rng.randint(0, D),
                'C': rng.choice([0, 1, 3, 5]), 'n': rng.choice([1, 1, 2, 3, 9]),
                'w': rng.choice(['unc', 'unc', 'pre']), 'numba': False})
  for _ in range(1200 if q else 3000):
    D = rng.choice([1, 4, 10, 16])
    ins.append(dict(call(rng), D=D, P=rng.randint(0, D), numba=False))
  for i, x in enumerate(ins):
    x['numba'] = i % 12 == 0
  common.conform(ctx, 'costs', 'Trace_Costs.tla', ins)
