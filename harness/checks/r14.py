import random
from harness import common, dags as D
from harness.checks.r12 import dag_inputs
from harness.checks.r13 import make


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Best.tla', 'MC_Best.cfg', env={'NSTATES': '4', 'MAXLEN': '3' if q else '4'})
  rng = random.Random(ctx.seed)
  ins, memo = [], []
  for d in dag_inputs(rng, 12000 if q else 40000, unordered=0):
    keys = sorted({e[3] for e in d['edges'] if e[3] >= 0})
    missing = rng.choice([0, 1, 2, 5])
    vals = sorted({e[4] for e in d['edges'] if e[3] >= 0} | {missing})
    order = list(vals)
    rng.shuffle(order)
    cons = [[k, rng.choice(vals)] for k in keys if rng.random() < rng.choice([.3, .6, 1])]
    rng.shuffle(cons)
    ins.append({'dag': d, 'missing': missing, 'order': order if rng.random() < .5 else [], 'cons': cons,
                'unit': rng.choice([0, 0, -12, 8, 28])})
    if len(memo) < (2400 if q else 8000) and D.path_count(d) <= 24:
      h = [rng.choice([('set', rng.randrange(4)), ('best', 0), ('marg', rng.randrange(4))])
           for _ in range(6)] + [('best', 0)]
      memo.append(make(rng, d, h, missing, rng.random() < .3))
  common.conform(ctx, 'best', 'Trace_Best.tla', ins)
  common.conform(ctx, 'memo', 'Trace_Memo.tla', memo, tag='memo')
