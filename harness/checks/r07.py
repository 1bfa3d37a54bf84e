import random
from harness import common, trees as T


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Trees.tla', 'MC_Trees.cfg',
                env={'MAXNODES': '3' if q else '4'})
  rng = random.Random(ctx.seed)
  leaves = [T.tok('a'), T.tok('bb'), T.tok(''), T.dec(' '), T.dec('\n'), T.RS, T.RE, T.EE]
  types = ['g', 'h']
  ins = []
  for t in T.trees_upto(3 if q else 4, [T.tok('a'), T.tok('bb', 'u'), T.dec(' '), T.EE], ['g']):
    ops = [['cut', rng.randint(0, T.text_len(t) + 1)]]
    ops.insert(rng.randint(0, 1), rng.choice([['flatten'], ['strip']]))
    ins.append({'tree': t, 'ops': [['singletons']]})
    ins.append({'tree': t, 'ops': ops + [['singletons']]})
    for off in range(T.text_len(t) + 2):
      ins.append({'tree': t, 'ops': [['cut', off]]})
  for i in range(9200 if q else 42000):
    t = T.random_tree(rng, rng.randint(1, 12), leaves, types) if i % 46 else (
        T.large_tree(rng, rng.randint(15, 60), leaves, types, pg=rng.choice([.2, .5, .8])))  # long or deeply nested
    ops = []
    for _ in range(rng.randint(1, 4)):
      ops.append(rng.choice([['flatten'], ['strip'], ['cut', rng.randint(0, T.text_len(t) + 1)],
                             ['cut', rng.randint(0, 3)]]))
    if rng.random() < 0.6:
      ops.append(['singletons'])
    ins.append({'tree': t, 'ops': ops})
  common.conform(ctx, 'trees', 'Trace_Trees.tla', ins)
