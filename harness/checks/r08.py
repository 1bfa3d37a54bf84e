import random
from harness import common, trees as T


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Trees.tla', 'MC_Trees.cfg',
                env={'MAXNODES': '3' if q else '4'})
  rng = random.Random(ctx.seed)
  leaves = [T.tok('a'), T.tok('b', 'u'), T.tok('\n'), T.tok('(', 'MATCH_LEFT'), T.dec(' '),
            T.dec('\n'), T.tok('', 'MATCH_INNER'), T.tok('n\n'), T.tok(')', 'MATCH_RIGHT')]
  types = ['g', 'MATCH', 'MATCH_INNER', 'MATCH_LEFT', 'MATCH_RIGHT', 'SPLIT_GROUP']
  B = [False, True]
  allops = ([['exits', a, b] for a in B for b in B] +
            [['regions', a, f] for a in B for f in ('all', 'pseudo', 'none', 'tokens')] +
            [['single']])
  ins = []
  for t in T.trees_upto(2 if q else 3, [T.tok('a'), T.tok('\n'), T.tok('(', 'MATCH_LEFT'),
                                        T.dec(' '), T.EE], ['g', 'MATCH_INNER']):
    for op in allops:
      ins.append({'tree': t, 'ops': [op, ['strip']]})
  for t in T.trees_upto(3 if q else 4, [T.tok('a'), T.tok('\n'), T.dec(' ')], ['g', 'MATCH_INNER']):
    for op in rng.sample(allops, 2):
      ins.append({'tree': t, 'ops': [op]})
  for i in range(7150 if q else 31000):
    t = T.random_tree(rng, rng.randint(1, 10), leaves, types) if i % 48 else (
        T.large_tree(rng, rng.randint(12, 45), leaves, types, pg=rng.choice([.2, .5, .8])))  # long or deeply nested
    ops = [rng.choice(allops) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < 0.5:
      ops = [rng.choice(allops[:4]), rng.choice(allops[4:])]
    ins.append({'tree': t, 'ops': ops + rng.choice([[], [['strip']], [['cut', rng.randint(0, 4)]]])})
  common.conform(ctx, 'trees', 'Trace_Trees.tla', ins)
