import random
from harness import common, trees as T


def probes(rng, tree, n):
  """Places that may or may not exist (the last position is never negative)."""
  out = []
  for _ in range(n):
    seq, path = tree, []
    for _ in range(rng.randint(0, 4)):
      i = rng.randint(0, len(seq)) if rng.random() < .9 else rng.choice([-1, len(seq) + 1])
      path.append(i)
      seq = seq[i][3] if 0 <= i < len(seq) else []
    if path and path[-1] < 0:
      path[-1] = 0
    out.append(path)
  return out


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Packed.tla', 'MC_Packed.cfg', env={'MAXNODES': '4' if q else '6'})
  rng = random.Random(ctx.seed)
  leaves = [T.tok('a'), T.tok('bb', 'u'), T.tok(''), T.tok('a', ''), T.dec(' '), T.dec('\n'), T.RS, T.RE, T.EE]
  ins = [{'tree': t} for t in T.trees_upto(
      4 if q else 5, [T.tok('a'), T.dec(' '), T.RS] if q else [T.tok('a'), T.dec(' '), T.EE], ['g'])]
  for _ in range(6000 if q else 20000):
    ins.append({'tree': T.random_tree(rng, rng.randint(1, 16), leaves, ['g', 'h', ''],
                                      pg=rng.choice([0.1, 0.3, 0.5]))})
  for _ in range(150 if q else 1500):  # long or deeply nested
    ins.append({'tree': T.large_tree(rng, rng.randint(20, 110), leaves, ['g', 'h', ''], pg=rng.choice([.1, .5, .8]))})
  ins += [{'tree': []}] * 2
  rng.shuffle(ins)
  for i in ins:
    i['probes'] = probes(rng, i['tree'], 4)
  common.conform(ctx, 'packed', 'Trace_Packed.tla', ins)
