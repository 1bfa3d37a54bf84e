import random
from harness import common, trees as T

LEAVES = [T.tok('a'), T.dec(' '), T.RS, T.RE, T.EE]


def vectors_bound(t):
  """Rough bound on the number of well-formed vectors of a tree."""
  n = 1
  for k in kinds(t):
    if k in ('RS', 'RE'):
      n *= 2
    elif k == 'EE':
      n += n // 2
  return n


def kinds(t):
  for n in t:
    yield n[0]
    yield from kinds(n[3])


def region_trees(rng, n, limit=200, maxn=14):
  out = []
  while len(out) < n:
    w = [T.tok('a')] * rng.randint(1, 3) + [T.dec(' ')] + [T.RS] * rng.randint(1, 3) + [T.RE] * rng.randint(1, 3) + (
        [T.EE] * rng.randint(0, 2))
    t = T.random_tree(rng, rng.randint(3, maxn), w, ['g'], pg=rng.choice([0.1, 0.25, 0.4]))
    if vectors_bound(t) <= limit:
      out.append(t)
  return out


def long_trees(rng, n):
  out = []
  while len(out) < n:
    t = T.large_tree(rng, rng.randint(18, 40), [T.tok('a')] * 12 + [T.dec(' ')] * 3 + [T.RS, T.RE] + [T.EE] * rng.randint(0, 1),
                      ['g'], pg=rng.choice([0.1, 0.25, 0.4]))
    if 2 < vectors_bound(t) <= 250:
      out.append(t)
  return out


def deep_trees(rng, n):
  """Chains of nested groups; markers at some of the levels."""
  out = []
  while len(out) < n:
    t = [T.tok('a')]
    for _ in range(rng.randint(4, 12)):
      t = [T.grp(t, 'g')]
      r = rng.random()
      if r < .3:
        t = [T.RS] + t + [T.RE]
      elif r < .4:
        t = [rng.choice([T.RS, T.RE, T.EE])] + t + [T.tok('a')]
      elif r < .5:
        t = [T.tok('a'), T.RS] + t + [T.grp([T.RE], 'g'), T.RE]
    if 1 < vectors_bound(t) <= 200:
      out.append(t)
  return out


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Regions.tla', 'MC_Regions.cfg', env={'MAXNODES': '4' if q else '5'})
  rng = random.Random(ctx.seed)
  small = list(T.trees_upto(4 if q else 5, LEAVES, ['g']))
  rng.shuffle(small)
  small = small[:12000 if q else 60000]
  ins = [{'tree': t, 'numba': i % 4 == 0} for i, t in enumerate(small)]
  ins += [{'tree': t, 'numba': i % 4 == 0}
          for i, t in enumerate(region_trees(rng, 7000 if q else 20000, 200 if q else 400))]
  # long trees with few decisions
  ins += [{'tree': t, 'numba': i % 4 == 0} for i, t in enumerate(long_trees(rng, 300 if q else 3000))]
  ins += [{'tree': t, 'numba': i % 4 == 0} for i, t in enumerate(deep_trees(rng, 300 if q else 3000))]
  rng.shuffle(ins)
  common.conform(ctx, 'constraint', 'Trace_Constraint.tla', ins)
