import random
from harness import common, trees as T
from harness.regions import random_vector


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Regions.tla', 'MC_Regions.cfg', env={'MAXNODES': '4' if q else '5'})
  rng = random.Random(ctx.seed)
  texts = ['a', 'bb', '<', '>', '&', '"', "'", '&lt;', '&amp;', 'x<y', '</span>', '', 'é', '︙', ' ', '日本', '\r', 'a\r', '\x0b', '\t', 'a\n']
  ins = []
  small = list(T.trees_upto(4, [T.tok('a'), T.dec(' '), T.RS, T.RE, T.EE], ['g']))
  rng.shuffle(small)
  for t in small[:3000 if q else 20000]:
    for _ in range(2):
      v = random_vector(rng, t)
      if v:
        ins.append({'tree': t, 'vec': v})
  for _ in range(12000 if q else 60000):
    lv = [T.tok(rng.choice(texts)) for _ in range(3)] + [T.dec(rng.choice([' ', '\n', '  ', '\t', '']))] + (
        [T.RS, T.RE] * rng.randint(1, 2) + [T.EE] * rng.randint(0, 1))
    t = T.random_tree(rng, rng.randint(3, 22), lv, ['g', 'h'], pg=rng.choice([.1, .3]))
    v = random_vector(rng, t, p_exit=rng.choice([0, .1, .3]))
    if v:
      ins.append({'tree': t, 'vec': v})
  for i, x in enumerate(ins):
    x['numba'] = i % 5 == 0
    x['marker'] = rng.choice([[], [], [35], [60, 62]])
  common.conform(ctx, 'extract', 'Trace_Extract.tla', ins)
