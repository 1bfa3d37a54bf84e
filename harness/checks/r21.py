import random
from harness import common, trees as T, edit_inputs as E
from harness.checks import r18, r19


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  r18.design(ctx, rng, 300 if q else 2000, 7)
  r19.design(ctx, rng, 600 if q else 3000, 9)
  ins = []
  E.TEXTS[:] = ['a', 'b', 'ab', 'a<c', '']
  for i in range(14000 if q else 60000):
    if i % 3:
      c = E.case(rng, rng.randint(1, 12 if q else 16), 0)
      c['kind'] = 'edit'
    else:
      c = r19.case(rng, rng.randint(1, 14 if q else 18), 0)
      c['kind'] = 'select'
    c.update(seed=rng.randrange(1 << 30), best=rng.random() < .4, numba=i % 4 == 0,
             prefix=rng.choice([[], [], [120, 60, 121], [38, 10]]))
    del c['vs']
    ins.append(c)
  for i in range(250 if q else 2500):
    c = E.case(rng, rng.randint(20, 40), 0) if i % 2 else r19.case(rng, rng.randint(20, 40), 0)
    c.update(kind='edit' if i % 2 else 'select', seed=rng.randrange(1 << 30), best=rng.random() < .5,
             numba=i % 4 == 0, prefix=[])
    del c['vs']
    ins.append(c)
  rng.shuffle(ins)
  common.conform(ctx, 'script', 'Trace_Script.tla', ins)
