import json, os, random
from harness import common, trees as T, edit_inputs as E


def params(rng):
  if rng.random() < .2:
    return dict(m=1, d=1, mu=1, du=1, e=0)
  return dict(m=rng.randint(-1, 9), d=rng.randint(-1, 9), mu=rng.randint(0, 9), du=rng.randint(0, 9),
              e=rng.choice([0, 0, 1, 2]))


def case(rng, n, nv, p=None, t=None):
  p = E.prototype(rng, n, exits=False, empty=.4) if p is None else p
  return {'p': p, 't': E.target(rng, p, n, empty=.4) if t is None else t, 'pr': params(rng),
          'vs': E.vectors(rng, p, nv)}


def design(ctx, rng, n, size):
  path = os.path.join(ctx.scratch, 'select_cases.ndjson')
  k = 0
  with open(path, 'w') as f:
    while k < n:
      c = case(rng, rng.randint(1, size), 1)
      if c['vs']:
        f.write(json.dumps({'p': c['p'], 't': c['t'], 'pr': c['pr'], 'v': c['vs'][0]}) + '\n')
        k += 1
  common.design(ctx, 'MC_Select.tla', 'MC_Select.cfg', env={'CASES': path}, workers=1)


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  design(ctx, rng, 1500 if q else 6000, 10)
  ins = []
  small = [t for t in T.trees_upto(3, [T.tok('a'), T.tok('bb'), T.RS, T.RE], ['g'])]
  tg = [t for t in T.trees_upto(2, [T.tok('a'), T.tok('bb'), T.dec(' ')], ['g'])]
  pairs = [(p, t) for p in small for t in tg]
  rng.shuffle(pairs)
  for p, t in pairs[:3000 if q else 20000]:
    ins.append(case(rng, 0, 4, p, t))
  for _ in range(20000 if q else 60000):
    ins.append(case(rng, rng.randint(3, 14 if q else 20), 4))
  ins += [case(rng, rng.randint(20, 40), 2) for _ in range(250 if q else 2500)]
  ins += [case(rng, 5, 3, E.wide(rng)) for _ in range(300 if q else 3000)]
  rng.shuffle(ins)
  for i, x in enumerate(ins):
    x['numba'] = i % 4 == 0
  common.conform(ctx, 'select', 'Trace_Select.tla', ins)
