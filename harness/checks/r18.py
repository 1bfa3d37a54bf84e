import json, os, random
from harness import common, trees as T, edit_inputs as E


def design(ctx, rng, n, size):
  cases = []
  while len(cases) < n:
    c = E.case(rng, rng.randint(1, size), 1)
    if c['vs']:
      cases.append({'p': c['p'], 't': c['t'], 'pr': c['pr'], 'v': c['vs'][0]})
  path = os.path.join(ctx.scratch, 'edit_cases.ndjson')
  with open(path, 'w') as f:
    for c in cases:
      f.write(json.dumps(c) + '\n')
  common.design(ctx, 'MC_Edit.tla', 'MC_Edit.cfg', env={'CASES': path}, workers=1)


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  design(ctx, rng, 500 if q else 3000, 7 if q else 8)
  ins = []
  small = [t for t in T.trees_upto(2 if q else 3, [T.tok('a'), T.tok('bb'), T.dec(' '), T.RS, T.RE, T.EE], ['g'])]
  tg = [t for t in T.trees_upto(2, [T.tok('a'), T.tok('bb'), T.dec(' ')], ['g'])]
  pairs = [(p, t) for p in small for t in tg]
  rng.shuffle(pairs)
  for p, t in pairs[:3000 if q else 20000]:
    ins.append({'p': p, 't': t, 'pr': E.params(rng), 'vs': E.vectors(rng, p, 4)})
  for _ in range(14000 if q else 60000):
    ins.append(E.case(rng, rng.randint(3, 12 if q else 16), 4))
  ins += [E.case(rng, rng.randint(20, 40), 2) for _ in range(250 if q else 2500)]  # long suggestions
  ins += [E.case(rng, 5, 3, E.wide(rng)) for _ in range(200 if q else 2000)]
  rng.shuffle(ins)
  for i, x in enumerate(ins):
    x['numba'] = i % 4 == 0
  common.conform(ctx, 'edit', 'Trace_Edit.tla', ins)
