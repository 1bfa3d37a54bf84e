import random
from harness import common, dags as D
from harness.checks.r12 import dag_inputs


def make(rng, d, hist, missing, copies):
  """Turns an abstract history into concrete operations on the diagram."""
  keys = sorted({e[3] for e in d['edges'] if e[3] >= 0})
  vals = sorted({e[4] for e in d['edges'] if e[3] >= 0} | {missing})
  ops, nm = [], 1
  for op, k in hist:
    m = rng.randrange(nm) if copies else 0
    if op in ('set', 'marg') and not keys:
      continue
    if op in ('set', 'marg'):
      k = k % len(keys)
    if op == 'set':
      ops.append({'op': 'set', 'm': m, 'k': k,
                  'vec': [D.INF if rng.random() < .15 else rng.randint(-4, 6) for _ in vals]})
    else:
      ops.append({'op': op, 'm': m, 'k': k})
    if copies and rng.random() < .15 and nm < 3:
      ops.append({'op': 'copy', 'm': rng.randrange(nm), 'k': rng.choice([0, 0, 1])})
      nm += 1
  for m in range(nm):
    ops.append({'op': 'tables', 'm': m, 'k': 0})
    tail = [('min', 0), ('min', 1), ('min', 2), ('min', 3), ('all', 0), ('best', 0)]
    rng.shuffle(tail)
    for o, k in tail[:3]:
      ops.append({'op': o, 'm': m, 'k': k})
  return {'dag': d, 'missing': missing, 'order': [], 'ops': ops, 'unit': rng.choice([0, 0, 0, -12, 28])}


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Memo.tla', 'MC_Memo.cfg', env={'K': '3', 'MAXLEN': '4' if q else '6'})
  rng = random.Random(ctx.seed)
  short = common.generate(ctx, 'MC_Memo.tla', 'MC_Memo.cfg',
                          env={'K': '3', 'MAXLEN': '3' if q else '4'})
  longer = common.generate(ctx, 'MC_Memo.tla', 'MC_Memo.cfg', env={'K': '4', 'MAXLEN': '12'},
                           workers=1, extra=['-simulate', 'num=%d' % (1200 if q else 3000), '-depth', '14',
                                             '-seed', str(ctx.seed)])
  longer = rng.sample(longer, min(len(longer), 9000 if q else 40000))
  def pool(n):
    return [d for d in dag_inputs(rng, n, maxpaths=24, keyspaces=False, unordered=0)]
  ds = pool(400)
  for _ in range(25):  # many edges at one variable
    d = D.prune_json(D.random_dag(rng, rng.choice([2, 3, 3]), rng.randint(15, 30), nk=rng.choice([1, 1, 2]),
                                  nv=rng.choice([4, 10])))
    if d['edges'] and D.path_count(d) <= 150:
      ds.append(d)
  by = {}
  for d in ds:
    by.setdefault(len({e[3] for e in d['edges'] if e[3] >= 0}), []).append(d)
  three = by.get(3, []) + by.get(4, [])
  ins = []
  for h in short:
    ins.append(make(rng, rng.choice(three), h, rng.choice([0, 1, 3]), False))
  for h in longer:
    ins.append(make(rng, rng.choice(ds), h, rng.choice([0, 1, 3]), rng.random() < .5))
  common.conform(ctx, 'memo', 'Trace_Memo.tla', ins)
