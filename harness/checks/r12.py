import random
from harness import common, dags as D


def dag_inputs(rng, n, maxpaths=60, keyspaces=True, unordered=0.1, leftovers=0):
  out = []
  while len(out) < n:
    ns = rng.randint(2, 7)
    nk = rng.choice([0, 1, 2, 3, 4])
    ks = None
    if keyspaces and rng.random() < .5:
      ks = sorted(rng.sample(range(0, 30), nk)) if nk else None
    d = D.prune_json(D.random_dag(rng, ns, rng.randint(1, 14), nk=nk, nv=rng.choice([1, 2, 3]),
                                  inf=0.03, ordered=rng.random() >= unordered, keyspace=ks))
    if not d['edges'] or D.path_count(d) > maxpaths:
      continue
    out.append(D.with_leftovers(rng, d) if leftovers and rng.random() < leftovers else d)
  return out


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_PackedDag.tla', 'MC_PackedDag.cfg',
                env={'NSTATES': '4', 'MAXLEN': '4' if q else '5'})
  rng = random.Random(ctx.seed)
  ins = []
  for d in dag_inputs(rng, 9000 if q else 30000, leftovers=.15):
    vals = sorted({e[4] for e in d['edges'] if e[3] >= 0})
    missing = rng.choice([0, 1, 2, 5, -3])
    order = []
    if rng.random() < .4:
      order = list(set(vals) | {missing} | {rng.randint(0, 6)})
      rng.shuffle(order)
    scale, den = rng.choice([0, 1, 2, 3, -2]), rng.choice([0, 0, 0, 1, 10])
    if all(abs(e[2]) <= 30 or e[2] >= D.INF for e in d['edges']) and rng.random() < .3:
      scale, den = rng.choice([(2**25 + 1, 25), (2**25 - 3, 26)])  # more digits than single precision has
    ins.append({'dag': d, 'missing': missing, 'order': order, 'scale': scale, 'den': den})
  common.conform(ctx, 'pack', 'Trace_Pack.tla', ins)
