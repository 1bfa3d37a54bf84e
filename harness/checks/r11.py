import itertools, random
from harness import common, dags as D


def run(ctx):
  q = ctx.quick
  for ts in (1, 2, 3):
    common.design(ctx, 'MC_Dag.tla', 'MC_Dag.cfg',
                  env={'NSTATES': '4', 'MAXLEN': '3' if q else '4', 'TSIZE': str(ts)})
  hists = common.generate(ctx, 'MC_Dag.tla', 'MC_Dag.cfg',
                          env={'NSTATES': '3' if q else '4', 'MAXLEN': '4', 'TSIZE': '1'})
  rng = random.Random(ctx.seed)
  ins = []
  for n, h in enumerate(hists):
    ins.append({'kind': 'build', 'init': 0, 'final': 2, 'ik': n % 4,
                'edges': [[s, d, 1, -1, -1, i] for i, (s, d, _) in enumerate(h)]})
  for _ in range(4500 if q else 20000):
    n = rng.randint(2, 6)
    m = rng.randint(0, 9)
    E = []
    for i in range(m):
      a, b = rng.randrange(n), rng.randrange(n)
      if rng.random() < 0.7 and a > b:
        a, b = b, a
      k = rng.randint(-1, 2)
      E.append([a, b, rng.choice([0, 1, 2, 5, D.INF]), k, -1 if k < 0 else rng.randint(0, 2), i])
    if rng.random() < 0.6:
      E.sort(key=lambda e: (e[0]))
      for i, e in enumerate(E):
        e[5] = i
    ins.append({'kind': 'build', 'init': rng.randrange(n), 'final': rng.randrange(n),
                'ik': rng.randrange(4), 'edges': E})
  for _ in range(9000 if q else 40000):
    n = rng.randint(2, 8)
    d = D.random_dag(rng, n, rng.randint(0, 14), nk=rng.choice([0, 2, 4]), nv=3,
                     inf=rng.choice([0, 0.1, 0.3]))
    perm = list(range(n))
    rng.shuffle(perm)
    mul = rng.choice([1, 1, 2, 4, 5])
    f = lambda s: perm[s] * mul
    d['edges'] = [[f(e[0]), f(e[1])] + e[2:] for e in d['edges']]
    # any state may be asked for as start / end
    d['init'], d['final'] = f(0 if rng.random() < .8 else rng.randrange(n)), f(
        n - 1 if rng.random() < .8 else rng.randrange(n))
    d.update(kind='prune', sizes=[1, 2, 3, 4, 8, 64] if q else [1, 2, 3, 4, 5, 7, 8, 16, 64],
             st=rng.choice(['int', 'int', 'neg', 'tup']))
    ins.append(d)
  common.conform(ctx, 'dag', 'Trace_Dag.tla', ins)
