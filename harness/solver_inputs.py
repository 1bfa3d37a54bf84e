"""Systems of random diagrams and operation histories."""
import itertools, json, os
from harness import dags as D

# Systems whose sweeps need unusually many rounds, found by search.
SLOW = os.path.join(os.path.dirname(__file__), 'slow_systems.json')


def slow():
  return [(dict(s), k) for s, k in json.load(open(SLOW))]


def feasible(s, keys):
  """Is there an assignment for which every diagram has a path?"""
  def options(d):
    mine = {e[3] for e in d['edges'] if e[3] >= 0}
    reach = {d['init']: {()}}
    for e in d['edges']:  # in topological order
      if e[2] < D.INF:
        for a in reach.get(e[0], ()):
          reach.setdefault(e[1], set()).add(a if e[3] < 0 else a + ((e[3], e[4]),))
    return mine, [dict(a) for a in reach.get(d['final'], ())]
  opts = [options(d) for d in s['dags']]
  for values in itertools.product(s['order'], repeat=len(keys)):
    v = dict(zip(keys, values))
    if all(any(all(a.get(k, s['missing']) == v[k] for k in mine) for a in paths) for mine, paths in opts):
      return True
  return False


def system(rng, maxpaths=16):
  nv = rng.choice([2, 2, 3])
  nk = rng.choice([0, 1, 2, 2, 3, 3])
  nd = rng.choice([1, 2, 2, 3])
  keys = sorted(rng.sample(range(8), nk))
  dags = []
  while len(dags) < nd:
    sub = [k for k in keys if rng.random() < .85]
    d = D.prune_json(D.random_dag(rng, rng.randint(2, 6), rng.randint(1, 12), nk=len(sub), nv=nv,
                                  inf=0.02, keyspace=sub or None, cost=(-3, 6)))
    if d['edges'] and D.path_count(d) <= maxpaths:
      dags.append(d)
  keys = sorted({e[3] for d in dags for e in d['edges'] if e[3] >= 0})
  missing = rng.choice([0, nv - 1, nv])
  order = list(range(nv if missing < nv else nv + 1))
  if len(order) ** len(keys) > 30:
    order = order if missing < nv else order
  if rng.random() < .3:
    rng.shuffle(order)
  return {'dags': dags, 'missing': missing, 'order': order, 'agree': True,
          'typed': rng.random() < .3,
          'weights': [] if rng.random() < .6 else [rng.randint(1, 4) for _ in dags]}, keys


def history(rng, s, keys, kinds, n, clones=True):
  ops, nm = [], 1
  bounded = feasible(s, keys)
  for _ in range(n):
    m = rng.randrange(nm)
    o = rng.choice(kinds)
    op = {'op': o, 'm': m}
    if o in ('avg', 'marg'):
      if not keys:
        continue
      op['k'] = rng.randrange(len(keys))
    elif o == 'sweep':
      # without a consistent assignment the bound has no limit: sweeps end by the clock only
      op['timeout'] = rng.choice([-1, -1, 0, 3, 6])
      if op['timeout'] < 0 and not bounded:
        op['timeout'] = 90
      op['clock'] = [rng.choice([1, 2, 4]) for _ in range(3)]
    elif o == 'greedy':
      op['dir'] = rng.randrange(2)
    elif o == 'constrain':
      op['cons'] = [[k, rng.choice(s['order'])] for k in keys if rng.random() < .4]
      op['pen'] = rng.choice([D.INF, D.INF, 1024, 2560])
      op['dflt'] = rng.random() < .5
      if op['cons'] and op['pen'] >= D.INF:
        bounded = False
    elif o == 'noise':
      op['scale'] = rng.choice([1, 2])
      op['seed'] = rng.randrange(1000)
    elif o == 'commit':
      if not keys:
        continue
      op['dir'] = rng.randrange(2)
      op['target'] = rng.choice([.25, .5, 1, 1.5])
      op['strict'] = rng.choice([0, .5, .9, 1])
    elif o == 'clone':
      if nm >= 3 or not clones:
        continue
      nm += 1
    ops.append(op)
  return ops
