"""Small decision diagrams as JSON: edges [src, dst, cost, key, value, info]."""
INF = 1000000


def gsd():
  from r_u_sure.decision_diagrams import gated_state_dag
  return gated_state_dag


def num(x):
  x = float(x)
  if x != x:
    return -INF - 1  # not a number: never equal to anything legitimate
  if x == float('inf'):
    return INF
  if x == float('-inf'):
    return -INF
  return int(x) if x == int(x) else round(x, 6)


def jstate(s):
  return int(s)


def edge(e):
  g = gsd()
  ra = None if e[3] == -1 else g.SharedVariableAssignment(e[3], e[4])
  return g.Edge(e[0], e[1], float('inf') if e[2] >= INF else float(e[2]), ra, e[5])


def jedge(e):
  k, v = (-1, -1) if e.required_assignment is None else (
      int(e.required_assignment.key), int(e.required_assignment.value))
  return [int(e.source), int(e.dest), num(e.cost), k, v, int(e.info)]


def dag(d):
  return gsd().CompleteStateDAG(d['init'], [edge(e) for e in d['edges']], d['final'])


def scaled(d, unit):
  """The diagram with every cost multiplied by 2**unit (exact)."""
  g = gsd()
  return g.CompleteStateDAG(d['init'], [
      x._replace(cost=x.cost * 2.0 ** unit) for x in map(edge, d['edges'])], d['final'])


def random_dag(rng, n, m, nk=0, nv=2, cost=None, inf=0.05, ordered=True, keyspace=None):
  """A topologically ordered random edge list over states 0..n-1 (0 first, n-1 last).

  With ordered=True keys increase along every path: state s owns a key range.
  """
  cost = cost or rng.choice([(0, 6), (0, 6), (0, 6), (-4, 9), (0, 30000), (9990, 10010)])
  lvl = sorted(rng.randint(0, nk) for _ in range(n))
  lvl[0], lvl[-1] = 0, nk
  edges = []
  for _ in range(m):
    a = rng.randint(0, n - 2)
    b = rng.randint(a + 1, n - 1)
    k, v = -1, -1
    if nk and rng.random() < 0.6:
      if ordered:
        if lvl[a] < lvl[b]:
          k = rng.randint(lvl[a], lvl[b] - 1)
      else:
        k = rng.randint(0, nk - 1)
      if k >= 0:
        v = rng.randint(0, nv - 1)
    c = INF if rng.random() < inf else rng.randint(*cost)
    edges.append([a, b, c, k, v])
  edges.sort(key=lambda e: e[0])
  if keyspace:
    for e in edges:
      if e[3] >= 0:
        e[3] = keyspace[e[3]]
  return {'init': 0, 'final': n - 1,
          'edges': [e + [i] for i, e in enumerate(edges)]}


def prune_json(d):
  E = [e for e in d['edges'] if e[2] < INF]
  f = {d['init']}
  while True:
    g2 = f | {e[1] for e in E if e[0] in f}
    if g2 == f:
      break
    f = g2
  b = {d['final']}
  while True:
    g2 = b | {e[0] for e in E if e[1] in b}
    if g2 == b:
      break
    b = g2
  E = [e for e in E if e[0] in f and e[1] in b]
  return {'init': d['init'], 'final': d['final'],
          'edges': [e[:5] + [i] for i, e in enumerate(E)]}


def with_leftovers(rng, d):
  """The diagram with edges that lie on no finite path: dead ends and forbidden edges."""
  E = [e[:5] for e in d['edges']]
  states = sorted({e[0] for e in E} | {e[1] for e in E})
  for _ in range(rng.randint(1, 3)):
    a = rng.choice(states[:-1])
    if rng.random() < .5:
      e = [a, 100 + rng.randrange(2), rng.randint(0, 5), -1, -1]
    else:
      e = [a, rng.choice([s for s in states if s > a]), INF, -1, -1]
    E.insert(rng.randint(0, len(E)), e)
  E.sort(key=lambda e: e[0])
  return dict(d, edges=[e + [i] for i, e in enumerate(E)])


def path_count(d):
  memo = {d['final']: 1}
  out = {}
  for e in d['edges']:
    out.setdefault(e[0], []).append(e[1])

  def go(s):
    if s not in memo:
      memo[s] = sum(go(t) for t in out.get(s, []))
    return memo[s]
  return go(d['init'])
