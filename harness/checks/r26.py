"""R26: drawings of diagrams."""
import random
from harness import common, dags as D, trees as T, edit_inputs as E
from harness.checks import r19

COLORS = ['', '', 'red', 'blue', 'cyan', 'limegreen']


def plain(rng):
  d = D.random_dag(rng, rng.randint(2, 7), rng.randint(0, 12), nk=rng.choice([0, 2]))
  names = {str(D.jstate(s)) for e in d['edges'] for s in e[:2]} | {str(D.jstate(d[k])) for k in ('init', 'final')}
  cells = {s: [rng.randrange(-3, 6) * 25, rng.randrange(-3, 6) * 25] for s in sorted(names)}
  return {'kind': 'plain', 'dag': d, 'cells': cells, 'colors': [rng.choice(COLORS) for _ in d['edges']]}


DIRS = ['UP', 'UP_RIGHT', 'RIGHT', 'DOWN_RIGHT', 'DOWN', 'DOWN_LEFT', 'LEFT', 'UP_LEFT', 'AROUND']


def label(rng):
  text = '\n'.join(rng.choice(['', 'a', '<b> & c', '1.5', "'q'"]) for _ in range(rng.randint(1, 5)))
  return {'kind': 'label', 'at': [rng.randint(-50, 50), rng.randint(-50, 50)], 'text': [ord(c) for c in text],
          'size': rng.choice([2, 4, 10, 12]), 'dir': rng.choice(DIRS), 'pad': rng.choice([-1, 0, 1, 2, 6]),
          'hover': rng.choice(['', 'h<i>']), 'tags': rng.sample(['t1', 't2', 't3'], rng.randint(0, 2))}


def shapes(rng):
  items = []
  xy = lambda: [rng.randint(-60, 60), rng.randint(-60, 60)]
  for _ in range(rng.randint(1, 4)):
    k = rng.choice(['box', 'box', 'container', 'line', 'line', 'dot'])
    pts = [xy() for _ in range(rng.randint(2, 5))] if k == 'line' else [xy()]
    text = '\n'.join(rng.choice(['', 'a', '<b> & c', '1.5']) for _ in range(rng.randint(1, 4)))
    items.append({'s': k, 'pts': pts, 'wh': [rng.randint(0, 40), rng.randint(0, 40)],
                  'text': [ord(c) for c in text] if k == 'box' else [], 'size': rng.choice([2, 4, 7]),
                  'tags': rng.sample(['t1', 't2', 't3'], rng.randint(0, 2))})
  return {'kind': 'shapes', 'items': items, 'pad': rng.choice([0, 0, 1, 10])}


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  common.design(ctx, 'MC_Drawing.tla', 'MC_Drawing.cfg')
  E.TEXTS[:] = ['a', 'b', 'ab', '<i>', "&'\"", '\n']
  ins = []
  for i in range(2000 if q else 12000):
    k = ('plain', 'edit', 'constraint', 'selection')[i % 4]
    if k == 'plain':
      c = plain(rng)
    else:
      n = rng.randint(0, 5 if q else 7)
      c = r19.case(rng, n, 0) if k == 'selection' else E.case(rng, n if k == 'edit' else 2 * n, 0)
      c = {'kind': k, 'p': c['p'], 't': c['t'], 'pr': c['pr']}
    c['emph'] = [rng.randrange(1000) for _ in range(rng.choice([0, 0, 1, 3]))]
    ins.append(c)
  ins += [label(rng) for _ in range(500 if q else 4000)]
  ins += [shapes(rng) for _ in range(500 if q else 4000)]
  common.conform(ctx, 'drawing', 'Trace_Drawing.tla', ins)
