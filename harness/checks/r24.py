import random
from harness import common, pipeline_inputs as P, trees as T
from harness.checks.r10 import chars

LEAVES = [T.tok('a'), T.tok('bb'), T.tok(''), T.tok('cab'), T.dec(' '), T.dec('\n'), T.dec('\n \n'), T.dec('\n ')]


def segment(rng, text, hi):
  out, i = [], 0
  while i < len(text):
    n = rng.choice([0, 1, 1, 2, 2, 3, 5])
    out.append([[ord(c) for c in text[i:i + n]], rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, hi)])])
    i += n
  return out


def case(rng, size, numba):
  D = rng.choice([1, 2, 4, 8])
  w = {'w': rng.choice(['unc', 'unc', 'pre', 'pre', 'both']) if rng.random() < .2 else rng.choice(['unc', 'pre']),
       'D': D, 'P': rng.randint(0, D), 'S': rng.randint(0, D), 'C': rng.choice([0, 0, 1, 2, 5]),
       'numba': numba}
  ms = [0, 1, 2, 3, 4, 6, 9, 'one', 'never']
  c = {'w': w, 'bad': False, 'cfg': {
      'tok': rng.sample(ms, 2), 'pre': rng.sample(ms + [12, 15, 20, 30], 2),
      'frac': rng.sample([[0, 1], [1, 8], [1, 4], [1, 2], [3, 4], [7, 8], [1, 1]], 2),
      'depth': [[rng.randint(1, 3), rng.randint(1, 3)]] if rng.random() < .8 else [],
      'intel': rng.random() < .8, 'avg': rng.random() < .8,
      'chars': rng.sample([0, 1, 2, 3, 4, 5, 6, 8, 12], 2), 'lines': rng.sample([0, 1, 2, 3, 4], 2)}}
  if w['w'] == 'unc' and rng.random() < .02:
    c['bad'] = True
    c['cfg']['depth'].append(rng.choice([[0, 1], [1, 0], [-1, 1], [1, -2], [0, 0]]))
  if rng.random() < .4:
    c['mode'] = 'text'
    c['lang'] = rng.choice(['python', 'python', 'cpp', 'java', 'javascript', 'simple'])
    c['ctx'] = rng.choice(P.CTX[c['lang']])
    text = P.sample(rng, c['lang'], rng.randint(1, size))
    if c['lang'] == 'python' and not text.endswith('\n'):
      text += '\n'
  else:
    c['mode'] = 'tree'
    c['tree'] = T.random_tree(rng, rng.randint(1, 4 + 2 * size), LEAVES, ['g', 'SPLIT_GROUP', 'MATCH'])
    text = chars(c['tree'])
  c['model'] = segment(rng, text, rng.choice([2, 4, 9, 9, 120]))
  return c


def long_case(rng):
  """Many likely tokens: the thresholds that depend on the number of tokens seen."""
  c = case(rng, 1, False)
  c.update(mode='tree', bad=False, tree=[])
  c['w'].update(w='pre')
  c['cfg'].update(intel=True, avg=True)
  n = rng.randint(3, 45)
  for i in range(n):
    c['tree'] += [T.tok(rng.choice('abc'))] + ([T.dec(rng.choice([' ', '\n']))] if rng.random() < .2 else [])
  hi = rng.choice([1, 2, 3])
  text = chars(c['tree'])
  c['model'] = [[[ord(x)], 0 if rng.random() < .8 else rng.randint(0, hi)] for x in text]
  if rng.random() < .5:
    c['model'][-1][1] = hi
  return c


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  common.design(ctx, 'MC_Baselines.tla', 'MC_Baselines.cfg', env={'MAXNODES': '2' if q else '3'})
  ins = [case(rng, rng.randint(1, 3), i % 100 == 0) for i in range(1500 if q else 12000)]
  ins += [long_case(rng) for _ in range(120 if q else 600)]
  common.conform(ctx, 'baselines', 'Trace_Baselines.tla', ins, case_timeout=120)
