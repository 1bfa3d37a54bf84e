import random
from harness import common, trees as T

PIECES = {
    'python': ['a', 'foo', 'Foo', 'Print', 'foo', 'a.B()', '.', '.', '(', ')', '(x)', '()', '\n', '\n', '  ', '# c\n', 'def ', 'class ',
               'return ', ' = ', ' ', '[', ']', '"s t"', ', ', 'b.c(d)', 'a.b(1, x)\n', 'if x:\n', 'print(a)\n',
               'self.f(a, b)\n', ' in ', 'foo(a(b))', 'x.y\n', 'a.b.c()', 'a<b>(c)'],
    'cpp': ['a', 'foo', '.', '->', '(', ')', '(x)', '();', '\n', ' ', '{', '}', '[', 'x.y(z);', '// c\n', '"s"', 'int ', '= '],
    'javascript': ['a', 'foo', '.', '(', ')', '(x)', '();', '\n', ' ', '{', '}', '=> ', 'x.y(z);', '// c\n', "'s'", 'let '],
    'java': ['a', 'foo', '.', '(', ')', '(x)', '();', '\n', ' ', '{', '}', 'new ', 'x.y(z);', '/*c*/', '"s"'],
}
PAREN = lambda kids: T.grp([T.tok('(', 'MATCH_LEFT'), T.grp(kids, 'MATCH_INNER'), T.tok(')', 'MATCH_RIGHT')], 'MATCH')
LEAVES = [T.tok(x, 'CONTENT_LEAF') for x in ['a', 'b', 'foo', '.', '.', 'def', 'class', 'print', '', 'x']] + [
    T.dec(' '), T.dec(' '), T.dec('\n'), T.dec('\n'), T.tok('.', 'x')]


def shuffled(rng, s, lang):
  r = rng.random()
  if r < .25:
    return s
  i = rng.randrange(len(s) + 1)
  if r < .5:
    return s[:i] + rng.choice(PIECES[lang]) + s[i:]
  if r < .7:
    return s[:i] + s[i + rng.randint(1, 3):]
  if r < .8:
    return s.replace('foo', 'a')
  if r < .9:
    return s[i:] + '\n' + s[:i]
  return s + '\n' + s


def tree(rng, budget, depth=0):
  out = []
  while budget > 0 and rng.random() < .9:
    r = rng.random()
    if r < .3 and depth < 3:
      k = rng.randint(0, max(0, budget - 1))
      kids = tree(rng, k, depth + 1)
      q = rng.random()
      g = PAREN(kids) if q < .7 else T.grp(kids, rng.choice(['g', 'MATCH', 'MATCH_INNER']))
      if q < .05:
        g[3].pop()
      elif q < .1:
        g[3][0] = T.tok('[', 'MATCH_LEFT')
      elif q < .13:
        g[2] = T.grp([], 'g')[2]
      out.append(g)
      budget -= k + 1
    else:
      out.append(rng.choice(LEAVES))
      budget -= 1
  return out


def case(rng, size, numba):
  D = rng.choice([1, 2, 4, 8, 10])
  w = {'D': D, 'P': rng.randint(0, D), 'numba': numba}
  n = rng.randint(1, 3)
  c = {'w': w, 'proto': rng.randrange(n), 'nv': 3, 'seed': rng.randrange(1 << 30),
       'weights': [rng.choice([1, 2, 3, 4, 8]) for _ in range(n)],
       'wd': rng.choice([8, 8, 1, 1024, 1 / 64])}
  if rng.random() < .65:
    lang = rng.choice(['python', 'python', 'python', 'python', 'cpp', 'javascript', 'java'])
    base = ''.join(rng.choice(PIECES[lang]) for _ in range(rng.randint(1, 3 * size)))
    c['lang'] = lang
    c['ctx'] = ''.join(rng.choice(PIECES[lang]) for _ in range(rng.randint(0, 4)))
    c['samples'] = [base] + [shuffled(rng, base, lang) for _ in range(n - 1)]
    rng.shuffle(c['samples'])
    c['eval'] = shuffled(rng, base, lang)
  else:
    c['ctxtree'] = tree(rng, rng.randint(0, 5))
    ts = [tree(rng, rng.randint(1, 4 * size)) for _ in range(1 + n // 2)]
    ts = [rng.choice(ts) if rng.random() < .6 else tree(rng, rng.randint(1, 4 * size)) for _ in range(n + 1)]
    c['trees'] = ts
  return c


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  common.design(ctx, 'MC_Calls.tla', 'MC_Calls.cfg', env={'MAXNODES': '4' if q else '5'})
  ins = [case(rng, rng.randint(1, 4 if q else 5), i % 60 == 0) for i in range(1500 if q else 5000)]
  ins.sort(key=lambda c: repr(c['w']))
  common.conform(ctx, 'calls', 'Trace_Calls.tla', ins, case_timeout=120)
