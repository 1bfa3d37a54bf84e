"""Prototype / target / parameter / decision cases."""
import copy
from harness import trees as T
from harness.regions import random_vector, flat

TEXTS = ['a', 'b', 'ab', 'abc', '']
RARE = ['A', 'a ', ' a', ' ', '\n', '\xe9', '\u65e5\u672c', 'e\u0301', '0']


def text(rng):
  return rng.choice(TEXTS[:4] if rng.random() < .9 else RARE)


def prototype(rng, n, exits=True, regions=True, empty=.05):
  lv = [T.tok(text(rng), rng.choice(['t', 't', 't', 'u'])) for _ in range(4)] + [T.dec(' ')]
  if rng.random() < empty:
    lv += [T.tok('', 't'), T.tok('', 'u')]
  if regions:
    lv += [T.RS, T.RE] * rng.randint(1, 2)
  if exits:
    lv += [T.EE] * rng.randint(0, 2)
  make = T.large_tree if n >= 20 else T.random_tree
  return make(rng, n, lv, ['g', 'g', 'h'], pg=rng.choice([0, .15, .35]))


def marked(rng, t):
  """Markers put between most of the nodes."""
  out = []
  for k, x, ty, ch in t:
    out += [T.RS] * (rng.random() < .7) + [[k, x, ty, marked(rng, ch)]] + [T.RE] * (rng.random() < .7)
  return out


def wide(rng, empty=.05):
  """A prototype with long sequences of nodes and markers in its groups."""
  leaf = lambda: T.tok(text(rng), rng.choice(['t', 't', 't', 'u'])) if rng.random() < .8 else T.dec(' ')
  t = [T.grp([leaf() for _ in range(rng.randint(5, 14))], 'g')]
  for _ in range(rng.randint(0, 1)):
    t = [T.grp([leaf() for _ in range(rng.randint(0, 2))] + t, 'g'), leaf()]
  return marked(rng, t)


def strip(t):
  return [[k, x, ty, strip(ch)] for k, x, ty, ch in t if k not in ('RS', 'RE', 'EE')]


def mutate(rng, t, k):
  """k random edits on a tree without control nodes."""
  t = copy.deepcopy(t)
  for _ in range(k):
    seqs = []

    def walk(s):
      seqs.append(s)
      for n in s:
        if n[0] == 'GRP':
          walk(n[3])
    walk(t)
    s = rng.choice(seqs)
    r = rng.random()
    if r < .35 and s:
      s.pop(rng.randrange(len(s)))
    elif r < .7:
      new = rng.choice([T.tok(text(rng)), T.tok(text(rng)), T.dec('\n'),
                        T.grp([T.tok('b')]), T.grp([])])
      s.insert(rng.randrange(len(s) + 1), copy.deepcopy(new))
    elif r < .8 and s:
      i = rng.randrange(len(s))
      s[i:i + 1] = s[i][3] if s[i][0] == 'GRP' else [T.grp([s[i]], rng.choice(['g', 'h']))]
    elif r < .9 and len(s) > 1:
      i = rng.randrange(len(s) - 1)
      s[i], s[i + 1] = s[i + 1], s[i]
    elif s:
      i = rng.randrange(len(s))
      if s[i][0] == 'TOK':
        s[i] = T.tok(text(rng), rng.choice(['t', 'u']))
      elif s[i][0] == 'GRP':
        s[i] = T.grp(s[i][3], rng.choice(['g', 'h']))
  return t


def retype(rng, t):
  return [[k, x, rng.choice([['=', 't'], ['=', 'u']]) if k == 'TOK' and rng.random() < .3 else ty, retype(rng, ch)]
          for k, x, ty, ch in t]


def target(rng, p, n, empty=.05):
  if rng.random() < .75:
    t = mutate(rng, strip(p), rng.randint(0, 3))
    return retype(rng, t) if rng.random() < .15 else t
  return strip(prototype(rng, n, False, False, empty))


def params(rng):
  r = rng.random()
  if r < .2:
    return dict(hm=1, hd=1, lm=1, ld=0, ins=0, reg=1, hs=2, ls=1)
  if r < .3:
    return dict(hm=0, hd=0, lm=0, ld=0, ins=1, reg=0, hs=0, ls=0)
  return dict(hm=rng.randint(0, 9), hd=rng.randint(0, 9), lm=rng.randint(-3, 9), ld=rng.randint(0, 9),
              ins=rng.choice([0, 0, 1, 2, 5]), reg=rng.randint(0, 7), hs=rng.randint(0, 12),
              ls=rng.randint(0, 12))


def cross_vector(rng, t):
  """Consistent decisions whose regions need not respect groups; sometimes spoilt."""
  L = flat(t)
  v, low, done = [], False, False
  for k, _, _ in L:
    if k == 'DEC' or done:
      v.append(3)
    elif k == 'RS':
      v.append(3 if low else rng.choice([1, 2]))
      low = low or v[-1] == 2
    elif k == 'RE':
      v.append(rng.choice([1, 2]) if low else 3)
      low = low and v[-1] != 2
    elif k == 'EE':
      v.append(rng.choice([1, 1, 2]))
      done = v[-1] == 2
    else:
      v.append(2 if low else 1)
  if v and rng.random() < .4:
    i = rng.randrange(len(v))
    if L[i][0] != 'DEC':
      v[i] = rng.choice([1, 2, 3])
  return v


def vectors(rng, p, k):
  out = []
  for _ in range(k):
    v = random_vector(rng, p, p_exit=rng.choice([0, .2, .5])) if rng.random() < .6 else cross_vector(rng, p)
    if v is not None and v not in out:
      out.append(v)
  return out


def case(rng, n, nv, p=None):
  p = prototype(rng, n) if p is None else p
  return {'p': p, 't': target(rng, p, n), 'pr': params(rng), 'vs': vectors(rng, p, nv)}
