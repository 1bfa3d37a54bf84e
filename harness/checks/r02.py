import itertools
import random
from harness import common, gen_text as g


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Parser.tla', 'MC_Parser.cfg',
                env={'ALPHA': 'brackets', 'MAXLEN': '4' if q else '6'})
  langs = [l for l in g.LANGS if l != 'python']
  inputs = g.parse_inputs(
      ctx.seed, langs, 2000 if q else 8000,
      [(['simple'], '()[{};', 5 if q else 6),
       (['cpp'], '()[;{}', 4 if q else 6),
       (['java', 'javascript', 'python_preprocessor'], '(){};a', 3 if q else 5)],
      maxfrag=18 if q else 30)
  common.conform(ctx, 'parse', 'Trace_Parser.tla', inputs, env={'CLAUSES': 'tree'})
  common.design(ctx, 'MC_Matching.tla', 'MC_Matching.cfg', env={'MAXLEN': '4' if q else '5'})
  common.conform(ctx, 'matching', 'Trace_Matching.tla', matchings(ctx, q), tag='matching')


def unclosed(toks, pairs):
  """The closers that the openers left open still need, innermost first."""
  need = []
  for x in toks:
    if any(x == o for o, _ in pairs):
      need.append([c for o, c in pairs if o == x][0])
    elif need and x == need[-1]:
      need.pop()
  return need[::-1]


def matchings(ctx, q):
  """Token sequences with given pairs, separators and unsplittable pairs."""
  rng = random.Random(ctx.seed + 2)
  words = [(t, [[1, 2], [3, 4]]) for n in range(5 if q else 6)
           for t in itertools.product([1, 2, 3, 4, 5], repeat=n)]
  for _ in range(1500 if q else 8000):
    pairs = rng.sample([[1, 2], [3, 4], [8, 9], [2, 1], [4, 8], [10, 6]], rng.randint(0, 3))
    if len({x for p in pairs for x in p}) < 2 * len(pairs):
      continue
    words.append((tuple(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) for _ in range(rng.randint(1, 14))), pairs))
    if pairs:  # mostly brackets
      flat = [x for p in pairs for x in p] + [5]
      words.append((tuple(rng.choice(flat) for _ in range(rng.randint(4, 30))), pairs))
  out = []
  for toks, pairs in words:
    strict, fixed = rng.random() < .4, rng.random() < .7
    toks = list(toks)
    if not strict and not fixed:
      toks += unclosed(toks, pairs)
    out.append({'toks': toks, 'pairs': pairs, 'seps': [x for x in rng.sample([5, 6, 10], rng.randint(0, 2))
                         if not any(x in p for p in pairs)],
                'closed': rng.sample(pairs, rng.randint(0, min(1, len(pairs)))),
                'strict': strict, 'fixed': fixed, 'ints': rng.random() < .5})
  return out
