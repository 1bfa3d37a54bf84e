import random
from harness import common, gen_text as g


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Parser.tla', 'MC_Parser.cfg',
                env={'ALPHA': 'indent', 'MAXLEN': '5' if q else '6'})
  inputs = g.parse_inputs(
      ctx.seed, ['python'], 1200 if q else 10000,
      [(['python'], 'a \n(', 6 if q else 8), (['python'], 'a:\n )', 5 if q else 7)],
      maxfrag=18 if q else 30)
  rng = random.Random(ctx.seed + 7)
  for _ in range(1500 if q else 10000):   # pure indentation profiles
    ls = []
    for _ in range(rng.randint(1, 8)):
      ls.append(' ' * rng.randint(0, 6) + rng.choice(
          ['a', 'b:', '', '', '(', ')', '#c', '"s"', 'f(\n  x)', '\t', "'''m\n  n'''"]))
    inputs.append({'lang': 'python', 'text': g.cps('\n'.join(ls) + rng.choice(['', '\n'])),
                   'spi': rng.choice([1, 2, 3, 4])})
  common.conform(ctx, 'parse', 'Trace_Parser.tla', inputs, env={'CLAUSES': 'tree'})
