import random
from harness import common, gen_text as g


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Convert.tla', 'MC_Convert.cfg', env={'MAXLEN': '5' if q else '6'})
  rng = random.Random(ctx.seed + 6)
  ins = g.parse_inputs(ctx.seed, ['python', 'simple', 'cpp', 'java', 'javascript'],
                       3000 if q else 5000,
                       [(['python'], 'a"\n (', 4 if q else 6), (['java'], "a';( ", 4 if q else 5)],
                       maxfrag=12 if q else 20)
  words = ['A', 'b', 'C', '1', '_', ' ', 'Foo', 'HTTP', 'x9', '  ', '\t', '\t\t', '\n', '.',
           '\u0663', '\xe9', '\xc9', '\u4e2d', ' ' * 19, ' ' * 21, '"', '\\', '\r', '$$', '\u0394', '\u03b4']
  for _ in range(3000 if q else 15000):
    s = ''.join(rng.choice(words) for _ in range(rng.randint(0, 8)))
    if rng.random() < 0.4:
      q3 = rng.choice(['"', "'", '"""'])
      ins.append({'lang': 'python', 'text': g.cps('x = ' + q3 + s.replace('"', '') + q3), 'spi': 1})
    ins.append({'lang': 'simple', 'text': g.cps(s), 'spi': 1})
  for s in g.exhaustive('Ab1_ ', 4 if q else 6):
    ins.append({'lang': 'simple', 'text': g.cps(s), 'spi': 1})
  kinds = ['ROOT', 'MATCH', 'MATCH_LEFT', 'MATCH_RIGHT', 'MATCH_INNER', 'CONTENT_LEAF',
           'NON_CONTENT_LEAF', 'WHITE_SPACE_LEAF', 'SPLIT_GROUP', 'STRING_LITERAL']
  for x in ins:
    ks = kinds[:]
    rng.shuffle(ks)
    a, b = rng.randint(0, 3), rng.randint(0, 3)
    x['decor'], x['sub'] = ks[:a], ks[a:a + b]
  common.conform(ctx, 'convert', 'Trace_Convert.tla', ins)
