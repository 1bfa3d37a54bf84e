import random
from harness import common, gen_text as g


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed + 5)
  texts = list(g.exhaustive('a \n', 6 if q else 8)) + list(g.exhaustive('a \n(', 5 if q else 6))
  for _ in range(3000 if q else 15000):
    texts.append(g.any_text(rng, 'python'))
    w = rng.choice([1, 2, 3, 4, 5, 6, 8])
    ls = []
    d = 0
    for _ in range(rng.randint(1, 6)):
      ls.append(' ' * (w * d) + rng.choice(['a', 'b:', '(', ')', '', '#']))
      d = max(0, d + rng.choice([-2, -1, 0, 1, 1, 2]))
    texts.append('\n'.join(ls))
  texts = sorted(set(t for t in texts if len(t) < 220))
  ins = [{'lang': 'python', 'text': g.cps(t), 'spi': 1, 'mode': 'indent',
          'cands': rng.sample([1, 2, 3, 4, 5, 6, 8], rng.randint(1, 4))}
         for t in texts]
  common.conform(ctx, 'cursor', 'Trace_Cursor.tla', ins, tag='indent',
                 env={'CLAUSES': 'indent'})
  frs = ['def f(x):', 'def f(x)', 'if y:', '"""d"""', "'''d\n  e'''", '"""', 'x = 1', '',
         "'''a(", '"s"', 'def ', 'class A:', 'async def g():', '"""a""" + b', '# c', 'f(', 'r"""d"""', "R'''d'''", 'b"""d"""']
  texts = []
  for _ in range(4500 if q else 20000):
    w = rng.choice([1, 2, 2, 4])
    ls, d = [], 0
    for _ in range(rng.randint(1, 6)):
      fr = rng.choice(frs)
      ls.append(' ' * (w * d + rng.choice([0, 0, 0, 0, 1])) + fr)
      if fr.startswith('def') or fr.endswith(':'):
        d += rng.choice([1, 1, 1, 1, 2, 0])
        if rng.random() < 0.6:
          ls.append(' ' * (w * d) + rng.choice(['"""d"""', "'''two\nl'''", '"""', '"x"', 'r"""d"""', 'f"""d"""']))
      elif rng.random() < 0.4:
        d = max(0, d - 1)
    texts.append('\n'.join(ls) + rng.choice(['', '\n']))
    if rng.random() < 0.3:  # the same function again, whole or from some line on
      again = ls[rng.randrange(len(ls)) if rng.random() < .5 else 0:]
      texts.append('\n'.join(ls + rng.choice([[], [''], ['x = 1']]) + again) + rng.choice(['', '\n']))
  texts += [g.structured_python(rng, maxl=3) for _ in range(900 if q else 4000)]
  texts = sorted(set(t for t in texts if len(t) < 250))
  ins = [{'lang': 'python', 'text': g.cps(t), 'spi': 0, 'mode': 'docs'} for t in texts]
  common.conform(ctx, 'cursor', 'Trace_Cursor.tla', ins, tag='docs',
                 env={'CLAUSES': 'docs'})
