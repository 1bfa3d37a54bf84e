from harness import common, gen_text as g


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Cursor.tla', 'MC_Cursor.cfg',
                env={'ALPHA': 'braces', 'MAXLEN': '4' if q else '6'})
  common.design(ctx, 'MC_Cursor.tla', 'MC_Cursor.cfg',
                env={'ALPHA': 'indent', 'MAXLEN': '4' if q else '6'})
  langs = ['python', 'simple', 'cpp', 'java', 'javascript']
  inputs = g.parse_inputs(
      ctx.seed, langs, 500 if q else 4000,
      [(['java'], '{};a(', 5 if q else 6), (['python'], 'a \n(', 5 if q else 7)],
      maxfrag=14 if q else 25, big=160)
  for k, x in enumerate(inputs):
    x['mode'] = 'trunc'
    x['kind'] = ['braces', 'parens', 'squares', 'blocks'][k % 4]
    x['seps'] = [[g.cps(c)] for c in (';', '\n', ')', '}', '// c;{')][k % 5] + [[59], [10]][:k % 3]
    if x['lang'] == 'python' and k % 2:
      x['spi'] = 0
  common.conform(ctx, 'cursor', 'Trace_Cursor.tla', inputs, env={'CLAUSES': 'trunc'})
