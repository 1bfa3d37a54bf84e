from harness import common, gen_text as g


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Parser.tla', 'MC_Parser.cfg',
                env={'ALPHA': 'literals', 'MAXLEN': '3' if q else '5'})
  inputs = g.parse_inputs(
      ctx.seed, g.LANGS, 2500 if q else 6000,
      [(['python', 'java', 'cpp'], '"\'\\#\n/*a', 3 if q else 5),
       (['python'], '"\\\'', 6 if q else 9),
       (['java', 'cpp'], '"/*\\', 5 if q else 7)],
      maxfrag=14 if q else 25)
  common.conform(ctx, 'parse', 'Trace_Parser.tla', inputs, env={'CLAUSES': 'lex'})
