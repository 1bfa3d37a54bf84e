import random
from harness import common, pipeline_inputs as P


def run(ctx):
  q = ctx.quick
  rng = random.Random(ctx.seed)
  common.design(ctx, 'MC_Pipeline.tla', 'MC_Pipeline.cfg', env={'MAXNODES': '2' if q else '3'})
  ins = [P.case(rng, rng.randint(1, 2 if q else 3), i % 16 == 0) for i in range(600 if q else 6000)]
  ins.sort(key=lambda c: repr(c['w']))
  common.conform(ctx, 'pipeline', 'Trace_Pipeline.tla', ins, case_timeout=120)
