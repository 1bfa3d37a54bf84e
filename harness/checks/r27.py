"""R27: answers depend on the arguments alone."""
import importlib, multiprocessing, random
from harness import common, pipeline_inputs as P

SOURCES = ['r02', 'r03', 'r04', 'r05', 'r06', 'r07', 'r08', 'r09', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15', 'r16',
           'r17', 'r18', 'r19', 'r20', 'r21', 'r22', 'r23', 'r24', 'r25', 'r26']


class Quiet:
  """Stands for the context of another check while its inputs are collected."""

  def __init__(self, ctx):
    self.quick, self.seed, self.scratch, self.prop = True, ctx.seed, ctx.scratch, ctx.prop


def collect(args):
  """Inputs of another check, by driver."""
  source, quiet, keep = args
  rng = random.Random(repr((source, quiet.seed)))
  out = {}

  def conform(_, driver, module, inputs, **__):
    ins = list(inputs)
    rng.shuffle(ins)
    out.setdefault(driver, []).extend(ins[:keep])
  common.design, common.generate, common.conform = (lambda *_, **__: None), (lambda *_, **__: []), conform
  importlib.import_module('harness.checks.' + source).run(quiet)
  return out


def pools(ctx, keep):
  out = {}
  with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
    for got in pool.imap(collect, [(s, Quiet(ctx), keep) for s in SOURCES], chunksize=1):
      for d, ins in got.items():
        out.setdefault(d, []).extend(ins)
  return out


def runner_calls(rng, n):
  lang = rng.choice(['python', 'python', 'cpp', 'java', 'simple'])
  D = rng.choice([1, 2, 4])
  ws = [{'w': k, 'D': D, 'P': rng.randint(0, D), 'S': rng.randint(0, D), 'C': rng.choice([0, 1, 2]), 'numba': False}
        for k in rng.sample(['unc', 'pre', 'both', 'calls'], 2)]
  base = P.sample(rng, lang, rng.randint(1, 3))
  out = []
  for _ in range(n):
    text = P.variant(rng, base, lang)
    if lang == 'python' and not text.endswith('\n'):
      text += '\n'
    model, i = [], 0
    while i < len(text):
      k = rng.randint(1, 4)
      model.append([[ord(c) for c in text[i:i + k]], rng.randint(0, 5)])
      i += k
    samples = [base, text] + [P.variant(rng, base, lang) for _ in range(rng.randint(0, 1))]
    out.append(['runner', {'w': rng.choice(ws), 'lang': lang, 'ctx': rng.choice(P.CTX[lang]), 'samples': samples,
                           'proto': rng.randrange(len(samples)), 'model': model,
                           'do': rng.choice(['combine', 'combine', 'baselines', 'probs', 'parse'])}])
  return out


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Sessions.tla', 'MC_Sessions.cfg', env={'MAXLEN': '5' if q else '7'})
  rng = random.Random(ctx.seed)
  pool = pools(ctx, 300 if q else 3000)
  ctx.log('calls collected', {d: len(x) for d, x in sorted(pool.items())})
  names = sorted(pool)
  ins = []
  for i in range(520 if q else 5000):
    calls = []
    if i % 4 == 0:
      calls = runner_calls(rng, rng.randint(3, 6))
    for d in rng.sample(names, rng.randint(1, 3)):
      src = sorted(rng.sample(pool[d], min(len(pool[d]), 12)), key=repr)  # neighbours look alike
      a = rng.randrange(len(src))
      calls += [[d, x] for x in src[a:a + rng.randint(1, 4)]]
    order = list(range(len(calls))) + [rng.randrange(len(calls)) for _ in range(rng.randint(0, 4))]
    rng.shuffle(order)
    ins.append({'calls': calls, 'order': order})
  rng.shuffle(ins)  # the long sessions spread over the workers
  common.conform(ctx, 'session', 'Trace_Sessions.tla', ins, case_timeout=120)
