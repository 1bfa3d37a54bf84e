import random
from harness import common, pipeline_inputs as P, trees as T


def segment(rng, text):
  out, i = [], 0
  while i < len(text):
    n = rng.choice([0, 1, 1, 2, 2, 3, 5])
    out.append([[ord(c) for c in text[i:i + n]], -rng.randint(1, 9)])
    i += n
  for _ in range(rng.choice([0, 0, 1])):
    out.insert(rng.randint(0, len(out)), [[], -rng.randint(1, 9)])
  return out


def chars(t):
  return ''.join(''.join(map(chr, n[1])) + chars(n[3]) for n in t)


def run(ctx):
  q = ctx.quick
  common.design(ctx, 'MC_Align.tla', 'MC_Align.cfg')
  rng = random.Random(ctx.seed)
  ins = []
  for _ in range(6000 if q else 20000):
    text = ''.join(rng.choice('abc<&\n"\t\r ') for _ in range(rng.randint(0, 10)))
    ins.append({'mode': 'reads', 'model': segment(rng, text),
                'lens': [rng.choice([0, 1, 1, 2, 3, 4, 7]) for _ in range(rng.randint(0, 6))]})
  leaves = [T.tok('a'), T.tok('bb'), T.tok(''), T.tok('cab'), T.tok('<b'), T.tok('&a;'), T.dec(' '), T.dec(''), T.dec('\n '), T.dec('\t'), T.tok('\r'),
            T.RS, T.RE, T.EE]
  for _ in range(10000 if q else 30000):
    t = T.random_tree(rng, rng.randint(1, 9), leaves, ['g'])
    text = chars(t)
    r = rng.random()
    if r < 0.15:
      text += rng.choice(['x', 'a', ' ', ''])
    elif r < 0.3 and text:
      k = rng.randrange(len(text))
      text = text[:k] + rng.choice(['', 'a', 'z']) + text[k + 1:]
    elif r < 0.35:
      text = text[:-1]
    ins.append({'mode': 'align', 'tree': t, 'model': segment(rng, text),
                'all': rng.random() < 0.5})
  for _ in range(800 if q else 5000):
    lang = rng.choice(sorted(P.STM))
    text = P.sample(rng, lang, rng.randint(0, 4))
    ins.append({'mode': 'show', 'lang': lang, 'ctx': [ord(c) for c in rng.choice(P.CTX[lang])],
                'model': segment(rng, text), 'realign': rng.random() < .7})
  common.conform(ctx, 'align', 'Trace_Align.tla', ins)
