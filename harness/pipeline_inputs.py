"""Contexts and samples: short programs that differ in a few tokens."""
import random
CTX = {
    'python': ['', 'x = 1\n', 'def f(a):\n  ', 'foo(', 'import os\n\n', 'x = ', 'if a:\n    b\n', '# <&>\n', 'y', 'a\r\n'],
    'cpp': ['', 'int x = 1;\n', 'void f() {\n  ', 'foo('],
    'java': ['', 'class A {', 'int x;\n'],
    'javascript': ['', 'let x = ', 'f(() => {'],
    'simple': ['', 'a (', 'b'],
    'raw_simple_tokens': ['', 'ab ', 'fooB'],
}
STM = {
    'python': ['a', 'a()\n', 'foo(b)\n', 'return a\n', 'x = a + b\n', '"s t"', '(a', 'b)', '  c\n', 'if a:\n  b\n', '# n\n', '[1, 2]', '\n', 'a<b>&c', 'c\r\n'],
    'cpp': ['a();', 'x = b;', '{ c; }', '// n\n', '"s"', 'f(a, b);', '}', 'a<b', 'a;\r\n'],
    'java': ['a();', 'x = b;', '{ c; }', '/* n */', '"s"', 'f(a);'],
    'javascript': ['a();', 'x = b;', '{ c; }', '// n\n', "'s'", 'f(a)'],
    'simple': ['a', '(b)', '[c d]', ' ', 'e.'],
    'raw_simple_tokens': ['a', 'Bc', '_d', ' ', '12', '(', 'x1'],
}


def sample(rng, lang, k):
  return ''.join(rng.choice(STM[lang]) for _ in range(k))


def variant(rng, s, lang):
  """Another sample for the same place."""
  r = rng.random()
  if r < .2:
    return s
  i = rng.randrange(len(s) + 1)
  if r < .45:
    return s[:i] + rng.choice(STM[lang]) + s[i:]
  if r < .7:
    return s[:i] + s[i + rng.randint(1, 3):]
  if r < .85:
    return s.replace('a', 'b') if 'a' in s else s + 'b'
  return sample(rng, lang, rng.randint(0, 2))


def case(rng, size, numba):
  lang = rng.choice(['python', 'python', 'python', 'cpp', 'java', 'javascript', 'simple', 'raw_simple_tokens'])
  base = sample(rng, lang, rng.randint(1, size))
  n = rng.randint(1, 4)
  samples = [base] + [variant(rng, base, lang) for _ in range(n - 1)]
  rng.shuffle(samples)
  D = rng.choice([1, 2, 4, 8])
  w = {'w': rng.choice(['unc', 'unc', 'both', 'pre']), 'D': D, 'P': rng.randint(0, D),
       'S': rng.randint(0, D), 'C': rng.choice([0, 0, 1, 2, 5]), 'numba': numba}
  wt = [rng.choice([1, 1, 2, 3, 4, 8]) for _ in samples]
  return {'w': w, 'lang': lang, 'ctx': rng.choice(CTX[lang]), 'samples': samples,
          'proto': rng.randrange(n), 'weights': wt, 'wd': rng.choice([8, 8, 1, 1024, 1 / 64]), 'eval': variant(rng, base, lang),
          'timeout': rng.choice([0, 5]), 'nv': 3, 'seed': rng.randrange(1 << 30)}
