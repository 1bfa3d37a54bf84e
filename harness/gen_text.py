"""Generators of source texts: exhaustive small scopes and random mixtures."""
import itertools, random

LANGS = ['python', 'python_preprocessor', 'simple', 'cpp', 'java', 'javascript']


def cps(s):
  return [ord(c) for c in s]


def text(cs):
  return ''.join(map(chr, cs))


def exhaustive(alphabet, maxlen):
  for n in range(maxlen + 1):
    for t in itertools.product(alphabet, repeat=n):
      yield ''.join(t)


FRAG_COMMON = ['a', 'foo', 'x_1', 'B2', '12', '3.', '4.5', '1e5', '+', '-', '*', '/',
               ',', '.', ';', ':', '=', '<', '>', '(', ')', '[', ']', '{', '}',
               '(', ')', '{', '}', ';', '\n', '\n', '\n', ' ', '  ', '    ', '\t',
               '@', '!', '%', '&', '|', '^', '~', '?', '$', '`', '\\', '"', "'",
               '\r', '\x0b', '\x0c', '\x85', '\xa0', '\u2003', '\u2028', '\x1c',
               '\u0663', '\u0967', '\xe9', '\u4e2d', '\U0001F600', '\u2581', '\xb2', '\u2460', '\xbd', '\u01c5', '\xaa', '#']
FRAG_PY = ['"a"', "'b('", '"""c\n)"""', "'''d'''", '"\\""', "'\\\\'", '"x\\', '"""',
           "'''", '# c(\n', '#;', 'def ', 'if ', 'return ', ':\n', '\n  ', '\n    ',
           '\n   ', '\n', 'pass', '\n\n', '\n \n', '"""doc"""', 'f"{a}"', '\n\t',
           '"""\\"""', "r'\\'", '\n      ', '\n  \n    ', '([\n', '\n])']
FRAG_C = ['"s;"', "'c'", '"a\\"b"', '"\\\\"', "'\\''", '// x;{\n', '/* { ; */', '/*',
          '*/', '//', '#include <a>', '#define F(x) \\\n y', '#if A', '#ifdef', '#in',
          '#ifndef Q\n', '#endif', '#error e|f', '#line 3', '#undef', '"a\\"', "'",
          'if (', ') {', '}\n', ';\n', 'return ', 'for (;;)', '/**/', '/***/', '#iffy',
          "'\\", '"\\\n"', '#define\\\n\\\nA', '# include']


def random_text(rng, lang, maxfrag):
  frags = FRAG_COMMON
  r = rng.random()
  if lang.startswith('python'):
    frags = FRAG_COMMON + FRAG_PY * 3
  elif lang != 'simple':
    frags = FRAG_COMMON + FRAG_C * 3
  if r < 0.1:  # mixtures of languages
    frags = FRAG_COMMON + FRAG_PY + FRAG_C
  if r > 0.8:  # bracket heavy
    frags = ['(', ')', '[', ']', '{', '}', ';', 'a', '\n', ' ', '\n  ']
  return ''.join(rng.choice(frags) for _ in range(rng.randint(0, maxfrag)))


def structured_python(rng, depth=0, maxl=5):
  """Mostly well-formed python with blocks, blank lines, multi-line brackets."""
  width = rng.choice([1, 2, 2, 4, 3])
  lines = []

  def block(ind, d):
    for _ in range(rng.randint(1, maxl)):
      r = rng.random()
      pad = ' ' * ind
      if r < 0.25 and d < 3:
        head = rng.choice(['if x:', 'def f(a, b):', 'for i in (1,\n 2):', 'else:',
                           'class A:', 'with f() as g:'])
        lines.append(pad + head)
        if rng.random() < 0.3:
          lines.append(rng.choice(['', '  ', pad + ' ']))
        if head.startswith('def') and rng.random() < 0.5:
          q = rng.choice(['"""', "'''"])
          lines.append(pad + ' ' * width + q + rng.choice(
              ['doc', 'two\nlines', 'a (b', '']) + q)
        block(ind + width * rng.choice([1, 1, 1, 2]), d + 1)
      elif r < 0.35:
        lines.append('')
      elif r < 0.4:
        lines.append(pad + '# comment (')
      elif r < 0.5:
        lines.append(pad + 'g(a,\n' + ' ' * rng.randint(0, 6) + 'b' + rng.choice([')', '']) )
      elif r < 0.6:
        lines.append(pad + 's = ' + rng.choice(['"q("', "'''m\n n'''", '"#"', '[1,\n2]']))
      elif r < 0.63:
        lines.append('\t' + 'x')
      elif r < 0.66:
        lines.append(pad + ' ' * rng.randint(0, 3) + 'odd')
      else:
        lines.append(pad + rng.choice(['pass', 'x = 1', 'return x', 'y += f(2)']))
  block(rng.choice([0, 0, 0, 0, width]), 0)
  return '\n'.join(lines) + rng.choice(['\n', '', '\n\n'])


def structured_brace(rng, maxl=5):
  out = []

  def block(d):
    for _ in range(rng.randint(0, maxl)):
      r = rng.random()
      if r < 0.3 and d < 3:
        out.append(rng.choice(['if (x) {', 'f() {', '{', 'class A {', 'while (a[1]) {']))
        out.append(rng.choice(['\n', ' ', '']))
        block(d + 1)
        out.append(rng.choice(['}', '}', '}', '};', '', '}\n', '} else ']))
      elif r < 0.4:
        out.append(rng.choice(['// c;{\n', '/* } */', '#define A(x) { x }\n']))
      elif r < 0.5:
        out.append(rng.choice(['s = "};";', "c = '{';", 'for (i = 0; i < n; i++) x;']))
      else:
        out.append(rng.choice(['x = 1;', 'return y;', 'f(a, b);', 'int z', ';', 'g(;']))
      out.append(rng.choice([' ', '\n', '', '  ']))
  block(0)
  return ''.join(out)


def any_text(rng, lang, maxfrag=14):
  if rng.random() < 0.1:  # the same text again: no piece may be found by its looks
    t = any_text(rng, lang, maxfrag // 2)
    t += '' if t.endswith('\n') else rng.choice(['\n', '', ';'])
    return t + rng.choice(['', '', '\n', 'x\n']) + t
  r = rng.random()
  if lang.startswith('python') and r < 0.4:
    return structured_python(rng, maxl=3)
  if lang in ('cpp', 'java', 'javascript', 'simple') and r < 0.4:
    return structured_brace(rng, maxl=3)
  return random_text(rng, lang, maxfrag)


def big_text(rng, lang):
  """Texts that are unusual in size: deep nesting, many levels, long tokens, many tokens."""
  r = rng.randrange(6)
  if r == 0:  # deep brackets, possibly unbalanced
    n = rng.randint(5, 24)
    op = [rng.choice('([{') for _ in range(n)]
    cl = [dict(zip('([{', ')]}'))[c] for c in reversed(op)]
    for _ in range(rng.choice([0, 0, 1, 2])):
      cl.pop(rng.randrange(len(cl)))
    mid = rng.choice(['a', 'x;', '', 'a; b', '\n'])
    return 'f' + rng.choice(['', ' ', ';']).join(op) + mid + rng.choice(['', ';', ' ']).join(cl) + rng.choice(['', ';\n', '\n'])
  if r == 1:  # many levels of indentation, left in one or in several steps
    w, n = rng.choice([1, 1, 2, 4]), rng.randint(6, 16)
    n = min(n, 26 // w)
    ls = [' ' * (w * d) + rng.choice(['if x:', 'for a in b:', 'a']) for d in range(n)]
    while n > 0 and rng.random() < .8:
      n -= rng.randint(1, n)
      ls.append(' ' * (w * n) + 'b')
    return '\n'.join(ls) + '\n'
  if r == 2:  # long tokens
    return ''.join(rng.choice(['x' * rng.randint(30, 150), '"' + 'y(;) ' * rng.randint(10, 40) + '"',
                               '1' * rng.randint(10, 60), ' ' * rng.randint(20, 90), '# ' + 'c{}' * rng.randint(5, 40) + '\n',
                               '// ' + 'd;' * rng.randint(5, 60) + '\n', '/* ' + 'e\n' * rng.randint(5, 30) + '*/', ';', '\n'])
                   for _ in range(rng.randint(1, 5)))
  if r == 3:  # many different tokens
    return ' '.join('v%d%s' % (i, rng.choice(['', ';', '\n', '()', '(x', ')'])) for i in range(rng.randint(40, 90)))
  if r == 4:  # many statements
    return ''.join(rng.choice(['a;', 'b\n', '{c}', '(d)', ';', '\n']) for _ in range(rng.randint(60, 200)))
  return '\n'.join(any_text(rng, lang) for _ in range(rng.randint(3, 8)))


def depth(t, spi):
  """About how deeply the parse of a text nests, in levels of JSON."""
  d = m = 0
  for c in t:
    d += c in '([{'
    d -= c in ')]}' and d > 0
    m = max(m, d)
  ind = max(len(l) - len(l.lstrip()) for l in t.split('\n')) // spi
  return 6 * m + 8 * ind


def parse_inputs(seed, langs, n, exhaust, maxfrag=14, big=700):
  """exhaust: list of (langs, alphabet, maxlen); plus n random texts per lang."""
  rng = random.Random(seed)
  seen = set()
  res = []

  def add(lang, t, spi):
    k = (lang, t, spi)
    if k not in seen and len(t) <= 220:
      seen.add(k)
      res.append({'lang': lang, 'text': cps(t), 'spi': spi})
  for ls, alphabet, maxlen in exhaust:
    for t in exhaustive(alphabet, maxlen):
      for l in ls:
        add(l, t, 1)
  for lang in langs:
    for _ in range(n):
      add(lang, any_text(rng, lang, maxfrag),
          rng.choice([1, 1, 2, 2, 3, 4]) if lang == 'python' else 1)
    for _ in range(max(12, n // 40)):
      t, spi = big_text(rng, lang)[:big], rng.choice([1, 2, 4]) if lang == 'python' else 1
      if depth(t, spi) <= 220:
        res.append({'lang': lang, 'text': cps(t), 'spi': spi})
  return res
