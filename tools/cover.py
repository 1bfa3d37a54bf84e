"""cover.py [IDS...]: runs the quick checks (without their design stages) and lists lines of /repo never run."""
import ast, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo/r_u_sure/'
RUN = """
import sys; sys.path.insert(0, %r); sys.argv = ['check.py', %r]
from harness import common
common.design = lambda *a, **k: None
common.judge = lambda *a, **k: []
import check; check.main()
"""
ids = sys.argv[1:] or ['R%02d' % i for i in range(1, 27)]
d = tempfile.mkdtemp(prefix='cover_')
for i in ids:
  subprocess.run([sys.executable, '-B', '-c', RUN % (V, i)], cwd=V, env=dict(os.environ, VERIF_COVER=d),
                 stdout=subprocess.DEVNULL)
seen = {}
for f in os.listdir(d):
  for p, n in json.load(open(os.path.join(d, f))):
    seen.setdefault(p, set()).add(n)
shutil.rmtree(d)


def code_lines(src):
  """Lines that begin a statement inside a function."""
  out = set()
  for fn in ast.walk(ast.parse(src)):
    if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
      for s in ast.walk(fn):
        if isinstance(s, ast.stmt) and s is not fn and not (
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(
                s, (ast.Global, ast.Nonlocal, ast.AnnAssign)):
          out.add(s.lineno)
  return out


for root, _, fs in sorted(os.walk(R)):
  for f in sorted(fs):
    p = os.path.join(root, f)[len(R):]
    if not f.endswith('.py') or '_test' in f or p.startswith('testing/'):
      continue
    src = open(R + p).read()
    want = code_lines(src)
    if not want:
      continue
    miss = sorted(want - seen.get(p, set()))
    print('%s: %d of %d statements run' % (p, len(want) - len(miss), len(want)))
    L = src.splitlines()
    for n in miss:
      print('   %5d %s' % (n, L[n - 1].strip()[:110]))
