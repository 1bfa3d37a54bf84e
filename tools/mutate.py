"""mutate.py SEED N FILE[:LO-HI] PROP... : random mutants of FILE that survive the stable tests, run through the checks."""
import ast, os, random, shutil, subprocess, sys, json
V = os.environ.get('MUT_VERIF') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = ['parsing/pseudo_parser/stack_parser_test.py','parsing/pseudo_parser/utilities_test.py','parsing/sequence_from_pseudo_parse_test.py','tree_structure/sequence_node_helpers_test.py','tree_structure/transforms_test.py']
RUN = '''
import sys; sys.path.insert(0, %r); sys.argv = ['check.py', %r]
from harness import common
common.design = lambda *a, **k: None
import check; check.main()
'''
def muts(src):
  t = ast.parse(src)
  lines = src.split('\n')
  off = [0]
  for l in lines: off.append(off[-1] + len(l.encode()) + 1)
  b = src.encode()
  pos = lambda n: (off[n.lineno-1] + n.col_offset, off[n.end_lineno-1] + n.end_col_offset)
  out = []
  skip = set()
  for n in ast.walk(t):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      for d in n.decorator_list: skip |= {id(x) for x in ast.walk(d)}
      if n.returns: skip |= {id(x) for x in ast.walk(n.returns)}
      for a in n.args.args + n.args.kwonlyargs:
        if a.annotation: skip |= {id(x) for x in ast.walk(a.annotation)}
      if n.name in ('__repr__','__str__'): skip |= {id(x) for x in ast.walk(n)}
    if isinstance(n, ast.AnnAssign): skip |= {id(x) for x in ast.walk(n.annotation)}
    if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Subscript)) :
      if isinstance(n, ast.Raise): skip |= {id(x) for x in ast.walk(n)}
    if isinstance(n, ast.Assert): skip |= {id(x) for x in ast.walk(n)}
    if isinstance(n, ast.JoinedStr): skip |= {id(x) for x in ast.walk(n)}
  CMP = {ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is',ast.In:'not in',ast.NotIn:'in'}
  for n in ast.walk(t):
    if id(n) in skip: continue
    seg = lambda x: b[slice(*pos(x))].decode()
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      out.append((*pos(n), '(%s) %s (%s)' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0]))))
    elif isinstance(n, ast.BoolOp):
      op = ' or ' if isinstance(n.op, ast.And) else ' and '
      out.append((*pos(n), '(' + op.join('(%s)' % seg(v) for v in n.values) + ')'))
      for k in range(len(n.values)):
        rest = [v for j, v in enumerate(n.values) if j != k]
        o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
        out.append((*pos(n), '(' + o2.join('(%s)' % seg(v) for v in rest) + ')'))
    elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
      out.append((*pos(n), str(not n.value)))
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
      out.append((*pos(n), repr(n.value + 1)))
      if n.value == 1: out.append((*pos(n), repr(n.value - 1)))
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
      out.append((*pos(n), '(%s %s %s)' % (seg(n.left), '-' if isinstance(n.op, ast.Add) else '+', seg(n.right))))
      out.append((*pos(n), '(%s)' % seg(n.left)))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
      out.append((*pos(n), '(%s)' % seg(n.operand)))
    elif isinstance(n, ast.If):
      out.append((*pos(n.test), 'False'))
      out.append((*pos(n.test), 'True'))
    elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Break, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
      out.append((*pos(n), 'pass'))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
      out.append((*pos(n.func), 'max' if n.func.id == 'min' else 'min'))
    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
      pass
  return b, out
def main():
  seed, N, f, props = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
  lo, hi = 0, 10**9
  if ':' in f:
    f, r = f.split(':'); lo, hi = map(int, r.split('-'))
  rng = random.Random(seed)
  src = open('/repo/r_u_sure/' + f).read()
  b, out = muts(src)
  out = [m for m in out if lo <= b[:m[0]].count(b'\n') + 1 <= hi]
  rng.shuffle(out)
  d = '/tmp/mutant_%d' % os.getpid()
  shutil.rmtree(d, ignore_errors=True)
  shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
  p = d + '/r_u_sure/' + f
  done = caught = tested = 0
  for (i, j, new) in out:
    if done >= N: break
    m = b[:i] + new.encode() + b[j:]
    try: compile(m, f, 'exec')
    except SyntaxError: continue
    open(p, 'wb').write(m)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d)
    try:
      r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'] + ['r_u_sure/' + s for s in STABLE], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
      rc = r.returncode
    except subprocess.TimeoutExpired: rc = 1
    if rc: tested += 1; continue
    done += 1
    line = b[:i].count(b'\n') + 1
    desc = '%s:%d  %s  ->  %s' % (f, line, ' '.join(b[i:j].decode().split())[:90], ' '.join(new.split())[:90])
    res = []
    for pr in props:
      try:
        r = subprocess.run(['python3', '-B', '-c', RUN % (V, pr)], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'), capture_output=True, text=True, timeout=900)
        rc = r.returncode
      except subprocess.TimeoutExpired: rc = 'T'
      res.append('%s:%s' % (pr, rc))
      if rc == 1: break
    ok = res[-1].endswith(':1')
    caught += ok
    print('CAUGHT' if ok else 'SURVIVED', desc, res, flush=True)
  print('DONE', f, 'killed by tests', tested, 'ran', done, 'caught', caught, flush=True)
  shutil.rmtree(d, ignore_errors=True)
main()
