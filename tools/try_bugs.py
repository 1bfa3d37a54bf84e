"""Tries hand-written bugs: usage try_bugs.py FILE.py [names]; FILE defines
BUGS = [(name, path, old, new, 'R01 R02')].  Prints per bug which checks catch it."""
import os, runpy, shutil, subprocess, sys
V = os.environ.get('MUT_VERIF', '/verif')
STABLE = ['parsing/pseudo_parser/stack_parser_test.py', 'parsing/pseudo_parser/utilities_test.py',
          'parsing/sequence_from_pseudo_parse_test.py', 'tree_structure/sequence_node_helpers_test.py',
          'tree_structure/transforms_test.py']
only = sys.argv[2:]
for name, path, old, new, props in runpy.run_path(sys.argv[1])['BUGS']:
  if only and name not in only:
    continue
  mut = '/tmp/try_%d' % os.getpid()
  shutil.rmtree(mut, ignore_errors=True)
  subprocess.run(['git', 'clone', '-q', '/repo', mut], check=True)
  p = os.path.join(mut, 'r_u_sure', path)
  t = open(p).read()
  if t.count(old) != 1:
    print(name, 'EDIT matches', t.count(old), flush=True)
    continue
  open(p, 'w').write(t.replace(old, new))
  r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] +
                     ['r_u_sure/' + m for m in STABLE], cwd=mut, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  if r.returncode:
    print(name, 'fails the tests', flush=True)
  else:
    for prop in props.split():
      c = subprocess.run([sys.executable, V + '/check.py', prop, '--tier', 'quick'], cwd=V,
                         env=dict(os.environ, VERIF_REPO=mut), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
      o = c.stdout.decode()
      hit = c.returncode == 1 and 'VIOLATION property=' + prop in o
      print(name, prop, 'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode,
            next((l for l in o.splitlines() if l.startswith('rejected')), '')[:110], flush=True)
      if hit:
        break
  shutil.rmtree(mut, ignore_errors=True)
