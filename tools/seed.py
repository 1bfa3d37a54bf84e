"""Turns a seed description into /verif/seeded/<id>/ after confirming it.

usage: seed.py FILE.py     FILE.py defines SEEDS = [dict(id, property, edits=[(path, old, new)],
                           demo=python source, needs, breaks)]
A seed is kept only if the patched tree passes the stable tests and the demo
passes on /repo and fails with the patch.
"""
import json, os, runpy, shutil, subprocess, sys
V, R = '/verif', '/repo'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/stubs:$PWD"
exec %s "$here/demo.py"
''' % PY


def sh(cmd, **k):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main(path):
  only = sys.argv[2:]
  for s in runpy.run_path(path)['SEEDS']:
    if only and s['id'] not in only:
      continue
    mut = '/tmp/seed_mut'
    shutil.rmtree(mut, ignore_errors=True)
    sh(['git', 'clone', '-q', R, mut])
    for f, old, new in s['edits']:
      p = os.path.join(mut, f)
      t = open(p).read()
      if t.count(old) != 1:
        print(s['id'], 'EDIT matches', t.count(old), 'times in', f)
        break
      open(p, 'w').write(t.replace(old, new))
    else:
      d = os.path.join(V, 'seeded', s['id'])
      shutil.rmtree(d, ignore_errors=True)
      os.makedirs(d)
      diff = sh(['git', 'diff'], cwd=mut).stdout
      open(d + '/patch.diff', 'wb').write(diff)
      open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
      open(d + '/demo.sh', 'w').write(DEMO)
      os.chmod(d + '/demo.sh', 0o755)
      shutil.copytree(V + '/stubs', d + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
      json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                open(d + '/meta.json', 'w'), indent=1)
      ok = sh(['bash', d + '/demo.sh'], cwd=R, timeout=280)
      bad = sh(['bash', d + '/demo.sh'], cwd=mut, timeout=280)
      t = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] + [
          'r_u_sure/' + m for m in STABLE], cwd=mut)
      tests = t.stdout.decode().strip().splitlines()[-1]
      good = ok.returncode == 0 and bad.returncode != 0 and t.returncode == 0
      print(s['id'], 'KEPT' if good else 'REJECTED', '| clean', ok.returncode, '| patched',
            bad.returncode, bad.stdout.decode().strip().splitlines()[-1:], '|', tests)
      if not good:
        print(ok.stdout.decode()[-800:], t.stdout.decode()[-800:] if t.returncode else '')
        shutil.rmtree(d)
    shutil.rmtree(mut, ignore_errors=True)


STABLE = ['parsing/pseudo_parser/stack_parser_test.py', 'parsing/pseudo_parser/utilities_test.py',
          'parsing/sequence_from_pseudo_parse_test.py', 'tree_structure/sequence_node_helpers_test.py',
          'tree_structure/transforms_test.py']
main(sys.argv[1])
