"""Runs the check of each planted bug's property on a patched scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = '/verif'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
  prop = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
  mut = '/tmp/seed_run_%d' % os.getpid()
  shutil.rmtree(mut, ignore_errors=True)
  subprocess.run(['git', 'clone', '-q', '/repo', mut], check=True)
  subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], cwd=mut, check=True)
  p = subprocess.run([sys.executable, V + '/check.py', prop, '--tier', 'quick'], cwd=V,
                     env=dict(os.environ, VERIF_REPO=mut), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  o = p.stdout.decode()
  print(i, prop, 'CAUGHT' if p.returncode == 1 and 'VIOLATION property=' + prop in o else 'MISSED rc=%d' % p.returncode,
        next((l for l in o.splitlines() if l.startswith('rejected')), '')[:150], flush=True)
  shutil.rmtree(mut, ignore_errors=True)
