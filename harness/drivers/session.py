"""Observes sessions: many calls in one process, and each call alone in a fresh process.

A call is [driver, input]; its answer is what that driver observes (as a digest).  The
process that forks never makes a call itself, so every fork starts from a fresh state.
The lone calls run under another hash seed than the session.
"""
import hashlib, importlib, json, os, subprocess, sys, traceback

NAMES = ['parse', 'matching', 'cursor', 'convert', 'trees', 'packed', 'align', 'dag', 'pack', 'memo', 'best', 'solver',
         'constraint', 'edit', 'select', 'extract', 'script', 'costs', 'pipeline', 'baselines', 'calls', 'drawing',
         'runner']
_SERVER = None


def digest(x):
  return int(hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:7], 16)


def answer(call):
  try:
    r = importlib.import_module('harness.drivers.' + call[0]).observe(call[1])
  except Exception as e:
    if os.environ.get('VERIF_DEBUG'):
      traceback.print_exc()
    r = {'exc': type(e).__name__}
  return [digest(r), 0 if isinstance(r, dict) and r.get('changed') else 1]


def forked(calls):
  """The answers to the calls, made one after the other in a fork of this process."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      out = []
      for c in calls:
        out.append(answer(c))
      with os.fdopen(w, 'w') as f:
        json.dump(out, f)
      os._exit(0)
    except BaseException:
      traceback.print_exc()
      os._exit(1)
  os.close(w)
  try:
    with os.fdopen(r) as f:
      data = f.read()
  except BaseException:
    os.kill(pid, 9)
    raise
  finally:
    os.waitpid(pid, 0)
  return json.loads(data) if data else [[-1, 1]] * len(calls)


def setup():
  for n in NAMES:
    importlib.import_module('harness.drivers.' + n)


def server():
  global _SERVER
  if _SERVER is None or _SERVER.poll() is not None:
    env = dict(os.environ, PYTHONHASHSEED='1')
    _SERVER = subprocess.Popen([sys.executable, '-m', 'harness.drivers.session'], env=env, stdin=subprocess.PIPE,
                               stdout=subprocess.PIPE, text=True)
  return _SERVER


def alone(calls):
  s = server()
  s.stdin.write(json.dumps(calls) + '\n')
  s.stdin.flush()
  return json.loads(s.stdout.readline())


def observe(inp):
  calls = inp['calls']
  try:
    fresh = alone(calls)
    log = forked([calls[i] for i in inp['order']])
  except BaseException:
    if _SERVER is not None:
      _SERVER.kill()
    raise
  return {'fresh': [a for a, _ in fresh],
          'log': [[i + 1, a, ok] for i, (a, ok) in zip(inp['order'], log)]}


def serve():
  out = os.fdopen(os.dup(1), 'w')
  os.dup2(2, 1)  # whatever the code prints
  setup()
  for line in sys.stdin:
    out.write(json.dumps([forked([c])[0] for c in json.loads(line)]) + '\n')
    out.flush()


if __name__ == '__main__':
  serve()
