"""Subprocess: runs one driver's observe() over a file of inputs."""
import atexit, importlib, json, os, resource, signal, sys, time, traceback


class CaseTimeout(BaseException):
  pass


def cover(d):
  """Notes which lines of the code under test run (tools/cover.py reads the notes)."""
  m, seen = sys.monitoring, set()
  m.use_tool_id(m.COVERAGE_ID, 'cover')

  def line(code, no):
    if '/r_u_sure/' in code.co_filename:
      seen.add((code.co_filename.split('/r_u_sure/', 1)[1], no))
    return m.DISABLE
  m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
  m.set_events(m.COVERAGE_ID, m.events.LINE)

  def dump():
    with open(os.path.join(d, '%d.json' % os.getpid()), 'w') as f:
      json.dump(sorted(seen), f)
  atexit.register(dump)


def main():
  if os.environ.get('VERIF_COVER'):
    cover(os.environ['VERIF_COVER'])
  name, ip, op, tmo = sys.argv[1:5]
  tmo = int(float(tmo))
  budget = float(sys.argv[5])  # seconds for the whole file
  t0, hung = time.time(), 0
  resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
  sys.setrecursionlimit(5000)

  def on_alarm(*_):
    raise CaseTimeout()
  signal.signal(signal.SIGALRM, on_alarm)
  mod, imp_err = None, None
  try:
    mod = importlib.import_module('harness.drivers.' + name)
    if hasattr(mod, 'setup'):
      mod.setup()
  except Exception as e:  # the code under test cannot even be imported
    traceback.print_exc()
    imp_err = type(e).__name__
  with open(ip) as fi, open(op, 'w') as fo:
    for line in fi:
      c = json.loads(line)
      if hung >= 2 or time.time() - t0 > budget:
        break  # the rest stays unobserved
      if imp_err:
        c['out'] = {'exc': 'import:' + imp_err}
      else:
        signal.alarm(tmo)
        try:
          c['out'] = mod.observe(c['in'])
        except CaseTimeout:
          c['out'] = {'exc': 'Timeout'}
          hung += 1
        except MemoryError:
          c['out'] = {'exc': 'MemoryError'}
          hung += 1
        except Exception as e:
          c['out'] = {'exc': type(e).__name__, 'msg': str(e)[:200],
                      'tb': traceback.format_exc()[-600:]}
        finally:
          signal.alarm(0)
      fo.write(json.dumps(c) + '\n')
      fo.flush()


if __name__ == '__main__':
  main()
