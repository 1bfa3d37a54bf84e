"""Shared machinery of all checks: drivers, TLC runner, verdicts, evidence.

A check is a list of *stages*.  There are two kinds of stages:

* design stages: TLC explores a bounded model of the specification by itself
  (MC_*.cfg) and checks the specification's own invariants;
* conformance stages: a driver runs the real code of /repo on many inputs and
  records inputs and observable results as one JSON case per line; TLC then
  runs the specification on every recorded case and judges it.  TLC must print
  exactly one verdict (OK/BAD) for every case, otherwise the run is a machinery
  error and not a verdict.

Only exit 0, and exit 1 with a VIOLATION line, are verdicts.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
STUBS = os.path.join(VERIF, 'stubs')
PY = '/opt/venv/bin/python'
NPROC = min(8, os.cpu_count() or 8)


class Enough(Exception):
  """A quick check has its answer: a violation was found."""


class MachineryError(Exception):
  pass


class Ctx:
  def __init__(self, prop, tier, seed):
    self.prop, self.tier, self.seed = prop, tier, seed
    self.quick = tier == 'quick'
    self.t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    self.states = self.transitions = self.traces = 0
    self.samples, self.stages, self.bad = [], [], []
    self.assumptions = []

  def close(self):
    shutil.rmtree(self.scratch, ignore_errors=True)

  def log(self, *a):
    print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)


# ---------------------------------------------------------------- drivers
def driver_env():
  env = dict(os.environ)
  env['PYTHONPATH'] = os.pathsep.join([STUBS, REPO, VERIF])
  env['PYTHONDONTWRITEBYTECODE'] = '1'
  env['PYTHONHASHSEED'] = '0'
  for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    env[k] = '1'
  return env


def drive(ctx, driver, inputs, tag, case_timeout=30):
  """Runs observe() of the driver on all inputs, in parallel subprocesses."""
  n = max(1, min(NPROC, (len(inputs) + 19) // 20))
  procs = []
  for s in range(n):
    ip = os.path.join(ctx.scratch, '%s_%d.in' % (tag, s))
    op = os.path.join(ctx.scratch, '%s_%d.out' % (tag, s))
    with open(ip, 'w') as f:
      for i in range(s, len(inputs), n):
        f.write(json.dumps({'id': i + 1, 'in': inputs[i]}) + '\n')
    procs.append((op, subprocess.Popen(
        [PY, '-m', 'harness.drive', driver, ip, op, str(case_timeout),
         '240' if ctx.quick else '3600'],
        env=driver_env(), cwd=VERIF, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT)))
  cases = {}
  for k, (op, p) in enumerate(procs):
    out, _ = p.communicate()
    if os.path.exists(op):
      with open(op) as f:
        for line in f:
          if line.endswith('\n'):
            c = json.loads(line)
            cases[c['id']] = c
    if p.returncode != 0:
      ctx.log('driver process ended with', p.returncode, out.decode()[-2000:])
      # a case whose process died is an observation as well
      lost = [i for i in range(k, len(inputs), n) if i + 1 not in cases]
      if lost:
        cases[lost[0] + 1] = {'id': lost[0] + 1, 'in': inputs[lost[0]], 'out': {'exc': 'ProcessDied'}}
  # cases after several that did not come back, or past the time for the stage, stay out
  if len(cases) < len(inputs):
    ctx.log('not observed:', len(inputs) - len(cases), 'of', len(inputs))
  return [cases[i] for i in sorted(cases)]


# ---------------------------------------------------------------- TLC
RE_STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
RE_VERDICT = re.compile(r'^<<\s*"(OK|BAD)",\s*(\d+)\s*(?:,\s*(.*?))?\s*>>\s*$', re.M | re.S)


def run_tlc(ctx, module, cfg, env=None, timeout=3000, workers=NPROC, extra=(),
            heap='12g'):
  meta = tempfile.mkdtemp(prefix='tlc_', dir=ctx.scratch)
  e = dict(os.environ)
  e.pop('JAVA_TOOL_OPTIONS', None)
  e['JAVA_TOOL_OPTIONS'] = '-Xss64m -Xmx%s -XX:-UsePerfData -Djava.io.tmpdir=%s' % (heap, meta)
  e.update(env or {})
  cmd = ['tlc', '-config', cfg, '-workers', str(workers), '-deadlock',
         '-metadir', meta, '-noGenerateSpecTE', '-nowarning', '-fpmem', '0.25'] + list(extra) + [module]
  try:
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    out, rc = p.stdout.decode(errors='replace'), p.returncode
  except subprocess.TimeoutExpired as ex:
    out, rc = (ex.stdout or b'').decode(errors='replace'), 'timeout'
  shutil.rmtree(meta, ignore_errors=True)
  m = None
  for m in RE_STATES.finditer(out):
    pass
  st = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
  return rc, out, st


def design(ctx, module, cfg, timeout=1500, workers=NPROC, min_states=2,
           extra=(), env=None):
  """Explores a bounded model of the specification alone."""
  rc, out, st = run_tlc(ctx, module, cfg, timeout=timeout, workers=workers,
                        extra=extra, env=env)
  ok = rc == 0 and 'No error has been found' in out or (
      rc == 0 and '-simulate' in extra)
  ctx.log('design', cfg, 'rc', rc, 'distinct', st[0], 'generated', st[1])
  if not ok or st[0] < min_states:
    # The specification itself is wrong: a fault of the machinery.
    sys.stdout.write(out[-6000:])
    raise MachineryError('design model %s failed' % cfg)
  ctx.states += st[0]
  ctx.transitions += st[1]
  ctx.stages.append({'stage': cfg, 'kind': 'design', 'distinct': st[0],
                     'generated': st[1]})


RE_HIST = re.compile(r'^<<"HIST", "(.*)">>\s*$')


def generate(ctx, module, cfg, env=None, timeout=1500, limit=None, extra=(),
             workers=NPROC):
  """Behaviours of the specification (printed by TLC as HIST lines)."""
  e = dict(env or {})
  e['HIST'] = '1'
  rc, out, st = run_tlc(ctx, module, cfg, timeout=timeout, extra=extra, env=e,
                        workers=workers)
  res = set()
  for line in out.splitlines():
    m = RE_HIST.match(line)
    if m:
      res.add(m.group(1).replace('\\"', '"'))
  if rc != 0 or not res:
    sys.stdout.write(out[-6000:])
    raise MachineryError('no behaviours generated by %s' % cfg)
  ctx.states += st[0]
  ctx.transitions += st[1]
  ctx.stages.append({'stage': cfg, 'kind': 'behaviours generated from the specification',
                     'behaviours': len(res), 'distinct': st[0], 'generated': st[1]})
  ctx.log('generated', len(res), 'behaviours with', cfg)
  return [json.loads(x) for x in sorted(res)]


def judge(ctx, module, cases, cfg=None, timeout=3000, env=None, batch=40000,
          heap='12g'):
  """Lets TLC judge all recorded cases; returns list of (case, clause)."""
  bad = []
  for k in range(0, len(cases), batch):
    bad += _judge(ctx, module, cases[k:k + batch], cfg, timeout, env, heap)
  return bad


def nesting(line):
  if line.count('[') + line.count('{') <= 250:
    return 0
  d = m = 0
  for x in re.findall(r'[][{}]|"(?:[^"\\]|\\.)*"', line):
    if x in '[{':
      d += 1
      m = max(m, d)
    elif x in ']}':
      d -= 1
  return m


def _judge(ctx, module, cases, cfg, timeout, env, heap):
  path = os.path.join(ctx.scratch, 'cases_%d.ndjson' % len(ctx.stages))
  byid = {c['id']: c for c in cases}
  assert len(byid) == len(cases)
  # deal the cases round robin so that expensive neighbours are spread
  with open(path, 'w') as f:
    for c in cases:
      line = json.dumps(c)
      if nesting(line) > 250:  # more than TLC can read, and than any input here calls for
        line = json.dumps(dict(c, out={'exc': 'too deeply nested'}))
      f.write(line + '\n')
  e = {'CASES': path}
  e.update(env or {})
  rc, out, st = run_tlc(ctx, module, cfg or module.replace('.tla', '.cfg'),
                        env=e, timeout=timeout, heap=heap)
  os.remove(path)
  verdict, clause = {}, {}
  for m in RE_VERDICT.finditer(out):   # TLC wraps long values
    i = int(m.group(2))
    if m.group(1) == 'BAD':
      verdict[i] = False
      clause[i] = ' '.join((m.group(3) or '').strip('"').split())
    else:
      verdict.setdefault(i, True)
  bad = [(byid[i], clause[i]) for i in sorted(verdict) if not verdict[i]]
  finished = rc == 0 and 'No error has been found' in out
  if not finished:
    # An evaluation error is only possible when a recorded observation does not
    # have the shape the specification allows: name the case TLC was working on.
    ids = re.findall(r'ci = (\d+)', out)
    if ids and rc != 'timeout' and 'Parsing or semantic analysis failed' not in out:
      i = cases[int(ids[-1]) - 1]['id']
      why = 'observation outside the specification (TLC could not evaluate it)'
      bad.append((byid[i], why + ': ' + ' '.join(
          re.findall(r'(?m)^Error: (.*)$', out)[:3])[:300]))
      if os.environ.get('VERIF_DEBUG'):
        print(out[-8000:])
    elif not bad:
      sys.stdout.write(out[-6000:])
      raise MachineryError('TLC did not finish (%s) on %s' % (rc, module))
  elif len(verdict) != len(cases):
    sys.stdout.write(out[-3000:])
    raise MachineryError('%d of %d cases judged by %s' % (
        len(verdict), len(cases), module))
  ctx.states += st[0]
  ctx.transitions += st[1]
  ctx.traces += len(verdict)
  ctx.stages.append({'stage': module, 'kind': 'conformance',
                     'cases': len(cases), 'accepted': sum(verdict.values()),
                     'rejected': len(bad), 'distinct': st[0],
                     'generated': st[1]})
  ctx.log('judged', module, 'cases', len(cases), 'bad', len(bad), 'states', st[0])
  return bad


def conform(ctx, driver, module, inputs, tag=None, cfg=None, case_timeout=30,
            timeout=3000, heap="12g", post=None, env=None):
  """drive + judge; records violations and samples."""
  inputs = list(inputs)
  tag = tag or driver
  cases = drive(ctx, driver, inputs, tag, case_timeout)
  ctx.log('recorded', len(cases), 'cases with driver', driver,
          'exceptions', sum(1 for c in cases if 'exc' in c['out']))
  if post:
    cases = post(cases)
  for c in cases[:: max(1, len(cases) // 2)][:2]:
    s = json.dumps(c)
    if len(s) < 4000:
      ctx.samples.append(c)
  bad = judge(ctx, module, cases, cfg=cfg, timeout=min(timeout, 450) if ctx.quick else timeout,
              heap=heap, env=env)
  for c, clause in bad:
    ctx.bad.append({'driver': driver, 'module': module, 'cfg': cfg,
                    'env': env, 'case': c, 'clause': clause})
  if ctx.quick and bad and not all(is_known(load_known(ctx.prop), b) for b in ctx.bad):
    raise Enough()


# ---------------------------------------------------------------- verdicts
def load_known(prop):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    data = json.load(f)
  return [k for k in data.get('findings', []) if k['property'] == prop]


def is_known(known, b):
  return next((k for k in known if k['driver'] == b['driver'] and k['input'] == b['case']['in']), None)


def finish(ctx, level='model_checking'):
  known = load_known(ctx.prop)
  new, seen = [], set()
  for b in ctx.bad:
    hit = is_known(known, b)
    if hit is not None:
      seen.add(hit['what'])
    else:
      new.append(b)
  for k in known:
    if k['what'] in seen:
      print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k['what']))
  samples = ctx.samples[:6] or [{'note': 'no conformance stage ran'}]
  ev = {
      'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed,
      'level': level,
      'coverage': {
          'states': ctx.states, 'transitions': ctx.transitions,
          'traces_validated_against_impl': ctx.traces,
          'samples': samples, 'stages': ctx.stages},
      'assumptions': ctx.assumptions or [
          'numba is not installed: compiled kernels run as the Python source '
          'they are compiled from, through the stand-in in /verif/stubs'],
      'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(new)}
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  if not new:
    ctx.log('held on everything explored')
    return 0
  rdir = os.path.join(VERIF, 'replays')
  os.makedirs(rdir, exist_ok=True)
  for b in new[:5]:
    h = hashlib.sha1(json.dumps(b['case'], sort_keys=True).encode()).hexdigest()
    rp = os.path.join(rdir, '%s-%s.json' % (ctx.prop, h[:10]))
    with open(rp, 'w') as f:
      json.dump(b, f, indent=1)
    print('rejected:', b['clause'], '| input:',
          json.dumps(b['case']['in'])[:600])
    print('VIOLATION property=%s replay=%s' % (ctx.prop, rp), flush=True)
  return 1
