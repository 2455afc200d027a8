"""Machinery shared by the checks: running TLC, running the driver in shards,
collecting verdicts, evidence, known findings."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
REPO = os.environ.get('VERIF_DEV_REPO', '/repo')      # the variable is for development only
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
SHARDS = 8


class MachineryError(Exception):
  pass


class Ctx:
  def __init__(self, prop, tier, seed):
    self.prop, self.tier, self.seed = prop, tier, seed
    self.t0 = time.time()
    self.dir = tempfile.mkdtemp(prefix='verif-arinc424-')
    self.n = 0
    self.states = 0            # distinct states TLC found, all runs
    self.transitions = 0       # states generated, all runs
    self.spec_states = 0
    self.traces = 0
    self.samples = []
    self.notes = {}
    self.bad = []              # (finding key dict, replay dict)
    self.assumptions = []
    self.gen = None            # lines made by GenLines

  def path(self, name):
    self.n += 1
    return os.path.join(self.dir, '%03d-%s' % (self.n, name))

  def close(self):
    shutil.rmtree(self.dir, ignore_errors=True)

  @property
  def thorough(self):
    return self.tier == 'thorough'

  def note(self, k, v):
    self.notes[k] = self.notes.get(k, 0) + v if isinstance(v, int) else v

  def log(self, *a):
    print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)


# -------------------------------------------------------------------- TLC ---

def tlc(ctx, module, env=None, workers=8, cfg=None, args=(), timeout=None, heap='3g', expect_violation=False):
  """runs TLC; returns (stdout, distinct states, generated states)"""
  cfg = cfg or module
  meta = ctx.path('md')
  e = dict(os.environ)
  e.update(env or {})
  cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
         '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + ctx.dir, '-cp', CP,
         'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config',
         os.path.join(SPEC, cfg + '.cfg')] + list(args) + [os.path.join(SPEC, module + '.tla')]
  try:
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout or (3600 if ctx.thorough else 800))
  except subprocess.TimeoutExpired:
    raise MachineryError('TLC timed out on %s/%s' % (module, cfg))
  shutil.rmtree(meta, ignore_errors=True)
  m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
  sim = '-simulate' in args
  if expect_violation:
    if 'is violated' not in p.stdout and 'was violated' not in p.stdout:
      raise MachineryError('TLC found no violation in %s/%s, where one is planted' % (module, cfg))
    return p.stdout, 0, 0
  if p.returncode != 0 or (not m and not sim):
    raise MachineryError('TLC failed on %s/%s (exit %d):\n%s' % (module, cfg, p.returncode, p.stdout[-3000:] + p.stderr[-1000:]))
  gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
  ctx.states += dist
  ctx.transitions += gen
  return p.stdout, dist, gen


def check_spec(ctx, module, cfg=None, expect_violation=False, env=None, **kw):
  """model-checks a part of the specification; the specification must hold"""
  out, dist, gen = tlc(ctx, module, cfg=cfg, expect_violation=expect_violation, env=env, **kw)
  ctx.spec_states += dist
  ctx.log('TLC %s: %s' % (cfg or module, 'planted violation found' if expect_violation
                          else '%d distinct states, specification holds' % dist))
  return dist


# ----------------------------------------------------------------- driver ---

def repo_env(ctx, catalogue=None):
  e = dict(os.environ)
  if catalogue:
    e['VERIF_CATALOGUE'] = catalogue
  e.pop('PYTHONPATH', None)
  e['PYTHONDONTWRITEBYTECODE'] = '1'
  e['PYTHONPYCACHEPREFIX'] = os.path.join(ctx.dir, 'pyc')
  e['PYTHONUTF8'] = '1'
  e['PYTHONHASHSEED'] = str(ctx.seed % 1000)
  e['TMPDIR'] = ctx.dir
  e['VERIF_REPO_SRC'] = REPO + '/src'
  return e


class Shard:
  def __init__(self, inp, out, items):
    self.inp, self.out, self.items = inp, out, items
    self.lines = None
    self.proc = None

  def observation(self, k):
    """observation number k, counting from 0"""
    if self.lines is None:
      with open(self.out) as f:
        self.lines = f.read().split('\n')
    return json.loads(self.lines[k])

  def observations(self):
    with open(self.out) as f:
      return [json.loads(x) for x in f]


STALL = 150       # seconds without a finished item after which the process counts as hung


def drive_shard(ctx, mode, items, dead, catalogue=None, proc=None):
  inp, out = ctx.path(mode + '.in'), ctx.path(mode + '.out')
  with open(inp, 'w') as f:
    for it in items:
      f.write(json.dumps(it) + '\n')
  open(out, 'w').close()
  env, flags = repo_env(ctx, catalogue), []
  if proc:                             # a process of an unusual kind
    flags = proc.get('flags', [])
    for k, v in proc.get('env', {}).items():
      env.pop(k, None)
      env.update({} if v is None else {k: v})
  start = deaths = 0
  while True:
    with open(out + '.err', 'w') as errf:
      p = subprocess.Popen([PY, '-B'] + flags + [os.path.join(ROOT, 'harness', 'driver.py'), mode, inp, out, str(start)],
                           env=env, cwd=ctx.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf)
      size, since = -1, time.time()
      while True:
        try:
          rc = p.wait(2)
          break
        except subprocess.TimeoutExpired:
          now = os.path.getsize(out)
          if now != size:
            size, since = now, time.time()
          elif time.time() - since > STALL * (6 if ctx.thorough else 1):
            p.kill()
            p.wait()
            rc = -99
            break
    with open(out + '.err') as f:
      err = f.read()
    with open(out) as f:
      lines = f.read().split('\n')
    if lines[-1]:                      # a half-written line of a killed process
      with open(out, 'w') as f:
        f.write(''.join(x + '\n' for x in lines[:-1]))
    done = len(lines) - 1
    if done >= len(items):
      return Shard(inp, out, items)
    if rc == 3 or 'DRIVER FAILED' in err:
      raise MachineryError('driver: ' + err[-2500:])
    # the code under test ended or hung the process while item `done` was running
    deaths += 1
    many = rc == 7 or deaths > (1 if rc == -99 else 3 if rc == 8 else 40)
    with open(out, 'a') as f:
      for i in range(done, len(items) if many else done + 1):
        f.write(json.dumps(dict(dead(items[i]), i=i)) + '\n')
    start = done + 1
    if many or start >= len(items):
      return Shard(inp, out, items)


def drive(ctx, mode, items, dead, shards=SHARDS, catalogue=None, procs=None):
  """runs items on the real code, in several processes; procs: a list of
  the kinds of processes that each run all of them, or the kind of all processes"""
  parts = [(items, p) for p in procs] if isinstance(procs, list) else [(items[k::shards], procs) for k in range(shards)]
  parts = [p for p in parts if p[0]]
  with cf.ThreadPoolExecutor(shards) as ex:
    res = list(ex.map(lambda p: drive_shard(ctx, mode, p[0], dead, catalogue, p[1]), parts))
  for sh, p in zip(res, parts):
    sh.proc = p[1]
  ctx.log('driver %s: %d items on the real code' % (mode, len(items)))
  return res


def judge(ctx, module, shards, env=None, expected=None, heap='2g', cfg=None):
  """TLC judges the recorded observations; returns [(shard, BAD record)].
  expected(shard): number of distinct states that a complete run must visit"""
  def one(sh):
    e = dict(env or {})
    e.update(TRACE=sh.out, NAMES=sh.out + '.names', PROP=ctx.prop)
    out, dist, gen = tlc(ctx, module, env=e, workers=1, cfg=cfg, heap=heap)
    bads = []
    for x in out.split('\n'):
      if x.startswith('"BAD ') or x.startswith('BAD '):
        y = json.loads(x) if x.startswith('"') else x
        bads.append((sh, json.loads(y[4:])))
    want = expected(sh) if expected else 2 * len(sh.items)
    if dist != want:
      raise MachineryError('%s visited %d states instead of %d: not every event was judged' % (module, dist, want))
    return bads
  with cf.ThreadPoolExecutor(SHARDS) as ex:
    res = [b for bs in ex.map(one, shards) for b in bs]
  ctx.log('TLC %s: judged, %d observations do not conform' % (module, len(res)))
  return res


# ---------------------------------------------------------- known findings ---

def known_findings():
  with open(os.path.join(ROOT, 'known_findings.json')) as f:
    return json.load(f)['findings']


def matches(finding, prop, key):
  if finding['property'] != prop:
    return False
  return all(key.get(k) == v for k, v in finding['key'].items())


# ----------------------------------------------------------------- verdict ---

def finish(ctx, level='model_checking'):
  """prints the outcome, writes evidence, returns the exit code"""
  kf = known_findings()
  seen, new = {}, []
  for key, replay in ctx.bad:
    hit = [i for i, f in enumerate(kf) if matches(f, ctx.prop, key)]
    if hit:
      seen[hit[0]] = seen.get(hit[0], 0) + 1
    else:
      new.append((key, replay))
  for i, f in enumerate(kf):
    if f['property'] == ctx.prop and i in seen:
      print('KNOWN-FINDING: property=%s %s' % (ctx.prop, f['what']))
  ev = os.environ.get('VERIF_DEV_EVIDENCE', os.path.join(ROOT, 'evidence'))
  os.makedirs(ev, exist_ok=True)
  for f in os.listdir(ev):
    if f.startswith('replay-%s-' % ctx.prop):
      os.remove(os.path.join(ev, f))
  groups = {}
  for key, replay in new:
    groups.setdefault(json.dumps(key, sort_keys=True), []).append((key, replay))
  for n, (g, xs) in enumerate(sorted(groups.items(), key=lambda kv: -len(kv[1]))):
    if n >= 5:
      print('... and %d further kinds of violation' % (len(groups) - 5))
      break
    path = os.path.join(ev, 'replay-%s-%d.json' % (ctx.prop, n + 1))
    with open(path, 'w') as f:
      json.dump({'property': ctx.prop, 'key': xs[0][0], 'times': len(xs), 'case': xs[0][1]}, f, indent=1)
    print('  %s (%d times)' % (json.dumps(xs[0][0]), len(xs)))
    print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
  cov = {'states': ctx.states, 'transitions': ctx.transitions, 'spec_states': ctx.spec_states,
         'traces_validated_against_impl': ctx.traces, 'samples': ctx.samples[:6],
         'known_finding_occurrences': sum(seen.values())}
  cov.update(ctx.notes)
  with open(os.path.join(ev, ctx.prop + '.json'), 'w') as f:
    json.dump({'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
               'assumptions': ctx.assumptions, 'wall_s': round(time.time() - ctx.t0, 2),
               'violations': len(new)}, f, indent=1)
  ctx.log('%s %s: %s' % (ctx.prop, ctx.tier, 'VIOLATED' if new else 'holds on everything explored'))
  return 1 if new else 0
