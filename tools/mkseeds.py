#!/usr/bin/env python3
"""Makes and validates the planted bugs of /verif/seeded (a development tool; no
check uses it).   mkseeds.py [ID...]
Each bug is a set of textual replacements plus a demonstration.  They are applied
to a scratch copy, which must build, pass the stable tests, and fail the
demonstration that passes on the unchanged tree."""
import difflib
import json
import os
import shutil
import subprocess
import sys

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
PY = '/opt/venv/bin/python'

PRE = '''import contextlib
import io
import json
import os
import sys
import tempfile
import threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
import arinc424
from arinc424 import Record


def put(l, col, s):
  return l[:col - 1] + s + l[col - 1 + len(s):]


def mk(section, split=False, fill=' ', tail='123452605', **cols):
  """a record: columns from 1, given as c23='...'"""
  l = 'SUSA' + fill * 119 + tail
  if split:
    l = put(put(l, 5, section[0]), 13, section[1])
  else:
    l = put(l, 5, section)
  for k, v in cols.items():
    l = put(l, int(k[1:]), v)
  assert len(l) == 132
  return l


def quiet(f, *a):
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    try:
      r = f(*a)
    except Exception as e:
      r = 'raised ' + type(e).__name__
  return r, out.getvalue()


def read(line):
  r = Record()
  return r, quiet(r.read, line)[0]


def rows(r):
  t, _ = quiet(r.decode, False)
  if t.startswith('raised'):
    return t
  res = {}
  for x in t.split('\\n')[3:-1]:
    a, b, c = [y.strip() for y in x.strip('|').split(' | ', 2)]
    res[a] = (b, c)
  return res


def check(ok, what):
  if not ok:
    print('FAILED: ' + what)
    sys.exit(1)


'''

REC, INI, DEC = 'src/arinc424/record.py', 'src/arinc424/__init__.py', 'src/arinc424/decoder.py'
D = 'src/arinc424/definitions/'

SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
  SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds.py')).read())


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def make(id, s):
  work = '/tmp/seedwork'
  shutil.rmtree(work, ignore_errors=True)
  shutil.copytree('/repo', work, symlinks=True, ignore=shutil.ignore_patterns('.git'))
  diff = ''
  for path, old, new in s['edits']:
    p = os.path.join(work, path)
    t = open(p, newline='').read()
    assert t.count(old) >= 1, (id, 'not found', old)
    assert t.count(old) == 1, (id, 'ambiguous', old, t.count(old))
    open(p, 'w', newline='').write(t.replace(old, new))
  for path in sorted(set(e[0] for e in s['edits'])):
    a = open(os.path.join('/repo', path), newline='').read().splitlines(True)
    b = open(os.path.join(work, path), newline='').read().splitlines(True)
    for x in difflib.unified_diff(a, b, 'a/' + path, 'b/' + path):
      diff += x if x.endswith('\n') else x + '\n\\ No newline at end of file\n'
  d = os.path.join(OUT, id)
  os.makedirs(d, exist_ok=True)
  open(d + '/patch.diff', 'w').write(diff)
  open(d + '/demo.py', 'w').write(PRE + s['demo'].strip('\n') + '\nprint("ok")\n')
  open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % PY)
  os.chmod(d + '/demo.sh', 0o755)
  json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
  r = sh(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'], '/repo')
  assert r.returncode == 0, (id, r.stderr)
  r0 = sh(['bash', d + '/demo.sh'], '/repo', timeout=300)
  r1 = sh(['bash', d + '/demo.sh'], work, timeout=300)
  e = dict(os.environ, PYTHONPATH=work + '/src')
  r2 = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], work, env=e)
  ok = r0.returncode == 0 and r1.returncode != 0 and r2.returncode == 0
  print('%-28s %s %s' % (id, s['prop'], 'ok' if ok else 'NOT USABLE  clean=%d patched=%d tests=%d' % (r0.returncode, r1.returncode, r2.returncode)))
  if not ok:
    print(r0.stdout[-400:], r0.stderr[-600:], '---', r1.stdout[-300:], '---', r2.stdout[-600:])
  shutil.rmtree(work, ignore_errors=True)
  return ok


if __name__ == '__main__':
  ids = sys.argv[1:] or sorted(SEEDS)
  bad = [i for i in ids if not make(i, SEEDS[i])]
  sys.exit(1 if bad else 0)
