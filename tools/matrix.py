#!/usr/bin/env python3
"""matrix.py [-a] [SEED...]: runs checks against planted bugs in scratch copies (a
development tool).  -a: all checks, not only that of the bug's own property."""
import json
import os
import re
import shutil
import subprocess
import sys

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = '-a' in sys.argv
ids = [a for a in sys.argv[1:] if a != '-a'] or sorted(os.listdir(BASE + '/seeded'))
props = [json.loads(x)['id'] for x in open(BASE + '/properties.jsonl')]
res = {}
for i in ids:
  d = BASE + '/seeded/' + i
  meta = json.load(open(d + '/meta.json'))
  work = '/tmp/matrixwork-%d' % os.getpid()
  shutil.rmtree(work, ignore_errors=True)
  subprocess.run(['git', 'clone', '-q', '/repo', work], check=True)
  subprocess.run(['git', '-C', work, 'apply', d + '/patch.diff'], check=True)
  for p in props if ALL else [meta['property']]:
    e = dict(os.environ, VERIF_DEV_REPO=work, VERIF_DEV_EVIDENCE='/tmp/matrix-evidence-%d' % os.getpid())
    r = subprocess.run([sys.executable, BASE + '/harness/check.py', p, 'quick'], capture_output=True, text=True, env=e, cwd=BASE)
    hit = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
    res.setdefault(i, {})[p] = 'caught' if hit else 'quiet' if r.returncode == 0 else 'EXIT %d' % r.returncode
    first = re.search(r'^  (\{.*)$', r.stdout, re.M)
    t = re.findall(r'\[ *([\d.]+)s\]', r.stdout)
    print('%-28s own=%s check=%s %-7s %5ss %s' % (i, meta['property'], p, res[i][p], t[-1] if t else '?', (first.group(1)[:150] if first else r.stdout[-300:] if r.returncode > 1 else '')), flush=True)
  shutil.rmtree(work, ignore_errors=True)
