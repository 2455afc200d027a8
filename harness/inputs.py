"""Inputs for the driver.  What the lines mean is decided by the specification;
here they are only assembled: from TLC's generator (GenLines), from the sample
data of the repository, and at random."""
import glob
import json
import os
import random

from lib import REPO, tlc

PRINTABLE = [chr(c) for c in range(32, 127)]
ALNUM = [c for c in PRINTABLE if c.isalnum()]

SECTIONS = ['AS', 'D ', 'DB', 'EA', 'EM', 'EP', 'ER', 'ET', 'EU', 'EV', 'HA', 'HC', 'HD', 'HE', 'HF', 'HK', 'HS',
            'HV', 'PA', 'PB', 'PC', 'PD', 'PE', 'PF', 'PG', 'PI', 'PK', 'PL', 'PM', 'PN', 'PP', 'PR', 'PS', 'PT',
            'PV', 'R ', 'RA', 'TC', 'TG', 'UC', 'UF', 'UR']


def rng(ctx, salt=''):
  return random.Random('%s/%s/%s' % (ctx.seed, ctx.tier, salt))


def generated(ctx):
  """lines per record type and layout, from the specification:
  {(section, layout): [line, ...]}"""
  if ctx.gen is not None:
    return ctx.gen
  out = ctx.path('gen')
  os.mkdir(out)
  tlc(ctx, 'GenLines', env={'GEN_OUT': out, 'GEN_TIER': ctx.tier, 'GEN_OFFSET': str(ctx.seed * 37 % 1000)}, heap='8g')
  res = {}
  for f in sorted(glob.glob(out + '/*.json')):
    s, y = os.path.basename(f)[:-5].split('-', 1)
    with open(f) as fh:
      res[(s.ljust(2), y)] = [json.loads(x) for x in fh]
  ctx.log('TLC GenLines: %d lines for %d record type/layout pairs' % (sum(map(len, res.values())), len(res)))
  ctx.note('generated_lines', sum(map(len, res.values())))
  ctx.note('layouts', len(set(k[1] for k in res)))
  ctx.note('record_types', len(set(k[0] for k in res)))
  ctx.gen = res
  return res


def fields_of(ctx, kind):
  """GenFields: ({(section, layout): [field, ...]}, {(codec, width): (texts that
  decode, texts that do not, further texts that decode, further that do not)})"""
  out = ctx.path('genf')
  os.mkdir(out)
  tlc(ctx, 'GenFields', env={'GEN_OUT': out, 'GEN_TIER': ctx.tier, 'GEN_OFFSET': '0', 'GEN_KIND': kind}, heap='8g')
  jobs, uses = {}, {}
  for f in sorted(glob.glob(out + '/*.json')):
    with open(f) as fh:
      rows = [json.loads(x) for x in fh]
    what, a, b = os.path.basename(f)[:-5].split('-', 2)
    if what == 'job':
      jobs[(a.ljust(2), b)] = rows
    else:
      uses[(a, int(b))] = (rows + [[], []])[:4]
  return jobs, uses


def fixed(f):
  """the columns that make the record what it is are swept elsewhere"""
  return any(c[0] <= 13 or c[0] >= 124 for c in f['c']) and f['codec'] not in ('003', '032')


def few_homes(jobs, uses):
  """where the whole domain of a definition is tried: few record types, so that
  many definitions share the lines"""
  have = {j: set((f['codec'], f['w']) for f in fs if not fixed(f)) & set(uses) for j, fs in jobs.items()}
  todo = set().union(*have.values())
  homes = {}
  while todo:
    j = max(sorted(have), key=lambda j: sum(len(uses[u][2]) for u in have[j] & todo) * 1000 + len(have[j] & todo))
    for u in have[j] & todo:
      homes[u] = j
    todo -= have[j]
  return homes


def field_lines(ctx, kind, most=None):
  """lines in which every field of the given kind runs through the texts of its
  definition: the interesting ones in every record type and layout, the rest of
  the domain (at most so many texts) in one of them.  Texts that decode
  are combined in one line, the others come one per line."""
  gen = generated(ctx)
  jobs, uses = fields_of(ctx, kind)
  r = rng(ctx, 'fields' + kind)
  homes = few_homes(jobs, uses)
  full = {}
  for u, (_, _, ok, bad) in uses.items():
    if u[0] in WIDE and u[1] > 4:
      ok = ok + [''.join(r.choice('0123456789') for _ in range(u[1])) for _ in range(len(ok))]
    r.shuffle(ok)
    r.shuffle(bad)
    full[u] = (ok[:most], bad[:most and most // 4])
  res = []
  for job, fs in sorted(jobs.items()):
    base = [l for l in gen[job][:40]]
    todo = []
    for f in fs:
      u = (f['codec'], f['w'])
      if u not in uses or fixed(f):
        continue
      ok, bad = list(uses[u][0]), list(uses[u][1])
      if job == homes[u]:
        homes[u] = None           # the first field of that definition is enough
        ok += full[u][0]
        bad += full[u][1]
      r.shuffle(ok)
      todo.append((f, ok))
      for k, v in enumerate(bad):
        res.append(fill(base[k % len(base)], f, v))
    for k in range(max([len(ok) for _, ok in todo] or [0])):
      l = base[k % len(base)]
      for f, ok in todo:
        if k < len(ok):
          l = fill(l, f, ok[k])
        elif ok and k % 3:
          l = fill(l, f, r.choice(ok))
      res.append(l)
  ctx.note('field_lines', len(res))
  return res


def selects(job, f):
  """the field is the one that selects the layout"""
  return not job[1].endswith('primary') and f['codec'] in ('091', '201', '204') or job[0] == 'EU' and f['c'][0][0] in (16, 17)


def mixtures(ctx, n):
  """{(section, layout): n lines}: every field takes texts of its definition
  independently of the others; few texts for each, so that they meet in pairs"""
  gen = generated(ctx)
  jobs, uses = fields_of(ctx, 'every')
  r = rng(ctx, 'mixtures')
  res = {}
  lay = {}                      # what the fields of a definition hold in the sample data
  for (s, y), fs in jobs.items():
    lay.setdefault(s, []).append(fs)
  seen = {}
  for l in corpus():
    if len(l) == 132:
      for fs in lay.get(l[4:6], lay.get(l[4] + l[12], []))[:1]:
        for f in fs:
          v = ''.join(l[a - 1:b] for a, b in f['c'])
          seen.setdefault((f['codec'], f['w']), set()).add(v)
  for job, fs in sorted(jobs.items()):
    some = []
    for f in fs:
      u = (f['codec'], f['w'])
      if u not in uses or fixed(f) or f['codec'] == '016' or selects(job, f):
        continue
      ok, bad = list(uses[u][0]), list(uses[u][1])
      r.shuffle(ok)
      r.shuffle(bad)
      blank = [v for v in ok if not v.strip()]
      real = sorted(v for v in seen.get(u, ()) if v in uses[u][0] or not bad)
      few = ok[:12] + blank + r.sample(real, min(4, len(real)))
      some.append((f, few, ok + real, bad))
    used = [(a, b) for f in fs for a, b in f['c']]
    gaps = [c for c in range(14, 124) if not any(a <= c <= b for a, b in used)]
    base = gen[job][:40]
    ls = list(base[:6])
    for k in range(n):
      l = r.choice(base)
      share = r.choice([.3, .7, 1])
      for f, few, ok, bad in some:
        if r.random() < share:
          l = fill(l, f, r.choice(few if r.random() < .8 else ok) if ok else r.choice(bad))
      if k % 4 == 0:              # the same text in two fields, if both allow it
        f, few, ok, bad = r.choice(some)
        v = ''.join(l[a - 1:b] for a, b in f['c'])
        for g, few2, ok2, bad2 in some:
          if g is not f and g['w'] == f['w'] and (v in ok2 or not bad2) and r.random() < .6:
            l = fill(l, g, v)
      if k % 10 == 0:
        f, few, ok, bad = r.choice(some)
        if bad:
          l = fill(l, f, r.choice(bad))
      for c in gaps:
        if r.random() < .2:
          l = l[:c - 1] + r.choice('ANS019 ') + l[c:]
      if r.random() < .5:
        l = 'ST'[k % 2] + l[1:123] + '%09d' % r.randrange(10 ** 9)
      ls.append(l)
    # the same text in all fields of a definition
    for u in sorted(set((f['codec'], f['w']) for f, _, _, _ in some)):
      same = [x for x in some if (x[0]['codec'], x[0]['w']) == u]
      if len(same) > 1:
        for v in same[0][2][:60 if n < 2000 else 600]:
          l = r.choice(base)
          for f, _, _, _ in same:
            l = fill(l, f, v)
          ls += [l, fill(l, r.choice(same)[0], r.choice(same[0][1]))]
    # one field, or one column outside all fields, at a time
    for l in base[:3]:
      for f, few, ok, bad in some:
        ls += [fill(l, f, v) for v in few[:5] + few[12:]]
      ls += [l[:c - 1] + x + l[c:] for c in gaps for x in 'A1 ']
    res[job] = ls
  return res


WIDE = {'029', '030', '034', '045', '053', '073', '086', '092', '103', '127', '184', '209'}


def fill(l, f, v):
  if len(f['c']) == 1:
    a, b = f['c'][0]
    return l[:a - 1] + v + l[b:]
  for (a, _), x in zip(f['c'], v):
    l = l[:a - 1] + x + l[a:]
  return l


def corpus():
  """the sample records of the repository"""
  res = []
  for f in sorted(glob.glob(REPO + '/data/ARINC-424-18/*')):
    if os.path.isfile(f):
      with open(f, errors='replace') as fh:
        for x in fh:
          x = x.strip()
          if x and all(' ' <= c <= '~' for c in x):
            res.append(x)
  return res


def random_variants(ctx, bases, n, salt):
  """lines made from base lines by replacing random columns, mixing two lines,
  blanking and shifting; most keep the columns that select the layout"""
  r = rng(ctx, salt)
  res = []
  for _ in range(n):
    l = list(r.choice(bases))
    how = r.random()
    if how < .5:
      for _ in range(r.choice([1, 1, 2, 3, 6, 12])):
        i = r.randrange(len(l))
        l[i] = r.choice(PRINTABLE) if r.random() < .5 else r.choice('0123456789 ANSETW')
    elif how < .7:
      i = r.randrange(14, 110)
      j = min(len(l), i + r.choice([1, 2, 4, 8, 16]))
      for k in range(i, j):
        l[k] = r.choice([' ', '0', '9', 'A'])
    elif how < .85:
      o = r.choice(bases)
      a = r.randrange(7, 100)
      b = min(123, a + r.randrange(1, 60))
      l[a:b] = list(o[a:b])
    elif how < .95:
      i = r.randrange(13, 123)
      l[i:123] = [r.choice(PRINTABLE) for _ in range(123 - i)]
    else:
      l[123:132] = list('%09d' % r.randrange(10 ** 9))
    res.append(''.join(l)[:132])
  return res
