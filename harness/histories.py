"""Histories of calls: generated by TLC from MCSystem (all histories of a depth
over abstract lines), bound to real lines here, replayed on the real code by the
driver, and judged by TLC with TraceSystem."""
import json

import inputs as I
import lib as L

WHITE = ' \t\n\r\f'
CONT_COL = {'AS': 0, 'R ': 0, 'RA': 0, 'TC': 0, 'EP': 39, 'ER': 39, 'ET': 39, 'EU': 18, 'EV': 56, 'HD': 39, 'HE': 39,
            'HF': 39, 'HK': 30, 'HS': 39, 'HV': 26, 'PD': 39, 'PE': 39, 'PF': 39, 'PK': 30, 'PP': 27, 'PR': 70,
            'PS': 39, 'PV': 26, 'TG': 39, 'UC': 25, 'UF': 20, 'UR': 25}
BASIC = ['decode0', 'decode1', 'json01', 'primary', 'hasCont']
ALL = ['decode', 'decode0', 'decode1', 'json', 'json01', 'json11', 'json00', 'json10', 'primary', 'hasCont']


ODD = ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\u00e9', '\u00a0', '\x00', '\t', '\u20ac', '\x1a']


# the surroundings of a process, see surroundings() of the driver; the first is the usual one
WORLDS = ['usual', 'narrow', 'wide', 'terminal', 'dumb terminal', 'no color', 'force color', 'no environment', 'other environment',
          '1979', '1999', '2049', '2101', 'eastern', 'western', 'elsewhere', 'nowhere', 'precision', 'warnings', 'no collection', 'POSIX',
          'thread', 'loop', 'digits', 'random', 'arguments', 'ascii', 'mask', 'no scratch', 'no stderr', 'switching']


def put(l, c, s):
  return l[:c - 1] + s + l[c - 1 + len(s):]


class Catalogue:
  """lines by number (from 1), and what new Records answered about them"""

  def __init__(self, ctx, queries=BASIC):
    self.ctx, self.queries = ctx, queries
    self.lines, self.index = [], {}
    self.entries = {}                  # number -> entry of FRESH
    self.path = None

  def add(self, line):
    n = self.index.get(line)
    if n is None:
      self.lines.append(line)
      n = self.index[line] = len(self.lines)
      self.add(line.strip(WHITE))
    return n

  def core(self, n):
    return self.index[self.lines[n - 1].strip(WHITE)]

  def evaluate(self):
    """asks new Records, each in a process of its own, about the new lines"""
    todo = [n for n in range(0, len(self.lines) + 1) if n not in self.entries]
    items = [{'l': self.lines[n - 1] if n else None, 'core': n, 'q': self.queries, 'n': n}
             for n in todo if n == 0 or self.core(n) == n]
    if items:
      dead = lambda it: {'l': it['l'] or '', 'core': it['core'], 'ro': [],
                         'fr': dict({q: {'a': 'X:ProcessExit', 'o': []} for q in it['q']}, read={'a': 'X:ProcessExit', 'o': []})}
      for sh in L.drive(self.ctx, 'fresh', items, dead):
        for it, o in zip(sh.items, sh.observations()):
          if 'fr' not in o:
            o = dead(it)
          o.pop('i', None)
          if it['n'] == 0:
            o['fr']['read'] = {'a': 'F', 'o': []}
          self.entries[it['n']] = o
    for n in todo:
      if n not in self.entries:
        self.entries[n] = {'l': self.lines[n - 1], 'core': self.core(n), 'fr': {}, 'ro': []}
    self.ctx.note('catalogue_lines', len(items))

  def write(self):
    self.evaluate()
    self.path = self.ctx.path('catalogue')
    with open(self.path, 'w') as f:
      for x in self.lines:
        f.write(json.dumps(x) + '\n')
    fresh = self.ctx.path('fresh')
    with open(fresh, 'w') as f:
      for n in range(len(self.lines) + 1):
        f.write(json.dumps(self.entries[n]) + '\n')
    return fresh

  def answer(self, n, q):
    return self.entries[self.core(n)]['fr'][q]['a']


def abstract(ctx, family, depth):
  """all histories of a family, from TLC, which also checks the specification"""
  out, dist, gen = L.tlc(ctx, 'MCSystem', env={'FAMILY': family, 'DEPTH': str(depth)})
  ctx.spec_states += dist
  res = []
  for x in out.split('\n'):
    if x.startswith('"HIST '):
      res.append(json.loads(json.loads(x)[5:]))
  res.sort(key=json.dumps)
  ctx.log('TLC MCSystem %s/%d: %d distinct states, specification holds; %d histories' % (family, depth, dist, len(res)))
  ctx.note('abstract_histories', len(res))
  return res


# ------------------------------------------------------------------ lines ---

ROUTE_COL = {'ER': 45, 'ET': 45, 'PD': 20, 'PE': 20, 'PF': 20, 'HD': 20, 'HE': 20, 'HF': 20}


class Lines:
  """the real lines that stand for the abstract ones"""

  def __init__(self, ctx, cat):
    self.ctx, self.cat = ctx, cat
    self.r = I.rng(ctx, 'lines' + ctx.prop)
    self.gen = I.generated(ctx)
    self.good, self.base, self.alt = [], [], {}
    bad = []
    for (s, y), ls in sorted(self.gen.items()):
      a, b = ls[1], ls[5]
      self.base.append(cat.add(a))
      self.alt[cat.add(a)] = cat.add(b)
      bad += [ls[-1], ls[-2]]
    self.maybe_bad = [cat.add(l) for l in bad]
    self.rejected = []
    for k, ((s, y), ls) in enumerate(sorted(self.gen.items())):
      ws = self.rejections(s, ls[2])
      for w in range(2 if not ctx.thorough else len(ws)):
        self.rejected.append(cat.add(ws[(k + w * 5) % len(ws)]))
    self.blank = [cat.add(x) for x in ('', ' ', '   ', '\t', ' ' * 132, 'S', '0' * 132, '#')]
    self.r.shuffle(self.rejected)
    # characters that mean something to some ways of splitting a text, inside a record
    self.odd = []
    for k, ((s, y), ls) in enumerate(sorted(self.gen.items())):
      l = ls[1]
      for _ in range(self.r.choice([1, 1, 3])):
        l = put(l, self.r.randrange(42, 122), self.r.choice(ODD))
      self.odd.append(cat.add(l))
    cat.evaluate()
    self.undec = [n for n in self.maybe_bad if cat.answer(n, 'decode0').startswith('X:') and cat.answer(n, 'read') == 'T']
    self.undec = self.undec or self.maybe_bad

  def rejections(self, s, l):
    """lines that are not accepted, made from a good one, for every reason"""
    c = CONT_COL.get(s, 22)
    res = [l[:-1], l + '0', l[1:], 'X' + l[1:], 's' + l[1:], l[:-1] + 'A', l[:-9] + ' ' + l[-8:], l[:123] + '-' + l[124:],
           put(put(l, 5, 'ZZ'), 13, 'Z'), put(put(l, 5, '  '), 13, ' '), put(put(l, 5, s[0] + '?'), 13, '?'), l[:60], '']
    if c:
      res += [put(l, c, '-'), put(l, c, ' ')]
      res += [put(put(l, c, '2'), c + 1, x) for x in '?'] if s not in ('HC',) else []
      res += [put(put(l, c, 'Z'), c + 1, 'z')] if s not in ('HC',) else []
    return res

  def twin(self, n, col=None, ch=None):
    """the line with one column changed"""
    l = self.cat.lines[n - 1]
    c = col or self.r.randrange(2, 133)
    x = ch or self.r.choice('Q7 0A' if c < 124 else '123456789')
    if l[c - 1] == x:
      x = 'Z' if x != 'Z' and c < 124 else '0' if c >= 124 else '5'
    return self.cat.add(put(l, c, x))

  def colliding(self):
    """records of different types with the same route type"""
    res = []
    for (s, y), ls in sorted(self.gen.items()):
      if s in ROUTE_COL and y.endswith('primary'):
        for t in '12CDMNRSAF':
          res.append((t, self.cat.add(put(ls[1], ROUTE_COL[s], t))))
    return res


class Binder:
  """gives the abstract lines of a history real ones, in turn"""

  def __init__(self, lines, pairs=None):
    self.ls = lines
    self.k = 0
    self.pairs = pairs or self.default_pairs()

  def default_pairs(self):
    ls, r = self.ls, self.ls.r
    res = []
    for n in ls.base:
      res.append((n, r.choice(ls.base)))
      res.append((n, ls.alt[n]))
      res.append((n, ls.twin(n)))
    r.shuffle(res)
    return res

  def next(self):
    ls, k = self.ls, self.k
    self.k += 1
    a, b = self.pairs[k % len(self.pairs)]
    return {1: a, 2: b, 3: ls.undec[k % len(ls.undec)], 4: ls.rejected[(k * 7) % len(ls.rejected)], 5: ls.blank[k % len(ls.blank)]}

  def bind(self, h, m=None, **kw):
    m = m or self.next()
    ev = []
    for e in h:
      if e['op'] == 'world':
        ev.append({'op': 'world', 'w': WORLDS[0] if e['w'] == 0 else WORLDS[1 + (self.k * 5 + e['w'] * 11) % (len(WORLDS) - 1)]})
        continue
      if e['op'] == 'int':
        ev.append(broken(self.ls.r, self.bind([e['e']], m)[0]))
        continue
      e = dict(e)
      if 'l' in e:
        e['l'] = m[e['l']]
      if 'ls' in e:
        e['ls'] = [m[x] for x in e['ls']]
      if e['op'] in ('search', 'dsearch'):
        e.update(filters(self.ls, self.k, e['want'], m, e.get('ls')))
      if e['op'] in ('write', 'append'):
        e['how'] = self.ls.r.choice(['', 'replace', 'same time'])
      if e['op'] == 'folder':
        e.update(folder(self.ls, self.k, e['fs'], e['subs'], m))
        e.pop('fs')
      ev.append(e)
    return ev


def broken(r, e, k=None, how=None):
  """the call e, to be interrupted at its k-th line or its k-th write to stdout"""
  how = how or r.choice(['line'] * 6 + ['write', 'write interrupted'])
  if k is None:
    k = int(2 ** r.uniform(0, 8.6)) if how == 'line' else r.choice([1, 1, 2, 2, 3, 4, 5, 8])
  return {'op': 'int', 'e': e, 'how': how, 'k': k}


def closing(recs=(1,), qs=('primary', 'hasCont', 'json01', 'decode0')):
  return [{'op': 'query', 'r': r, 'q': q} for r in recs for q in qs]


def filters(ls, k, want, m, file_lines):
  """filters for a search; what they find is for the specification to say"""
  r = ls.r
  t1 = ls.cat.lines[ls.cat.core(m[1]) - 1]
  t2 = ls.cat.lines[ls.cat.core(m[2]) - 1]

  def sub(t, n=None):
    n = n or r.choice([1, 2, 3, 5, 8, 20])
    i = r.randrange(0, max(1, len(t) - n))
    return t[i:i + n]
  if want == 'all':
    c = [([''], False), ([], True), ([t1[4:6]], False), (['S'], False), (['1'], True), (['0', '0'], True), ([' '], False), (['', '1'], True)]
  elif want == 'one':
    c = [([t1], False), ([t1], True), ([sub(t1)], False), ([sub(t1)], True), ([t1[:40]], False), ([t1[90:]], False),
         ([t1[126:]], False), ([t1[:1]], False), ([t1[122:125]], True), ([t1[4:7]], False), ([t1[0:13]], False)]
  elif want == 'both':
    c = [([sub(t1), sub(t1)], True), ([sub(t1), sub(t2)], True), ([t1[4:6], t1[128:]], True), ([sub(t1, 2), sub(t1, 2), sub(t2, 1)], True),
         ([t1[:5], t1[3:9], t1[120:]], True), ([t1[20:30], t1[25:35]], True), ([sub(t1), sub(t1)[::-1]], True), ([t1, t2], True)]
  else:
    c = [(['\x7fnot there'], False), (['not there', t1[4:6]], True), ([t1[4:6], 'not there'], True), ([t1 + ' '], False),
         ([' ' + t1], False), ([t1 + t2], False), ([sub(t1, 5).swapcase() + '?'], False), (['.*'], False), (['[0-9]'], True),
         ([t1[:60] + t1[61:]], False), (['x', ''], True), ([t1.lower()], False), (['*'], False), (['?'], True), (['%', t1[4:6]], True),
         ([t1[4:6] + '|' + t2[4:6]], False), (['^S'], False), ([t1[124:] + '$'], True), ([t1[124:127] + ' ' + t1[1:4]], False),
         ([t1[1:4] + ',' + t1[4:6]], False), ([t1[1:4] + ', ' + t1[4:6], ''], True), ([t1[124:] + '\n'], True), ([t1[128:] + t1[124:128]], False)]
  f, is_list = c[k % len(c)]
  return {'flt': f, 'list': is_list}


NAMES = ['a', 'b.txt', 'c.pc', 'd e', '.hidden', 'UPPER.DAT', 'no_extension', 'x.y.z', '~tilde', '-dash', 'data.csv', '__init__.py',
         'tmp.bak', '#hash', 'q?', 'ünïcode', '0', 'LICENSE', 'z.pyc', 'readme.md', "quo'te", '.DS_Store', 'a.gz', 'core']


def folder(ls, k, fs, subs, m):
  r = ls.r
  names = r.sample(NAMES, len(fs) + subs)
  nls = ['n', 'rn', 'r']
  return {'files': [{'name': names[i], 'ls': [m[x] for x in f], 'nl': nls[(k + i) % 3], 'fin': (k + i) % 2 == 0} for i, f in enumerate(fs)],
          'subs': [{'name': names[len(fs) + i] + ('/deep' if i else ''), 'ls': [m[1]]} for i in range(subs)],
          'how': ['', 'slash', 'relative', 'dot'][k % 4]}


# ----------------------------------------------------------------- replay ---

def replay(ctx, cat, evs, timeout=None, cold=False, procs=None):
  """runs the histories and has TLC judge them; procs: in processes of these kinds"""
  items = [dict({'ev': ev}, **({'timeout': timeout} if timeout else {}), **({'cold': True} if cold else {})) for ev in evs]
  fresh = cat.write()
  shards = L.drive(ctx, 'hist', items, lambda it: {'res': []}, catalogue=cat.path, procs=procs)
  for sh in shards:
    obs = sh.observations()
    hits = sum(x.get('hit') == 'T' for o in obs for x in o.get('res', []))
    if hits:
      ctx.note('calls_broken_off', hits)
    with open(sh.out, 'w') as f:
      for it, o in zip(sh.items, obs):
        f.write(json.dumps({'ev': it['ev'], 'res': o.get('res', [])}) + '\n')
  verdict(ctx, cat, shards, fresh)
  times = len(procs) if isinstance(procs, list) else 1
  ctx.traces += len(items) * times
  ctx.note('histories', len(items) * times)
  ctx.note('events', sum(len(i['ev']) for i in items) * times)


def preempt(ctx, cat, items):
  """thread A is interrupted by thread B at every step"""
  fresh = cat.write()
  shards = L.drive(ctx, 'threads', items, lambda it: {'runs': [{'k': 0, 'a': [], 'b': []}], 'n': 1, 'steps': 0}, catalogue=cat.path)
  runs = 0
  for sh in shards:
    obs = sh.observations()
    flat = []
    for it, o in zip(sh.items, obs):
      for x in o.get('runs', [{'k': 0, 'a': [], 'b': []}]):
        how = {'a': it['a'], 'b': it['b'], 'k': x['k'], 'opcodes': it['opcodes'], 'k2': it['k2'], 'cold': it.get('cold', False)}
        flat.append(dict(how, ev=it['a'], res=x['a']))
        flat.append(dict(how, ev=it['b'], res=x['b']))
      runs += o.get('n', 0)
    sh.items = flat
    with open(sh.out, 'w') as f:
      for x in flat:
        f.write(json.dumps({'ev': x['ev'], 'res': x['res']}) + '\n')
  ctx.log('%d interleavings of two threads' % runs)
  verdict(ctx, cat, shards, fresh)
  ctx.traces += runs
  ctx.note('interleavings', runs)


def verdict(ctx, cat, shards, fresh):
  bads = L.judge(ctx, 'TraceSystem', shards, env={'FRESH': fresh},
                 expected=lambda sh: sum(len(it['ev']) + 1 for it in sh.items))
  for sh, b in bads[:2000]:
    it = sh.items[b['k'] - 1]
    ev = it['ev'][:b['p']]
    case = {'mode': 'hist', 'events': ev, 'lines': {n: cat.lines[int(n) - 1] for n in all_lines(ev)}}
    if it.get('cold'):
      case['cold'] = True
    if sh.proc:
      case['proc'] = sh.proc
    if 'k2' in it:
      case.update({k: it[k] for k in ('a', 'b', 'k', 'k2', 'opcodes')}, mode='threads')
      case['lines'] = {n: cat.lines[int(n) - 1] for n in all_lines(it['a'] + it['b'])}
    res = sh.observation(b['k'] - 1)['res']
    case['observed'] = res[b['p'] - 1] if b['p'] <= len(res) else None
    e = it['ev'][b['p'] - 1]
    for w in b['what']:
      ctx.bad.append(({'op': e['op'], 'what': w}, case))


def all_lines(ev):
  res = []
  for e in ev:
    e = e.get('e', e)
    res += [e['l']] if 'l' in e else []
    res += e.get('ls', [])
    for f in e.get('files', []) + e.get('subs', []):
      res += f['ls']
  return [str(x) for x in dict.fromkeys(res)]
