#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
   check.py replay FILE                run the case of a replay file again
   check.py setup                      see that everything needed is there"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import histories as H                  # noqa: E402
import inputs as I                     # noqa: E402
import lib as L                        # noqa: E402


# ------------------------------------------------------- observed records ---

def dead_record(prop):
  def f(item):
    x = 'X:ProcessExit'
    o = {'l': item['l'], 'acc': 'T', 'ro': 'none', 'p': x, 'h': x, 'jx': x, 'jn': 0, 'jv': [], 'jf': '',
         'dx': x, 'dn': 0, 'dv': [], 'dd': [], 'do': 'none', 'again': 'T', 'pr': '', 'po': '', 'pq': '', 'pqo': '', 'odd': False}
    if prop == 'C01':
      o['acc'] = x
    return o
  return f


def records(ctx, items, module='TraceRecord'):
  """drive and judge record observations"""
  seen, uniq = set(), []
  for it in items:
    k = (it['l'], it.get('q'))
    if k not in seen:
      seen.add(k)
      uniq.append(it)
  for k, it in enumerate(uniq):
    it['k'] = k
  shards = L.drive(ctx, 'record', uniq, dead_record(ctx.prop))
  for sh, b in L.judge(ctx, module, shards):
    obs = sh.observation(b['k'] - 1)
    for w in b['what']:
      ctx.bad.append(({'layout': b['layout'], 'what': w}, {'mode': 'record', 'item': sh.items[b['k'] - 1], 'observed': obs}))
  ctx.traces += len(uniq)
  ctx.note('records_observed', len(uniq))
  ctx.samples += [it['l'] for it in uniq[:: max(1, len(uniq) // 3)][:3]]
  return uniq


def lines_for(ctx, q, n_random, per_layout=None, extra=()):
  """the usual inputs: generated by TLC, sample data, random variants"""
  gen = I.generated(ctx)
  ls = []
  for k, v in gen.items():
    ls += v if per_layout is None else v[:: max(1, len(v) // per_layout)]
  cor = I.corpus()
  bases = [l for v in gen.values() for l in v[:6]] + cor
  rnd = I.random_variants(ctx, bases, n_random, q)
  ctx.note('corpus_lines', len(cor))
  ctx.note('random_lines', len(rnd))
  return [{'l': l, 'q': q} for l in list(extra) + ls + cor + rnd]


def sweeps(ctx, items, shards=8):
  sh = L.drive(ctx, 'sweep', items, lambda it: dict(it, r=[-1]))
  for s, b in L.judge(ctx, 'TraceSweep', sh):
    ctx.bad.append(({'section': b['layout'], 'what': b['what'][0]},
                    {'mode': 'sweep', 'item': s.items[b['k'] - 1], 'line': b['line'], 'result': b['result'], 'count': b['count']}))
  n = 0
  for it in items:
    c = 1
    for a in it['a']:
      c *= len(a)
    n += c
  ctx.traces += n
  ctx.note('swept_lines', n)


# ------------------------------------------------------------------ bases ---

CONT_COL = {'AS': 0, 'R ': 0, 'RA': 0, 'TC': 0, 'EP': 39, 'ER': 39, 'ET': 39, 'EU': 18, 'EV': 56, 'HD': 39, 'HE': 39,
            'HF': 39, 'HK': 30, 'HS': 39, 'HV': 26, 'PD': 39, 'PE': 39, 'PF': 39, 'PK': 30, 'PP': 27, 'PR': 70,
            'PS': 39, 'PV': 26, 'TG': 39, 'UC': 25, 'UF': 20, 'UR': 25}


def plain(section, split, fill='1', ends='000012605'):
  l = list('S' + fill * 122 + ends)
  if split:
    l[4], l[5], l[12] = section[0], '?', section[1]
  else:
    l[4], l[5] = section[0], section[1]
  if section == 'EU':
    l[15:17] = 'AE'
  return ''.join(l)


def put(l, c, s):
  return l[:c - 1] + s + l[c - 1 + len(s):]


def cont_sweeps(ctx):
  """every section code, continuation number and application type"""
  items = []
  P = I.PRINTABLE
  for s in I.SECTIONS:
    c = CONT_COL.get(s, 22)
    for split in ((False, True) if ctx.thorough else (s[0] in 'PH' and s not in ('PN',),)):
      fills = ['1', ' ', 'A'] if ctx.thorough else ['1']
      for fill in fills:
        b = plain(s, split, fill)
        if c == 0:
          # no continuation numbers: nothing but the identifying columns matters
          for col in (18, 20, 22, 23, 25, 26, 30, 39, 40, 56, 70):
            items.append({'b': b, 'c': [col], 'a': [P]})
        elif s == 'EU':
          for n in '012A' + (' 9Zaz-' if ctx.thorough else ''):
            x = put(b, c, n)
            step = 5
            for k in range(0, 95, step):
              items.append({'b': x, 'c': [16, 17], 'a': [P[k:k + step], P]})
          for t in ('AE', 'TC', 'SC', 'NR', 'XX'):
            items.append({'b': put(b, 16, t), 'c': [c], 'a': [P]})
        else:
          step = 5
          for k in range(0, 95, step):
            items.append({'b': b, 'c': [c, c + 1], 'a': [P[k:k + step], P]})
          # a supported continuation, all other columns one at a time: none of them selects
          if ctx.thorough:
            for n in '02':
              for col in range(2, 124):
                if col not in (5, 6, 13, c, c + 1):
                  items.append({'b': put(put(b, c, n), c + 1, 'A'), 'c': [col], 'a': [P]})
  return items


def ident_sweeps(ctx):
  """columns 5, 6 and 13 over all printable characters, on several backgrounds"""
  P = I.PRINTABLE
  items = []
  bgs = []
  for n, a, fill in [('0', 'A', '0'), ('2', 'A', 'A')] + ([('1', 'P', '1'), ('Z', 'T', ' '), ('3', 'E', 'P'), ('4', 'N', 'z')] if ctx.thorough else []):
    l = list('S' + fill * 122 + '000012605')
    for c in sorted(set(CONT_COL.values()) | {22}):
      if c:
        l[c - 1] = n
        if n not in '01':
          l[c] = a
    for c in sorted(set(CONT_COL.values()) | {22}):
      if c:
        l[c - 1] = n
    l[15:17] = 'AE'
    bgs.append(''.join(l))
  for b in bgs:
    for c in P:
      step = 19
      for k in range(0, 95, step):
        items.append({'b': put(b, 5, c), 'c': [6, 13], 'a': [P[k:k + step], P]})
  return items


# ----------------------------------------------------------------- checks ---

def C01(ctx):
  L.check_spec(ctx, 'MCRecord', cfg='MCRecordFull' if ctx.thorough else 'MCRecordSmall')
  r = I.rng(ctx, 'C01')
  items = []
  bases = I.corpus()
  good = [plain(s, s[0] in 'PH') for s in I.SECTIONS]
  good = [put(b, CONT_COL.get(s, 22), '0') if CONT_COL.get(s, 22) else b for s, b in zip(I.SECTIONS, good)]
  # length, first character, the nine digits
  for b in good + bases[::40]:
    for n in list(range(0, 14)) + [64, 120, 121, 122, 123, 124, 130, 131]:
      items.append(b[:n])
      items.append(b[-n:] if n else '')
    for x in (' ', '0', 'A', '00', b, 'S', 'T' + b):
      items.append(b + x)
      items.append(x + b)
    items += [b[:60] + x + b[60:] for x in ('0', ' ', 'AB')]
    items += [b[:60] + b[61:], b.lower(), b + '\n' + b]
  for b in good[:6] + r.sample(good, 6 if not ctx.thorough else 30):
    for c in I.PRINTABLE:
      items.append(c + b[1:])
      for k in range(123, 132):
        items.append(b[:k] + c + b[k + 1:])
  for ws in ('', ' ', '\n', '\r\n', '\t', ' \n', '\n\n', '  \t', '\f', '\f\n'):
    for b in r.sample(good + bases, 25):
      items += [ws + b, b + ws, ws + b + ws, ws + b[:-1], ws + b[1:] + ws, b[:-1] + ws, b[:131] + ' ', ' ' + b[1:]]
  # anything at all
  for _ in range(20000 if ctx.thorough else 3000):
    n = r.choice([0, 1, 5, 12, 13, 131, 132, 132, 132, 132, 133, r.randrange(400)])
    l = [r.choice(I.PRINTABLE) for _ in range(n)]
    if n == 132 and r.random() < .9:
      l[0] = r.choice('ST')
      l[123:] = '%09d' % r.randrange(10 ** 9)
      if r.random() < .8:
        s = r.choice(I.SECTIONS)
        l[4:6] = s
        if r.random() < .5:
          l[5], l[12] = r.choice(' ' + s[1]), s[1]
        c = CONT_COL.get(s, 22)
        if c and r.random() < .8:
          l[c - 1] = r.choice(I.ALNUM)
          l[c] = r.choice('APQSTELNWC ')
    items.append(''.join(l))
  # control characters in columns that mean nothing to acceptance
  for b in r.sample(good, 12):
    for x in '\x01\x07\x1b\t\x7f':
      items.append(put(put(b, 3, x), 110, x * 3))
  items += bases
  records(ctx, [{'l': l, 'q': 'a'} for l in items])
  sweeps(ctx, cont_sweeps(ctx) + ident_sweeps(ctx))


def C03(ctx):
  L.check_spec(ctx, 'MCRecord', cfg='MCRecordFull' if ctx.thorough else 'MCRecordSmall')
  sweeps(ctx, ident_sweeps(ctx))
  gen = I.generated(ctx)
  items = []
  r = I.rng(ctx, 'C03')
  subs = sorted(set(s[1] for s in I.SECTIONS) | set('?0xX'))
  for (s, y), ls in gen.items():
    for l in ls[:: max(1, len(ls) // (60 if ctx.thorough else 12))]:
      items.append(l)
      # the same record with the section code in both places, or something else in one of them
      for z in r.sample(subs, 6):
        items.append(put(put(l, 5, s), 13, z))
        items.append(put(put(l, 6, z), 13, s[1]))
  # route types of the procedures, both places occupied
  for a in 'PH':
    for b in 'DEFACSV ?':
      for c in 'DEFACSV ?':
        for t in '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ ':
          base = plain(a + 'D', True, '1')
          items.append(put(put(put(put(base, 6, b), 13, c), 39, '0'), 20, t))
  records(ctx, [{'l': l, 'q': ''} for l in items])


def C04(ctx):
  L.check_spec(ctx, 'MCRecord', cfg='MCRecordFull' if ctx.thorough else 'MCRecordSmall')
  sweeps(ctx, cont_sweeps(ctx))
  # a Record that has not accepted anything is neither
  cat, ls = setup(ctx)
  evs = [[count()]] + [[rd(x), count(), rd(ls.blank[k % len(ls.blank)]), count()] for k, x in enumerate(ls.rejected)]
  evs += [[rd(a), {'op': 'new', 'r': 1}, count()] for a in ls.base]
  H.replay(ctx, cat, evs)
  records(ctx, lines_for(ctx, '', 6000 if not ctx.thorough else 60000, per_layout=None if ctx.thorough else 60))


# characters outside printable ASCII: any, and those that take one column in a table
ODD_NARROW = ['\u00e9', '\u00c5', '\u00df', '\u20ac', '\u0416']
ODD = ODD_NARROW + ['\x00', '\x01', '\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x7f', '\x85', '\xa0', '\u2028', '\u6771', '\t']


def odd_lines(ctx, chars, n):
  """generated lines with such characters in columns that only hold text"""
  r = I.rng(ctx, 'odd')
  res = []
  for ls in I.generated(ctx).values():
    for _ in range(n):
      l = r.choice(ls)
      for _ in range(r.choice([1, 1, 2, 5])):
        l = put(l, r.randrange(24, 123), r.choice(chars))
      res.append(l)
  return res


def by_fields(q, n_quick, n_thorough, spec=True, odd=None, kind=None, most=None):
  def f(ctx):
    if spec:
      L.check_spec(ctx, 'MCRecord', cfg='MCRecordSmall')
    extra = odd_lines(ctx, odd, 100 if ctx.thorough else 12) if odd else []
    ctx.note('lines_with_other_characters', len(extra))
    if kind:
      extra += I.field_lines(ctx, kind, None if ctx.thorough else most)
    records(ctx, lines_for(ctx, q, n_thorough if ctx.thorough else n_quick, extra=extra))
  return f


C05 = by_fields('v', 12000, 150000, odd=ODD)
C07 = by_fields('j', 4000, 60000, odd=ODD)
C08 = by_fields('t', 4000, 60000, odd=ODD_NARROW, kind='text')
C09 = by_fields('', 4000, 150000, spec=False, kind='table')
C10 = by_fields('', 4000, 150000, spec=False, kind='number')
C11 = by_fields('g', 4000, 80000, kind='all')


def columns(ctx, items):
  """which fields change with which column"""
  shards = L.drive(ctx, 'columns', items, lambda it: {'l': it['l'], 'n': 0, 'v': [], 'ch': []})
  for sh, b in L.judge(ctx, 'TraceColumns', shards):
    for w in b['what']:
      ctx.bad.append(({'layout': b['layout'], 'what': w}, {'mode': 'columns', 'item': sh.items[b['k'] - 1]}))
  n = sum(len(o['ch']) for sh in shards for o in sh.observations())
  ctx.traces += n
  ctx.note('column_changes', n)


def C06(ctx):
  L.check_spec(ctx, 'MCRecord', cfg='MCRecordSmall')
  gen = I.generated(ctx)
  items = []
  for (s, y), ls in gen.items():
    for l in ls[1:3] if not ctx.thorough else ls[1:16]:
      for k in range(0, 132, 44):
        items.append({'l': l, 'cols': list(range(k + 1, k + 45)), 'x': ['Q', '7', ' '] if not ctx.thorough else ['Q', '7', ' ', 'a', '0', '-']})
  columns(ctx, items)
  recs = []
  for k, ls in gen.items():
    recs += ls[:: max(1, len(ls) // (400 if ctx.thorough else 40))]
  records(ctx, [{'l': l, 'q': ''} for l in recs + I.corpus()])


# --------------------------------------------------------------- histories ---

def impl_model(ctx, *bugs):
  """the stepwise model of read() refines System.tla; planted mistakes do not"""
  L.check_spec(ctx, 'RecordImpl', cfg='RecordImpl_none')
  for b in bugs:
    L.check_spec(ctx, 'RecordImpl', cfg='RecordImpl_' + b, expect_violation=True)


def setup(ctx, queries=None):
  cat = H.Catalogue(ctx, queries or H.BASIC)
  return cat, H.Lines(ctx, cat)


def rd(l, r=1):
  return {'op': 'read', 'r': r, 'l': l}


def qu(q, r=1):
  return {'op': 'query', 'r': r, 'q': q}


def count(r=1):
  return {'op': 'count', 'r': r}


def pairs_of(ctx, ls, n):
  """ordered pairs of layouts: all of them, or n spread evenly"""
  ps = [(a, b) for a in ls.base for b in ls.base]
  if len(ps) > n:
    ls.r.shuffle(ps)
    ps = ps[:n]
  return ps


def C12(ctx):
  impl_model(ctx, 'early', 'stale', 'memo')
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = []
  for h in H.abstract(ctx, 'reuse', 5 if ctx.thorough else 4):
    evs.append(b.bind(h) + H.closing())
  # every ordered pair of layouts, with all queries made in between
  for a, c in pairs_of(ctx, ls, 10 ** 9):
    evs.append([rd(a), qu('hasCont'), qu('json01'), qu('decode0'), rd(c)] + H.closing())
  # records that differ in one column only
  for n in ls.base:
    for col in range(2, 133) if ctx.thorough else ls.r.sample(range(2, 133), 12):
      evs.append([rd(n), qu('decode0'), qu('json01'), qu('primary'), rd(ls.twin(n, col))] + H.closing() + [rd(n)] + H.closing())
  # the same route type in records of different types
  co = ls.colliding()
  for t in sorted(set(t for t, _ in co)):
    same = [n for x, n in co if x == t]
    for a in same:
      ev = []
      for c in same:
        ev += [rd(a), qu('decode0'), rd(c), qu('decode0')]
      evs.append(ev + H.closing())
  # long random lives of one Record
  every = ls.base + ls.rejected + ls.undec + list(ls.alt.values())
  for _ in range(400 if ctx.thorough else 60):
    ev = []
    for _ in range(60):
      ev.append(rd(ls.r.choice(every)) if ls.r.random() < .6 else qu(ls.r.choice(H.BASIC)))
    evs.append(ev + H.closing())
  # very long lives: whatever is counted, kept or evicted
  for k in range(16 if ctx.thorough else 4):
    some = every if k % 2 else ls.r.sample(every, 5)
    ev = []
    for _ in range(3000):
      x = ls.r.random()
      ev.append(rd(ls.r.choice(some)) if x < .9 else qu(ls.r.choice(H.BASIC)))
    evs.append(ev + H.closing())
  H.replay(ctx, cat, evs)


def C13(ctx):
  impl_model(ctx, 'early')
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = []
  for h in H.abstract(ctx, 'reject', 5 if ctx.thorough else 4):
    evs.append(b.bind(h) + H.closing())
  keys = sorted(ls.gen)
  rej = []
  for s, y in keys:
    rej.append([cat.add(x) for x in ls.rejections(s, ls.gen[(s, y)][3])])
  # nothing held: every kind of rejected line of every type
  evs.append([count()])
  for xs in rej:
    for x in xs:
      evs.append([rd(x), count()] + H.closing() + [count()])
  # something held, a line of another (or the same) type rejected
  k = 0
  for i, a in enumerate(ls.base):
    for j in range(len(keys)):
      if not ctx.thorough and (i + j) % 2 and i != j:
        continue
      k += 1
      x = rej[j][k % len(rej[j])]
      evs.append([rd(a), rd(x)] + H.closing())
    # the same line, spoiled in every way
    for x in ls.rejections(keys[i][0], cat.lines[a - 1]):
      evs.append([rd(a), rd(cat.add(x))] + H.closing() + [rd(ls.blank[k % len(ls.blank)])] + H.closing())
    # two rejected lines, with queries between
    evs.append([rd(a), qu('decode0'), rd(ls.rejected[k % len(ls.rejected)]), qu('hasCont'), rd(ls.rejected[(k * 3) % len(ls.rejected)])] + H.closing())
  # a record that cannot be decoded keeps its state as well
  for n in ls.undec:
    evs.append([rd(n), qu('decode0'), rd(ls.rejected[n % len(ls.rejected)])] + H.closing())
  H.replay(ctx, cat, evs)


def C14(ctx):
  impl_model(ctx, 'scratch')
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = []
  for h in H.abstract(ctx, 'two', 5 if ctx.thorough else 4):
    evs.append(b.bind(h) + H.closing((1, 2)))
  for h in H.abstract(ctx, 'mixed', 4 if ctx.thorough else 3):
    evs.append(b.bind(h) + H.closing((1, 2)))
  # every pair of layouts on two Records
  for a, c in pairs_of(ctx, ls, 10 ** 9 if ctx.thorough else 9000):
    evs.append([rd(a), rd(c, 2), qu('decode0', 2)] + H.closing((1,)) + [qu('json01', 2)])
  # the same type, other contents; one column only
  for n in ls.base:
    evs.append([rd(n), rd(ls.alt[n], 2)] + H.closing((1, 2)) + H.closing((1,)))
    for col in range(2, 133) if ctx.thorough else ls.r.sample(range(2, 133), 16):
      evs.append([rd(n), qu('decode0'), rd(ls.twin(n, col), 2), qu('json01', 2), qu('decode0', 2)] + H.closing((1,)))
    for x in ls.r.sample(ls.rejected, 3):
      evs.append([rd(n), rd(x, 2), {'op': 'parse', 'l': x, 'q': 'parse1'}] + H.closing((1, 2)))
  co = ls.colliding()
  for t in sorted(set(t for t, _ in co)):
    same = [n for x, n in co if x == t]
    for a in same:
      for c in same:
        evs.append([rd(a), rd(c, 2), qu('decode0', 2), qu('decode0', 1), {'op': 'parse', 'l': c, 'q': 'parse1'}])
  H.replay(ctx, cat, evs)
  # two threads, every interruption
  items = []
  for k, n in enumerate(ls.base):
    others = [ls.alt[n]] + ([ls.r.choice(ls.base), ls.rejected[k % len(ls.rejected)], ls.undec[k % len(ls.undec)]] if ctx.thorough
                            else [ls.r.choice(ls.base)] if k % 4 == 0 else [])
    for m in others:
      a = [rd(n), qu('json01'), qu('primary'), qu('decode0')]
      bb = [rd(m), qu('decode0'), qu('json01')] if k % 2 else [{'op': 'parse', 'l': m, 'q': 'parse1'}]
      items.append({'a': a, 'b': bb, 'from': 1 + k // 2 % 2, 'to': 100000, 'step': 1 if ctx.thorough else 2, 'k2': 0, 'opcodes': False, 'timeout': 300})
      if ctx.thorough or k % 9 == 0:
        items.append({'a': a[:2], 'b': [rd(m), qu('json01')], 'from': 1 + k // 9 % 3, 'to': 100000, 'step': 3, 'k2': 0, 'opcodes': True, 'timeout': 600})
      if ctx.thorough:
        items.append({'a': a, 'b': bb, 'from': 1, 'to': 100000, 'step': 2, 'k2': 9, 'opcodes': False, 'timeout': 300})
  # whole files, folders and searches at the same time
  for k in range(24 if ctx.thorough else 6):
    x, y, z = ls.r.sample(ls.base, 3)
    ops = [{'op': 'file', 'ls': [x, ls.rejected[k], y], 'q': 'parse1', 'nl': 'n', 'fin': True},
           {'op': 'search', 'ls': [x, y, x, ls.rejected[k], z], 'flt': [cat.lines[x - 1][4:6], '1'], 'list': True, 'nl': 'n', 'fin': True},
           {'op': 'folder', 'files': [{'name': 'a', 'ls': [y], 'nl': 'n', 'fin': True}, {'name': 'b', 'ls': [x], 'nl': 'n', 'fin': True}], 'subs': [], 'how': ''},
           {'op': 'parse', 'l': z, 'q': 'parse1'}]
    for i, a in enumerate(ops):
      b = [ops[(i + k) % 4], {'op': 'search', 'ls': [z, y, z], 'flt': ['S'], 'list': False, 'nl': 'n', 'fin': True}]
      items.append({'a': [a], 'b': b, 'from': 1 + k, 'to': 100000, 'step': 3 if ctx.thorough else 23, 'k2': 0, 'opcodes': False, 'timeout': 300})
  H.preempt(ctx, cat, items)
  # the same in processes whose first calls these are: whatever is set up at first use
  items = []
  for k, n in enumerate(ls.base if ctx.thorough else ls.base[ctx.seed % 5::5]):
    m = ls.r.choice([ls.alt[n], ls.r.choice(ls.base)])
    a = [rd(n), qu('decode0')] if k % 3 else [{'op': 'parse', 'l': n, 'q': 'parse1'}]
    items.append({'a': a, 'b': [rd(m), qu('decode0'), qu('json01')] if k % 2 else [{'op': 'parse', 'l': m, 'q': 'parse1'}], 'from': 1 + k % 3, 'to': 100000,
                  'step': 1 if ctx.thorough else 4, 'k2': 0, 'opcodes': False, 'cold': True, 'timeout': 600})
    if ctx.thorough or k % 4 == 0:
      items.append({'a': [rd(n), qu('json01')], 'b': [rd(m), qu('json01')], 'from': 1 + k % 5, 'to': 100000,
                    'step': 2 if ctx.thorough else 5, 'k2': 0, 'opcodes': True, 'cold': True, 'timeout': 600})
  H.preempt(ctx, cat, items)


def C15(ctx):
  impl_model(ctx, 'memo')
  cat, ls = setup(ctx, H.ALL)
  b = H.Binder(ls)
  evs = []
  for h in H.abstract(ctx, 'queries', 4 if ctx.thorough else 3):
    m = b.next()
    evs.append([rd(m[1]), rd(m[2], 2)] + b.bind(h, m) + H.closing((1, 2)))
  # all queries, several times, in random orders, on every layout and on undecodable records
  for n in ls.base + list(ls.alt.values()) + ls.undec:
    for _ in range(6 if ctx.thorough else 2):
      qs = H.ALL * 2
      ls.r.shuffle(qs)
      evs.append([rd(n)] + [qu(q) for q in qs] + [qu('decode0', 2), qu('json01', 2)])
  # the same query many times
  for n in ls.base[::4]:
    for q in ('decode0', 'json01', 'json10', 'hasCont', 'decode1'):
      evs.append([rd(n)] + [qu(q)] * 12 + H.closing())
  for k, n in enumerate(ls.r.sample(ls.base, 10)):
    q = ['decode0', 'json01', 'json00', 'hasCont', 'primary', 'decode0', 'decode1', 'json11', 'json10', 'decode'][k]
    evs.append([rd(n), rd(ls.alt[n], 2)] + [qu(q, 1 + i % 2) for i in range(1500)] + H.closing((1, 2)))
  # an empty record
  for _ in range(20):
    qs = H.ALL * 2
    ls.r.shuffle(qs)
    evs.append([qu(q) for q in qs])
  # queries on one record, then another record of the same type
  for n in ls.base:
    evs.append([rd(n), qu('decode1'), qu('json'), qu('json10'), rd(ls.twin(n), 2)] + H.closing((2,)) + [qu('json00', 2), qu('decode', 2)])
  H.replay(ctx, cat, evs)


SIZES = [31, 62, 64, 100, 124, 128, 250, 256, 493, 498, 512, 600, 1000, 1024, 2500]


LONG = [1, 9, 20, 80, 100, 120, 123, 128, 132, 200, 255, 256, 511, 512, 1000, 1024, 2000, 2048, 4095, 4096, 8191, 8192, 65535, 65536]


def glued(ls, every):
  """files with lines that hold a record among other things, so that pieces of
  the line would be records: [line numbers]"""
  cat, r, res = ls.cat, ls.r, []
  for k, size in enumerate(LONG):
    n, m = r.choice(every), r.choice(every)
    l, o = cat.lines[n - 1], cat.lines[m - 1]
    junk = (r.choice([' .', 'x', 'S', '0', '-=']) * size)[:size]
    for x in (junk + l, l + junk, l + junk + o):
      if x.strip(H.WHITE) == x:
        res.append([m, cat.add(x), n])
  for k, n in enumerate(every[::3]):
    l, o = cat.lines[n - 1], cat.lines[every[k] - 1]
    for x in ('\ufeff' + l, l + o, l + ' ' + o, l + ',' + o, '"' + l + '"', l + ';', '# ' + l, l + '\x1a', '\x00' + l, l[:60] + '\x00' + l[60:]):
      res.append([cat.add(x), every[k], cat.add(x)])
  return res


def C16(ctx):
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = [b.bind(h) for h in H.abstract(ctx, 'files', 1)]
  cor = [cat.add(l) for l in I.corpus()]
  every = ls.base + list(ls.alt.values())
  # every layout and every sample line as a file of its own, and with neighbours
  for n in every + cor[::1 if ctx.thorough else 9]:
    evs.append([{'op': 'file', 'ls': [n], 'q': 'parse1', 'nl': 'n', 'fin': n % 2 == 0}])
    evs.append([{'op': 'file', 'ls': [ls.r.choice(every), n, ls.r.choice(ls.rejected), n, n], 'q': 'parse', 'nl': 'rn', 'fin': n % 3 == 0}])
  # long files: repeated lines, rejected and blank ones anywhere, decodable throughout or up to a point
  for size in (500, 1500, 3000) if not ctx.thorough else (500, 1500, 3000, 12000):
    for nl in ('n', 'r', 'rn'):
      ok = [n for n in every + cor if cat_ok(cat, n)]
      f = [ls.r.choice(ok) if ls.r.random() < .5 else ls.r.choice(ls.rejected + ls.blank) for _ in range(size)]
      if nl == 'rn':
        f[size - 7] = ls.undec[0]
      evs.append([{'op': 'file', 'ls': f, 'q': 'parse1' if nl != 'r' else 'parse', 'nl': nl, 'fin': nl == 'r'}])
      evs.append([{'op': 'file', 'ls': f, 'q': 'parse0', 'nl': nl, 'fin': True}])
  # terminators of all kinds in one file
  for k in range(200 if ctx.thorough else 40):
    f = [ls.r.choice(every + ls.rejected + ls.blank[:1]) for _ in range(ls.r.choice([2, 3, 7, 20]))]
    evs.append([{'op': 'file', 'ls': f, 'q': 'parse1', 'nl': 'mixed', 'fin': k % 2 == 0}])
  # nothing but records: what is read in pieces shows at the ends of the pieces
  ok = [n for n in every if cat_ok(cat, n)]
  for size in SIZES + ([7000, 20000] if ctx.thorough else []):
    f = [ls.r.choice(ok) for _ in range(size)]
    evs.append([{'op': 'file', 'ls': f, 'q': 'parse1', 'nl': ['n', 'rn'][size % 2], 'fin': size % 3 == 0}])
    evs.append([{'op': 'file', 'ls': f[:-1] + [ls.undec[size % len(ls.undec)]], 'q': 'parse0', 'nl': 'n', 'fin': False}])
  # characters at which other ways of splitting a text would split
  for n in ls.odd:
    evs.append([{'op': 'file', 'ls': [every[n % len(every)], n, every[(n + 1) % len(every)]], 'q': 'parse1', 'nl': ['n', 'rn', 'r'][n % 3], 'fin': n % 2 == 0}])
  for k, f in enumerate(glued(ls, every)):
    evs.append([{'op': 'file', 'ls': f, 'q': 'parse1', 'nl': ['n', 'rn', 'r'][k % 3], 'fin': k % 2 == 0}])
  # the ways of naming a file
  for k, n in enumerate(every[::3]):
    evs.append([{'op': 'file', 'ls': [n, ls.rejected[k % len(ls.rejected)], every[k]], 'q': 'parse1', 'nl': 'n', 'fin': True, 'as': x} for x in ('path', 'relative', 'dotted', '')])
  # the same file twice, different files one after the other
  for h in b.pairs[:60]:
    e1 = {'op': 'file', 'ls': [h[0], h[1]], 'q': 'parse1', 'nl': 'n', 'fin': True}
    e2 = {'op': 'file', 'ls': [h[1], ls.rejected[0], h[0]], 'q': 'parse0', 'nl': 'n', 'fin': False}
    evs.append([e1, e1, e2, e1, dict(e2, q='parse1')])
  H.replay(ctx, cat, evs, timeout=300)


def cat_ok(cat, n):
  if n not in cat.entries:
    cat.evaluate()
  return not cat.answer(n, 'decode0').startswith('X:')


def C17(ctx):
  cat, ls = setup(ctx, H.BASIC)
  b = H.Binder(ls)
  evs = []
  for rep in range(3 if ctx.thorough else 1):
    evs += [b.bind(h) for h in H.abstract(ctx, 'search', 1)]
  cor = [cat.add(l) for l in I.corpus()[::1 if ctx.thorough else 7]]
  every = ls.base + list(ls.alt.values()) + cor + ls.undec + ls.odd
  for k in range(4000 if ctx.thorough else 700):
    f = [ls.r.choice(every) if ls.r.random() < .7 else ls.r.choice(ls.rejected + ls.blank) for _ in range(ls.r.choice([1, 3, 8, 20, 60]))]
    m = {1: ls.r.choice(f), 2: ls.r.choice(f)}
    if not cat.lines[m[1] - 1].strip() or not cat.lines[m[2] - 1].strip():
      m = {1: every[0], 2: every[1]}
    e = {'op': 'search', 'ls': f, 'nl': ['n', 'rn', 'r'][k % 3], 'fin': k % 2 == 0}
    e.update(H.filters(ls, ls.r.randrange(1000), ls.r.choice(['all', 'one', 'both', 'none', 'one', 'both']), m, f))
    evs.append([e] if k % 5 else [e, dict(e), {'op': 'search', 'ls': f[::-1], 'flt': e['flt'], 'list': e['list']}])
  # many filters, the last of which decides
  for k, n in enumerate(ls.base):
    t = cat.lines[n - 1]
    flt = [t[i:i + 2] for i in ls.r.sample(range(131), ls.r.choice([3, 5, 9, 17, 40]))]
    f = [n, ls.alt[n], ls.twin(n), ls.twin(n)]
    for x in ([], ['~~'], [t[124:]]):
      evs.append([{'op': 'search', 'ls': f, 'flt': flt + x, 'list': True, 'nl': 'mixed', 'fin': k % 2 == 0}])
  # lines that hold more than a record
  for k, f in enumerate(glued(ls, ls.base)):
    t = cat.lines[ls.r.choice(f) - 1].strip(H.WHITE + '\ufeff\x00')
    i = ls.r.randrange(100)
    evs.append([{'op': 'search', 'ls': f, 'flt': ls.r.choice([['S'], [t[:40]], [t[-40:]], [t[i:i + 3], t[-4:]]]), 'list': True, 'nl': ['n', 'rn', 'r'][k % 3], 'fin': k % 2 == 0}])
  for k, n in enumerate(ls.base[::3]):
    evs.append([{'op': 'search', 'ls': [n, ls.rejected[k % len(ls.rejected)], n], 'flt': [cat.lines[n - 1][4:6]], 'list': k % 2 == 0, 'nl': 'n', 'fin': True, 'as': x}
                for x in ('path', 'relative', 'dotted', '')])
  # larger files, nothing but records; found at the end, found everywhere
  for size in SIZES + ([7000, 20000] if ctx.thorough else []):
    f = [ls.r.choice(ls.base) for _ in range(size)]
    t = cat.lines[f[-1] - 1]
    for flt, is_list in (([t], False), (['S'], True), ([t[124:]], False), ([t[4:6], t[123:]], True)):
      evs.append([{'op': 'search', 'ls': f, 'flt': flt, 'list': is_list, 'nl': 'n', 'fin': size % 2 == 0}])
  H.replay(ctx, cat, evs)


def C18(ctx):
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = []
  hs = H.abstract(ctx, 'folders', 1)
  for rep in range(10 if ctx.thorough else 3):
    evs += [b.bind(h) for h in hs]
  # every odd name on its own
  for k, n in enumerate(H.NAMES):
    evs.append([{'op': 'folder', 'files': [{'name': n, 'ls': [ls.base[k % len(ls.base)]], 'nl': 'n', 'fin': True}], 'subs': [], 'how': ''}])
  # four files, larger files
  for k in range(400 if ctx.thorough else 60):
    names = ls.r.sample(H.NAMES, 4)
    evs.append([{'op': 'folder', 'files': [{'name': x, 'ls': [ls.r.choice(ls.base + ls.rejected + ls.blank + ls.odd) for _ in range(ls.r.choice([0, 1, 5, 12]))],
                                            'nl': 'n', 'fin': k % 2 == 0} for x in names],
                 'subs': [{'name': 'sub', 'ls': [ls.base[0]]}], 'how': ['', 'slash', 'relative', 'dot'][k % 4]}])
  # a large file among small ones; many files with the same contents
  ok = [n for n in ls.base if cat_ok(cat, n)]
  for size in SIZES[::3]:
    fs = [[ls.r.choice(ok) for _ in range(size)], [ls.r.choice(ok)], [], [ls.r.choice(ls.rejected)] * 3]
    evs.append([{'op': 'folder', 'files': [{'name': x, 'ls': f, 'nl': 'n', 'fin': True} for x, f in zip(ls.r.sample(H.NAMES, 4), fs)],
                 'subs': [], 'how': ['', 'slash', 'relative', 'dot'][size % 4]}])
  for size in (7, 10, 16, 17, 33, 64, 100, 130):
    names = ['%s%d' % (ls.r.choice(['file', 'FA', 'x.', '.', 'part-']), i) for i in range(size)]
    evs.append([{'op': 'folder', 'files': [{'name': x, 'ls': [ls.r.choice(ok)] if ls.r.random() < .9 else [ls.rejected[0]], 'nl': 'n', 'fin': True} for x in names],
                 'subs': [{'name': 'sub%d' % i, 'ls': [ok[0]]} for i in range(size % 5)], 'how': ['', 'slash', 'relative', 'dot'][size % 4]}])
  # names that are nearly the same
  for k, names in enumerate([['a', 'A'], ['b.txt', 'B.TXT', 'b.TXT', 'B.txt'], ['x', 'x.txt', 'x.txt.bak', 'x.TXT', 'x.'], ['n', 'n ', ' n', 'n  '],
                             ['\u00e9', 'e\u0301', '\u00c9'], ['n' * 255, 'n' * 254, 'N' * 255], ['1', '01', '001', '1.0'], ['a-b', 'a_b', 'a b', 'a.b'],
                             ['line\nbreak', 'line', 'break'], ['%s', '%d', '{}', '*', '[a]'], ['FACD18', 'FACD18.gz', 'FACD18.pc', 'FACD18~']]):
    for j in range(2):
      evs.append([{'op': 'folder', 'files': [{'name': x, 'ls': [ls.r.choice(ok)], 'nl': 'n', 'fin': True} for x in names],
                   'subs': [], 'how': ['', 'slash', 'relative', 'dot'][(k + j) % 4]}])
  # what is in a folder but is neither a file nor a folder
  for k in range(12):
    fs = [[ls.r.choice(ok)], [ls.r.choice(ok), ls.rejected[k]]][:k % 3]
    names = ls.r.sample(H.NAMES, 5)
    evs.append([{'op': 'folder', 'files': [{'name': x, 'ls': f, 'nl': 'n', 'fin': True} for x, f in zip(names, fs)], 'subs': [],
                 'odd': [[names[4], ['broken link', 'folder link', 'socket'][k % 3]]] + ([[names[3], 'broken link']] if k > 5 else []),
                 'how': ['', 'slash', 'relative', 'dot'][k % 4]}])
  # links to files elsewhere; names of the folder itself; a path object
  for k in range(40):
    fs = [{'name': x, 'ls': [ls.r.choice(ok)], 'nl': 'n', 'fin': True} for x in ls.r.sample(H.NAMES, 3)]
    for f in fs[:k % 4]:
      f['link'] = ls.r.choice(['hard', 'symbolic'])
    evs.append([{'op': 'folder', 'files': fs, 'subs': [{'name': 'sub', 'ls': [ok[0]]}] * (k % 2), 'how': ['path', '', 'slash', 'relative', 'dot'][k % 5],
                 'dir': ls.r.choice(['', '[ab]', '*', 'a b', '.hidden', 'x.pc', '~', '-d', '%s', '\u00fc', '..x', "it's", 'a\\b', '$HOME', '?', '{}', 'n' * 200])}])
  for k in range(12):
    n = ok[k * 9 % len(ok)]
    evs.append([{'op': 'folder', 'files': [{'name': x, 'ls': [n], 'nl': 'n', 'fin': True} for x in ls.r.sample(H.NAMES, 6)],
                 'subs': [], 'how': ['', 'slash', 'relative', 'dot'][k % 4]}])
  H.replay(ctx, cat, evs)


def C19(ctx):
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = [b.bind(h) for h in H.abstract(ctx, 'parse', 4 if ctx.thorough else 3)]

  def pa(n, q):
    return {'op': 'parse', 'l': n, 'q': q}
  gen = [l for v in ls.gen.values() for l in (v[:: max(1, len(v) // (60 if ctx.thorough else 10))] + v[-4:])]
  for l in gen + I.corpus()[::1 if ctx.thorough else 5]:
    n = cat.add(l)
    evs.append([pa(n, 'parse'), pa(n, 'parse0'), pa(n, 'parse1')])
  for n in ls.base:
    for col in range(2, 133) if ctx.thorough else ls.r.sample(range(2, 133), 8):
      evs.append([pa(n, 'parse1'), pa(ls.twin(n, col), 'parse1'), pa(n, 'parse0')])
  co = ls.colliding()
  for t in sorted(set(t for t, _ in co)):
    evs.append([pa(n, 'parse1') for x, n in co if x == t])
  for n in ls.rejected + ls.undec + ls.odd:
    evs.append([pa(n, 'parse1'), pa(n, 'parse0'), pa(ls.base[n % len(ls.base)], 'parse'), pa(n, 'parse')])
  # thousands of calls
  every = ls.base + ls.rejected + ls.undec + list(ls.alt.values())
  for k in range(8):
    some = every if k % 2 else ls.r.sample(every, 5)
    evs.append([pa(ls.r.choice(some), ls.r.choice(['parse', 'parse0', 'parse1'])) for _ in range(1500)])
  H.replay(ctx, cat, evs)


def C20(ctx):
  cat, ls = setup(ctx)
  b = H.Binder(ls)
  evs = []

  def wr(f, lines, op='write', how=''):
    return {'op': op, 'f': f, 'ls': lines, 'how': how, 'nl': 'n'}

  def fl(f, q='parse1'):
    return {'op': 'dfile', 'f': f, 'q': q}

  def se(f, n):
    t = cat.lines[n - 1]
    return {'op': 'dsearch', 'f': f, 'flt': [t[124:]], 'list': f == 2}
  end = lambda m: [fl(1), fl(2), se(1, m[1]), {'op': 'dfolder'}]
  hs = H.abstract(ctx, 'disk', 4 if ctx.thorough else 3)
  for h in hs:
    m = b.next()
    evs.append(b.bind(h, m) + end(m))
  # every layout: a file is read, then its contents change to something of the same size
  for k, n in enumerate(ls.base):
    for how in ('', 'replace', 'same time'):
      t = ls.twin(n)
      evs.append([wr(1, [n]), fl(1), se(1, n), {'op': 'dfolder'}, wr(1, [t], how=how), fl(1), se(1, t), {'op': 'dfolder'}, fl(1, 'parse0'),
                  wr(1, [ls.base[k - 1]], 'append', how), se(1, n), fl(1), {'op': 'remove', 'f': 1}, fl(1), se(1, n), {'op': 'dfolder'}])
  # the same lines in other orders: the same size, the same searches
  bad = [n for n in ls.rejected if len(cat.lines[n - 1]) == 132]
  for k in range(1200 if ctx.thorough else 250):
    n = ls.base[k % len(ls.base)]
    f = [n, ls.r.choice([ls.twin(n), ls.r.choice(ls.base)]), ls.r.choice(bad)] + [ls.r.choice(bad + ls.base) for _ in range(k % 3)]
    t = cat.lines[n - 1]
    i = ls.r.randrange(100)
    q = {'op': 'dsearch', 'f': 1, 'flt': [ls.r.choice([t[124:], t[i:i + 1], t[i:i + 9]])], 'list': k % 2 == 0}
    ev = []
    for _ in range(5):
      ls.r.shuffle(f)
      ev += [wr(1, list(f), how=ls.r.choice(['', 'replace', 'same time'])), dict(q), fl(1)] + ls.r.choice([[], [dict(q)], [{'op': 'dfolder'}]])
    evs.append(ev)
  # long lives of three files
  every = ls.base + ls.rejected[:40] + ls.blank + list(ls.alt.values())
  for k in range(600 if ctx.thorough else 80):
    ev = []
    for _ in range(40):
      f = ls.r.choice([1, 2, 3])
      x = ls.r.random()
      some = [ls.r.choice(every) for _ in range(ls.r.choice([0, 1, 2, 5]))]
      ev.append(wr(f, some, 'write', ls.r.choice(['', 'replace', 'same time'])) if x < .25 else
                wr(f, some, 'append', ls.r.choice(['', 'replace', 'same time'])) if x < .4 else
                {'op': 'remove', 'f': f} if x < .48 else fl(f, ls.r.choice(['parse', 'parse0', 'parse1'])) if x < .7 else
                se(f, ls.r.choice(ls.base)) if x < .9 else {'op': 'dfolder'})
    evs.append(ev)
  H.replay(ctx, cat, evs)


def contexts(ctx, items):
  """is every row read from its own text?"""
  shards = L.drive(ctx, 'context', items, lambda it: dict(it, ls=[{'l': l, 'x': 'X:ProcessExit', 'd': []} for l in it['ls']]))
  for sh, b in L.judge(ctx, 'TraceContext', shards):
    it = sh.items[b['k'] - 1]
    ctx.bad.append(({'layout': b['layout'], 'what': b['what']}, {'mode': 'context', 'item': dict(it, ls=[it['ls'][k - 1] for k in b['lines']])}))
  n = sum(len(it['ls']) for it in items)
  ctx.traces += n
  ctx.note('lines_in_context', n)
  xs = [o['x'] for sh in shards for ob in sh.observations() for o in ob['ls']]
  ctx.note('of_which_decoded', xs.count(''))
  ctx.note('of_which_rejected', xs.count('rejected'))


def C21(ctx):
  L.check_spec(ctx, 'MCRecord', cfg='MCRecordSmall')
  contexts(ctx, [{'s': s, 'y': y, 'ls': ls} for (s, y), ls in I.mixtures(ctx, 4000 if ctx.thorough else 600).items()])


BAD = ['no file', 'no search file', 'no folder', 'folder as file', 'folder as search file', 'file as folder', 'bytes', 'search bytes',
       'folder of bytes', 'parse None', 'parse number', 'parse bytes', 'search None', 'file None', 'search for None', 'search for numbers', 'search for bytes']
ENV = {'op': 'env'}


def C22(ctx):
  cat, ls = setup(ctx, H.BASIC + ['json', 'json10'])
  b = H.Binder(ls)
  r = ls.r
  evs = []

  def after(n, m):
    """what is asked after a call was broken off"""
    return H.closing((1, 2)) + [rd(m, 2)] + H.closing((2,)) + [rd(n, 1)] + H.closing((1,)) + [{'op': 'parse', 'l': m, 'q': 'parse1'}]
  for h in H.abstract(ctx, 'interrupt', 3) * (4 if ctx.thorough else 1):
    m = b.next()
    evs.append([ENV] + b.bind(h, m) + [ENV] + after(m[1], m[2]))
  ok = [n for n in ls.base if cat_ok(cat, n)]

  def calls(n, m):
    t = cat.lines[n - 1]
    names = r.sample(H.NAMES, 3)
    return [rd(n), rd(n, 2), qu('decode1'), qu('decode0', 2), qu('json'), qu('json10'), qu('primary', 2),
            {'op': 'parse', 'l': n, 'q': 'parse1'}, {'op': 'parse', 'l': m, 'q': 'parse0'},
            {'op': 'file', 'ls': [m, n, m], 'q': 'parse1', 'nl': 'n', 'fin': True},
            {'op': 'search', 'ls': [n, m, n], 'flt': [t[4:6]], 'list': True, 'nl': 'n', 'fin': True},
            {'op': 'folder', 'files': [{'name': x, 'ls': [n, m], 'nl': 'n', 'fin': True} for x in names], 'subs': [], 'how': ''},
            {'op': 'dfile', 'f': 1, 'q': 'parse1'}, {'op': 'dfolder'}, {'op': 'dsearch', 'f': 1, 'flt': [t[4:6]], 'list': False}]

  def files(n, m):
    return [{'op': 'write', 'f': 1, 'ls': [n, m, n], 'nl': 'n'}, {'op': 'write', 'f': 2, 'ls': [m], 'nl': 'n'}]
  # every layout: the first call of a process is broken off, at every step in the end
  for k, n in enumerate(ls.base):
    m = r.choice([ls.alt[n], r.choice(ok)])
    for step in range(1, 330, 3 if ctx.thorough else 11):
      for e in ([rd(n)], [{'op': 'parse', 'l': n, 'q': 'parse1'}], [rd(n), qu('decode1')]):
        evs.append(e[:-1] + [H.broken(r, e[-1], step + r.randrange(11), 'line')] + after(n, m))
  # one call after the other is broken off
  for k in range(1500 if ctx.thorough else 250):
    n, m = r.choice(ok), r.choice(ls.base)
    ev = [ENV, rd(m, 2)] + files(n, m)
    for _ in range(12):
      e = r.choice(calls(n, m))
      ev += [H.broken(r, e)] + r.choice([[], [e], [r.choice(calls(m, n))], H.closing((1, 2))])
    evs.append(ev + [ENV] + after(n, m) + [ENV] + calls(n, m) + [ENV])
  # every call, broken off at every step, and then made again
  for k, n in enumerate(ok[::1 if ctx.thorough else 9]):
    m = ok[k * 17 % len(ok)]
    for e in calls(n, m):
      ev = [ENV, rd(n), rd(m, 2)] + files(n, m)
      for step in range(1 + k % 7, 900, 7 if e['op'] in ('read', 'query', 'parse') else 29):
        ev += [H.broken(r, e, step, 'line'), e]
      for step in range(1, 9):
        ev += [H.broken(r, e, step, 'write'), e, ENV, H.broken(r, e, step, 'write interrupted'), e]
      evs.append(ev + [ENV] + after(n, m))
  # calls with something that is no record, no file, no folder; undecodable records; rejected ones
  for k, n in enumerate(ls.undec + ls.rejected + ok):
    m = r.choice(ok)
    ev = [ENV, rd(m, 1), rd(n, 2)] + files(n, m)
    for _ in range(4):
      ev += [{'op': 'bad', 'what': r.choice(BAD), 'l': n}] + r.choice([[], H.closing((1, 2)), [r.choice(calls(n, m))], [r.choice(calls(m, n)), ENV]])
    evs.append(ev + [ENV] + H.closing((1, 2)) + after(n, m) + [ENV])
  # every history in a process of its own
  H.replay(ctx, cat, evs, cold=True)


# kinds of processes; VERIF_CLOCK makes the driver's clock wrong by so many seconds
PROCS = [
  {'flags': ['-O'], 'env': {'PYTHONHASHSEED': '101'}},
  {'flags': ['-OO', '-u'], 'env': {'PYTHONHASHSEED': '102', 'COLUMNS': '20', 'LINES': '3', 'NO_COLOR': '1', 'TERM': 'dumb'}},
  {'flags': ['-W', 'error', '-bb'], 'env': {'PYTHONHASHSEED': '103', 'FORCE_COLOR': '1', 'COLUMNS': '300'}},
  {'flags': ['-X', 'dev'], 'env': {'PYTHONHASHSEED': '104', 'TZ': 'XXX-14', 'DEBUG': '1', 'VERBOSE': '1', 'CI': 'true'}},
  {'env': {'PYTHONHASHSEED': '105', 'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}},
  {'env': {'PYTHONHASHSEED': '106', 'VERIF_CLOCK': str(40 * 31556952), 'TZ': 'XXX+12'}},
  {'env': {'PYTHONHASHSEED': '107', 'VERIF_CLOCK': str(-45 * 31556952), 'HOME': None, 'LANG': None, 'PATH': None, 'USER': None}},
  {'env': {'PYTHONHASHSEED': '0', 'PYTHONINTMAXSTRDIGITS': '640', 'PYTHONMALLOC': 'debug', 'PYTHONUTF8': '1'}},
]
USUAL = {'env': {'VERIF_CLOCK': '0'}}


def C23(ctx):
  cat, ls = setup(ctx, H.BASIC + ['json10'])
  b = H.Binder(ls)
  r = ls.r
  plain = [x for x in H.NAMES if x.isascii()]
  cold = []
  for h in H.abstract(ctx, 'world', 4 if ctx.thorough else 3):
    m = b.next()
    cold.append(b.bind(h, m) + H.closing() + [{'op': 'parse', 'l': m[1], 'q': 'parse1'}])
  ok = [n for n in ls.base if cat_ok(cat, n)]

  def calls(n, m, k):
    t = cat.lines[n - 1]
    return [rd(n), qu('decode1'), qu('json10'), qu('primary'), qu('hasCont'), {'op': 'parse', 'l': m, 'q': 'parse1'}, qu('json01'), qu('decode0')] + \
      r.choice([[], [{'op': 'file', 'ls': [n, r.choice(ls.rejected), m], 'q': 'parse1', 'nl': ['n', 'rn', 'r'][k % 3], 'fin': k % 2 == 0}],
                [{'op': 'search', 'ls': [m, n, r.choice(ls.rejected), n], 'flt': [t[4:6], t[123:]], 'list': True, 'nl': 'n', 'fin': True}],
                [{'op': 'folder', 'files': [{'name': x, 'ls': [n], 'nl': 'n', 'fin': True} for x in r.sample(plain, 3)], 'subs': [], 'how': ''}]])

  def world(w):
    return {'op': 'world', 'w': w}
  every = []
  for v in ls.gen.values():
    every.append([cat.add(x) for x in (v if ctx.thorough else r.sample(v, min(len(v), 25)))])
  # every kind of surroundings: before the first call, and between calls
  for k, n in enumerate(ls.base):
    for j, w in enumerate(H.WORLDS[1:]):
      m = r.choice(every[k % len(every)])
      ev = [world(w)] + calls(n, m, k + j) + [world(r.choice(H.WORLDS))] + calls(m, n, k)
      cold.append(ev if j % 2 else calls(m, n, j) + ev)
  # every kind of process
  warm = []
  cor = [cat.add(l) for l in I.corpus()[::2 if ctx.thorough else 20]]
  for n in ls.base + ls.undec + ls.rejected + cor + [x for v in every for x in v]:
    warm.append([rd(n), qu('decode1'), qu('json10'), qu('primary'), qu('hasCont'), {'op': 'parse', 'l': n, 'q': 'parse1'}])
  for k, n in enumerate(ok):
    m = r.choice(ls.base)
    warm.append(calls(n, m, k) + calls(m, n, k + 1) + [{'op': 'folder', 'files': [{'name': x, 'ls': [n, n], 'nl': 'n', 'fin': True} for x in ('a', 'b', 'c')], 'subs': [], 'how': 'dot'}])
  H.replay(ctx, cat, warm, procs=PROCS)
  H.replay(ctx, cat, cold, cold=True, procs=USUAL)


PADS = ['\n', '\r\n', '\r', ' ', '  ', '\t', '\f', ' \n', '\t \n', '\n\n', ' \r\n ', '   \t\f\r\n']


def C02(ctx):
  L.check_spec(ctx, 'MCRecord', cfg='MCRecordSmall')
  cat, ls = setup(ctx)
  evs = []
  r = ls.r
  cor = [cat.add(l) for l in I.corpus()[::3 if ctx.thorough else 25]]
  pads = PADS + ([' ' * n for n in range(3, 140, 7)] if ctx.thorough else [' ' * 5, ' ' * 40, ' ' * 131, ' ' * 132])

  def padded(n, k):
    l = cat.lines[n - 1]
    a, b = pads[k % len(pads)], pads[(k * 5 + 3) % len(pads)]
    return cat.add([a + l, l + a, a + l + b][k % 3])
  k = 0
  for n in ls.base + list(ls.alt.values()) + cor + ls.undec + ls.rejected:
    for _ in range(12 if ctx.thorough else 4):
      k += 1
      p = padded(n, k)
      evs.append([rd(p)] + H.closing() + [{'op': 'parse', 'l': p, 'q': 'parse1'}])
  # lines that lose or gain characters only by white space
  for n in ls.base[::3]:
    l = cat.lines[n - 1]
    for x in (l[:-1] + ' ', ' ' + l[1:], l[:-1] + '\n', ' ' + l[:-1], l[1:] + ' ', l[:-2] + '\r\n', '\t' + l[1:], l[:131] + '\f'):
      evs.append([rd(cat.add(x))] + H.closing() + [{'op': 'parse', 'l': cat.add(x), 'q': 'parse1'}])
  # padding alternates on one record
  for n in ls.base:
    k += 1
    evs.append([rd(padded(n, k))] + H.closing() + [rd(n)] + H.closing() + [rd(padded(ls.alt[n], k + 1))] + H.closing())
  # searches: white space is not part of the record.  Files are split at line terminators, so the others.
  blanks = [' ', '   ', '\t', ' \t ', ' ' * 60, '\f', ' \f\t']
  for j in range(600 if ctx.thorough else 120):
    f = []
    for _ in range(r.choice([1, 2, 6])):
      n = r.choice(ls.base + cor + ls.rejected)
      l = cat.lines[n - 1]
      f.append(cat.add([l, r.choice(blanks) + l, l + r.choice(blanks), r.choice(blanks) + l + r.choice(blanks)][r.randrange(4)]))
    t = cat.lines[f[0] - 1].strip()
    if not t:
      continue
    flt, is_list = r.choice([([t[:5]], False), ([t[:3], t[-3:]], True), ([' ' + t[:9]], False), ([t[-9:] + ' '], False), (['  '], False), (['\t'], False),
                             ([t[100:]], True), ([''], False)])
    evs.append([{'op': 'search', 'ls': f, 'flt': flt, 'list': is_list, 'nl': 'n', 'fin': j % 2 == 0}])
    evs.append([{'op': 'file', 'ls': f, 'q': 'parse1', 'nl': 'n', 'fin': j % 2 == 0}])
  H.replay(ctx, cat, evs)


# -------------------------------------------------------------------- main ---

def renumber(ev, m):
  res = []
  for e in ev:
    e = dict(e)
    if 'e' in e:
      e['e'] = renumber([e['e']], m)[0]
    if 'l' in e:
      e['l'] = m[str(e['l'])]
    if 'ls' in e:
      e['ls'] = [m[str(x)] for x in e['ls']]
    for k in ('files', 'subs'):
      if k in e:
        e[k] = [dict(f, ls=[m[str(x)] for x in f['ls']]) for f in e[k]]
    res.append(e)
  return res


def run_case(ctx, case):
  mode = case['mode']
  if mode == 'record':
    records(ctx, [case['item']])
  elif mode == 'sweep':
    sweeps(ctx, [case['item']])
  elif mode == 'columns':
    columns(ctx, [case['item']])
  elif mode == 'context':
    contexts(ctx, [case['item']])
  else:
    cat = H.Catalogue(ctx, H.ALL)
    m = {n: cat.add(l) for n, l in case['lines'].items()}
    if mode == 'hist':
      H.replay(ctx, cat, [renumber(case['events'], m)], cold=case.get('cold', False), procs=case.get('proc'))
    else:
      H.preempt(ctx, cat, [{'cold': case.get('cold', False), 'a': renumber(case['a'], m), 'b': renumber(case['b'], m), 'from': max(1, case['k']), 'to': max(1, case['k']) + 1,
                            'step': 1, 'k2': case['k2'], 'opcodes': case['opcodes']}])


def replay_file(path):
  with open(path) as f:
    d = json.load(f)
  ctx = L.Ctx(d['property'], 'replay', 1)
  try:
    run_case(ctx, d['case'])
    for key, _ in ctx.bad:
      print('  %s' % json.dumps(key))
    print('the case %s' % ('fails' if ctx.bad else 'conforms'))
    return 1 if ctx.bad else 0
  finally:
    ctx.close()


def preflight():
  """nothing has to be built: the package is imported from /repo/src as it is.
  Parses all modules of the specification with SANY."""
  import subprocess
  mods = sorted(f for f in os.listdir(L.SPEC) if f.endswith('.tla'))
  p = subprocess.run(['java', '-Xss64m', '-cp', L.CP, 'tla2sany.SANY'] + mods, cwd=L.SPEC, capture_output=True, text=True)
  if p.returncode or 'Fatal errors' in p.stdout or '*** Errors' in p.stdout:
    print(p.stdout[-3000:])
    return 1
  print('%d modules parse' % len(mods))
  p = subprocess.run([L.PY, '-B', '-c', 'import sys; sys.path.insert(0, "/repo/src"); import arinc424; print(arinc424.__file__)'],
                     capture_output=True, text=True)
  print((p.stdout + p.stderr).strip())
  return p.returncode


def main():
  if sys.argv[1] == 'setup':
    return preflight()
  if sys.argv[1] == 'replay':
    return replay_file(sys.argv[2])
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  ctx = L.Ctx(prop, tier, seed)
  try:
    ctx.assumptions = ['lines are printable ASCII, possibly surrounded by blanks, tabs, form feeds and line terminators',
                       'CPython of the repository\'s virtual environment; TLC and its Json/IOUtils modules are trusted']
    globals()[prop](ctx)
    return L.finish(ctx)
  except L.MachineryError as e:
    print('ERROR: ' + str(e))
    return 2
  except Exception:
    traceback.print_exc()
    return 2
  finally:
    ctx.close()


if __name__ == '__main__':
  sys.exit(main())
