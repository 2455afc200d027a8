"""Runs inputs and histories against the real arinc424 package and records what
it observably does.  It contains no expectations: every verdict is TLC's.

usage: driver.py MODE IN.ndjson OUT.ndjson START
Reads one item per line from IN (from line START on), writes one observation per
item to OUT (appending, flushed per item, so that a died process can be resumed
by the caller after the item that killed it).
"""
import builtins
import decimal
import gc
import hashlib
import json
import locale
import os
import pathlib
import random
import re
import shutil
import socket
import signal
import sys
import tempfile
import threading
import time
import warnings

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
sys.path.insert(0, REPO_SRC)
sys.dont_write_bytecode = True

ITEM_TIMEOUT = 60


class Timeout(BaseException):
  pass


# ----------------------------------------------------------------- stdout ---

class Interrupted(KeyboardInterrupt):
  """what the driver interrupts a call with"""


class Tee:
  """stand-in for sys.stdout that keeps what each thread wrote"""
  encoding = 'utf-8'
  errors = 'strict'

  def __init__(self):
    self.buf = {}
    self.fail = None       # [in so many writes, the exception to raise]

  def write(self, s):
    if self.encoding != 'utf-8':
      str(s).encode(self.encoding)
    if self.fail is not None:
      self.fail[0] -= 1
      if self.fail[0] <= 0:
        x, self.fail = self.fail[1], None
        raise x
    self.buf.setdefault(threading.get_ident(), []).append(str(s))
    return len(s)

  def writelines(self, ls):
    for x in ls:
      self.write(x)

  def flush(self):
    pass

  tty = False

  def isatty(self):
    return self.tty

  def take(self):
    return ''.join(self.buf.pop(threading.get_ident(), []))


tee = Tee()
sys.stdout = tee
ANSI = re.compile('\x1b\\[[0-9;]*m')


def clean(s):
  """text that TLC can hold: printable ASCII and newline, the rest spelled out"""
  if not isinstance(s, str):
    s = '<%s>%r' % (type(s).__name__, s)
  return ''.join(c if (' ' <= c <= '~' or c == '\n') else '<U+%04X>' % ord(c) for c in s)


def call(f):
  """(tag, value, stdout): tag '' or the name of the exception"""
  tee.take()
  try:
    v = f()
    return '', v, tee.take()
  except Timeout:
    return 'Timeout', None, tee.take()
  except SystemExit:
    return 'SystemExit', None, tee.take()
  except BaseException as e:
    return type(e).__name__, None, tee.take()


def tf(r):
  """a boolean answer"""
  tag, v, _ = r
  return 'X:' + tag if tag else 'T' if v is True else 'F' if v is False else 'V:' + clean(repr(v))[:40]


BORDER = re.compile(r'^\+-+\+-+\+-+\+$')


def tokens(text):
  """stdout as a list of tokens: whole tables, and single lines outside tables"""
  if text == '':
    return []
  lines = text.split('\n')
  if lines[-1] == '':
    lines.pop()
  else:
    lines[-1] += '<no newline>'
  out = []
  i = 0
  while i < len(lines):
    if BORDER.match(lines[i]) and i + 2 < len(lines) and lines[i + 1].startswith('|') and lines[i + 2] == lines[i]:
      j = i + 3
      while j < len(lines) and lines[j].startswith('|'):
        j += 1
      if j < len(lines) and lines[j] == lines[i]:
        out.append('\n'.join(lines[i:j + 1]))
        i = j + 1
        continue
    out.append(lines[i])
    i += 1
  return out


def is_table(tok):
  # anything that looks like part of a table counts as one
  return tok.startswith('|') or BORDER.match(tok.split('\n')[0]) is not None


def out_class(text, ret=None):
  """none | same (exactly ret) | noise (no table) | noise+same | other"""
  if text == '':
    return 'none'
  if ret is not None and text == ret + '\n':
    return 'same'
  toks = tokens(text)
  tabs = [t for t in toks if is_table(t)]
  if not tabs:
    return 'noise'
  if ret is not None and tabs == [ret] and toks[-1] == ret:
    return 'noise+same'
  return 'table' if ret is None else 'other'


def parse_table(t):
  """rows (name, value, decoded) of a decode() table, or None"""
  if not isinstance(t, str):
    return None
  lines = t.split('\n')
  if len(lines) < 3 or not BORDER.match(lines[0]):
    return None
  pos = [i for i, c in enumerate(lines[0]) if c == '+']
  width = len(lines[0])

  def cells(x):
    if len(x) != width or any(x[p] != '|' for p in pos):
      return None
    return [x[pos[k] + 1:pos[k + 1]] for k in range(3)]

  head = cells(lines[1])
  if head is None or [h.strip() for h in head] != ['Field', 'Value', 'Decoded'] or lines[2] != lines[0]:
    return None
  rows = []
  if lines[-1] != lines[0]:
    return None
  for x in lines[3:-1]:
    c = cells(x)
    if c is None or not all(k.startswith(' ') for k in c):
      return None
    name, val, dec = c[0][1:].rstrip(), c[1][1:].rstrip(), c[2][1:].rstrip()
    if name == '' and val == '':
      if not rows:
        return None
      rows[-1][2] += '\n' + dec
      continue
    if len(val) < 2 or val[0] != "'" or val[-1] != "'":
      return None
    rows.append([name, val[1:-1], dec])
  return rows


def parse_json(t):
  """list of pairs, or None"""
  try:
    v = json.loads(t, object_pairs_hook=lambda ps: ('obj', ps))
  except Exception:
    return None
  if not (isinstance(v, tuple) and v[0] == 'obj'):
    return None
  if any(not isinstance(x, str) for _, x in v[1]):
    return None
  return v[1]


class Interned:
  """texts by number; every new one is appended to a file at once, so that a
  resumed driver knows the numbers given so far"""

  def __init__(self, path):
    self.d = {}
    if os.path.exists(path):
      with open(path) as f:
        for x in f:
          self.d[x.rstrip('\n')] = len(self.d) + 1
    self.f = open(path, 'a')

  def idx(self, v):
    k = json.dumps(v)
    n = self.d.get(k)
    if n is None:
      n = self.d[k] = len(self.d) + 1
      self.f.write(k + '\n')
      self.f.flush()
    return n


NAMES = TEXT = None


def names_idx(ns):
  # a blank at the end of a name cannot be told from padding in a table
  return NAMES.idx([clean(n).rstrip() for n in ns])


# ---------------------------------------------------------------- records ---

def observe(arinc424, item):
  """everything one record shows; which calls are made depends on item['q']"""
  line = item['l']
  want = item.get('q', '')
  o = {'l': line, 'acc': '', 'ro': '', 'p': '', 'h': '', 'jx': '', 'jn': 0, 'jv': [], 'jf': '',
       'dx': '', 'dn': 0, 'dv': [], 'dd': [], 'do': '', 'again': 'T', 'pr': '', 'po': '', 'pq': '', 'pqo': '',
       'odd': any(not ' ' <= c <= '~' for c in line.strip(' \t\n\r\f'))}
  r = arinc424.Record()
  rd = call(lambda: r.read(line))
  o['acc'] = tf(rd)
  o['ro'] = out_class(rd[2])
  if want == 'a':            # acceptance only, by read() and by parse()
    p = call(lambda: arinc424.parse(line))
    o['pr'], o['po'] = tf(p), out_class(p[2])
    p = call(lambda: arinc424.parse(line, False))
    o['pq'], o['pqo'] = tf(p), out_class(p[2])
    return o
  if o['acc'] != 'T':
    return o
  o['p'] = tf(call(r.primary))
  o['h'] = tf(call(r.hasCont))

  tag, v, out = call(lambda: r.json(False))
  first_json = (tag, v)
  if tag:
    o['jx'] = 'X:' + tag
  else:
    ps = parse_json(v)
    if ps is None:
      o['jx'] = 'invalid'
    else:
      o['jn'] = names_idx([a for a, _ in ps])
      o['jv'] = [b for _, b in ps]
      if 'j' in want:
        o['jf'] = json_forms(r, v, out, ps)
  if 'v' in want and o['odd']:   # tables cannot be read back with every character
    o['dx'] = 'not asked'
    return o

  tag, v, out = call(lambda: r.decode(False))
  first_dec = (tag, v)
  if tag:
    o['dx'] = 'X:' + tag
    o['do'] = out_class(out)
  else:
    rows = parse_table(v)
    if rows is None:
      o['dx'] = 'unreadable'
    else:
      o['dn'] = names_idx([a for a, _, _ in rows])
      o['dv'] = [b for _, b, _ in rows]
      o['dd'] = [clean(c) for _, _, c in rows]
    o['do'] = out_class(out)
  if 't' in want:            # the printed table
    tag, v, out = call(lambda: r.decode(True) if item.get('k', 0) % 2 else r.decode())
    if (tag, v) != first_dec:
      o['again'] = 'decode(True)'
    o['po'] = out_class(out, v if not tag and isinstance(v, str) else None)
  if 'g' in want:            # everything is as before
    if call(lambda: r.json(False))[:2] != first_json:
      o['again'] = 'json'
    if tf(call(r.primary)) != o['p']:
      o['again'] = 'primary'
    if tf(call(r.hasCont)) != o['h']:
      o['again'] = 'hasCont'
    if call(lambda: r.decode(False))[:2] != first_dec:
      o['again'] = 'decode'
    if call(lambda: r.json(False))[:2] != first_json:
      o['again'] = 'json'
    p = call(lambda: arinc424.parse(line, item.get('k', 0) % 2 == 0))
    o['pr'] = tf(p)
    o['po'] = out_class(p[2])
  return o


def json_forms(r, single, out, pairs):
  """'' when all forms of json() agree, else what differs"""
  if out != '':
    return 'json(False) prints'
  if '\n' in single:
    return 'single line form has several lines'
  for args, kw, show, multi in (((), {}, True, False), ((True,), {}, True, False), ((True, True), {}, True, False),
                                ((False, True), {}, False, False), ((True, False), {}, True, True),
                                ((False, False), {}, False, True), ((), {'single_line': False}, True, True),
                                ((), {'output': False, 'single_line': False}, False, True)):
    tag, v, out = call(lambda: r.json(*args, **kw))
    what = 'json(%s)' % ', '.join([repr(a) for a in args] + ['%s=%r' % k for k in kw.items()])
    if tag:
      return what + ' raises ' + tag
    if not isinstance(v, str):
      return what + ' returns no text'
    if not multi and v != single:
      return what + ' differs'
    if multi:
      ps = parse_json(v)
      if ps is None:
        return what + ' is not valid'
      if sorted(ps) != sorted(pairs):
        return what + ' holds other data'
      if len(v.split('\n')) < len(pairs) + 2 and pairs:
        return what + ' is not indented over several lines'
    if show and out != v + '\n':
      return what + ' prints something else than it returns'
    if not show and out != '':
      return what + ' prints'
  return ''


def m_record(arinc424, item):
  return observe(arinc424, item)


# ------------------------------------------------------------------ sweep ---

def code_of(arinc424, line):
  r = arinc424.Record()
  rd = call(lambda: r.read(line))
  a = tf(rd)
  if a == 'F':
    return 0
  if a != 'T':
    return -1
  tag, v, _ = call(lambda: r.json(False))
  ps = None if tag else parse_json(v)
  if ps is None:
    return -2
  p, h = tf(call(r.primary)), tf(call(r.hasCont))
  if p not in 'TF' or h not in 'TF':
    return -3
  return names_idx([a for a, _ in ps]) * 4 + (2 if p == 'T' else 0) + (1 if h == 'T' else 0)


def m_sweep(arinc424, item):
  """the base line with the given columns running through alphabets: item
  {b, c: [columns from 1], a: [texts of one character per column]}"""
  base, cols, alph = item['b'], item['c'], item['a']
  res = []

  def go(k, chars):
    if k == len(cols):
      line = list(base)
      for c, x in zip(cols, chars):
        line[c - 1] = x
      res.append(code_of(arinc424, ''.join(line)))
      return
    for x in alph[k]:
      go(k + 1, chars + [x])
  go(0, [])
  return dict(item, r=res)


# ---------------------------------------------------------------- columns ---

def shown(arinc424, line):
  """names and values as shown by the table, or by json if it cannot be decoded"""
  r = arinc424.Record()
  if tf(call(lambda: r.read(line))) != 'T':
    return None
  tag, v, _ = call(lambda: r.decode(False))
  rows = None if tag else parse_table(v)
  if rows is None:
    tag, v, _ = call(lambda: r.json(False))
    ps = None if tag else parse_json(v)
    if ps is None:
      return None
    return [a for a, _ in ps], [b for _, b in ps], [''] * len(ps)
  return [a for a, _, _ in rows], [b for _, b, _ in rows], [c for _, _, c in rows]


def m_columns(arinc424, item):
  """change every column of a line to every given character; report which
  fields (by position) changed their text"""
  line = item['l']
  s0 = shown(arinc424, line)
  o = {'l': line, 'n': 0, 'v': [], 'ch': []}
  if s0 is None:
    return o
  o['n'] = names_idx(s0[0])
  o['v'] = [clean(x) for x in s0[1]]
  for c in item['cols']:
    for x in item['x']:
      if line[c - 1] == x:
        continue
      s1 = shown(arinc424, line[:c - 1] + x + line[c:])
      if s1 is None or s1[0] != s0[0]:
        continue           # rejected, or another layout: nothing to compare
      ch = [i + 1 for i in range(len(s0[1])) if s0[1][i] != s1[1][i]]
      o['ch'].append({'c': c, 'x': x, 'f': ch})
  return o


# ---------------------------------------------------------------- context ---

def m_context(arinc424, item):
  """many lines of one record type and layout: the decoded texts of their rows"""
  res = []
  for line in item['ls']:
    signal.setitimer(signal.ITIMER_REAL, ITEM_TIMEOUT, 3)        # for each line
    o = {'l': line, 'x': '', 'd': []}
    r = arinc424.Record()
    if tf(call(lambda: r.read(line))) != 'T':
      o['x'] = 'rejected'
    else:
      tag, v, _ = call(lambda: r.decode(False))
      rows = None if tag else parse_table(v)
      if tag:
        o['x'] = 'X:' + tag
      elif rows is None:
        o['x'] = 'unreadable'
      else:
        o['d'] = [NAMES.idx(clean(c)) for _, _, c in rows]
    res.append(o)
  return {'s': item['s'], 'y': item['y'], 'ls': res}


# -------------------------------------------------------------- histories ---
# Events name lines by their number in the catalogue (from 1).  Texts (return
# values, stdout) are recorded as tokens made from their content, "T..." for
# tables and "t..." for anything else.

LINES = []          # the catalogue


def tid(s):
  t = ('T' if is_table(s) else 't') + hashlib.md5(s.encode('utf-8', 'backslashreplace')).hexdigest()[:12]
  if TEXT is not None and t not in SEEN:
    SEEN.add(t)
    TEXT.write(json.dumps([t, s]) + '\n')
  return t


SEEN = set()


def answer(r):
  """{'a': answer, 'o': [stdout tokens]}"""
  tag, v, out = r
  if tag:
    a = 'X:' + tag
  elif isinstance(v, bool):
    a = 'T' if v else 'F'
  elif v is None:
    a = 'none'
  else:
    a = tid(v if isinstance(v, str) else repr(v))
  return {'a': a, 'o': [tid(t) for t in tokens(out)]}


QUERIES = {
  'decode1': lambda r: r.decode(True),
  'decode': lambda r: r.decode(),
  'decode0': lambda r: r.decode(False),
  'json11': lambda r: r.json(True, True),
  'json': lambda r: r.json(),
  'json10': lambda r: r.json(True, False),
  'json01': lambda r: r.json(False, True),
  'json00': lambda r: r.json(False, False),
  'primary': lambda r: r.primary(),
  'hasCont': lambda r: r.hasCont(),
}


# calls with something that is no record, no file, no folder
BAD = {
  'no file': lambda m, base: m.read_file(os.path.join(base, 'not', 'there')),
  'no search file': lambda m, base: m.search(os.path.join(base, 'not there'), 'A'),
  'no folder': lambda m, base: m.read_folder(os.path.join(base, 'not there')),
  'folder as file': lambda m, base: m.read_file(base),
  'folder as search file': lambda m, base: m.search(base, 'A'),
  'file as folder': lambda m, base: m.read_folder(os.path.join(base, 'bytes')),
  'bytes': lambda m, base: m.read_file(os.path.join(base, 'bytes')),
  'search bytes': lambda m, base: m.search(os.path.join(base, 'bytes'), 'A'),
  'folder of bytes': lambda m, base: m.read_folder(base),
  'parse None': lambda m, base: m.parse(None),
  'parse number': lambda m, base: m.parse(7),
  'parse bytes': lambda m, base: m.parse(b'S' * 132),
  'search None': lambda m, base: m.search(None, 'A'),
  'search for None': lambda m, base: m.search(os.path.join(base, 'good'), ['S', None]),
  'search for numbers': lambda m, base: m.search(os.path.join(base, 'good'), [1, 2]),
  'search for bytes': lambda m, base: m.search(os.path.join(base, 'good'), [b'S']),
  'file None': lambda m, base: m.read_file(None),
}


def isolated(f, seconds=10):
  """f() in a forked child, so that it neither sees nor leaves traces"""
  rd, wr = os.pipe()
  pid = os.fork()
  if pid == 0:
    os.close(rd)
    try:
      signal.signal(signal.SIGALRM, signal.SIG_DFL)
      signal.setitimer(signal.ITIMER_REAL, seconds)
      data = json.dumps(f())
    except BaseException as e:
      data = json.dumps([type(e).__name__, None, ''])
    with os.fdopen(wr, 'w') as w:
      w.write(data)
    os._exit(0)
  os.close(wr)
  with os.fdopen(rd) as f2:
    data = f2.read()
  _, status = os.waitpid(pid, 0)
  if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
    global HUNG
    HUNG += 1
  if not data:
    return ['ProcessExit', None, '']
  return json.loads(data)


def m_fresh(arinc424, item):
  """{l: line or null, q: queries} -> the answers of new Records that have read
  just this line, every query on a Record and in a process of its own"""
  line = item['l']
  fr, ro = {}, []

  def one(q):
    r = arinc424.Record()
    if line is not None:
      r.read(line)
      tee.take()
    return list(call(lambda: QUERIES[q](r)))
  if line is not None:
    rd = isolated(lambda: list(call(lambda: arinc424.Record().read(line))))
    fr['read'] = answer(rd)
    ro = [ANSI.sub('', t) for t in tokens(rd[2])]
  for q in item['q']:
    if q in QUERIES:
      fr[q] = answer(isolated(lambda: one(q)))
    else:
      fr[q] = answer(isolated(lambda: list(call(lambda: arinc424.parse(line, q == 'parse1')))))
  return {'l': line if line is not None else '', 'core': item['core'], 'fr': fr, 'ro': ro}


def snapshot(path):
  """name -> content of everything below path"""
  res = {}
  for d, subs, files in os.walk(path):
    for n in subs:
      res[os.path.relpath(os.path.join(d, n), path) + '/'] = ''
    for n in files:
      if not os.path.isfile(os.path.join(d, n)):
        res[os.path.relpath(os.path.join(d, n), path)] = 'odd'
        continue
      with open(os.path.join(d, n), 'rb') as f:
        res[os.path.relpath(os.path.join(d, n), path)] = f.read()
  return res


NL = {'n': '\n', 'rn': '\r\n', 'r': '\r'}


def file_text(ls, nl, fin):
  """the lines with terminators; fin: the last one has one as well"""
  if nl == 'mixed':
    ends = ['\n', '\r\n', '\r', '\r\n', '\n', '\r']
    t = ''.join(LINES[l - 1] + ends[k % 6] for k, l in enumerate(ls))
    return t if fin or not ls else t[:-len(ends[(len(ls) - 1) % 6])]
  t = ''.join(LINES[l - 1] + NL[nl] for l in ls)
  return t if fin or not ls else t[:-len(NL[nl])]


HOME = os.getcwd()


def cwd():
  try:
    return os.getcwd()
  except OSError:
    return 'gone'


def open_files():
  return len(os.listdir('/proc/self/fd'))


FILES = [0]


def process_state():
  """what a library has no business changing, by name"""
  if open_files() != FILES[0]:
    gc.collect()
    FILES[0] = open_files()
  mask = os.umask(0o22)
  os.umask(mask)
  parts = {'working directory': cwd(), 'sys.stdout': sys.stdout is tee, 'sys.stderr': sys.stderr is sys.__stderr__,
           'environment': sorted(os.environ.items()), 'sys.path': sys.path, 'umask': mask, 'recursion limit': sys.getrecursionlimit(),
           'locale': locale.setlocale(locale.LC_ALL), 'signal handlers': [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
           'decimal context': repr(decimal.getcontext()), 'random numbers': random.getstate(), 'garbage collection': gc.isenabled(),
           'switch interval': sys.getswitchinterval(), 'builtins': [id(builtins.print), id(builtins.open), id(builtins.int), id(builtins.float)],
           'open files': FILES[0], 'threads': threading.active_count(),
           'warning filters': repr(warnings.filters), 'trace function': [sys.gettrace(), sys.getprofile()], 'time zone': time.tzname,
           'exception hook': sys.excepthook is sys.__excepthook__, 'digits limit': sys.get_int_max_str_digits()}
  return {k: hashlib.md5(repr(v).encode('utf-8', 'backslashreplace')).hexdigest()[:12] for k, v in parts.items()}


class Breaker:
  """raises an exception at the k-th line that runs inside the package, or at
  the k-th write to standard output"""

  def __init__(self, how, k):
    self.how, self.k, self.n, self.hit = how, k, 0, False
    self.prefix = os.path.join(REPO_SRC, 'arinc424')

  def local(self, frame, event, arg):
    if event == 'line':
      self.n += 1
      if self.n == self.k:
        self.hit = True
        raise Interrupted()
    return self.local

  def glob(self, frame, event, arg):
    if not self.hit and event == 'call' and frame.f_code.co_filename.startswith(self.prefix):
      return self.local
    return None

  def __enter__(self):
    if self.how == 'line':
      sys.settrace(self.glob)
    else:
      tee.fail = self.fail = [self.k, BrokenPipeError(32, 'Broken pipe') if self.how == 'write' else Interrupted()]

  def __exit__(self, *a):
    if self.how == 'line':
      sys.settrace(None)
    else:
      self.hit = tee.fail is None
      tee.fail = None


CLOCK = [0]       # seconds by which the clock is wrong


def wrong_clock():
  """makes the functions that tell the time heed CLOCK; before the package is imported"""
  import datetime
  real = {n: getattr(time, n) for n in ('time', 'time_ns', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}
  time.time = lambda: real['time']() + CLOCK[0]
  time.time_ns = lambda: real['time_ns']() + CLOCK[0] * 10 ** 9
  time.localtime = lambda t=None: real['localtime'](time.time() if t is None else t)
  time.gmtime = lambda t=None: real['gmtime'](time.time() if t is None else t)
  time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
  time.ctime = lambda t=None: real['ctime'](time.time() if t is None else t)
  time.asctime = lambda t=None: real['asctime'](time.localtime() if t is None else t)

  class Date(datetime.date):
    @classmethod
    def today(cls):
      return cls.fromtimestamp(time.time())

  class DateTime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
      return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def today(cls):
      return cls.fromtimestamp(time.time())

    @classmethod
    def utcnow(cls):
      return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)
  datetime.date, datetime.datetime = Date, DateTime
  CLOCK[0] = int(os.environ.get('VERIF_CLOCK', '0'))


def surroundings(name, scratch):
  """changes what surrounds a call; returns what undoes it"""
  undo = []

  def put(obj, attr, value):
    old = getattr(obj, attr)
    setattr(obj, attr, value)
    undo.append(lambda: setattr(obj, attr, old))

  def env(clear=False, **kw):
    old = dict(os.environ)

    def back():
      os.environ.clear()
      os.environ.update(old)
      time.tzset()
    undo.append(back)
    if clear:
      os.environ.clear()
    os.environ.update(kw)
    time.tzset()

  def clock(year):
    put_clock = CLOCK[0]
    CLOCK[0] = int((year - time.gmtime(time.time() - CLOCK[0]).tm_year) * 365.2425 * 86400)
    undo.append(lambda: CLOCK.__setitem__(0, put_clock))

  def directory(d):
    os.mkdir(d)
    os.chdir(d)
    undo.append(lambda: os.chdir(HOME))

  if name == 'narrow':
    env(COLUMNS='20', LINES='4')
    put(os, 'get_terminal_size', lambda *a: os.terminal_size((20, 4)))
  elif name == 'wide':
    env(COLUMNS='400', LINES='100')
    put(os, 'get_terminal_size', lambda *a: os.terminal_size((400, 100)))
  elif name == 'terminal':
    put(tee, 'tty', True)
    env(TERM='xterm-256color', COLORTERM='truecolor')
  elif name == 'dumb terminal':
    put(tee, 'tty', True)
    env(TERM='dumb')
  elif name == 'no color':
    env(NO_COLOR='1', ANSI_COLORS_DISABLED='1')
  elif name == 'force color':
    env(FORCE_COLOR='1', CLICOLOR_FORCE='1')
  elif name == 'no environment':
    env(clear=True)
  elif name == 'other environment':
    env(LANG='de_DE.UTF-8', LC_ALL='de_DE.UTF-8', LC_NUMERIC='de_DE.UTF-8', LANGUAGE='de', DEBUG='1', VERBOSE='1', QUIET='1', CI='true', STRICT='1',
        USER='nobody', HOME='/nonexistent', SOURCE_DATE_EPOCH='1', PYTHONHASHSEED='7', PYTHONOPTIMIZE='2', PYTHONIOENCODING='ascii')
  elif name in ('1979', '1999', '2049', '2101'):
    clock(int(name))
  elif name == 'eastern':
    env(TZ='XXX-14')
  elif name == 'western':
    env(TZ='XXX+12')
  elif name == 'elsewhere':
    directory(scratch)
  elif name == 'nowhere':
    directory(scratch)
    os.rmdir(scratch)
  elif name == 'precision':
    old = decimal.getcontext()
    decimal.setcontext(decimal.Context(prec=3, rounding=decimal.ROUND_UP))
    undo.append(lambda: decimal.setcontext(old))
  elif name == 'warnings':
    old = list(warnings.filters)
    warnings.simplefilter('error')
    undo.append(lambda: (warnings.resetwarnings(), warnings.filters.extend(old)))
  elif name == 'no collection':
    gc.disable()
    undo.append(gc.enable)
  elif name == 'POSIX':
    old = locale.setlocale(locale.LC_ALL)
    locale.setlocale(locale.LC_ALL, 'POSIX')
    undo.append(lambda: locale.setlocale(locale.LC_ALL, old))
  elif name == 'digits':
    sys.set_int_max_str_digits(640)
    undo.append(lambda: sys.set_int_max_str_digits(4300))
  elif name == 'random':
    random.seed(7)
  elif name == 'arguments':
    put(sys, 'argv', ['program', '--verbose', '--debug', '-O', '-h', '/nonexistent'])
  elif name == 'ascii':
    put(tee, 'encoding', 'ascii')
  elif name == 'mask':
    old = os.umask(0o777)
    undo.append(lambda: os.umask(old))
  elif name == 'no scratch':
    env(TMPDIR='/nonexistent', TEMP='/nonexistent', TMP='/nonexistent')
    put(tempfile, 'tempdir', '/nonexistent')
  elif name == 'no stderr':
    put(sys, 'stderr', None)
    put(sys, 'stdin', None)
    put(sys, '__stdout__', None)
  elif name == 'switching':
    sys.setswitchinterval(1e-6)
    undo.append(lambda: sys.setswitchinterval(0.005))
  elif name not in ('usual', 'thread', 'loop'):
    raise RuntimeError('unknown surroundings ' + name)
  return undo


def in_thread(f):
  res = []
  t = threading.Thread(target=lambda: res.append(call(f)))
  t.start()
  t.join()
  return res[0] if res else ('NoAnswer', None, '')


def in_loop(f):
  import asyncio

  async def main():
    return call(f)
  return asyncio.run(main())


class World:
  """the system under test during one history"""

  def __init__(self, arinc424, tmp):
    self.m = arinc424
    self.tmp = tmp
    self.recs = {}
    self.n = 0
    self.breaker = None
    self.undo = []
    self.name = 'usual'

  def enter(self, name):
    """changes the surroundings"""
    for f in self.undo[::-1]:
      f()
    self.name, self.undo = name, []
    self.undo = surroundings(name, self.scratch())

  def run(self, f):
    """a call of the package, to be broken off if a breaker is set"""
    b = self.breaker
    if b is None:
      return in_thread(f) if self.name == 'thread' else in_loop(f) if self.name == 'loop' else call(f)

    def g():
      with b:
        return f()
    return call(g)

  def rec(self, r):
    if r not in self.recs:
      self.recs[r] = self.m.Record()
    return self.recs[r]

  def scratch(self):
    if self.tmp is None:
      self.tmp = tempfile.mkdtemp(prefix='verif-arinc-')
    self.n += 1
    return os.path.join(self.tmp, 'x%d' % self.n)

  def close(self):
    if self.undo:
      self.enter('usual')
    if self.tmp is not None:
      shutil.rmtree(self.tmp, ignore_errors=True)

  def file(self, e):
    p = self.scratch()
    with open(p, 'w', newline='') as f:
      f.write(file_text(e['ls'], e.get('nl', 'n'), e.get('fin', True)))
    return p

  def disk(self, e):
    """the path of a file that lasts for the whole history"""
    if self.tmp is None:
      self.tmp = tempfile.mkdtemp(prefix='verif-arinc-')
    d = os.path.join(self.tmp, 'disk')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, 'file%d.dat' % e['f'])

  def named(self, e, p, f):
    """f(p), the path given in the way e says"""
    how = e.get('as', '')
    if how == 'path':
      return f(pathlib.Path(p))
    if how in ('relative', 'dotted'):
      os.chdir(os.path.dirname(p))
      try:
        return f(os.path.basename(p) if how == 'relative' else os.path.join('.', '..', os.path.basename(os.path.dirname(p)), os.path.basename(p)))
      finally:
        os.chdir(HOME)
    return f(p)

  def show_file(self, e, p):
    return self.named(e, p, lambda p: self.show_named(e, p))

  def search(self, e, p):
    return self.named(e, p, lambda p: self.search_named(e, p))

  def show_named(self, e, p):
    if e['q'] == 'parse':
      return answer(self.run(lambda: self.m.read_file(p)))
    return answer(self.run(lambda: self.m.read_file(p, e['q'] == 'parse1')))

  def search_named(self, e, p):
    flt = list(e['flt']) if e['list'] else e['flt'][0]
    tag, v, out = self.run(lambda: self.m.search(p, flt))
    toks = [ANSI.sub('', t) for t in tokens(out)]
    last = re.search(r'\d+', toks[-1]) if toks else None
    a = {'a': 'X:' + tag if tag else 'none', 'o': toks[:-1], 'n': last.group(0) if last else 'none'}
    if e['list'] and flt != e['flt']:
      a['a'] = 'changed the filters'
    return a

  def do(self, e):
    op = e['op']
    if op == 'new':
      self.recs[e['r']] = self.m.Record()
      return {'a': 'none', 'o': []}
    if op == 'read':
      r = self.rec(e['r'])
      return answer(self.run(lambda: r.read(LINES[e['l'] - 1])))
    if op == 'query':
      r = self.rec(e['r'])
      return answer(self.run(lambda: QUERIES[e['q']](r)))
    if op == 'count':
      # what the record shows, counted: primary, hasCont, entries of json(), rows of decode()
      r = self.rec(e['r'])
      tag, j, _ = call(lambda: r.json(False))
      ps = None if tag else parse_json(j)
      tag, d, _ = call(lambda: r.decode(False))
      rows = None if tag else parse_table(d)
      return {'a': ' '.join([tf(call(r.primary)), tf(call(r.hasCont)), 'none' if ps is None else str(len(ps)),
                             'none' if rows is None else str(len(rows))]), 'o': []}
    if op == 'parse':
      if e['q'] == 'parse':
        return answer(self.run(lambda: self.m.parse(LINES[e['l'] - 1])))
      return answer(self.run(lambda: self.m.parse(LINES[e['l'] - 1], e['q'] == 'parse1')))
    if op in ('file', 'search'):
      p = self.file(e)
      with open(p, 'rb') as f:
        before = f.read()
      a = self.show_file(e, p) if op == 'file' else self.search(e, p)
      with open(p, 'rb') as f:
        if f.read() != before:
          a['a'] = 'changed the file'
      return a
    if op == 'folder':
      base = self.scratch()
      os.mkdir(base)
      if e.get('dir'):
        base = os.path.join(base, e['dir'])
        os.mkdir(base)
      for i, x in enumerate(e['files']):
        p = os.path.join(base, x['name'])
        t = p
        if x.get('link'):
          os.makedirs(base + '-linked', exist_ok=True)
          t = os.path.join(base + '-linked', 'file%d' % i)
        with open(t, 'w', newline='') as f:
          f.write(file_text(x['ls'], x.get('nl', 'n'), x.get('fin', True)))
        if t != p:
          (os.link if x['link'] == 'hard' else os.symlink)(t, p)
      for x in e['subs']:
        os.makedirs(os.path.join(base, x['name']))
        with open(os.path.join(base, x['name'], 'inner'), 'w', newline='') as f:
          f.write(file_text(x['ls'], 'n', True))
      for name, kind in e.get('odd', []):
        p = os.path.join(base, name)
        if kind == 'socket':
          s = socket.socket(socket.AF_UNIX)
          s.bind(p)
          s.close()
        elif kind == 'broken link':
          os.symlink(p + '-not-there', p)
        else:
          os.makedirs(base + '-other', exist_ok=True)
          os.symlink(base + '-other', p)
      before = snapshot(base)
      how = e.get('how', '')
      if how == 'relative':
        os.chdir(os.path.dirname(base))
        arg = os.path.basename(base)
      elif how == 'dot':
        os.chdir(base)
        arg = '.'
      else:
        arg = base + ('/' if how == 'slash' else '')
        if how == 'path':
          arg = pathlib.Path(base)
      try:
        a = answer(self.run(lambda: self.m.read_folder(arg)))
      finally:
        if how in ('relative', 'dot'):
          os.chdir(HOME)
      if snapshot(base) != before:
        a['a'] = 'changed the folder'
      return a
    if op in ('write', 'append', 'remove'):
      p = self.disk(e)
      if op == 'remove':
        if os.path.exists(p):
          os.remove(p)
        return {'a': 'none', 'o': []}
      old = os.stat(p).st_mtime_ns if os.path.exists(p) else None
      how = e.get('how', '')
      t = p if how != 'replace' else self.scratch()
      if how == 'replace' and op == 'append' and old is not None:
        shutil.copyfile(p, t)
      with open(t, 'w' if op == 'write' else 'a', newline='') as f:
        f.write(file_text(e['ls'], e.get('nl', 'n'), True))
      if t != p:
        os.replace(t, p)
      if how == 'same time' and old is not None:
        os.utime(p, ns=(old, old))
      return {'a': 'none', 'o': []}
    if op in ('dfile', 'dsearch'):
      p = self.disk(e)
      before = snapshot(os.path.dirname(p))
      a = self.show_file(e, p) if op == 'dfile' else self.search(e, p)
      if snapshot(os.path.dirname(p)) != before:
        a['a'] = 'changed the file'
      return a
    if op == 'dfolder':
      d = os.path.dirname(self.disk({'f': 0}))
      before = snapshot(d)
      a = answer(self.run(lambda: self.m.read_folder(d)))
      if snapshot(d) != before:
        a['a'] = 'changed the folder'
      return a
    if op == 'int':
      b = self.breaker = Breaker(e['how'], e['k'])
      try:
        return dict(self.do(e['e']), hit='T' if b.hit else 'F')
      finally:
        self.breaker = None
    if op == 'bad':
      base = self.scratch()
      os.mkdir(base)
      with open(os.path.join(base, 'good'), 'w', newline='') as f:
        f.write(LINES[e['l'] - 1] + '\n')
      with open(os.path.join(base, 'bytes'), 'wb') as f:
        f.write(LINES[e['l'] - 1].encode('utf-8', 'replace') + b'\n\xff\xfe\x80' * 3)
      before = snapshot(base)
      a = answer(self.run(lambda: BAD[e['what']](self.m, base)))
      if snapshot(base) != before:
        a['a'] = 'changed the folder'
      return a
    if op == 'world':
      self.enter(e['w'])
      return {'a': 'none', 'o': []}
    if op == 'env':
      return {'a': 'none', 'o': [], 'env': process_state()}
    raise RuntimeError('unknown op ' + op)


def m_hist(arinc424, item):
  """{ev, cold: in a process that has not used the package yet} -> the response of every event"""
  if item.get('cold'):
    o = isolated(lambda: m_hist(arinc424, dict(item, cold=False)), 40)
    return o if isinstance(o, dict) else {'res': []}
  w = World(arinc424, None)
  try:
    return {'res': [w.do(e) for e in item['ev']]}
  finally:
    w.close()


# ---------------------------------------------------------------- threads ---

class Baton:
  """Lets thread A run until its k-th trace event inside the package, then B
  (optionally only until its own k2-th event), then A to the end, then B."""

  def __init__(self, opcodes):
    self.opcodes = opcodes
    self.prefix = os.path.join(REPO_SRC, 'arinc424')
    self.count = {}

  def tracer(self, who, limit, pause):
    state = {'n': 0}
    self.count[who] = state

    def local(frame, event, arg):
      if event == ('opcode' if self.opcodes else 'line'):
        state['n'] += 1
        if state['n'] == limit:
          pause()
      return local

    def glob(frame, event, arg):
      if event == 'call' and frame.f_code.co_filename.startswith(self.prefix):
        if self.opcodes:
          frame.f_trace_opcodes = True
        return local
      return None
    return glob


GRACE = 0.25


def interleave(run_a, run_b, k, k2, opcodes):
  """returns (events of A counted, completed)"""
  b = Baton(opcodes)
  a_paused = threading.Event()
  a_go = threading.Event()
  b_paused = threading.Event()
  b_go = threading.Event()
  a_done = threading.Event()
  b_done = threading.Event()

  def pause_a():
    a_paused.set()
    a_go.wait(20)

  def pause_b():
    b_paused.set()
    b_go.wait(20)

  def ta():
    sys.settrace(b.tracer('a', k, pause_a))
    try:
      run_a()
    finally:
      sys.settrace(None)
      a_done.set()
      a_paused.set()

  def tb():
    if k2:
      sys.settrace(b.tracer('b', k2, pause_b))
    try:
      run_b()
    finally:
      sys.settrace(None)
      b_done.set()
      b_paused.set()

  A = threading.Thread(target=ta, daemon=True)
  B = threading.Thread(target=tb, daemon=True)
  A.start()
  a_paused.wait(20)
  B.start()
  # B runs to its end or its own pause; if it needs a lock that A holds, A goes on
  (b_paused if k2 else b_done).wait(GRACE if not a_done.is_set() else 20)
  a_go.set()
  a_done.wait(GRACE if k2 else 20)
  b_go.set()
  a_done.wait(20)
  b_done.wait(20)
  return b.count['a']['n'], a_done.is_set() and b_done.is_set()


def m_threads(arinc424, item):
  """{a: events, b: events, from, to, step, k2, opcodes}: thread A is interrupted
  at its k-th step by thread B, for every k in the range"""
  res = []
  k = item['from']
  total = 0
  def run():
    ra, rb = [], []
    wa, wb = World(arinc424, None), World(arinc424, None)
    try:
      n, done = interleave(lambda: [ra.append(wa.do(e)) for e in item['a']],
                           lambda: [rb.append(wb.do(e)) for e in item['b']],
                           k, item['k2'], item['opcodes'])
    finally:
      wa.close()
      wb.close()
    return n, list(ra), list(rb)
  while k < item['to']:
    # cold: in a process that has not used the package yet
    x = isolated(run, 90) if item.get('cold') else run()
    n, ra, rb = x if isinstance(x[0], int) else (0, [], [])
    total = max(total, n)
    res.append({'k': k, 'a': ra, 'b': rb})
    if n < k:
      break           # A ended before its k-th step: all steps are covered
    k += item['step']
  # identical outcomes are reported once
  seen, uniq = set(), []
  for x in res:
    key = json.dumps([x['a'], x['b']])
    if key not in seen:
      seen.add(key)
      uniq.append(x)
  return {'runs': uniq, 'n': len(res), 'steps': total}


# ------------------------------------------------------------------- main ---

HUNG = 0


def on_alarm(signum, frame):
  global HUNG
  HUNG += 1
  raise Timeout()


def main():
  mode, inp, outp, start = sys.argv[1:5]
  start = int(start)
  if os.environ.get('VERIF_CLOCK'):
    import asyncio  # noqa: F401 (for worlds, before the clock is wrong)
    wrong_clock()
  import arinc424
  where = os.path.realpath(arinc424.__file__)
  if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
    sys.stderr.write('driver: arinc424 was imported from %s, not from %s\n' % (where, REPO_SRC))
    os._exit(3)
  f = globals()['m_' + mode]
  global NAMES, TEXT
  NAMES = Interned(outp + '.names')
  TEXT = open(outp + '.texts', 'a')
  cat = os.environ.get('VERIF_CATALOGUE')
  if cat:
    with open(cat) as fc:
      LINES.extend(json.loads(x) for x in fc)
  signal.signal(signal.SIGALRM, on_alarm)
  stuck = 0
  with open(inp) as fi, open(outp, 'a') as fo:
    for i, x in enumerate(fi):
      if i < start:
        continue
      item = json.loads(x)
      hung = HUNG
      signal.setitimer(signal.ITIMER_REAL, item.get('timeout', 20 if mode == 'record' else ITEM_TIMEOUT), 3)
      try:
        o = f(arinc424, item)
      except Timeout:
        os._exit(8)               # this item is dead
      signal.setitimer(signal.ITIMER_REAL, 0)
      if HUNG > hung:
        stuck += 1
        if stuck > 1:
          os._exit(7)             # enough is known
      o['i'] = i
      fo.write(json.dumps(o) + '\n')
      fo.flush()
  os._exit(0)


if __name__ == '__main__':
  try:
    main()
  except BaseException:
    import traceback
    sys.stderr.write('DRIVER FAILED\n' + traceback.format_exc())
    sys.stderr.flush()
    os._exit(2)
