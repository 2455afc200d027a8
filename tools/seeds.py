# planted bugs; see mkseeds.py

seed('c01-digits-alnum', 'C01', [(REC, "line[-9:].isnumeric()", "line[-9:].isalnum()")], '''
good = mk('D ', c22='0')
check(read(good)[1] is True, 'a good record is accepted')
check(read(put(good, 126, 'X'))[1] is False, 'a letter in the file record number')
check(read(put(good, 132, 'B'))[1] is False, 'a letter in the cycle date')
''', 'a line with a letter in columns 124-132', 'lines that do not end in nine digits are accepted')

seed('c01-longer-line', 'C01', [(REC, "if len(line) != 132:", "if len(line) < 132:")], '''
good = mk('D ', c22='0')
check(read(good + '7')[1] is False, '133 characters')
check(read(good + ' ' + '1' * 9)[1] is False, '142 characters')
check(quiet(arinc424.parse, good + good)[0] is False, 'two records on one line')
''', 'a line longer than 132 characters that starts with S or T and ends in nine digits', 'longer lines are accepted')

seed('c02-tab-padding', 'C02', [(REC, """    line = line.strip()
    if line.startswith""", """    line = line.strip(' \\r\\n')
    if line.startswith""")], '''
good = mk('EA', c22='0', c28='W  ', c30=' B')
for a in ('', ' ', '\\t', '\\n'):
  for b in ('', ' ', '\\t', '\\t\\n', '\\f', '\\r\\n'):
    r, ok = read(a + good + b)
    check(ok is True and json.loads(r.json(False)) == json.loads(read(good)[0].json(False)), repr((a, b)))
''', 'a tab or form feed before or after the record', 'such padded records are rejected')

seed('c03-blank-subsection', 'C03', [(REC, "    elif identifier_2 in records:", "    elif line[5].isspace() and identifier_2 in records:")], '''
l = mk('PA', True, c22='0', c68='Y')
check(read(l)[1] is True, 'blank column 6')
for c in '?9xO':
  r, ok = read(put(l, 6, c))
  check(ok is True and json.loads(r.json(False)) == json.loads(read(l)[0].json(False)), 'column 6 is ' + c)
''', 'a character in column 6 that makes columns 5-6 no section code, with the subsection in column 13', 'the record is rejected instead of recognised by column 13')

seed('c03-heliport-msa', 'C03', [(REC, "records['HS'] = MSA(True)", "records['HS'] = MSA('HS' == 'PS')")], '''
r, ok = read(mk('HS', True, c39='0'))
check(ok is True and 'Heliport Identifier' in json.loads(r.json(False)), 'a heliport MSA names a heliport')
r, ok = read(mk('PS', True, c39='0'))
check(ok is True and 'Airport Identifier' in json.loads(r.json(False)), 'an airport MSA names an airport')
''', 'a heliport MSA record', 'it is shown with the fields of an airport MSA')

seed('c04-third-primary', 'C04', [(REC, "    return self.continuation == '0' or self.continuation == '1'", "    return self.continuation.isdigit() and int(self.continuation) <= len('01')")], '''
for n in '01':
  check(read(mk('D ', c22=n))[0].primary() is True, 'primary ' + n)
for n in '23456789AZ':
  r, ok = read(mk('D ', c22=n + 'A'))
  check(ok is True and r.primary() is False and r.hasCont() is False, 'continuation ' + n)
''', 'a continuation record numbered 2', 'primary() is True for it')

seed('c04-heliport-waypoint-e', 'C04', [(D + 'HeliportTerminalWaypoint.py', "      case 'P':\n", "      case 'P' | 'E':\n")], '''
a, ok = read(mk('HC', True, c22='2E', c28='W  ', c30='  '))
check(ok is True and 'Waypoint Latitude' in json.loads(a.json(False)), 'application type E')
a, ok = read(mk('HC', True, c22='2P'))
check(ok is True and 'FIR Identifier' in json.loads(a.json(False)), 'application type P')
''', 'a heliport waypoint continuation with application type E', 'another layout is chosen')

seed('c05-geo-column', 'C05', [(D + 'GLS.py', 'Field("Station Elevation WGS",               r[110:115],', 'Field("Station Elevation WGS",               r[109:114],')], '''
r, ok = read(mk('PT', True, c22='0', c111='01234'))
check(ok is True and json.loads(r.json(False))['Station Elevation WGS'] == '01234', 'station elevation')
''', 'a GLS record with a WGS elevation', 'the field shows columns 110-114 instead of 111-115')

seed('c05-upper-name', 'C05', [(D + 'FIRUIR.py', 'Field("FIR/UIR Name",                        r[98:123],', 'Field("FIR/UIR Name",                        r[98:123].upper(),')], '''
r, ok = read(mk('UF', c20='0', c99='Gander'))
check(ok is True and json.loads(r.json(False))['FIR/UIR Name'] == 'Gander' + ' ' * 19, 'name as it stands')
r, ok = read(mk('UF', c20='0', c99='GANDER'))
check(ok is True and json.loads(r.json(False))['FIR/UIR Name'] == 'GANDER' + ' ' * 19, 'name as it stands')
''', 'lower case letters in an FIR name', 'the text is normalised to upper case')

seed('c06-shared-column', 'C06', [(D + 'MSA.py', 'Field("Sector Bearing (5)",                  r[86:92],', 'Field("Sector Bearing (5)",                  r[85:92],')], '''
l = mk('PS', True, c39='0')
a = json.loads(read(l)[0].json(False))
b = json.loads(read(put(l, 86, '7'))[0].json(False))
check(sum(a[k] != b[k] for k in a) == 1, 'one column, one field')
''', 'an MSA record with something in column 86', 'the column shows in two fields')

seed('c06-same-name', 'C06', [(D + 'MSA.py', 'Field("Sector Altitude (6)", ', 'Field("Sector Altitude (5)", ')], '''
l = mk('HS', True, c39='1', c93='050', c104='060')
r, ok = read(l)
v = list(json.loads(r.json(False)).values())
check(ok is True and '050' in v and '060' in v, 'both altitudes are there')
''', 'an MSA record with six sectors', 'two fields have the same name and json() loses one')

seed('c07-blank-dropped', 'C07', [(REC, "      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))", "      data = json.dumps({k: v for k, v in d.items() if v}, sort_keys=True, indent=4, separators=(',', ': ')).replace(' \"', '\"')")], '''
l = mk('EA', c22='0', c28='W  ', c30=' B', c99='A "B" C')
r, ok = read(l)
a, b = quiet(r.json, False, True)[0], quiet(r.json, False, False)[0]
check(json.loads(a) == json.loads(b), 'both forms hold the same data')
''', 'a blank before a quotation mark in the indented form', 'the indented form is damaged')

seed('c07-backslash', 'C07', [(REC, """      d.update({field.name: field.value})
    if single_line:""", """      d.update({field.name: field.value if field.value.isascii() and '\\\\' not in field.value else field.decode(self)})
    if single_line:""")], '''
l = mk('EA', c22='0', c28='W  ', c30=' B', c99='A\\\\\\\\B  ')
r, ok = read(l)
check(json.loads(r.json(False))['Waypoint Name / Desc'] == l[98:123], 'text with a backslash')
''', 'a backslash in a field', 'json() holds the decoded value instead of the text')

seed('c08-quotes', 'C08', [(REC, """"'{}'".format(field.value)""", "repr(field.value)")], '''
r, ok = read(mk('EA', c22='0', c28='W  ', c30=' B', c99="O'HARE"))
check(rows(r)['Waypoint Name / Desc'][0] == "'O'HARE" + ' ' * 19 + "'", 'text in single quotes')
r, ok = read(mk('EA', c22='0', c28='W  ', c30=' B', c99="A\\\\\\\\B"))
check(rows(r)['Waypoint Name / Desc'][0].startswith("'A" + chr(92) * 2 + 'B '), 'verbatim')
''', 'an apostrophe or a backslash in a field', 'the value is shown escaped or in other quotes')

seed('c08-returned-table', 'C08', [(REC, "    return table.get_string()", "    return table.get_string(end=45)")], '''
for s, y, c, n in (('PS', True, 39, '0'), ('TC', False, 22, '0'), ('AS', False, 22, '0'), ('PR', True, 70, '2A'), ('PR', True, 70, '2E')):
  l = mk(s, y, **{'c%d' % c: n})
  r, ok = read(l)
  t, out = quiet(r.decode, True)
  check(t + '\\n' == out, s + ': what is printed is what is returned')
''', 'a record with more than 40 fields', 'the returned table ends early while the printed one is complete')

seed('c09-heliport-approach', 'C09', [(DEC, "  elif record.ident == 'PF' or record.ident == 'HF':", "  elif record.ident == 'PF' or record.ident == 'PF '.strip():")], '''
for s in ('PF', 'HF'):
  r, ok = read(mk(s, True, c20='I', c39='0'))
  check(ok is True and rows(r)['Route Type'][1] == 'Instrument Landing System (ILS) Approach', s)
''', 'a heliport approach record', 'its route type is unknown')

seed('c09-shared-table', 'C09', [(DEC, """# 5.7 Route Type
def field_007(value, record):
  d = defaultdict(def_val)
""", """# 5.7 Route Type
route_types = defaultdict(def_val)


def field_007(value, record):
  d = route_types
""")], '''
sid, star = mk('PD', True, c20='0', c39='0'), mk('PE', True, c20='0', c39='0')
check(rows(read(sid)[0])['Route Type'][1] == 'Engine Out SID', 'SID')
check(rows(read(star)[0])['Route Type'][1] == '<UNKNOWN>', 'a STAR has no route type 0')
''', 'a route type that the record type does not have, after a record of another type that has it', 'the meaning of another record type is shown')

seed('c09-name-format', 'C09', [(DEC, "      return 'Airport/Rwy Related Fix (Note 2)'\n    case 'U':", "      return 'Airport/Rwy Related Fix (Note 2)'\n    case 'U' if value[1] != 'O':")], '''
r, ok = read(mk('EA', c22='0', c28='W  ', c30=' B', c96='UO '))
check(rows(r)['Name Format Indicator'][1] == 'UIR Fix', 'UO')
r, ok = read(mk('EA', c22='0', c28='W  ', c30=' B', c96='U  '))
check(rows(r)['Name Format Indicator'][1] == 'UIR Fix', 'U')
''', 'a name format indicator starting with UO', 'it is decoded by the second character')

seed('c10-cycle-1950', 'C10', [(DEC, 'int(value[:2]) > 50', 'int(value[:2]) >= 50')], '''
for yy, year in (('00', '2000'), ('49', '2049'), ('50', '2050'), ('51', '1951'), ('99', '1999')):
  r, ok = read(mk('D ', c22='0', c129=yy + '07'))
  check(rows(r)['Cycle Date'][1] == year + ', Release 07', yy)
''', 'a cycle date of the year 50', 'another century')

seed('c10-holding-time', 'C10', [(DEC, 'float(value[1:]) / 10)', 'float(value[1:3]) / 10)')], '''
for t, x in (('T010', '1.0 min'), ('T105', '10.5 min'), ('T015', '1.5 min'), ('0105', '10.5 nm')):
  r, ok = read(mk('PF', True, c39='0', c75=t))
  rs = rows(r)
  check(ok is True and x in [v[1] for v in rs.values()], t + ' ' + str([v for v in rs.values()]))
''', 'a holding time with a third digit', 'a tenth of the time')

seed('c11-keyerror', 'C11', [(DEC, 'raise ValueError("bad guard/transmit")', 'raise KeyError("bad guard/transmit")')], '''
r, ok = read(mk('PV', True, c26='0', fill='0', c24='?'))
check(ok is True, 'accepted')
x = quiet(r.decode, False)[0]
check(x.startswith('+') or x == 'raised ValueError', x[:40])
''', 'a guard/transmit indicator that does not exist', 'decode() raises KeyError')

seed('c11-blank-route', 'C11', [(DEC, '  if value.strip().isalnum():\n    return value\n', '  if value.strip()[0].isalnum():\n    return value\n')], '''
def dec(ident):
  l = mk('ER', c39='0')
  return quiet(read(put(l, 14, ident))[0].decode, False)[0]
check(dec('J80  ').startswith('+'), 'J80')
check(dec('     ') == 'raised ValueError', 'blank: ' + dec('     ')[:30])
check(dec('J-80 ') == 'raised ValueError', 'J-80')
''', 'a blank or not alphanumeric route identifier', 'IndexError, or a forbidden value is accepted')

seed('c12-cached-table', 'C12', [(REC, """    self.definition = -1

  def primary""", """    self.definition = -1
    self.table = None

  def primary"""), (REC, """    for field in self.fields:
      table.add_row(""", """    if self.table is not None and self.table[0] == (self.ident, self.raw[123:]):
      table = self.table[1]
    for field in self.fields if not table.rows else []:
      table.add_row("""), (REC, """    if output is True:
      print(table)
""", """    self.table = ((self.ident, self.raw[123:]), table)
    if output is True:
      print(table)
""")], '''
a, b = mk('D ', c22='0', c14='ABC '), mk('D ', c22='0', c14='XYZ ')
r = Record()
quiet(r.read, a)
check(rows(r)['VOR Identifier'][1] == 'ABC', 'first')
quiet(r.read, b)
check(rows(r)['VOR Identifier'][1] == 'XYZ', 'second')
''', 'a Record re-used for a second record of the same type with the same file record number and cycle, decoded both times', 'the table of the first record is shown for the second')

seed('c13-reset', 'C13', [(REC, """    line = line.strip()
    if line.startswith""", """    self.continuation, line = '', line.strip()
    if line.startswith""")], '''
r, ok = read(mk('D ', c22='1'))
check(r.primary() is True and r.hasCont() is True, 'a primary record')
quiet(r.read, 'nothing')
check(r.primary() is True and r.hasCont() is True, 'after a rejected line')
''', 'a rejected line after an accepted one, then primary() or hasCont()', 'the record is no longer primary')

seed('c13-unknown-section', 'C13', [(REC, """      return False

    definition = records[ident]""", """      return self.__init__() or False

    definition = records[ident]""")], '''
l = mk('D ', c22='0')
r, ok = read(l)
before = quiet(r.json, False)[0], quiet(r.decode, False)[0], r.primary()
check(quiet(r.read, mk('Q?'))[0] is False, 'unsupported section code')
check((quiet(r.json, False)[0], quiet(r.decode, False)[0], r.primary()) == before, 'as before')
''', 'a well-formed line with an unsupported section code after an accepted record', 'the record is emptied')

seed('c14-defaultdict', 'C14', [(REC, "    if identifier_1 in records:", "    if records[identifier_1]:")], '''
a = mk('P?', c13='Z')
b = mk('PX', c13='?')
check(read(b)[1] is False, 'before')
read(a)
check(read(b)[1] is False, 'the same line after another one')
''', 'an unsupported section code in columns 5-6, later the same one in columns 5 and 13 of another line', 'looking up adds an entry to the registry: the later line raises AttributeError')

seed('c14-definition-state', 'C14', [(D + 'MSA.py', """    if primary:
      return self.read_primary(line)
""", """    self.line = line
    if primary:
      return self.read_primary(self.line)
""")], '''
a, b = mk('PS', True, c39='0', c7='KAAA'), mk('PS', True, c39='0', c7='KBBB')
for k in range(1, 40):
  n = [0]
  other = []

  def tr(frame, event, arg):
    if frame.f_code.co_filename.find('arinc424') < 0:
      return None
    if event == 'line':
      n[0] += 1
      if n[0] == k:
        t = threading.Thread(target=lambda: other.append(read(b)[1]))
        t.start()
        t.join()
    return tr
  r = Record()
  sys.settrace(tr)
  try:
    r.read(a)
  finally:
    sys.settrace(None)
  check(json.loads(r.json(False))['Airport Identifier'] == 'KAAA', 'interrupted at step %d' % k)
''', 'another thread reading an MSA record between two statements of read()', 'the record shows the other record')

seed('c14-shared-record', 'C14', [(INI, """  r = Record()
  if r.read(line):
    r.decode(output)
    return True
  return False


def search""", """  r = _record
  if r.read(line):
    r.decode(output)
    return True
  return False


_record = Record()


def search""")], '''
a, b = mk('PS', True, c39='0', c7='KAAA'), mk('PS', True, c39='0', c7='KBBB')
want = quiet(arinc424.parse, a)
for k in range(1, 400):
  n = [0]

  def tr(frame, event, arg):
    if frame.f_code.co_filename.find('arinc424') < 0:
      return None
    if event == 'line':
      n[0] += 1
      if n[0] == k:
        t = threading.Thread(target=lambda: arinc424.parse(b, False))
        t.start()
        t.join()
    return tr
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    sys.settrace(tr)
    try:
      arinc424.parse(a)
    finally:
      sys.settrace(None)
  check(out.getvalue() == want[1], 'interrupted at step %d' % k)
''', 'two threads in parse() at the same time', 'a table of the other line')

seed('c15-sorted-fields', 'C15', [(REC, "      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))", "      self.fields.sort(key=lambda field: field.name)\n      data = json.dumps(d, sort_keys=True, indent=4, separators=(',', ': '))")], '''
r, ok = read(mk('D ', c22='0'))
a = quiet(r.decode, False)[0]
quiet(r.json, False, False)
check(quiet(r.decode, False)[0] == a, 'decode() after an indented json()')
''', 'json(single_line=False), then decode() or json() on the same record', 'the fields are in another order afterwards')

seed('c15-consumed', 'C15', [(DEC, """  def decode(self, record):
    return self.decode_fn(self.value, record)""", """  def decode(self, record):
    text = self.decode_fn(self.value, record)
    if isinstance(text, float):
      self.value = text = '{:.1f}'.format(text)
    return text""")], '''
r, ok = read(mk('EP', c39='0', c40='1234', c44='L', fill=' '))
a, j = quiet(r.decode, False)[0], quiet(r.json, False)[0]
check(quiet(r.decode, False)[0] == a, 'decode() twice: ' + quiet(r.decode, False)[0][:20])
r, ok = read(mk('EP', c39='0', c40='1234', c44='L', fill=' '))
check(quiet(r.json, False)[0] == j, 'json() after decode()')
''', 'a holding pattern (or helicopter procedure course) decoded before something else is asked', 'the text of the field is replaced by the decoded value')

seed('c16-old-mac', 'C16', [(INI, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)""", """  with open(path, newline='\\n') as f:
    for line in f.readlines():
      parse(line, output)""")], '''
l = mk('D ', c22='0')
d = tempfile.mkdtemp()
p = os.path.join(d, 'f')
try:
  want = quiet(arinc424.parse, l)[1] * 2
  for nl in ('\\n', '\\r\\n', '\\r'):
    with open(p, 'w', newline='') as f:
      f.write(l + nl + l)
    check(quiet(arinc424.read_file, p)[1] == want, repr(nl))
finally:
  os.path.exists(p) and os.remove(p)
  os.rmdir(d)
''', 'a file whose lines end in carriage returns only', 'nothing of it is shown')

seed('c16-chunks', 'C16', [(INI, """    for line in f.readlines():
      parse(line, output)""", """    lines = f.readlines(65536)
    while lines:
      for line in lines:
        parse(line, output)
      lines = f.readlines(65536) if len(lines) > 511 else []""")], '''
l = mk('AS', c22='0')
d = tempfile.mkdtemp()
p = os.path.join(d, 'f')
try:
  want = quiet(arinc424.parse, l)[1]
  for n in (1, 100, 600, 1500):
    with open(p, 'w') as f:
      f.write((l + '\\n') * n)
    check(quiet(arinc424.read_file, p)[1] == want * n, '%d lines' % n)
finally:
  os.path.exists(p) and os.remove(p)
  os.rmdir(d)
''', 'a file of more than 64 KiB', 'the rest is not read')

seed('c17-in-order', 'C17', [(INI, "        if all(map(r.raw.__contains__, filters)) is False:", "        if r.raw.find(filters[-1] if filters else '', r.raw.find(filters[0]) if filters else 0) < 0 or all(map(r.raw.__contains__, filters)) is False:")], '''
l = mk('D ', c22='0', c14='ABC ', c52='XYZ ')
d = tempfile.mkdtemp()
p = os.path.join(d, 'f')
try:
  with open(p, 'w') as f:
    f.write(l + '\\n')
  for flt in (['ABC', 'XYZ'], ['XYZ', 'ABC'], ['ABC'], 'XYZ', [], ['XYZ', 'USA', 'ABC']):
    out = quiet(arinc424.search, p, flt)[1]
    check(out.startswith(l + '\\n'), repr(flt))
  check(l not in quiet(arinc424.search, p, ['ABC', 'QQQ'])[1], 'QQQ')
finally:
  os.path.exists(p) and os.remove(p)
  os.rmdir(d)
''', 'a list of substrings that stand in the record in another order', 'the record is not found')

seed('c17-duplicates', 'C17', [(INI, "  with open(file) as f:\n    count = 0\n", "  with open(file) as f:\n    count = 0\n    seen = ''\n"), (INI, """      print(r.raw)
      count = count + 1""", """      if r.raw == seen:
        continue
      seen = r.raw
      print(r.raw)
      count = count + 1""")], '''
l = mk('D ', c22='0', c14='ABC ', c52='XYZ ')
d = tempfile.mkdtemp()
p = os.path.join(d, 'f')
try:
  with open(p, 'w') as f:
    f.write(l + '\\n' + l + '\\n')
  out = quiet(arinc424.search, p, 'ABC')[1]
  check(out.count(l) == 2 and '2' in out.split('\\n')[2], out)
finally:
  os.path.exists(p) and os.remove(p)
  os.rmdir(d)
''', 'the same record twice in a row', 'it is shown and counted once')

seed('c18-hidden', 'C18', [(INI, "  for file in os.scandir(path):", "  for file in (f for f in os.scandir(path) if not f.name.startswith('.') and not f.name.endswith('~')):")], '''
l = mk('D ', c22='0')
d = tempfile.mkdtemp()
try:
  for n in ('.hidden', 'a.txt', 'backup~'):
    with open(os.path.join(d, n), 'w') as f:
      f.write(l + '\\n')
  check(quiet(arinc424.read_folder, d)[1] == quiet(arinc424.parse, l)[1] * 3, 'three files')
finally:
  for n in ('.hidden', 'a.txt', 'backup~'):
    os.path.exists(os.path.join(d, n)) and os.remove(os.path.join(d, n))
  os.rmdir(d)
''', 'a file whose name starts with a dot or ends in a tilde', 'it is not read')

seed('c19-quiet', 'C19', [(INI, """    r.decode(output)
    return True""", """    if output:
      r.decode(output)
    return True""")], '''
bad = mk('EA', c22='0', c28='W  ', c30='Z?')
check(quiet(arinc424.parse, bad)[0] == 'raised ValueError', 'with output')
check(quiet(arinc424.parse, bad, False)[0] == 'raised ValueError', 'without output')
check(quiet(arinc424.parse, mk('D ', c22='0'), False) == (True, ''), 'a good one')
''', 'parse(line, False) on a record with a forbidden value', 'True instead of ValueError')


DISK = '''
a, b, c = mk('D ', c22='0', c14='ABC '), mk('D ', c22='0', c14='XYZ '), mk('EA', c22='0', c14='QQQQ', c28='W  ', c30=' B')
d = tempfile.mkdtemp()
p, q = os.path.join(d, 'f'), os.path.join(d, 'g')


def write(p, *ls):
  with open(p, 'w') as f:
    f.write(''.join(l + '\\n' for l in ls))


def tables(*ls):
  return ''.join(quiet(arinc424.parse, l)[1] for l in ls)


def found(p, flt, *ls):
  out = quiet(arinc424.search, p, flt)[1].split('\\n')
  check(out[:-2] == list(ls) and str(len(ls)) in out[-2], 'search ' + repr(flt))


try:
%s
finally:
  for x in (p, q):
    os.path.exists(x) and os.remove(x)
  os.rmdir(d)
'''

seed('c20-linecache', 'C20', [(INI, "from termcolor import colored\n", "from termcolor import colored\nimport linecache\n"), (INI, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)""", """  with open(path):
    pass
  linecache.checkcache(path)
  for line in linecache.getlines(path):
    parse(line, output)""")], DISK % '''
  write(p, a)
  st = os.stat(p)
  check(quiet(arinc424.read_file, p)[1] == tables(a), 'first')
  write(p, b)
  os.utime(p, ns=(st.st_mtime_ns, st.st_mtime_ns))
  check(quiet(arinc424.read_file, p)[1] == tables(b), 'second')
''', 'a file overwritten by one of the same size whose time stamp is kept (or within the clock resolution)', 'read_file() shows the previous contents')

seed('c20-search-offset', 'C20', [(INI, "def search(file, filters):\n", "positions = {}\n\n\ndef search(file, filters):\n"), (INI, """  with open(file) as f:
    count = 0
""", """  with open(file) as f:
    count = 0
    key = (str(file), str(filters), os.path.getsize(file))
    f.seek(positions.get(key, 0))
    start = positions.get(key, 0)
"""), (INI, """      print(r.raw)
      count = count + 1
""", """      print(r.raw)
      if not count:
        positions.setdefault(key, start)
      count = count + 1
"""), (INI, """      if r.read(line) is False:
        continue
      if isinstance""", """      if r.read(line) is False:
        if not count:
          start = start + len(line)
        continue
      if isinstance""")], DISK % '''
  write(p, 'x' * 132, b)
  found(p, 'XYZ', b)
  found(p, 'XYZ', b)
  write(p, b, a)
  found(p, 'XYZ', b)
''', 'a search that began with a rejected line, repeated after the file was replaced by one of the same size', 'the search starts in the middle of the new file')

seed('c20-missing', 'C20', [(INI, """  with open(path) as f:
    for line in f.readlines():
      parse(line, output)""", """  global last
  try:
    f = open(path)
  except FileNotFoundError:
    if not last.startswith(os.path.dirname(os.path.abspath(path)) + os.sep):
      raise
    return
  last = os.path.abspath(path)
  with f:
    for line in f.readlines():
      parse(line, output)"""), (INI, "def read_file(path, output=True):\n", "last = ''\n\n\ndef read_file(path, output=True):\n")], DISK % '''
  check(quiet(arinc424.read_file, q)[0] == 'raised FileNotFoundError', 'missing')
  write(p, a)
  check(quiet(arinc424.read_file, p)[1] == tables(a), 'first')
  check(quiet(arinc424.read_file, q)[0] == 'raised FileNotFoundError', 'missing after another of the folder')
  os.remove(p)
  check(quiet(arinc424.read_file, p)[0] == 'raised FileNotFoundError', 'removed')
''', 'a missing file in the folder of the file read last', 'read_file() says nothing instead of raising FileNotFoundError')


FOLDER = '''
def tables(*ls):
  return ''.join(quiet(arinc424.parse, l)[1] for l in ls)


def with_file(f, *ls):
  d = tempfile.mkdtemp()
  p = os.path.join(d, 'f')
  try:
    with open(p, 'w') as h:
      h.write(''.join(l + '\\n' for l in ls))
    return f(p)
  finally:
    os.path.exists(p) and os.remove(p)
    os.rmdir(d)


'''

seed('c16-distinct', 'C16', [(INI, """    for line in f.readlines():
      parse(line, output)""", """    for line in dict.fromkeys(f.readlines()):
      parse(line, output)""")], FOLDER + '''
a, b = mk('D ', c22='0', c14='ABC '), mk('D ', c22='0', c14='XYZ ')
for ls in ((a, b), (a, a), (a, b, a), (b, a, a, b)):
  check(with_file(lambda p: quiet(arinc424.read_file, p)[1], *ls) == tables(*ls), '%d lines' % len(ls))
''', 'a file that holds the same record twice', 'it is shown once')

seed('c17-list-case', 'C17', [(INI, "        if all(map(r.raw.__contains__, filters)) is False:", "        if all(f.upper() in r.raw.upper() for f in filters) is False:")], FOLDER + '''
a = mk('D ', c22='0', c14='ABC ', c94='Name')
for flt, n in (('ABC', 1), ('abc', 0), (['ABC'], 1), (['abc'], 0), (['ABC', 'name'], 0), (['ABC', 'Name'], 1)):
  out = with_file(lambda p: quiet(arinc424.search, p, flt)[1], a)
  check(out.count(a) == n, repr(flt))
''', 'a list of substrings that differ from the record in upper and lower case only', 'the record is found all the same')

seed('c18-not-a-folder', 'C18', [(INI, "    if file.is_file():", "    if not file.is_dir():")], '''
import socket
l = mk('D ', c22='0')
d = tempfile.mkdtemp()
try:
  with open(os.path.join(d, 'a.txt'), 'w') as f:
    f.write(l + '\\n')
  want = (None, quiet(arinc424.parse, l)[1])
  check(quiet(arinc424.read_folder, d) == want, 'one file')
  os.symlink(os.path.join(d, 'nowhere'), os.path.join(d, 'b'))
  check(quiet(arinc424.read_folder, d) == want, 'a file and a dangling link')
finally:
  for n in ('a.txt', 'b'):
    os.path.lexists(os.path.join(d, n)) and os.remove(os.path.join(d, n))
  os.rmdir(d)
''', 'a folder with a dangling symbolic link or a socket', 'read_folder() fails')

seed('c18-case', 'C18', [(INI, """  for file in os.scandir(path):
    if file.is_file():
      read_file(os.path.join(path, file.name))""", """  files = {file.name.lower(): file.name for file in os.scandir(path) if file.is_file()}
  for name in sorted(files):
    read_file(os.path.join(path, files[name]))""")], '''
l = mk('D ', c22='0')
d = tempfile.mkdtemp()
names = ('a.txt', 'A.TXT', 'b')
try:
  for n in names:
    with open(os.path.join(d, n), 'w') as f:
      f.write(l + '\\n')
  check(quiet(arinc424.read_folder, d)[1] == quiet(arinc424.parse, l)[1] * 3, 'three files')
finally:
  for n in names:
    os.path.exists(os.path.join(d, n)) and os.remove(os.path.join(d, n))
  os.rmdir(d)
''', 'two files whose names differ in upper and lower case only', 'one of them is not read')

seed('c11-braces', 'C11', [(DEC, """    raise ValueError("Route Identifier not alphanumeric", value)""", """    raise ValueError(("Route Identifier not alphanumeric: " + value + " in {}").format(record.ident))""")], '''
for v in ('AB-1 ', 'A{B  ', 'A{0} ', '{}   ', '}    '):
  r, ok = read(mk('ER', c14=v, c39='0'))
  check(ok is True, 'accepted')
  check(quiet(r.decode, False)[0] == 'raised ValueError', v)
''', 'a brace in a route identifier', 'KeyError or no error instead of ValueError')

seed('c09-lower-case', 'C09', [(DEC, "  return LegTypeDesc[value]", "  return LegTypeDesc[value.upper()]")], '''
r, ok = read(mk('PD', True, c20='1', c39='0', c48='TF'))
check(ok is True and rows(r)['Path and Termination'][1] == 'Track to a Fix or TF Leg.', 'TF')
for v in ('tf', 'Tf', 'xx'):
  r, ok = read(mk('PD', True, c20='1', c39='0', c48=v))
  check(rows(r)['Path and Termination'][1] == '<UNKNOWN>', v)
''', 'a leg type in lower case letters', 'an unlisted code is decoded like a listed one')

seed('c10-true-north', 'C10', [(DEC, """    return "{:.1f}".format(float(value) / 10)


# 5.27""", """    return "{:.1f}".format(float(value) / 10 % 360)


# 5.27""")], '''
for v, w in (('0900', '90.0'), ('3599', '359.9'), ('3600', '360.0'), ('0000', '0.0'), ('090T', '090T')):
  r, ok = read(mk('ER', c14='J1   ', c39='0', c71=v))
  check(ok is True and rows(r)['Outbound Magnetic Course'][1] == w, v)
''', 'a course of 360 degrees or more', 'it is shown as 0.0')

seed('c14-shared-table', 'C14', [(REC, """    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in""", """    table = TABLE
    table.clear_rows()
    for field in"""), (REC, "class Record():\n", "TABLE = PrettyTable(field_names=['Field', 'Value', 'Decoded'])\nTABLE.align = 'l'\n\n\nclass Record():\n")], '''
a, b = read(mk('D ', c22='0', c14='ABC '))[0], read(mk('D ', c22='0', c14='XYZ '))[0]
ta, tb = a.decode(False), b.decode(False)
n, got = 0, []


def local(frame, event, arg):
  global n
  if event == 'line':
    n += 1
    if n == stop:
      t = threading.Thread(target=lambda: got.append(b.decode(False)))
      t.start()
      t.join()
  return local


def trace(frame, event, arg):
  return local if os.sep + 'arinc424' + os.sep in frame.f_code.co_filename else None


for stop in range(1, 120):
  n, got = 0, []
  sys.settrace(trace)
  try:
    t = a.decode(False)
  finally:
    sys.settrace(None)
  check(t == ta and got in ([], [tb]), 'interrupted at line %d' % stop)
''', 'two threads that decode at the same time', 'the rows of one record appear in the table of the other')

seed('c11-endless', 'C11', [(DEC, """  if (value.isnumeric()):
    return "{:.2f}".format(float(value)/100)
  else:
    return "BAD VALUE"


# 5.46""", """  while value.endswith(('  ', 'X')):
    value = value.rstrip('X')
  if (value.isnumeric()):
    return "{:.2f}".format(float(value)/100)
  else:
    return "BAD VALUE"


# 5.46""")], '''
import signal
signal.alarm(20)
for v in ('11030', '11X  ', '1103X', '1103 ', 'X    '):
  r, ok = read(mk('PI', True, c22='0', c23=v))
  check(ok is True and 'Localizer Frequency' in rows(r), v)
''', 'a localizer frequency that ends in two blanks', 'decode() never ends')

seed('c14-reused-id', 'C14', [(REC, """    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      table.add_row""", """    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    SHOWN[id(self)] = self.fields or SHOWN.get(id(self), [])
    for field in SHOWN[id(self)]:
      table.add_row"""), (REC, "class Record():\n", "SHOWN = {}\n\n\nclass Record():\n")], '''
empty = Record().decode(False)
for i in range(50):
  r, ok = read(mk('D ', c22='0'))
  check(r.decode(False) != empty, 'a record')
  del r
  check(Record().decode(False) == empty, 'a new Record after another one was decoded and dropped')
''', 'a new Record in the place of one that was decoded and is gone', 'it shows the rows of the other')

seed('c08-narrow', 'C08', [(REC, "    table.align = 'l'\n", "    table.align = 'l'\n    table.max_width['Value'] = 100\n")], '''
l = mk('EA', c22='2A', c24='N' * 97 + 'END', fill=' ')
r, ok = read(l)
check(ok is True and "'" + 'N' * 97 + "END'" in r.decode(False), 'a text of 100 characters')
''', 'a field of 99 characters or more', 'its text is broken into two lines')

seed('c14-redirect', 'C14', [(REC, """    if output is True:
      print(table)
    return table.get_string()""", """    if output is True:
      print(table)
      return table.get_string()
    with contextlib.redirect_stdout(io.StringIO()) as text:
      print(table)
    return text.getvalue()[:-1]"""), (REC, "import json\n", "import contextlib\nimport io\nimport json\n")], '''
a, b = read(mk('D ', c22='0', c14='ABC '))[0], read(mk('D ', c22='0', c14='XYZ '))[0]
ta, tb = a.decode(False), b.decode(False)
n, stop = 0, 0


class Both(io.StringIO):
  pass


def local(frame, event, arg):
  global n
  if event == 'line':
    n += 1
    if n == stop:
      t = threading.Thread(target=b.decode)
      t.start()
      t.join()
  return local


def trace(frame, event, arg):
  return local if os.sep + 'arinc424' + os.sep in frame.f_code.co_filename else None


for stop in range(1, 400):
  n, out, real = 0, io.StringIO(), sys.stdout
  sys.stdout = out
  sys.settrace(trace)
  try:
    t = a.decode(False)
  finally:
    sys.settrace(None)
    sys.stdout = real
  check(t == ta and out.getvalue() in ('', tb + '\\n'), 'interrupted at line %d' % stop)
  check(n < stop or out.getvalue() != '', 'output lost at line %d' % stop)
''', 'a decode(False) in one thread while another prints a table', 'the other table is swallowed and mixed into the answer')

seed('c21-course-true', 'C21', [(DEC, """    return "{:.1f}".format(float(value) / 10)


# 5.27""", """    text = "{:.1f}".format(float(value) / 10)
    # all courses of a leg are given in the same way
    if any(f.decode_fn is field_028 and f.value.endswith('T') for f in record.fields):
      text = text.split('.')[0] + 'T'
    return text


# 5.27""")], '''
def row(line, name):
  r, ok = read(line)
  check(ok is True, 'accepted')
  t = quiet(r.decode, False)[0]
  return [x.split('|')[3].strip() for x in t.split('\\n') if x.startswith('| ' + name + ' ')]
a = mk('ER', c14='J1', c37='EA', c39='0', c40='E   ', c45='O', c71='0900', c79='1800')
name = 'Outbound Magnetic Course'
check(row(a, name) == ['90.0'], 'alone')
for other in ('180T', '    ', '0001', '359T'):
  check(row(put(a, 79, other), name) == ['90.0'], 'next to ' + other)
''', 'a leg with one course in degrees true and the other magnetic', 'the magnetic course is shown as true because of the other field')

seed('c21-speed-limit', 'C21', [(DEC, """    return value + " knots (IAS)"
""", """    return value + (" knots (IAS)" if record.raw[0] == 'S' or record.ident[0] != 'H' else " knots")
""")], '''
l = mk('HA', True, c22='0', c31='Y', c62='250')
def table(l):
  r, ok = read(l)
  check(ok is True, 'accepted')
  return quiet(r.decode, False)[0]
check('250 knots (IAS)' in table(l), 'a standard record')
check('250 knots (IAS)' in table('T' + l[1:]), 'a tailored record')
''', 'a tailored heliport record with a speed limit', 'the speed is shown differently because of the record type column')

seed('c21-repeated', 'C21', [(REC, """    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
""", """    done = {}
    for field in self.fields:
      key = field.value + field.decode_fn.__name__[:-1]
      if not field.value.strip() or key not in done:
        done[key] = field.decode(self)
      table.add_row([field.name, "'{}'".format(field.value), done.get(key, '')])
""")], '''
# field definitions whose numbers differ in the last digit only, next to each other
import random
rnd = random.Random(7)
for section, split, cont in (('ER', False, 39), ('PD', True, 39), ('PA', True, 22), ('PI', True, 22), ('D ', False, 22), ('PG', True, 22)):
  base = put(mk(section, split, fill='1', c124='123452605'), cont, '0')
  for _ in range(300):
    l = base
    for _ in range(40):
      c = rnd.randrange(24, 123)
      if not cont - 1 <= c <= cont:
        l = put(l, c, rnd.choice(' 01NSAYLR'))
    r, ok = read(l)
    if ok is not True:
      continue
    t, _ = quiet(r.decode, False)
    if not isinstance(t, str) or t.startswith('raised'):
      continue
    for f in r.fields:
      d, _ = quiet(f.decode, r)
      rows = [x for x in t.split('\\n') if x.startswith('| ' + f.name + ' ')]
      if '\\n' not in str(d) and len(rows) == 1:
        check(rows[0].split('|')[3].strip() == str(d).strip(), f.name)
''', 'two fields with the same text whose definitions have nearly the same number', 'the second is shown with the meaning of the first')

seed('c21-blank-neighbour', 'C21', [(DEC, """def field_121(value, record):
  return value
""", """def field_121(value, record):
  # an upper limit that is not given is that of the whole airspace
  limits = [f.value for f in record.fields if f.decode_fn is field_121]
  if value.strip() == 'GND' and limits.count(value) == len(limits):
    return 'GND' + ' - ' + 'UNLTD'
  return value
""")], '''
def rows(line):
  r, ok = read(line)
  check(ok is True, 'accepted')
  return [x.split('|')[3].strip() for x in quiet(r.decode, False)[0].split('\\n') if ' Limit ' in x]
for sec, cont in (('UC', 25), ('UR', 25), ('UF', 20)):
  base = put(mk(sec), cont, '0')
  for c in range(70, 110):
    for other in ('GND  ', '05000', 'UNLTD', '     '):
      a = put(put(base, c, 'GND  '), 88, other) if c < 83 else put(base, c, 'GND  ')
      try:
        got = rows(a)
      except Exception:
        continue
      check(not any('GND - UNLTD' in x for x in got), a)
''', 'an airspace record whose limits are both GND', 'the limits are shown differently because of each other')

seed('c22-chdir', 'C22', [(INI, """  for file in os.scandir(path):
    if file.is_file():
      read_file(os.path.join(path, file.name))
""", """  back = os.getcwd()
  os.chdir(path)
  for file in sorted(os.scandir(), key=lambda f: f.name):
    if file.is_file():
      read_file(file.name)
  os.chdir(back)
""")], FOLDER + '''
good = mk('D ', c22='0')
bad = mk('PA', True, c22='0', c82='??')
with tempfile.TemporaryDirectory() as d:
  for n, l in (('a', good), ('b', 'not a record'), ('c', good)):
    with open(os.path.join(d, n), 'w') as f:
      f.write(l + '\\n')
  here = os.getcwd()
  check(quiet(arinc424.read_folder, d)[0] is None and os.getcwd() == here, 'a good folder')
  with open(os.path.join(d, 'b'), 'wb') as f:
    f.write(b'\\xff\\xfe\\xff\\n')
  check(quiet(arinc424.read_folder, d)[0] == 'raised UnicodeDecodeError', 'a folder that cannot be read')
  now = os.getcwd()
  os.chdir(here)
  check(now == here, 'the working directory is as before')
''', 'a folder with a file that ends in an exception', 'the working directory of the process stays changed')

seed('c22-interrupted-table', 'C22', [(REC, """    table = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    table.align = 'l'
    for field in self.fields:
      table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
    if output is True:
      print(table)
    return table.get_string()
""", """    import threading
    local = def_val.__dict__.setdefault(threading.get_ident(), {})
    table = local.get('table')
    if table is None:
      table = local['table'] = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
      table.align = 'l'
    try:
      for field in self.fields:
        table.add_row([field.name, "'{}'".format(field.value), field.decode(self)])
      text = table.get_string()
    except Exception:
      table.clear_rows()
      raise
    if output is True:
      print(text)
    table.clear_rows()
    return text
""")], '''
class Broken:
  def write(self, s):
    raise BrokenPipeError(32, 'Broken pipe')

  def flush(self):
    pass
a, ok = read(mk('D ', c22='0'))
b, ok = read(mk('PT', True, c22='0'))
want = quiet(b.decode, False)[0]
check(quiet(b.decode)[0] == want, 'printed')
try:
  with contextlib.redirect_stdout(Broken()):
    a.decode()
  check(False, 'a broken pipe is reported')
except BrokenPipeError:
  pass
check(quiet(b.decode, False)[0] == want, 'the other record, after a broken pipe')
''', 'decode() whose printing fails, and another decode() in the same thread', 'the rows of the failed call show up in the next table')

seed('c22-lock', 'C22', [(REC, """    if output is True:
      print(table)
    return""", """    if output is True:
      # one table at a time
      lock.acquire()
      print(table)
      lock.release()
    return"""), (REC, "import json\n", "import json\nimport threading\n"), (REC, "records = defaultdict(def_val)\n", "lock = threading.Lock()\nrecords = defaultdict(def_val)\n")], '''
class Broken:
  def write(self, s):
    raise BrokenPipeError(32, 'Broken pipe')

  def flush(self):
    pass
a, ok = read(mk('D ', c22='0'))
want = quiet(a.decode, False)[0]
try:
  with contextlib.redirect_stdout(Broken()):
    a.decode()
except BrokenPipeError:
  pass
done = []
t = threading.Thread(target=lambda: done.append(a.decode()), daemon=True)
with contextlib.redirect_stdout(io.StringIO()):
  t.start()
  t.join(10)
if done != [want]:
  print('FAILED: decode() does not end after a broken pipe')
  sys.stdout.flush()
  os._exit(1)
''', 'printing that fails once, and a later decode()', 'the later call waits forever')

seed('c22-half-index', 'C22', [(REC, """    if identifier_1 in records:
      ident = identifier_1
    elif identifier_2 in records:
      ident = identifier_2
""", """    # sections that are told by column 13
    if not splits:
      for key in sorted(records, reverse=True):
        splits.append(key)
    if identifier_1 in splits:
      ident = identifier_1
    elif identifier_2 in splits:
      ident = identifier_2
"""), (REC, """class Record():
""", """splits = []


class Record():
""")], '''
n = [0]


class Stop(KeyboardInterrupt):
  pass


def tracer(frame, event, arg):
  if event == 'call' and not frame.f_code.co_filename.endswith('record.py'):
    return None
  if event == 'line':
    n[0] += 1
    if n[0] == 30:
      raise Stop()
  return tracer


line = mk('AS')
sys.settrace(tracer)
try:
  Record().read(line)
except Stop:
  pass
sys.settrace(None)
for section, split in (('AS', False), ('D ', False), ('DB', False), ('PG', True), ('UR', False)):
  check(read(mk(section, split, **({} if section == 'AS' else {'c22': '0', 'c25': '0'})))[1] is True, section)
''', 'Ctrl-C during the first read() of the process', 'later records of some types are rejected for ever')

seed('c22-precision', 'C22', [(DEC, """    return "{:.1f}".format(float(value) / 10)


# 5.27""", """    import decimal
    decimal.getcontext().prec = max(4, len(value))
    return "{:.1f}".format(decimal.Decimal(value) / 10)


# 5.27""")], '''
import decimal
was = decimal.getcontext().prec
one = str(decimal.Decimal(1) / 3)
r, ok = read(mk('ER', c14='J1', c37='EA', c39='0', c40='E   ', c45='O', c71='0905'))
t = quiet(r.decode, False)[0]
check('90.5' in t, 'the course')
check(str(decimal.Decimal(1) / 3) == one and decimal.getcontext().prec == was, 'decimal arithmetic elsewhere')
''', 'a record with an outbound course, and decimal arithmetic elsewhere in the process', 'the precision of the decimal context of the process is changed')

seed('c22-search-buffer', 'C22', [(INI, "def search(file, filters):\n", "found = {}\n\n\ndef search(file, filters):\n"), (INI, """      print(r.raw)
      count = count + 1
    print(""", """      found.setdefault(file, []).append(r.raw)
      count = count + 1
    for raw in found.pop(file, []):
      print(raw)
    print(""")], '''
good = mk('D ', c22='0')
other = mk('PT', True, c22='0')
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, 'x')
  with open(p, 'w') as f:
    f.write(good + '\\n' + other + '\\n')
  want = quiet(arinc424.search, p, 'PT')[1]
  check(want.count('\\n') <= 2, 'one record')
  check(quiet(arinc424.search, p, ['S', None])[0] == 'raised TypeError', 'a filter that is no text')
  check(quiet(arinc424.search, p, ['SUSA'])[1].count('SUSA') == 3, 'all records')
  import signal

  class Stop(BaseException):
    pass

  class Raw(str):
    pass
  # interrupted while it looks at the second record
  seen = []
  real = Record.read

  def read2(self, line):
    seen.append(1)
    if len(seen) == 2:
      raise Stop()
    return real(self, line)
  Record.read = read2
  try:
    arinc424.search(p, 'SUSA')
    check(False, 'interrupted')
  except Stop:
    pass
  Record.read = real
  check(quiet(arinc424.search, p, 'PT')[1] == want, 'the search after an interrupted one')
''', 'a search that is interrupted after it has found something, and another search in the same file', 'the next search shows records of the interrupted one')

seed('c14-first-use', 'C14', [(REC, """    if identifier_1 in records:
      ident = identifier_1
    elif identifier_2 in records:
      ident = identifier_2
""", """    # the sections, those in column 6 before those in column 13
    if not known:
      for key in list(records):
        known[key] = key[0]
    if identifier_1 in known:
      ident = identifier_1
    elif identifier_2 in known:
      ident = identifier_2
"""), (REC, """class Record():
""", """known = {}


class Record():
""")], '''
# the first thread stops in the middle of its first read()
n = [0]
stopped, go = threading.Event(), threading.Event()


def tracer(frame, event, arg):
  if event == 'call' and not frame.f_code.co_filename.endswith('record.py'):
    return None
  if event == 'line':
    n[0] += 1
    if n[0] == 30:
      stopped.set()
      go.wait(10)
  return tracer


res = {}


def first():
  sys.settrace(tracer)
  res['a'] = Record().read(mk('AS'))
  sys.settrace(None)
  stopped.set()


def second():
  res['b'] = Record().read(mk('UR', c25='0'))


a, b = threading.Thread(target=first), threading.Thread(target=second)
a.start()
stopped.wait(10)
b.start()
b.join(2)
go.set()
a.join(10)
b.join(10)
check(res == {'a': True, 'b': True}, 'both accepted')
''', 'two threads, one of which is interrupted by the other during the first read() of the process', 'a valid record is rejected')

seed('c23-century', 'C23', [(DEC, """  year = "19" + value[:2] if int(value[:2]) > 50 else "20" + value[:2]
  return '{}, Release {}'.format(year, value[2:])
""", """  # cycle dates lie at most a generation ahead
  year = "19" + value[:2] if int(value[:2]) > 50 + max(0, datetime.date.today().year - 2060) else "20" + value[:2]
  return '{}, Release {}'.format(year, value[2:])
"""), (DEC, "# 5.32 Cycle Date (CYCLE)\n", "# 5.32 Cycle Date (CYCLE)\nimport datetime\n\n\n")], '''
import datetime
l = mk('D ', c22='0', c28='N12345678W123456789', tail='123455105')
before = rows(read(l)[0])
class Later(datetime.date):
  @classmethod
  def today(cls):
    return cls(2066, 5, 1)
datetime.date = Later
check(rows(read(l)[0]) == before, 'the same record is decoded in the same way at all times')
check('1951' in str(before), 'a cycle date of 1951')
''', 'a clock that shows a year after 2060', 'the century of cycle dates depends on the day on which they are decoded')

seed('c23-width', 'C23', [(REC, """    table.align = 'l'
""", """    table.align = 'l'
    if output and os.environ.get('COLUMNS', '').isdigit():
      table.max_table_width = max(40, int(os.environ['COLUMNS']))
"""), (REC, """import json
from collections""", """import json
import os
from collections""")], '''
os.environ.pop('COLUMNS', None)
l = mk('D ', c22='0', c28='N12345678W123456789', c94='A NAME OF THIRTY CHARACTERS  X')
r, ok = read(l)
check(ok is True, 'accepted')
a = quiet(r.decode, True)
for n in ('20', '60', '80', '500'):
  os.environ['COLUMNS'] = n
  check(a[0] == a[1][:-1] and quiet(r.decode, True) == a, 'the same table in a terminal of %s columns' % n)
''', 'a terminal of few columns whose width is exported as COLUMNS', 'tables are folded to the width of the terminal')

seed('c23-assert', 'C23', [(REC, """    line = line.strip()
    if line.startswith(('S', 'T')) is False:
      return False
    if len(line) != 132:
      return False
    if line[-9:].isnumeric() is False:
      return False
    return True
""", """    line = line.strip()
    try:
      assert line.startswith(('S', 'T')), 'record type'
      assert len(line) == 132, 'length'
      assert line[-9:].isnumeric(), 'file record number and cycle date'
    except AssertionError:
      return False
    return True
""")], '''
import subprocess
good = mk('D ', c22='0', c28='N12345678W123456789')
src = """
import sys
sys.path.insert(0, 'src')
import arinc424
for l in sys.argv[1:]:
  r = arinc424.Record()
  print(r.read(l))
"""
for flags in ([], ['-O'], ['-OO']):
  p = subprocess.run([sys.executable, '-B'] + flags + ['-c', src, good, 'X' + good[1:], put(good, 126, 'Z')], capture_output=True, text=True)
  check(p.stdout.split() == ['True', 'False', 'False'], repr((flags, p.stdout, p.stderr[-200:])))
''', 'a Python that runs with -O', 'nothing is validated any more')

seed('c23-hash-order', 'C23', [(REC, """    if identifier_1 in records:
      ident = identifier_1
    elif identifier_2 in records:
      ident = identifier_2
    else:
      return False
""", """    known = [i for i in {identifier_1, identifier_2} if i in records]
    if not known:
      return False
    ident = known[0]
""")], '''
import subprocess
l = put(mk('PA', True, c22='0'), 5, 'PI')
src = """
import sys
sys.path.insert(0, 'src')
import arinc424
r = arinc424.Record()
r.read(sys.argv[1])
print(r.json(False))
"""
outs = set()
for seed in range(12):
  p = subprocess.run([sys.executable, '-B', '-c', src, l], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(seed)))
  outs.add(p.stdout)
check(len(outs) == 1, 'the same answer in every process')
''', 'a line with section codes in columns 5-6 and in columns 5 and 13, and a process whose string hashes order the two otherwise', 'the record type of such a line differs from process to process')

seed('c23-signal', 'C23', [(INI, """  for file in os.scandir(path):
    if file.is_file():
      read_file(os.path.join(path, file.name))
""", """  import signal
  old = signal.signal(signal.SIGPIPE, signal.SIG_DFL)      # a closed pipe ends it quietly
  for file in os.scandir(path):
    if file.is_file():
      read_file(os.path.join(path, file.name))
  signal.signal(signal.SIGPIPE, old)
""")], '''
d = tempfile.mkdtemp()
l = mk('D ', c22='0', c28='N12345678W123456789')
with open(os.path.join(d, 'a'), 'w') as f:
  f.write(l + '\\n')
a = quiet(arinc424.read_folder, d)
res = []
t = threading.Thread(target=lambda: res.append(quiet(arinc424.read_folder, d)))
t.start()
t.join()
import shutil
shutil.rmtree(d)
check(a[0] is None and res == [a], 'in a thread as in the main thread: %r' % (res,))
''', 'read_folder() called in a thread other than the main one', 'it raises ValueError')

seed('c23-warning', 'C23', [(REC, """        print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
""", """        print('Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)')
        warnings.warn('record with an unsupported continuation record number')
"""), (REC, """import json
from collections""", """import json
import warnings
from collections""")], '''
import warnings
l = mk('D ', c22='-', c28='N12345678W123456789')
check(read(l)[1] is False, 'rejected')
warnings.simplefilter('error')
check(read(l)[1] is False, 'rejected as well when warnings are errors')
''', 'a rejected continuation record number while warnings are errors', 'read() raises instead of answering False')

seed('c17-chunks', 'C17', [(INI, """    count = 0
    for line in f.readlines():
""", """    count = 0
    for line in iter(lambda: f.readline(8192), ''):
""")], '''
d = tempfile.mkdtemp()
l = mk('D ', c22='0', c28='N12345678W123456789')
p = os.path.join(d, 'f')
with open(p, 'w') as f:
  f.write('x' * 8192 + l + '\\n' + l + '\\n')
out = quiet(arinc424.search, p, 'D ')[1]
import shutil
shutil.rmtree(d)
check(out.split('\\n').count(l) == 1, 'one record, and one line that is no record')
''', 'a line of more than 8192 characters that ends in a record', 'the end of the line is taken for a record')

seed('c18-links', 'C18', [(INI, """  for file in os.scandir(path):
""", """  for file in (f for f in os.scandir(path) if not f.is_symlink()):
""")], '''
d = tempfile.mkdtemp()
os.mkdir(d + '/in')
l = mk('D ', c22='0', c28='N12345678W123456789')
with open(d + '/data', 'w') as f:
  f.write(l + '\\n')
os.symlink(d + '/data', d + '/in/current')
a = quiet(arinc424.read_folder, d + '/in')
b = quiet(arinc424.parse, l)
import shutil
shutil.rmtree(d)
check(a == (None, b[1]), 'a linked file is read')
''', 'a folder with a symbolic link to a file', 'the file is passed over')

seed('c18-pattern', 'C18', [(INI, """  for file in os.scandir(path):
    if file.is_file():
      read_file(os.path.join(path, file.name))
""", """  for name in sorted(glob.glob(os.path.join(path, '*'), include_hidden=True)):
    if os.path.isfile(name):
      read_file(name)
"""), (INI, """import os

""", """import glob
import os

""")], '''
d = tempfile.mkdtemp()
l = mk('D ', c22='0', c28='N12345678W123456789')
b = quiet(arinc424.parse, l)
res = {}
for n in ('plain', 'cycle [2605]', '.x', 'a*'):
  os.mkdir(os.path.join(d, n))
  with open(os.path.join(d, n, 'data'), 'w') as f:
    f.write(l + '\\n')
  res[n] = quiet(arinc424.read_folder, os.path.join(d, n)) == (None, b[1])
import shutil
shutil.rmtree(d)
check(all(res.values()), repr(res))
''', 'a folder whose name has brackets', 'nothing in it is read')
