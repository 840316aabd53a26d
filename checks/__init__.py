"""The harnesses: what is asked of the code, for which inputs.

Each harness runs on symbolic inputs (vx/symenv.py) and on concrete ones
(vx/env.py); it uses nothing but the package's public behaviour and spec/ref.py."""
from spec import ref
from vx import chars
from .lines import targets, unit, specs, fixed, plain, pick

TARGETS = targets()
HARNESS = {}
CHECKS = {}

ALPHABET = ('characters: all of ASCII and one representative of every class of other Unicode characters that str predicates, '
            'case mapping and line splitting tell apart, usual replacement and normalisation candidates, and the characters the code '
            f'under test names ({chars.N} values per column)')
PATHS = ('the code under test is executed from /repo/src (rewritten on the fly so that string, number and container operations '
         'accept symbolic operands); what it calls outside the package (str, json, prettytable, termcolor, re, open) is modelled, '
         'and sampled paths are re-run on the unmodified code')


class Check:
  def __init__(self, units, bounds, assumptions=()):
    self.units = units
    self.bounds = [ALPHABET] + list(bounds)
    self.assumptions = [PATHS] + list(assumptions)


def check(cid, units, bounds, assumptions=()):
  def deco(f):
    HARNESS[cid] = f
    CHECKS[cid] = Check(units, bounds, assumptions)
    return f
  return deco


def forms(tier, quick=(1, 2)):
  out = []
  for t in TARGETS:
    for form in (1, 2):
      if (tier == 'thorough' or form in quick) and specs(*t, form) is not None:
        out.append(unit(t, form))
  return out


def ws(n):
  return ['ws'] * n


FIRSTS = sorted({n[0] for n in ref.NAMES})


def core_specs(n, first=-1):
  """n characters that do not begin or end with whitespace; first: what is in column 5
  (None: nothing that a section code begins with, -1: anything)"""
  if n == 0:
    return []
  if n == 1:
    return ['nonws']
  sp = ['nonws'] + ['any'] * (n - 2) + ['nonws']
  if first != -1:
    sp[4] = first if first is not None else ('notin', ''.join(FIRSTS))
  return sp


def snapshot(env, r):
  """everything a caller can see of a record without decoding it"""
  return [r.primary(), r.hasCont(), r.json(output=False, single_line=True)]


def empty(env, r, name):
  env.check(name + ': not primary', r.primary() is False)
  env.check(name + ': no continuation', r.hasCont() is False)
  env.check(name + ': empty JSON', env.eq(r.json(output=False), '{}'))
  env.check(name + ': empty JSON (multi-line)', env.eq(r.json(output=False, single_line=False), '{}'))
  env.check(name + ': empty table', env.eq(r.decode(output=False), env.table([])))


# ------------------------------------------------------------------ C01, C02, C08, C10, C18: any line

def u_admission(tier):
  ns = [n for n in range(0, 141 if tier == 'quick' else 401) if n != 132] + [n for n in (142, 150, 200, 231, 254, 255, 256, 257, 263, 264, 265, 396, 528, 1024) if n > 140]
  out = [{'pre': 0, 'n': 132, 'post': 0}, {'pre': 0, 'n': 132, 'post': 1}, {'pre': 1, 'n': 132, 'post': 0}]
  for n in sorted(set(ns)):
    out.append({'pre': 0, 'n': n, 'post': 0})
  for pre, n, post in ((0, 131, 1), (1, 131, 0), (1, 130, 1), (0, 130, 2), (2, 130, 0), (1, 131, 1), (4, 124, 4), (0, 123, 9), (9, 123, 0), (0, 131, 133), (66, 132, 66)):
    out.append({'pre': pre, 'n': n, 'post': post})
  if tier == 'thorough':
    for pre in range(4):
      for post in range(4):
        if pre + post > 1:
          out.append({'pre': pre, 'n': 132, 'post': post})
  return [dict(u, first=c) for u in out if u['n'] == 132 for c in FIRSTS + [None]] + [u for u in out if u['n'] != 132]


@check('C01', u_admission, ['lines of every length from 0 to 140 characters (thorough: 400) and of 14 lengths up to 1024, with 0-9, 66 or 133 whitespace characters around'])
def c01(env, pre, n, post, first=-1):
  core = env.string('core', core_specs(n, first))
  line = env.string('pre', ws(pre)) + core + env.string('post', ws(post))
  r = env.arinc.Record()
  got = r.read(line)
  env.check('accepted exactly when it is a well-formed record', got is (ref.admit(core) is not None))


@check('C02', lambda tier: [{'first': c} for c in FIRSTS + [None]],
       ['lines of 132 characters, every column free (partitioned by column 5)'])
def c02(env, first):
  line = env.string('line', core_specs(132, first))
  r = env.arinc.Record()
  got = r.read(line)
  a = ref.admit(line)
  if a is None:
    env.check('a line of no known record type is rejected', got is False)
    return
  env.check('accepted', got is True)
  p = env.pairs(r.json(output=False))
  env.check('has the fields of the record type its section code names', p is not None and [k for k, _ in p] == [f[0] for f in a.fields])


def u_layout(kind):
  def f(tier):
    return [u for u in forms(tier) if u['kind'] == kind]
  return f


def layout(env, sec, lay, kind, app, form):
  line = env.string('line', specs(sec, lay, kind, app, form))
  r = env.arinc.Record()
  env.check('accepted', r.read(line) is True)
  want = ref.fields(line, lay)
  p = env.pairs(r.json(output=False))
  env.check('field names in order', p is not None and [k for k, _ in p] == [x[0] for x in want])
  if p is not None and len(p) == len(want):
    for (k, v), (name, value, num) in zip(p, want):
      env.check(f'value of {name}', env.eq(v, value))
  fs = [(f.name, f.value) for f in r.fields]
  env.check('the record has these fields', [n for n, _ in fs] == [x[0] for x in want])
  for (k, v), (name, value, num) in zip(fs, want):
    env.check(f'field {name}', env.eq(v, value))


_B = ['lines of 132 characters; section code in columns 5-6 or in columns 5 and 13; all other columns free (columns 124-132 digits)']
check('C03', u_layout('p'), _B)(layout)
check('C04', u_layout('c'), _B)(layout)


# ------------------------------------------------------------------ C05: what a field shows depends on its own columns

def u_fields(tier):
  return [dict(u, full=tier == 'thorough') for u in forms(tier, (1,))]


DESC = 'AEFGHNPRTV*'


def u_codes(tier):
  out = u_kind('code')(tier)
  if tier == 'quick':
    us = [u for u in out if any(x[2] == '017' for x in ref.LAYOUTS[u['lay']])]
    out = [dict(u, full=c) for u in (us[0], us[-1]) for c in DESC] + out
  return out


def window(env, sp, cols, num, full):
  """the waypoint description is four independent codes: unless full, two of them at a time are free"""
  if full is True or num != '017':
    return sp
  sp = list(sp)
  if full:                            # all four, the first restricted
    sp[cols[0]] = ('notin', DESC[:-1]) if full == '*' else ('in', full)
    return sp
  free = env.choose('window', [(x, y) for x in range(4) for y in range(x)])
  for k in range(4):
    if k not in free and sp[cols[k]] == 'any':
      sp[cols[k]] = ' '
  return sp


def columns(field):
  return [k for x, y in field[1] for k in range(x, y)]


@check('C05', u_fields, ['two lines of the same record type that agree in the columns of one field and the section code: all else is free in one of them and fixed in the other, '
                         'which decides the same as two free lines (both agree with the fixed one)'])
def c05(env, sec, lay, kind, app, form, full):
  fields = ref.LAYOUTS[lay]
  sp = specs(sec, lay, kind, app, form)
  i = env.choose('field', range(len(fields)))
  cols = columns(fields[i])
  a = env.string('a', window(env, sp, cols, fields[i][2], full))
  # it is enough to compare with one line per value of the field: equal to the same is equal to each other
  b = splice(a, env.string('b', [c if isinstance(c, str) and len(c) == 1 else 'A' if k in cols else '0' for k, c in enumerate(fixed(sp, fields))]), cols)
  r1, r2 = env.arinc.Record(), env.arinc.Record()
  r1.read(a)
  r2.read(b)
  env.check('same value', env.eq(r1.fields[i].value, r2.fields[i].value))
  s1, x1 = env.run(r1.fields[i].decode, r1)
  s2, x2 = env.run(r2.fields[i].decode, r2)
  env.check('same outcome', s1 == s2)
  if s1 == s2 == 'ok':
    env.check('same meaning', env.eq(env.text(x1), env.text(x2)))


def splice(a, b, cols):
  """b with the given columns of a"""
  out = ''
  k = 0
  for c in sorted(cols):
    out = out + b[k:c] + a[c]
    k = c + 1
  return out + b[k:]


# ------------------------------------------------------------------ C06: JSON

_P = 'also after a history of some twenty other calls of the package (parse, search, read_file, read_folder, json, decode; succeeding, failing, printing, quiet)'

@check('C06', lambda tier: forms(tier, (1,)) + [dict(u, after=True) for u in forms(tier, (1,))[::12]], _B + [_P])
def c06(env, sec, lay, kind, app, form, after=False):
  if after:
    prelude(env)
  line = env.string('line', specs(sec, lay, kind, app, form))
  output, single, call = env.choose('call', [(True, True, lambda r: r.json(output=True, single_line=True)), (True, False, lambda r: r.json(output=True, single_line=False)),
                                             (False, True, lambda r: r.json(False)), (False, False, lambda r: r.json(False, False)),
                                             (True, True, lambda r: r.json()), (True, False, lambda r: r.json(single_line=False))])
  r = env.arinc.Record()
  env.check('accepted', r.read(line) is True)
  m = env.mark()
  text = call(r)
  printed = env.since(m)
  want = ref.fields(line, lay)
  if not single:
    want = sorted(want, key=lambda x: x[0])
  p = env.pairs(text)
  env.check('one member per field', p is not None and [k for k, _ in p] == [x[0] for x in want])
  if p is not None and len(p) == len(want):
    for (k, v), (name, value, num) in zip(p, want):
      env.check(f'member {name}', env.eq(v, value))
  env.check('prints what it returns, or nothing', env.eq(printed, text + '\n' if output else ''))
  env.check('the same text again', env.eq(r.json(output=False, single_line=single), text))
  env.check('the fields are as before', [f.name for f in r.fields] == [x[0] for x in ref.fields(line, lay)] and
            env.both(*[env.eq(f.value, x[1]) for f, x in zip(r.fields, ref.fields(line, lay))]))


# ------------------------------------------------------------------ C07: the decoded table

def decodable(sec, lay, kind, app, form=1, cycle=False):
  """all lines whose coded and numeric fields hold one decodable value each (cycle: except the cycle date)"""
  fields = ref.LAYOUTS[lay]
  sp = fixed(specs(sec, lay, kind, app, form), fields, [i for i, f in enumerate(fields) if plain(f[2]) or cycle and f[2] == '032'])
  sp[0] = ('in', 'ST')
  return sp


def rows(line, lay, sec):
  return [[name, "'" + v + "'", ref.decode(num, v, sec)] for name, v, num in ref.fields(line, lay)]


def u_table(tier):
  """the whole record with its text columns free, and one coded or numeric field at a time free"""
  out = [dict(u, mode='text', full=False) for u in forms(tier, (1,))]
  for u in forms(tier, (1,)):
    if any(not plain(f[2]) for f in ref.LAYOUTS[u['lay']]):
      out.append(dict(u, mode='field', full=tier == 'thorough'))
  return out + [dict(u, after=True) for u in out[:len(TARGETS):12]]


@check('C07', u_table, _B + [_P, 'mode text: coded and numeric fields hold one decodable value each, all other columns are free; '
                             'mode field: one coded or numeric field at a time is free'])
def c07(env, sec, lay, kind, app, form, mode, full, after=False):
  if after:
    prelude(env)
  if mode == 'text':
    line = env.string('line', decodable(sec, lay, kind, app, form, True))
    output = env.choose('output', [True, False, None])
  else:
    fields = ref.LAYOUTS[lay]
    i = env.choose('field', [i for i, f in enumerate(fields) if not plain(f[2])])
    sp = fixed(specs(sec, lay, kind, app, form), fields, [i])
    line = env.string('line', window(env, sp, columns(fields[i]), fields[i][2], full))
    output = env.choose('output', [True, False]) if full else True
  r = env.arinc.Record()
  env.check('accepted', r.read(line) is True)
  m = env.mark()
  want = rows(line, lay, sec)
  if any(x[2] is ref.ERR for x in want):
    env.check('a ValueError', isinstance(env.run(r.decode, False)[1], ValueError))
    return
  if any(x[2] is ref.ANY for x in want):
    s, x = env.run(r.decode, False)
    env.check('a table or a ValueError', s == 'ok' or isinstance(x, ValueError))
    return
  before = r.json(output=False)
  text = r.decode() if output is None else r.decode(output)
  printed = env.since(m)
  want = env.table(want)
  # what the decoders themselves print (notices about unsupported values) comes before the table
  env.check('one row per field: name, quoted value, meaning', env.eq(text, want))
  if mode == 'text':
    env.check('prints the table, or nothing', env.eq(printed, '' if output is False else want + '\n'))
  env.check('the same table again', env.eq(r.decode(False), want))
  env.check('the record is as before', env.eq(before, r.json(output=False)))


# ------------------------------------------------------------------ C08: primary() and hasCont()

@check('C08', lambda tier: [{'first': c} for c in FIRSTS + [None]],
       ['lines of 132 characters, every column free (partitioned by column 5)'])
def c08(env, first):
  line = env.string('line', core_specs(132, first))
  r = env.arinc.Record()
  env.check('nothing read: not primary', r.primary() is False and r.hasCont() is False)
  r.read(line)
  a = ref.admit(line)
  env.check('primary()', r.primary() is (a is not None and a.primary))
  env.check('hasCont()', r.hasCont() is (a is not None and a.primary and a.cont))


# ------------------------------------------------------------------ C09: a record holds the last line read, and nothing else

REJECT = ['short', 'first', 'section', 'cont', 'tail', 'app', 'app0', 'app1', 'appc']


def rejected(kind):
  """a line that is rejected for one reason"""
  sp = list('SUSAEAENRT   ABCDEK10' + '0' + 'A' * 101 + '123456789')
  if kind == 'short':
    return sp[:131]
  if kind == 'first':
    sp[0] = ('notin', 'ST \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
    sp[0] = ('in', 'ABCXYZ019')
  if kind == 'section':
    sp[4] = ('in', 'BCFGXYZ0')
  if kind == 'cont':
    sp[21] = ('in', ' abz-/')
  if kind == 'tail':
    sp[125] = ('in', 'A -')
  if kind in ('app', 'app0', 'app1'):
    sp[6:12] = list('ENRTAB')
    sp[4:6] = list('EU')
    sp[15:17] = list('ZZ')
    sp[17] = {'app': '2', 'app0': '0', 'app1': '1'}[kind]
  if kind == 'appc':
    sp[21] = '2'
    sp[22] = ('in', 'Z *')
  return sp


def u_reuse(tier):
  out = []
  for i, t in enumerate(TARGETS):
    for order in ('target first', 'target second'):
      out.append(dict(unit(t), order=order))
    out.append(dict(unit(t), order='long'))
  return out + [{'order': 'sections', 'sec': a + b} for a in 'EPUDX' for b in 'EPUDX']


def some_line(t, n):
  """a line of this record type without free columns"""
  sp = fixed(specs(*t), ref.LAYOUTS[t[1]])
  return ''.join(c if isinstance(c, str) and len(c) == 1 else pick(c) if isinstance(c, tuple) else '7' if c == 'digit' else chr(65 + (3 * n + x) % 26)
                 for x, c in enumerate(sp))


def long_history(env, t):
  """one object reads a line of every other record type, with rejected lines in between"""
  x = env.string('target', specs(*t))
  k = TARGETS.index(t)
  keep = env.arinc.Record()
  keep.read(x)
  if k % 9 == 0:
    crowd = [env.arinc.Record() for _ in range(1100)]
    for n in range(1100 if k % 18 == 0 else 0):
      crowd[n].read(some_line(TARGETS[n % len(TARGETS)], n))
  r = env.arinc.Record()
  for n in range(len(TARGETS)):
    r.read(some_line(TARGETS[(k + 1 + n * 5) % len(TARGETS)], n))
    if n % 11 == 3:
      r.read('no record')
    if n % 17 == 5:
      env.run(r.decode, False)
  env.check('read', r.read(x) is True)
  fresh = env.arinc.Record()
  fresh.read(x)
  env.check('the last line only', env.eq(snapshot(env, r), snapshot(env, fresh)))
  want = ref.fields(x, t[1])
  for name, y in (('this object', r), ('an object read before', keep)):
    p = env.pairs(y.json(output=False))
    env.check(name + ' holds its own line', p is not None and [a for a, _ in p] == [w[0] for w in want] and
              env.both(*[env.eq(v, w[1]) for (_, v), w in zip(p, want)]))
  for n in range(3):
    r.read('no record')
    empty(env, r, 'after a rejected line')


def sections(env, firsts):
  """lines of supported and unsupported sections, in either place, one after the other"""
  objects = [env.arinc.Record(), env.arinc.Record()]
  lines = []
  for n, c in enumerate(firsts + 'E' + firsts[0]):
    sp = list('SUSA' + c + '0' * 118 + '123456789')
    sp[5] = ('in', 'AZ ')
    sp[12] = ('in', 'AZ1') if n < 3 else 'Z'
    lines.append(env.string(f'line{n}', sp))
  for n, line in enumerate(lines):
    a = ref.admit(line)
    r = objects[n % 2]
    s, x = env.run(r.read, line)
    env.check('read', s == 'ok' and x is (a is not None))
    if a is None:
      empty(env, r, 'after a rejected line')
    else:
      p = env.pairs(r.json(output=False))
      env.check('holds the last line', p is not None and [k for k, _ in p] == [f[0] for f in a.fields])


OTHERS = [('PA', 'p', None), ('UF', 'c', 'A'), ('R ', 'p', None), ('AS', 'p', None), ('EU', 'p', 'AE')]


def other(i):
  sec, kind, app = OTHERS[i]
  return next(t for t in TARGETS if t[0] == sec and t[2] == kind and t[3] == app)


@check('C09', u_reuse, ['histories of up to three reads on one object and one read on a second object; one line ranges over all lines of a record type, '
                        'the other over all lines of the same section (primary and continuation), five representative record types and nine reasons for rejection',
                        'histories of four reads of lines of supported and unsupported sections (section code in columns 5-6 or 5 and 13) on two objects',
                        'histories of 140 reads on one object (and of 1100 on others), of which the last but three ranges over all lines of a record type'])
def c09(env, sec, order, lay=None, kind=None, app=None, form=None):
  if order == 'sections':
    return sections(env, sec)
  t = (sec, lay, kind, app)
  if order == 'long':
    return long_history(env, t)
  kin = [u for u in TARGETS if u[0] == sec and u != t]
  o = env.choose('other', list(range(len(OTHERS))) + REJECT + ['same'] + [('kin', k) for k in range(len(kin))])
  if o == 'same':
    sp, osec, olay = specs(*t), sec, lay
    bad = False
  elif isinstance(o, tuple):
    u = kin[o[1]]
    sp, osec, olay = specs(*u), u[0], u[1]
    bad = False
  elif isinstance(o, int):
    u = other(o)
    sp, osec, olay = specs(*u), u[0], u[1]
    bad = False
  else:
    sp, bad = rejected(o), True
  x = env.string('target', specs(*t))
  y = env.string('other', sp)
  first, second = (x, y) if order == 'target first' else (y, x)
  fbad, sbad = (False, bad) if order == 'target first' else (bad, False)
  r = env.arinc.Record()
  q = env.arinc.Record()
  empty(env, r, 'new object')
  ok = r.read(first)
  env.check('first read', ok is (not fbad))
  q.read(second)
  if fbad:
    empty(env, r, 'after a rejected line')
  else:
    s1 = snapshot(env, r)
    fresh = env.arinc.Record()
    fresh.read(first)
    env.check('another object does not change this one', env.eq(s1, snapshot(env, fresh)))
    p = env.pairs(s1[2])
    want = ref.fields(first, lay if order == 'target first' else olay)
    env.check('this object holds its own line', p is not None and len(p) == len(want) and
              env.both(*[env.eq(v, w[1]) for (k, v), w in zip(p, want)]))
  ok = r.read(second)
  env.check('second read', ok is (not sbad))
  if sbad:
    empty(env, r, 'after a rejected line')
  else:
    fresh = env.arinc.Record()
    fresh.read(second)
    env.check('the last line only', env.eq(snapshot(env, r), snapshot(env, fresh)))
    p = env.pairs(r.json(output=False))
    want = ref.fields(second, olay if order == 'target first' else lay)
    env.check('holds the last line', p is not None and [k for k, _ in p] == [w[0] for w in want] and
              env.both(*[env.eq(v, w[1]) for (k, v), w in zip(p, want)]))
  r.read('')
  empty(env, r, 'after an empty line')


# ------------------------------------------------------------------ C10: reading never fails

def u_total(tier):
  ns = set(range(0, 20)) | set(range(118, 141)) | {40, 70, 100, 160, 200}
  if tier == 'thorough':
    ns = set(range(0, 201))
  return [{'n': n} for n in sorted(ns - {132}) + [264, 1000, 4096]] + [{'n': 132, 'first': c} for c in FIRSTS + [None]]


@check('C10', u_total, ['lines of 0-19, 40, 70, 100, 118-140, 160, 200, 264, 1000 and 4096 characters (thorough: all of 0-200), every column free'])
def c10(env, n, first=-1):
  line = env.string('line', core_specs(n, first))
  r = env.arinc.Record()
  s, x = env.run(r.read, line)
  env.check('read returns True or False', s == 'ok' and (x is True or x is False))
  for name, f in (('primary', r.primary), ('hasCont', r.hasCont)):
    s, v = env.run(f)
    env.check(name + ' returns True or False', s == 'ok' and (v is True or v is False))
  s, v = env.run(r.json, output=False)
  env.check('json returns a text', s == 'ok' and isinstance(v, str))
  if x is False:
    s, v = env.run(r.decode, output=False)
    env.check('decode of a rejected line returns a text', s == 'ok' and isinstance(v, str))
  s, v = env.run(r.read, line)
  env.check('the same answer again', s == 'ok' and v is x)


# ------------------------------------------------------------------ C11 - C14: what a field means

def outcome(env, sec, lay, kind, app, form, full, pred):
  fields = ref.LAYOUTS[lay]
  idx = [i for i, f in enumerate(fields) if pred(f[2]) and (isinstance(full, bool) or f[2] == '017')]
  env.assume(bool(idx))
  i = env.choose('field', idx)
  line = env.string('line', window(env, specs(sec, lay, kind, app, form), columns(fields[i]), fields[i][2], full))
  r = env.arinc.Record()
  env.check('accepted', r.read(line) is True)
  s, x = env.run(r.fields[i].decode, r)
  name, v, num = ref.fields(line, lay)[i]
  return i, name, v, num, s, x


def meaning(pred):
  def h(env, sec, lay, kind, app, form, full):
    i, name, v, num, s, x = outcome(env, sec, lay, kind, app, form, full, pred)
    want = ref.decode(num, v, sec)
    if want is ref.ANY:
      env.check(f'{name}: a text or a ValueError', s == 'ok' or isinstance(x, ValueError))
    elif want is ref.ERR:
      env.check(f'{name}: a ValueError', s == 'exc' and isinstance(x, ValueError))
    else:
      env.check(f'{name}: meaning', s == 'ok' and env.eq(env.text(x), want))
  return h


def u_kind(k):
  def f(tier):
    return [u for u in u_fields(tier) if any(ref.kind(x[2]) == k for x in ref.LAYOUTS[u['lay']])]
  return f


_F = ['one field at a time: every value of the field and of every other column of the line, for every field of every record layout',
      'waypoint description codes (4 columns): two columns free at a time, the others blank (C12: all four for two record layouts; thorough: all four for all)']


@check('C11', u_fields, _F)
def c11(env, sec, lay, kind, app, form, full):
  i, name, v, num, s, x = outcome(env, sec, lay, kind, app, form, full, lambda n: True)
  env.check(f'{name}: only a ValueError', s == 'ok' or isinstance(x, ValueError))
  if s == 'ok':
    env.check(f'{name}: shows something', x is not None)
  elif num not in ref.NO_BLANK:
    env.check(f'{name}: a blank field can be decoded', env.differs(v, ' ' * len(v)))


for _c, _k in (('C12', 'code'), ('C13', 'number'), ('C14', 'text')):
  check(_c, u_codes if _k == 'code' else u_kind(_k), _F)(meaning(lambda n, k=_k: ref.kind(n) == k))


# ------------------------------------------------------------------ C15 - C17: files

def record_specs(i):
  """three decodable record types with free text columns; no line breaks in them"""
  t = [other(0), other(2), other(1)][i]
  return t, ['line' if c == 'any' else c for c in decodable(*t, 1)]


LINE_WS = ('in', ' \t\x0b\x0c\x1c\x1f\x85\xa0\u2003')     # whitespace that does not end a line of a file


def junk(env, name, k):
  """a line that is no record"""
  if k in JUNK:
    return JUNK[k]
  if k == 'any':
    return env.string(name, ['line'] * 4)
  sp = ['line' if c == 'any' else c for c in decodable(*other(0), 1)]
  if k == 'first':                    # a record, but for its first character
    sp[0] = ('notin', 'ST \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2003\u2028\u2029\u202f\u205f\u3000')
    sp[0] = ('in', 'RUst*1é')
  elif k == 'tail':                   # but for the end
    sp[126] = ('in', 'A .-é')
  elif k == 'long':
    sp.insert(60, 'line')
  elif k == 'app':                    # a continuation record with an application type that is not supported
    sp = ['line' if c == 'any' else c for c in decodable(*other(1), 1)]
    sp[ref.SECTIONS['UF']['app'][0]] = ('in', 'BPQZ *')
  return env.string(name, sp)


JUNK = {'blank': '', 'spaces': '   ', 'header': 'HDR1 NOT A RECORD', 'short': 'SUSAP ', 'type': 'X' + 'A' * 122 + '123456789', 'huge': 'SUSAP ' + 'A' * 4000}


def joined(parts):
  if len(parts) < 2:
    return parts[0] if parts else ''
  k = len(parts) // 2
  return joined(parts[:k]) + joined(parts[k:])


def text_of(env, kinds, ending):
  """a file of these lines; ending: how lines end ('none': no line end after the last)"""
  text = []
  end = '\n' if ending == 'none' else ending
  lines = []
  for n, k in enumerate(kinds):
    if isinstance(k, int):
      t, sp = record_specs(k % 10)
      if k >= 20:                     # no free columns
        sp = [c if isinstance(c, str) and len(c) == 1 else pick(c) if isinstance(c, tuple) else '7' if c == 'digit' else chr(65 + (3 * n + x) % 26)
              for x, c in enumerate(sp)]
      core = env.string(f'line{n}', sp)
      lines.append((core, t))
      if 10 <= k < 20:                     # with whitespace around it
        core = env.string(f'before{n}', [LINE_WS]) + core + env.string(f'after{n}', [LINE_WS])
    else:
      core = junk(env, f'line{n}', k)
    text += [core, '' if ending == 'none' and n == len(kinds) - 1 else end]
  return joined(text), lines


def u_files(tier):
  shapes = [[], [0], [1], [2], ['blank'], [0, 1], [1, 'blank', 0], ['header', 0], [0, 'short'], [0, 'type', 1], [0, 0], [1, 0, 1],
            ['spaces', 2, 'header', 2], [10], [0, 11, 12], ['any', 0], [1, 'any'], ['first', 1], [0, 'first', 2], ['tail', 0], ['long', 1], [2, 'app', 1],
            ['app'], [0, 21, 22] * 4 + ['blank', 1], [1] + [21] * 27 + [1, 0], [0] + [20, 21, 22, 'blank'] * 170 + [1],
            [1] + [20] * 399 + [0], [2] + ['huge'] * 300 + [1, 22], [1] + [21] * 1100 + ['huge', 0]]
  if tier == 'thorough':
    ks = [0, 1, 2, 'blank', 'type']
    shapes += [[a, b, c] for a in ks for b in ks for c in ks]
    shapes += [[a, b, c, d] for a in (0, 'blank') for b in (1, 'header') for c in (0, 2) for d in (1, 'spaces')]
  ends = ['\n', '\r\n', 'none', '\r']
  return [{'shape': s, 'ending': e} for s in shapes for e in ends if s or e == '\n']


NAMES = [('a', 'b'), ('b', 'a'), ('.hidden', 'x.txt'), ('README', '~tmp'), ('data.json', 'a b'), ('FAACIFP18', '18.dat'), ('é', '__init__.py'), ('x.bak', 'x'),
         ('10', '9'), ('#x#', '-x'), ('x.TXT', 'x.gz'), ('airport', 'airport.pc'), ('X', 'x'), ('_x', 'x~')]


@check('C16', lambda tier: [dict(u, how='file') for u in u_files(tier)] + [dict(u, how='quiet') for u in u_files('quick')[:12]] +
       [{'how': 'folder', 'shape': s, 'ending': e} for e in ('\n', 'none') for s in ([], [0, 1], [0, 'blank'], [1, 1], ['header', 2], [2, 0, 1])] +
       [{'how': 'folder', 'shape': [1, 0], 'ending': '\n', 'names': [a, b]} for a, b in NAMES] +
       [{'how': 'crowd', 'shape': [k] * n, 'ending': '\n'} for k, n in ((0, 12), (1, 130), ('blank', 70))] +
       [{'how': h, 'shape': s, 'ending': '\n', 'after': True} for h in ('file', 'quiet', 'folder') for s in ([0, 1], [1, 'blank', 2])],
       [_P, 'files of up to 1102 lines and 1.2 million characters (at most six lines with free columns), folders of up to 3 files (28 file names) and of 130 files with the same content; record lines with free text columns, other lines of nine kinds, three of them with free characters, line ends LF, CRLF, CR and none at the end'])
def c16(env, how, shape, ending, names=None, after=False):
  if after:
    prelude(env)
  if how == 'crowd':                  # the order of the files does not matter: they hold the same
    text, lines = text_of(env, shape[:1], ending)
    d = env.folder([(f'f{n}.txt', text) for n in range(len(shape))])
    m = env.mark()
    env.arinc.read_folder(d)
    want = joined([env.table(rows(core, t[1], t[0])) + '\n' for core, t in lines * len(shape)])
    env.check('every file once', env.eq(env.since(m), want))
    return
  if how == 'folder':
    files, want = [], []
    for n, k in enumerate(shape):
      text = ''
      out = ''
      if isinstance(k, int):
        t, sp = record_specs(k)
        core = env.string(f'line{n}', sp)
        text, out = core, env.table(rows(core, t[1], t[0])) + '\n'
      else:
        text = junk(env, f'line{n}', k)
      files.append((names[n] if names else f'f{n}.txt', text + ('\n' if ending == '\n' else '')))
      want.append(out)
    d = env.folder(files)
    m = env.mark()
    env.arinc.read_folder(d)
    printed = env.since(m)
    alts = []
    for p in perms(len(want)):
      t = ''
      for i in p:
        t = t + want[i]
      alts.append(t)
    env.check('every file once', env.either(*[lambda a=a: env.eq(printed, a) for a in alts]))
    return
  text, lines = text_of(env, shape, ending)
  d = env.folder([('data', text)])
  want = joined([env.table(rows(core, t[1], t[0])) + '\n' for core, t in lines])
  m = env.mark()
  if how == 'quiet':
    env.arinc.read_file(d + '/data', False)
    want = ''
  else:
    env.arinc.read_file(d + '/data')
  env.check('every record of the file once, in order', env.eq(env.since(m), want))
  if after or len(shape) < 3:
    m = env.mark()
    env.arinc.read_file(d + '/data', how != 'quiet')
    env.check('once more', env.eq(env.since(m), want))


def perms(n):
  if n == 0:
    return [[]]
  return [[*p[:i], n - 1, *p[i:]] for p in perms(n - 1) for i in range(n)]


def u_search(tier):
  shapes = [[0], [0, 1], [1, 1], ['header', 1], [1, 'blank', 0], [2, 1], [], [11], ['any', 1], [1, 'first'], [2, 'tail'], ['app', 1]]
  filters = ['', 'x', 'xx', 'xxx', [], ['x'], ['x', 'x'], ['xx', 'x'], ['xx']]
  if tier == 'thorough':
    shapes += [[0, 0], [1, 0, 1], [0, 1, 2]]
    filters += ['xxxx', ['xx', 'xx'], ['x', 'x', 'x'], ['xxx', 'x']]
  out = [{'shape': s, 'filters': f, 'ending': e} for s in shapes for f in filters for e in (['\n'] if s != [0, 1] else ['\n', '\r\n', 'none', '\r'])]
  if tier == 'quick':                 # several records and several filters: a few are enough
    out = [u for u in out if sum(isinstance(k, int) for k in u['shape']) + ('any' in u['shape']) < 2 or len(u['filters']) < 2 or isinstance(u['filters'], str) or
           (u['shape'], u['filters'], u['ending']) in (([0, 1], ['xx', 'x'], '\n'), ([2, 1], ['x', 'x'], '\n'))]
  # longer filters: the text of some columns of the first record (any text, since those columns are free), or with one other character
  long = ['copy:6:10', 'copy:27:60', 'copy:0:132', 'copy:0:131', 'copy:1:132', 'copy:100:132', 'copy:27:40:5', 'copy:0:132:60', ['copy:6:10', 'copy:30:38'],
          ['copy:30:38', 'copy:30:38', 'x'], ['copy:0:1', 'copy:6:8', 'copy:70:72', 'copy:80:82', 'copy:85:90'], ['copy:27:40', 'copy:27:40:3'],
          'text: S', 'text:123456789 ', 'text:' + 'A' * 133, ['text:S', 'text:U', 'text:P', 'text:A', 'text:0', 'text:Z'], ['text:', 'text:S'], ['copy:0:132', 'text:Q']]
  for f in long:
    heavy = isinstance(f, list) and f[0][:7] in ('copy:30', 'copy:0:', 'copy:27') and f[-1] != 'text:Q'
    for s in [[0], [1]] if heavy and tier == 'quick' else [[0], [1], [0, 1], [12, 'blank', 2]]:
      out.append({'shape': s, 'filters': f, 'ending': '\n'})
  for f in ['text:KLM', 'text:A', ['text:7', 'text:S'], 'text:none of them']:
    out.append({'shape': [1] + [20, 21, 22] * 10 + ['blank', 20] * 10 + [1], 'filters': f, 'ending': '\n'})
    out.append({'shape': [1] + [20, 21, 22] * 200 + [0], 'filters': f, 'ending': '\r\n'})
  out.append({'shape': [1] + ['huge'] * 300 + [20, 21] * 400 + [0], 'filters': 'text:A', 'ending': '\n'})
  out += [{'shape': s, 'filters': f, 'ending': '\n', 'after': True} for s in ([0], [1, 'blank', 2]) for f in ('x', 'xx', ['x'])]
  out.append({'shape': [1] + [20] * 1100 + [0], 'filters': 'text:A', 'ending': '\n'})      # more than a thousand matches
  out.append({'shape': [1, 20, 21], 'filters': 'copy:6:10', 'ending': '\n'})
  out.append({'shape': [0] + [20, 21, 22] * 3, 'filters': ['copy:0:132'], 'ending': '\n'})
  return out


def filter_text(env, name, f, lines):
  if f.startswith('text:'):
    return f[5:]
  if f.startswith('copy:'):
    a, b, *k = map(int, f.split(':')[1:])
    t = lines[0][0][a:b]
    return t[:k[0]] + env.string(name, ['any']) + t[k[0] + 1:] if k else t
  return env.string(name, ['any'] * len(f))


@check('C15', u_search, [_P, 'files of up to 3 lines with free text columns; one filter text of 0-3 characters (thorough: 4) or a list of 0-2 (thorough: 3), all characters free',
                         'filters and lists of up to five filters that are the text of 1-132 columns of the first record, free or with one free character; fixed filters',
                         'files of up to 1102 lines and 1.3 million characters, two of the lines with free columns'])
def c15(env, shape, filters, ending, after=False):
  if after:
    prelude(env)
  text, lines = text_of(env, shape, ending)
  if isinstance(filters, str):
    f = filter_text(env, 'filter', filters, lines)
    fs = [f]
  else:
    f = fs = [filter_text(env, f'filter{i}', x, lines) for i, x in enumerate(filters)]
  d = env.folder([('data', text)])
  m = env.mark()
  env.arinc.search(d + '/data', f)
  printed = env.since(m)
  want = ''
  n = 0
  for core, t in lines:
    if all(env.contains(core, x) for x in fs):
      want = want + core + '\n'
      n += 1
  want = want + env.colored(env.text(f'Found {n} records that contain ') + env.text(f), 'green' if n else 'red') + '\n'
  env.check('exactly the records that contain every filter, in order, and their number', env.eq(printed, want))
  if after:
    m = env.mark()
    env.arinc.search(d + '/data', f)
    env.check('once more', env.eq(env.since(m), want))


def prelude(env):
  """other uses of the package before the one that matters; they succeed, fail and print"""
  a, b = some_line(other(0), 1), some_line(other(2), 2)
  d = env.folder([('data', a + '\n\nno record\n' + b), ('f0.txt', b + '\n'), ('f1.txt', '')])
  arinc = env.arinc
  arinc.parse(a, False)
  arinc.parse('no record', False)
  arinc.search(d + '/data', 'A')
  arinc.search(d + '/f0.txt', ['no such text', 'S'])
  arinc.read_file(d + '/data', False)
  arinc.read_file(d + '/f0.txt')
  arinc.read_folder(d)
  env.run(arinc.parse, ''.join('?' if k in range(26, 31) else c for k, c in enumerate(a)), True)
  env.run(arinc.read_file, d + '/none')
  env.run(arinc.search, d + '/none', 'A')
  r = arinc.Record()
  r.read(b)
  r.json()
  r.json(True, False)
  r.decode()
  r.read('')
  r.decode(False)
  arinc.parse(b, False)


REFUSED = {'020': '?', '072': '?', '182': '?', '108': '?', '270': '?', '082': '?'}


def refusable(lay):
  """the fields that can hold a value that is refused with ValueError"""
  return [i for i, f in enumerate(ref.LAYOUTS[lay]) if f[2] in REFUSED]


def u_parse(tier):
  return forms(tier, (1,)) + [dict(u, bad=True) for u in forms(tier, (1,)) if refusable(u['lay'])] + [{'first': c} for c in FIRSTS + [None]] + [{'n': n} for n in (0, 1, 60, 131, 133)] + [dict(u, pad=n) for n in (1, 1200) for u in forms(tier, (1,))[::25]] + [dict(u, after=True) for u in forms(tier, (1,))[::9]] + [{'first': 'P', 'after': True}, {'n': 60, 'after': True}]


@check('C17', u_parse, _B + [_P, 'rejected lines: 0, 1, 60, 131, 132 and 133 characters, every column free'])
def c17(env, sec=None, lay=None, kind=None, app=None, form=None, first=-1, n=None, bad=False, pad=0, after=False):
  if after:
    prelude(env)
  if sec is None:
    line = env.string('line', core_specs(132 if n is None else n, first))
    env.assume(ref.admit(line) is None)
    env.check('a rejected line: False', env.arinc.parse(line, env.choose('output', [True, False])) is False)
    return
  sp = decodable(sec, lay, kind, app, form, not bad)
  if bad:
    fields = ref.LAYOUTS[lay]
    i = env.choose('field', refusable(lay))
    for k in columns(fields[i]):
      sp[k] = REFUSED[fields[i][2]]
    s, x = env.run(env.arinc.parse, env.string('line', sp), env.choose('output', [True, False]))
    env.check('a field that cannot be decoded is not reported as success or failure of the line', s == 'exc' and isinstance(x, ValueError))
    return
  line = env.string('line', sp)
  output = env.choose('output', [True, False, None])
  if any(x[2] is ref.ERR for x in rows(line, lay, sec)):
    env.check('a ValueError', isinstance(env.run(env.arinc.parse, line, False)[1], ValueError))
    return
  m = env.mark()
  text = env.string('before', ws(pad)) + line + env.string('after', ws(pad))
  got = env.arinc.parse(text) if output is None else env.arinc.parse(text, output)
  printed = env.since(m)
  env.check('a record: True', got is True)
  env.check('prints its table, or nothing', env.eq(printed, '' if output is False else env.table(rows(line, lay, sec)) + '\n'))


# ------------------------------------------------------------------ C18: surrounding whitespace

def u_white(tier):
  pairs = [(0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (0, 12), (12, 0), (70, 70)]
  if tier == 'thorough':
    pairs += [(2, 2), (3, 0), (0, 3), (1, 2), (2, 1), (0, 9)]
  odd = [{'pre': p, 'post': q, 'first': -1, 'n': n} for p, n, q in ((0, 131, 1), (1, 131, 0), (1, 130, 1), (0, 133, 1), (1, 133, 0), (2, 128, 2), (0, 0, 132), (66, 0, 66),
                                                                    (0, 1, 131), (0, 123, 9), (9, 123, 0))]
  return odd + [{'pre': p, 'post': q, 'first': c} for p, q in pairs for c in FIRSTS + [None]]


@check('C18', u_white, ['lines of 132 characters, every column free, with 0-2, 12 or 70 (thorough: also 3 and 9) whitespace characters before or after; eight other lengths of lines'])
def c18(env, pre, post, first, n=132):
  core = env.string('core', core_specs(n, first))
  line = env.string('pre', ws(pre)) + core + env.string('post', ws(post))
  a, b = env.arinc.Record(), env.arinc.Record()
  x = a.read(core)
  y = b.read(line)
  env.check('same answer', x is y)
  env.check('same record', env.eq(snapshot(env, a), snapshot(env, b)))


# ------------------------------------------------------------------ C19: decoding is a function of the record

def u_history(tier):
  """pairs of fields with the same definition in different record types, and every field on its own"""
  out = []
  by = {}
  for t in TARGETS:
    for i, (name, spans, num) in enumerate(ref.LAYOUTS[t[1]]):
      by.setdefault((num, sum(b - a for a, b in spans)), []).append((t, i))
  k = 2 if tier == 'quick' else 4
  for (num, w), uses in sorted(by.items(), key=str):
    secs = []
    for t, i in uses:
      if t[0] not in [s[0][0] for s in secs]:
        secs.append((t, i))
    if num == '007':
      # the one definition whose meaning depends on the record type
      every = []
      for t, i in uses:
        if (t[0], t[2]) not in [(x[0][0], x[0][2]) for x in every]:
          every.append((t, i))
      pairs = [(a, b) for a in every for b in every]
    else:
      n = min(k, len(secs))
      pairs = [(secs[x], secs[y]) for x in range(n) for y in range(n) if x != y or n == 1 or tier == 'thorough']
    for (t, i), (u, j) in pairs:
      out.append({'t': list(t), 'i': i, 'u': list(u), 'j': j, 'full': tier == 'thorough'})
  # whole records, one after the other
  for k, t in enumerate(TARGETS):
    us = [t, TARGETS[k - 1]] + [u for u in TARGETS if u[0] == t[0] and u != t]
    us += [other(0), other(1)] if tier == 'quick' else [other(x) for x in range(len(OTHERS))] + TARGETS[::7]
    for u in us:
      out.append({'t': list(t), 'i': None, 'u': list(u), 'j': None, 'full': tier == 'thorough'})
  # after thousands of decodings
  for t in TARGETS[::9 if tier == 'quick' else 1]:
    out.append({'t': list(t), 'i': None, 'u': None, 'j': None, 'full': tier == 'thorough'})
  # many different values of a field in between
  seen = set()
  for t in TARGETS:
    for i, (name, spans, num) in enumerate(ref.LAYOUTS[t[1]]):
      key = (num, sum(b - a for a, b in spans), t[0] if num == '007' else None, t[2] if num == '016' else None)
      if key not in seen and len(crowd(t, i, 9)) > 1:
        seen.add(key)
        out.append({'t': list(t), 'i': i, 'u': None, 'j': 40 if tier == 'quick' else 300, 'full': tier == 'thorough'})
  return out


def crowd(t, i, n):
  """n lines (or as many as there are) that differ in field i only"""
  fields = ref.LAYOUTS[t[1]]
  sp = [c if isinstance(c, str) and len(c) == 1 else pick(c) if isinstance(c, tuple) else '7' if c == 'digit' else 'A' for c in fixed(specs(*t), fields)]
  base = specs(*t)
  alphabet = 'ZYXWVUTSRQPONMLKJIHGFEDCBA9876543210 abcdefghijklmnopqrstuvwxyz*-/'
  free = {k: alphabet if base[k] == 'any' else '9876543210' if base[k] == 'digit' else base[k][1] for k in columns(fields[i])
          if base[k] in ('any', 'digit') or base[k][0] == 'in'}
  out = []
  for k in range(min(n, max(map(len, free.values()), default=0) * len(free))):
    line = list(sp)
    for x, (c, a) in enumerate(free.items()):
      line[c] = a[(k * (x + 1) + k // len(a) * (x > 0)) % len(a)]
    out.append(''.join(line))
  return list(dict.fromkeys(out))


def meaning_alone(env, line, i, pkg=None):
  """what field i of the line shows when nothing else was ever decoded: ('ok', text), ('exc', class name) or ('not read', '')"""
  def f(pkg):
    r = pkg.Record()
    if r.read(line) is not True:
      return ('not read', '')
    return shown(env, env.run(r.fields[i].decode, r))
  return env.alone(f) if pkg is None else f(pkg)


def shown(env, sx):
  s, x = sx
  return (s, env.text(x) if s == 'ok' else type(x).__name__)


def as_alone(env, name, got, want):
  env.check(name + ': same outcome as alone', got[0] == want[0])
  env.check(name + ': same meaning as alone', env.eq(got[1], want[1]))


_alone = {}


def many(env, t, i, n, full):
  """decode a field, then many other values of the same field, then the first again"""
  fields = ref.LAYOUTS[t[1]]
  a = env.string('a', window(env, fixed(specs(*t), fields, [i]), columns(fields[i]), fields[i][2], full))
  want = meaning_alone(env, a, i)
  r = env.arinc.Record()
  env.check('accepted', r.read(a) is True)
  as_alone(env, 'first', shown(env, env.run(r.fields[i].decode, r)), want)
  others = crowd(t, i, n)
  for k, line in enumerate(others):
    q = env.arinc.Record()
    env.check('others: accepted', q.read(line) is True)
    if (i, line) not in _alone:
      _alone[i, line] = meaning_alone(env, line, i)
    as_alone(env, 'others', shown(env, env.run(q.fields[i].decode, q)), _alone[i, line])
    if fields[i][2] in ref.CODE or k in (0, 7, len(others) - 1):
      as_alone(env, 'again', shown(env, env.run(r.fields[i].decode, r)), want)


def table_alone(env, line):
  def f(pkg):
    r = pkg.Record()
    if r.read(line) is not True:
      return ('not read', '')
    return shown(env, env.run(r.decode, False))
  return env.alone(f)


def busy(env, t):
  """the tables of every record type, then one whose columns are free"""
  a = env.string('a', decodable(*t))
  want = table_alone(env, a)
  for n, x in enumerate(TARGETS):
    line = some_line(x, n)
    if line not in _alone:
      _alone[line] = table_alone(env, line)
    q = env.arinc.Record()
    env.check('others: accepted', q.read(line) is True)
    as_alone(env, 'others', shown(env, env.run(q.decode, False)), _alone[line])
  r = env.arinc.Record()
  env.check('accepted', r.read(a) is True)
  for n in range(5):
    as_alone(env, 'table', shown(env, env.run(r.decode, False)), want)


def tables(env, t, u):
  """decode one record, then another, then both again"""
  a = env.string('a', decodable(*t))
  b = env.string('b', decodable(*u))
  r, q = env.arinc.Record(), env.arinc.Record()
  env.check('accepted', r.read(a) is True)
  env.check('accepted (2)', q.read(b) is True)
  before = [snapshot(env, r), snapshot(env, q)]
  wa, wb = table_alone(env, a), table_alone(env, b)
  for n, rec, want in ((1, r, wa), (2, q, wb), (3, r, wa), (4, q, wb)):
    as_alone(env, f'table {n}', shown(env, env.run(rec.decode, False)), want)
  env.check('decoding changes nothing', env.eq(before, [snapshot(env, r), snapshot(env, q)]))


@check('C19', u_history, ['histories of up to four decodings over two records of any two record types that share a field definition (quick: two sections per '
                          'definition, thorough: four; route types: all pairs of sections, primary and continuation); the two values are equal or independent',
                          'histories of the tables of all 126 record layouts and then five of one record',
                          'histories of 42 decodings (thorough: 302) of different values of one field definition',
                          'histories of four tables over two records: every record type with itself, its own continuations and several others'])
def c19(env, t, i, u, j, full):
  if i is None:
    return tables(env, t, u) if u else busy(env, t)
  if u is None:
    return many(env, tuple(t), i, j, full)
  fa, fb = ref.LAYOUTS[t[1]], ref.LAYOUTS[u[1]]
  a = env.string('a', window(env, fixed(specs(*t), fa, [i]), columns(fa[i]), fa[i][2], full))
  equal = env.choose('same value', [True, False])
  sb = fixed(specs(*u), fb, [j])
  ca = [k for x, y in fa[i][1] for k in range(x, y)]
  cb = [k for x, y in fb[j][1] for k in range(x, y)]
  if equal:
    env.assume([sb[k] for k in cb] == [specs_of(t, fa, i)[k] for k in ca])
    b0 = env.string('b', [('A' if k in cb and c in ('any', 'digit') or isinstance(c, tuple) and k in cb else c) for k, c in enumerate(sb)])
    b = b0
    for x, y in zip(cb, ca):
      b = b[:x] + a[y] + b[x + 1:]
  else:
    # b's value: one that decodes
    b = env.string('b', fixed(specs(*u), fb))
  r, q = env.arinc.Record(), env.arinc.Record()
  env.check('accepted', r.read(a) is True)
  env.check('accepted (2)', q.read(b) is True)
  before = [snapshot(env, r), snapshot(env, q)]
  wa, wb = meaning_alone(env, a, i), meaning_alone(env, b, j)
  for n, rec, k, want in ((1, r, i, wa), (2, q, j, wb), (3, r, i, wa), (4, q, j, wb)):
    as_alone(env, f'decoding {n}', shown(env, env.run(rec.fields[k].decode, rec)), want)
  env.check('decoding changes nothing', env.eq(before, [snapshot(env, r), snapshot(env, q)]))


def specs_of(t, fields, i):
  return fixed(specs(*t), fields, [i])
