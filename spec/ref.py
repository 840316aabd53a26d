"""What a record, a field and a code are supposed to mean.

Plain Python over str: runs on real strings and on symbolic ones (for which
one_of, pick and known are replaced by their symbolic counterparts, symenv.py).
Nothing here is derived from /repo at run time."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'layouts.json')) as _f:
  _L = json.load(_f)
with open(os.path.join(HERE, 'codes.json')) as _f:
  CODES = json.load(_f)

SECTIONS = _L['sections']
LAYOUTS = _L['layouts']        # id -> [[name, [[from, to], ..], field definition], ..]
NAMES = sorted(SECTIONS)

DIGITS = '0123456789'
CONT_PRIMARY = ('0', '1')
CONT_FURTHER = '23456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


# ------------------------------------------------------------ lines and layouts

class Accept:
  """sec: section; primary: is it a primary record; cont: announces continuations"""

  def __init__(self, sec, layout, primary, cont):
    self.sec = sec
    self.layout = layout
    self.primary = primary
    self.cont = cont

  @property
  def fields(self):
    return LAYOUTS[self.layout]


def known(s, names=NAMES):
  """the section spelled by the two characters s, or None"""
  return s if one_of(s, names) else None


def route(core):
  sec = known(core[4:6])
  if sec is None:
    sec = known(core[4] + core[12])
  return sec


def admit(core):
  """core: the line without surrounding whitespace; None (rejected) or an Accept"""
  if len(core) != 132:
    return None
  if not (core[0] == 'S' or core[0] == 'T'):
    return None
  last = core[123:]
  if not (last.isascii() and last.isdigit()):
    return None
  sec = route(core)
  if sec is None:
    return None
  s = SECTIONS[sec]
  if 'cont' not in s:
    return Accept(sec, s['primary'], True, False)
  c = core[s['cont']]
  if c == '0' or c == '1':
    more = c == '1'
    if 'primary' in s:
      return Accept(sec, s['primary'], True, more)
    lay = pick(s['primary_apps'], core[s['app'][0]:s['app'][1]])
    return None if lay is None else Accept(sec, lay, True, more)
  if not one_of(c, CONT_FURTHER):
    return None
  lay = pick(s['cont_apps'], core[s['app'][0]:s['app'][1]])
  return None if lay is None else Accept(sec, lay, False, False)


def one_of(c, chars):
  return c in chars


def pick(table, key):
  return table.get(key)


def columns(core, spans):
  v = ''
  for a, b in spans:
    v = v + core[a:b]
  return v


def fields(core, layout):
  return [(name, columns(core, spans), num) for name, spans, num in LAYOUTS[layout]]


# ------------------------------------------------------------ decoding

class Err:
  """a ValueError"""

  def __repr__(self):
    return 'ValueError'


class Any:
  """malformed input whose treatment is not specified beyond: a text or a ValueError"""

  def __repr__(self):
    return 'anything'


ERR = Err()
ANY = Any()
UNKNOWN = '<UNKNOWN>'


def blank(v):
  return v.strip() == ''


def digits(v):
  return v.isascii() and v.isdigit()


def nozeros(v):
  """decimal digits without leading zeros"""
  while len(v) > 1 and v[0] == '0':
    v = v[1:]
  return v


def scaled(v, places):
  """the number v / 10**places, written with that many decimals"""
  while len(v) <= places:
    v = '0' + v
  n = len(v) - places
  return nozeros(v[:n]) + '.' + v[n:]


def feet(v):
  if not v.isascii():
    return ANY
  return nozeros(v) + ' ft' if v.isdigit() else v


def table(num, default):
  t = CODES[num]

  def f(v, sec):
    r = pick(t, v)
    if r is not None:
      return r
    return default(v) if callable(default) else default
  return f


def unsupported(v):
  return 'Unsupported Value: "' + v + '"'


def same(v):
  return v


def d_002(v, sec):
  if v == 'S':
    return 'Standard'
  if v == 'T':
    return 'Tailored'
  return ERR


def d_004(v, sec):
  if blank(v):
    return v
  r = pick(CODES['004'], v)
  return UNKNOWN if r is None else r


def d_007(v, sec):
  r = pick(CODES['007'].get(sec, {}), v)
  return UNKNOWN if r is None else r


def d_008(v, sec):
  if not v.isascii():
    return ANY
  return v if blank(v) or v.strip().isalnum() else ERR


def d_010(v, sec):
  return 'Approach: ' + v[0] + ', Runway: ' + v[1:4]


def d_012(v, sec):
  n = len(v.strip())
  if n == 1:
    return 'MSA Table, TAA Table, Cruise Table - Sequence No. ' + v
  if n == 2:
    return 'VHF Navaid Limitation Continuation Records - Sequence No. ' + v
  if n == 3:
    return 'SID/STAR/Approach and Company Routes - Sequence No. ' + v
  if n == 4:
    return 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace - Sequence No. ' + v
  return v


def d_016(v, sec):
  if v == '0':
    return 'Primary Record'
  if v == '1':
    return 'Primary Record (with Cont.)'
  return v + ' - Continuation'


def d_017(v, sec):
  lines = []
  for i in range(4):
    r = pick(CODES['017'][str(i)], v[i])
    if r is not None:
      lines.append(r.strip('\n'))
  return '\n'.join(lines)


def d_020(v, sec):
  if v == 'R':
    return 'Right'
  if v == 'L':
    return 'Left'
  if v == 'E' or v == ' ':
    return 'Either'
  return ERR


def d_021(v, sec):
  v = v.strip()
  if v == '':
    return ''
  if not v.isascii():
    return ANY
  if not v.isalpha():
    return ERR
  r = pick(CODES['021'], v)
  return UNKNOWN if r is None else r


def d_022(v, sec):
  v = v.strip()
  if v == '':
    return ''
  if not v.isascii():
    return ANY
  return v if v.isalpha() else ERR


def d_023(v, sec):
  v = v.strip()
  if v == '':
    return ''
  if not v.isascii():
    return ANY
  return v if v.isalnum() and len(v) <= 4 else ERR


def d_026(v, sec):
  v = v.strip()
  if v == '':
    return ''
  if not v.isascii():
    return ANY
  if not v.isalnum() or len(v) > 4:
    return ERR
  if v[-1] == 'T':
    return v
  return scaled(v, 1) if v.isdigit() else ANY


def d_027(v, sec):
  v = v.strip()
  if v == '':
    return ''
  if digits(v):
    return scaled(v, 1) + ' nm'
  if v[0] == 'T' and len(v) > 1 and digits(v[1:]):
    return scaled(v[1:], 1) + ' min'
  return ANY


def d_032(v, sec):
  if not digits(v):
    return ANY
  century = '19' if v[:2] > '50' else '20'
  return century + v[:2] + ', Release ' + v[2:]


def d_034(v, sec):
  v = v.strip()
  if v == '':
    return ''
  if not v.isascii():
    return ANY
  return scaled(v, 2) if v.isdigit() else ERR


def d_039(v, sec):
  if blank(v):
    return v
  if not digits(v[1:]):
    return ANY
  n = nozeros(v[1:])
  while len(n) < 3:
    n = '0' + n
  return n + ' ' + v[0]


def d_042(v, sec):
  if v[0] == 'N':
    return 'NDB Navaid as Waypoint' + v[1:]
  r = pick(CODES['042']['0'], v[0])
  if r is not None:
    return r
  r = pick(CODES['042']['1'], v[1])
  return 'Unknown Waypoint Type' if r is None else r


def d_043(v, sec):
  return v.strip()


def d_045(v, sec):
  if not v.isascii():
    return ANY
  return scaled(v, 2) if v.isdigit() else 'BAD VALUE'


def d_054(v, sec):
  if not v.isascii():
    return ANY
  return nozeros(v + '00') + ' ft' if v.isdigit() else v


def d_062(v, sec):
  if not v.isascii():
    return ANY
  return scaled(v, 1) if v.isdigit() else 'BAD VALUE'


SIXTHS = {d: str(int(d) * 6) for d in DIGITS}


def d_065(v, sec):
  if blank(v):
    return v
  if not v.isascii():
    return ANY
  if v.isdigit():
    return v[0] + 'm ' + pick(SIXTHS, v[1]) + 's'
  return 'Invalid Value: "' + v + '"'


def d_072(v, sec):
  if not v.isascii():
    return ANY if not blank(v) else v
  if v.isdigit():
    return v + ' knots (IAS)'
  return v if blank(v) else ERR


def d_082(v, sec):
  if v[1] == 'B':
    return 'HI and LO Altitude'
  if v[1] == 'H':
    return 'HI Altitude'
  if v[1] == 'L':
    return 'LO Altitude'
  if v[1] == ' ':
    return 'Terminal Use Only'
  if v[0] == 'R':
    return 'RNAV'
  return ERR


def d_106(v, sec):
  if blank(v):
    return v
  r = pick(CODES['106'], v)
  return UNKNOWN if r is None else r


def d_108(v, sec):
  r = pick(CODES['108'], v)
  return ERR if r is None else r


def d_117(v, sec):
  if v == 'F':
    return 'FIR'
  if v == 'U':
    return 'UIR'
  if v == 'B':
    return 'Combined FIR/UIR'
  return v


def d_118(v, sec):
  r = pick(CODES['118'], v[0])
  if r is None:
    return unsupported(v)
  return r + ', End of description, return to origin point' if v[1] == 'E' else r


def d_165(v, sec):
  if v == 'M':
    return 'Magnetic'
  if v == 'T':
    return 'True'
  return v


# hours east (+) or west (-) as the library prints them: Z is GMT, A to M (no J) -1 to -12, N to Y +1 to +12
ZONES = {'Z': 0}
ZONES.update({c: -1 - i for i, c in enumerate('ABCDEFGHIKLM')})
ZONES.update({c: 1 + i for i, c in enumerate('NOPQRSTUVWXY')})


def d_178(v, sec):
  if not v.isascii():
    return ANY
  x = pick(ZONES, v[0])
  if x is None or not v[1:].isdigit():
    return unsupported(v)
  return 'GMT ' + f'{x:+d}' + ':' + v[1:]


def d_182(v, sec):
  r = pick(CODES['182'], v)
  return ERR if r is None else r


def d_196(v, sec):
  r = pick(CODES['196']['0'], v[0])
  if r is not None:
    return r
  r = pick(CODES['196']['1'], v[1])
  return 'Unknown Name Format Indicator' if r is None else r


def d_199(v, sec):
  if blank(v):
    return v
  r = pick(CODES['199'], v)
  return UNKNOWN if r is None else r


def d_269(v, sec):
  if blank(v):
    return v
  return scaled(v, 1) if digits(v) else ANY


def d_270(v, sec):
  if v == ' ':
    return v
  r = pick(CODES['270'], v)
  return ERR if r is None else r


def d_091(v, sec):
  r = pick(CODES['091'], v)
  return 'Unknown Application Type: ' + v if r is None else r


CODE = {
  '002': d_002, '003': table('003', UNKNOWN), '004': d_004, '007': d_007, '016': d_016, '017': d_017, '020': d_020,
  '021': d_021, '042': d_042, '049': table('049', same), '082': d_082, '091': d_091, '101': table('101', UNKNOWN),
  '102': table('102', same), '104': table('104', UNKNOWN), '106': d_106, '108': d_108, '112': table('112', same),
  '113': table('113', same), '117': d_117, '118': d_118, '165': d_165, '177': table('177', unsupported),
  '179': table('179', unsupported), '181': table('181', UNKNOWN), '182': d_182, '196': d_196,
  '198': table('198', UNKNOWN), '199': d_199, '270': d_270,
}
FEET = ('029', '030', '048', '050', '053', '073', '086', '092', '123', '127', '147', '161', '184', '209', '240')
NUMBER = {
  '026': d_026, '027': d_027, '032': d_032, '034': d_034, '039': d_039, '045': d_045, '103': d_045, '054': d_054,
  '062': d_062, '135': d_062, '065': d_065, '072': d_072, '178': d_178, '269': d_269,
}
for _n in FEET:
  NUMBER[_n] = lambda v, sec: feet(v)
TEXT = {'008': d_008, '010': d_010, '012': d_012, '022': d_022, '023': d_023, '024': d_023, '025': d_023, '043': d_043}


def kind(num):
  return 'code' if num in CODE else 'number' if num in NUMBER else 'text'


def decode(num, v, sec):
  """the text shown for value v of a field, ERR (ValueError) or ANY"""
  f = CODE.get(num) or NUMBER.get(num) or TEXT.get(num)
  return v if f is None else f(v, sec)


# fields that a blank value makes undecodable: the indicator is mandatory
NO_BLANK = ('108',)

# a value of each kind of field that decodes without an error
_BENIGN = {'002': 'S', '020': 'R', '021': 'TF', '026': '0900', '027': '0100', '034': '11080', '039': 'E0100',
           '045': '11030', '103': '0012345', '062': '0900', '135': '0900', '065': '10', '072': '250', '082': ' B', '108': 'Y',
           '182': 'G', '269': '123', '270': 'I', '016': '0', '196': 'A  ', '042': 'C  ', '118': 'C '}


def benign(num, n):
  v = _BENIGN.get(num)
  if v is not None and len(v) == n:
    return v
  return 'A' * n if num not in ('031', '032') else '1' * n
