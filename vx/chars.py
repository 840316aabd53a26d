"""The alphabet characters range over.

Index 0..127 is ASCII.  Above that comes one representative of every class of
Unicode characters that Python's own str predicates tell apart (computed here
from those predicates, not from a list), plus the case counterparts of the
representatives, some characters that programs like to replace or normalise,
and every other character that a literal of the code under test mentions.
A character variable is an index into this alphabet.
"""
import ast
import os

PREDS = ('isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isspace', 'isupper',
         'islower', 'istitle', 'isprintable', 'isidentifier', 'isascii')


def _sig(c):
  s = tuple(getattr(c, p)() for p in PREDS)
  u, l = c.upper(), c.lower()
  return s + (len(('a' + c + 'b').splitlines()) > 1, u != c, l != c)


# dashes and quotes, currency, Latin-1, combining, wide, invisible and astral characters
USUAL = '\u2013\u2019\u201c\u20ac\u2044\xe9\xd8\xf1\xb0\xad\u200b\ufeff\u0301\uff21\uff10\ufffd\U0001F600'


def _named(src):
  """the characters beyond ASCII that the code under test names"""
  out = []
  for d, _, fs in sorted(os.walk(src)):
    for f in sorted(fs):
      if not f.endswith('.py'):
        continue
      try:
        with open(os.path.join(d, f), encoding='utf-8') as h:
          t = ast.parse(h.read())
      except (OSError, SyntaxError, ValueError):
        continue
      for n in ast.walk(t):
        if isinstance(n, ast.Constant):
          if isinstance(n.value, str):
            out += [ord(c) for c in n.value if ord(c) > 127]
          elif type(n.value) is int and 127 < n.value < 0x110000:
            out.append(n.value)
  return list(dict.fromkeys(c for c in out if not 0xD800 <= c <= 0xDFFF))


def _simple(c):
  return all(len(x) == 1 for x in (c.upper(), c.lower(), c.casefold(), c.title()))


def _build():
  cps = list(range(128))
  seen = set()
  for cp in range(128, 0x20000):
    if 0xD800 <= cp <= 0xDFFF:
      continue
    c = chr(cp)
    if not _simple(c):
      continue
    s = _sig(c)
    if s in seen:
      continue
    seen.add(s)
    cps.append(cp)
  src = os.path.join(os.environ.get('VX_SRC', '/repo/src'), 'arinc424')
  for cp in [ord(c) for c in USUAL] + _named(src)[:40]:
    if cp not in cps and _simple(chr(cp)):
      cps.append(cp)
  # close under case mapping
  i = 128
  while i < len(cps):
    c = chr(cps[i])
    for d in (c.upper(), c.lower(), c.title(), c.swapcase(), c.casefold()):
      if len(d) == 1 and ord(d) not in cps:
        cps.append(ord(d))
    i += 1
  return cps


CP = _build()
N = len(CP)
assert N <= 256, N
FULL = (1 << N) - 1
IDX = {cp: i for i, cp in enumerate(CP)}
CH = [chr(c) for c in CP]


def mask(pred):
  m = 0
  for i, c in enumerate(CH):
    if pred(c):
      m |= 1 << i
  return m


_pm = {}


def pmask(name):
  """mask of a one-character str predicate, e.g. 'isalnum'"""
  if name not in _pm:
    _pm[name] = mask(lambda c: getattr(c, name)())
  return _pm[name]


def smask(s):
  """mask of the characters in a Python string"""
  m = 0
  for c in s:
    i = IDX.get(ord(c))
    if i is not None:
      m |= 1 << i
  return m


ASCII = (1 << 128) - 1
LINEBREAK = mask(lambda c: len(('a' + c + 'b').splitlines()) > 1)
DIGIT0_9 = smask('0123456789')


def bits(m):
  out = []
  i = 0
  while m:
    low = m & -m
    i = low.bit_length() - 1
    out.append(i)
    m ^= low
  return out
