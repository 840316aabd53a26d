"""The symbolic side of env.py."""
import json
import os
import shutil
import sys
import tempfile
from . import chars as C
from . import core as K
from . import rt
from .core import SymStr, Ch, mk
from .env import Base
from spec import ref

_masks = {}


def pick(table, key):
  if not K.is_sym(key):
    return table.get(key)
  hit, k = rt.find(table, key)
  return table[k] if hit else None


def known(s, names=ref.NAMES):
  return pick({n: n for n in names}, s)


ref.pick = pick
ref.known = known
ref.one_of = lambda c, chars: rt.contains(chars, c)


def mask_of(spec):
  if spec not in _masks:
    from .env import spec_ok
    _masks[spec] = C.mask(lambda c: spec_ok(spec, c))
  return _masks[spec]


class VText:
  """the content of a virtual file"""

  def __init__(self, path, text):
    self.path = path
    self._text = text

  def text(self):
    # universal newlines
    t = self._text
    if isinstance(t, str) and type(t) is str:
      return t.replace('\r\n', '\n').replace('\r', '\n')
    out = []
    ts = t.t
    for i, c in enumerate(ts):
      if c == '\r':
        if i + 1 < len(ts) and ts[i + 1] == '\n':
          continue
        out.append('\n')
      else:
        out.append(c)
    return mk(out)

  def materialise(self, why):
    s = K.concrete(self._text, why) if K.is_sym(self._text) else self._text
    with rt.REAL_OPEN(self.path, 'w', encoding='utf-8', newline='') as f:
      f.write(s)


_root = None
_root_pid = None


def root():
  global _root, _root_pid
  if _root is None or _root_pid != os.getpid():
    _root = tempfile.mkdtemp(prefix='vx')
    _root_pid = os.getpid()
  return _root


def cleanup():
  global _root
  if _root is not None and _root_pid == os.getpid():
    shutil.rmtree(_root, ignore_errors=True)
    _root = None


class SymEnv(Base):
  symbolic = True

  def __init__(self, e, pkg, out):
    self.e = e
    self.arinc = pkg
    self.out = out
    self.inputs = {'strings': {}, 'choices': {}}
    self.todo = []

  def string(self, name, specs):
    ts = []
    for i, p in enumerate(specs):
      if isinstance(p, str) and len(p) == 1:
        ts.append(p)
      else:
        ts.append(Ch(self.e.var(f'{name}[{i}]', mask_of(p))))
    s = mk(ts)
    self.inputs['strings'][name] = s
    return s

  def choose(self, name, options):
    i = self.e.choose(len(options)) if len(options) > 1 else 0
    self.inputs['choices'][name] = i
    return options[i]

  def assume(self, ok):
    if not ok:
      raise K.Infeasible()

  def one_column(self, a, b):
    sel = self.e.var('column', (1 << len(a)) - 1)
    for k, (x, y) in enumerate(zip(a.t, b.t)):
      f = K.term_eq(x, y)
      if f is True:
        continue
      self.e.assume(K.f_or([K.f_in(sel, 1 << k), f]))

  def at_most_one_differs(self, pairs):
    d = [K.f_not(K.str_eq(x, y)) for x, y in pairs]
    d = [x for x in d if x is not False]
    # after the first difference there is no second
    bad = []
    seen = False
    for x in d:
      bad.append(K.f_and([seen, x]))
      seen = K.f_or([seen, x])
    return K.f_not(K.f_or(bad))

  def check(self, name, ok):
    self.todo.append((name, ok if isinstance(ok, tuple) else bool(ok)))

  def eq(self, a, b):
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
      return K.same(a, b)
    return K.deep_eq(a, b)

  def differs(self, a, b):
    return K.f_not(K.str_eq(a, b))

  def text(self, v):
    return rt.to_str(v)

  def both(self, *fs):
    return K.f_and(fs)

  def either(self, *fs):
    return K.f_or([f() for f in fs])

  def contains(self, text, part):
    return rt.contains(text, part)

  def table(self, rows):
    t = rt.ModelTable(field_names=['Field', 'Value', 'Decoded'])
    t.align = 'l'
    for r in rows:
      t.add_row(list(r))
    return t.get_string()

  def pairs(self, text):
    if type(text) is SymStr:
      if len(text.t) == 1 and isinstance(text.t[0], K.Opaque) and text.t[0].kind == 'json' and 'dict' in text.t[0].payload[0]:
        return rt.json_obj(text, pairs=True)
      raise K.Unsupported('a JSON text that was not written by json.dumps')
    try:
      r = json.loads(text, object_pairs_hook=lambda p: ['obj', p])
    except ValueError:
      return None
    return r[1] if isinstance(r, list) and r[:1] == ['obj'] else None

  def colored(self, text, colour):
    return rt.h_colored(text, colour)

  def mark(self):
    return len(self.out.items)

  def since(self, m):
    return rt.cat(self.out.items[m:])

  def folder(self, files):
    d = os.path.join(root(), 'd')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    self.e.vfs.clear()
    for n, text in files:
      p = os.path.join(d, n)
      with rt.REAL_OPEN(p, 'w') as f:
        f.write('')
      self.e.vfs[p] = VText(p, text)
    return d

  def close(self):
    pass

  def concrete_inputs(self, m):
    return {'strings': {k: K.realise(v, m) for k, v in self.inputs['strings'].items()}, 'choices': dict(self.inputs['choices'])}
