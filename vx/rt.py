"""What instrumented code calls instead of the operations that CPython's C code
would refuse to do on symbolic values (see loader.py for the rewriting)."""
import builtins
import collections
import decimal
import enum
import functools
import io
import json
import operator
import os
import pathlib
import re
import string
import sys
import types
from . import core as K
from .core import (SymStr, SymInt, SymFloat, OpaqueNum, Opaque, Missing, Unsupported, Control, mk, is_sym, deep_sym,
                   terms_of, f_or, f_and, f_not, deep_eq, concrete, realise)

REAL_OPEN = builtins.open
PKG = 'arinc424'


def enter(name):
  e = K.cur
  if e is not None:
    e.stats.functions.add(name)
    e.calls = getattr(e, 'calls', 0) + 1
    if e.calls & 255 == 0:
      e.tick()
    if e.calls > 2000000:
      raise K.Budget('too many calls')


# ---------------------------------------------------------------- text


def to_str(x):
  t = type(x)
  if t is SymStr:
    return x
  if t in (SymInt, SymFloat, OpaqueNum):
    return x.text()
  if isinstance(x, ModelTable):
    return x.get_string()
  if isinstance(x, ModelIO):
    return object.__repr__(x)
  if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__, KeyError.__str__) and deep_sym(x.args):
    if len(x.args) == 1:
      return to_str(x.args[0])
    return to_repr(x.args)
  if t in (list, tuple, dict, set) and (deep_sym(x) or tainted(x)):
    return to_repr(x)
  if t in (str, int, float, bool, type(None)):
    return str(x)
  f = t.__dict__.get('__str__') if isinstance(t, type) else None
  if isinstance(f, types.FunctionType):
    return f(x)
  f = getattr(t, '__str__', None)
  if isinstance(f, types.FunctionType) and (f.__module__ or '').startswith(PKG):
    return f(x)
  return str(x)


def to_repr(x):
  t = type(x)
  if t is SymStr:
    plain = lambda c: c.isprintable() and c not in "'\\"
    try:
      ok = K.cur.decide(f_and([x._is(c, 'plainrepr', plain) for c in x._flat('repr')]))
    except Unsupported:
      ok = False
    if ok:
      return "'" + x + "'"
    return SymStr((Opaque('repr', (x,), lambda m: repr(realise(x, m))),))
  if t in (SymInt, SymFloat, OpaqueNum):
    return x.text()
  if t in (list, tuple) and deep_sym(x):
    inner = SymStr(tuple(', ')).join([to_repr(y) for y in x])
    if t is tuple and len(x) == 1:
      inner = inner + ','
    return ('[' if t is list else '(') + inner + (']' if t is list else ')')
  if t is dict and (deep_sym(x) or tainted(x)):
    return '{' + SymStr(tuple(', ')).join([to_repr(k) + ': ' + to_repr(v) for k, v in x.items()]) + '}'
  return repr(x)


_SPEC = re.compile(r'(?:(.)?([<>=^]))?([ +-])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$', re.S)


def fmt(x, spec=''):
  try:
    return fmt1(x, spec)
  except Unsupported:
    if type(x) in (SymInt, SymFloat, OpaqueNum) and type(spec) is str:
      return K.promote(x).formatted(spec)
    raise


def fmt1(x, spec=''):
  if type(spec) is SymStr:
    raise Unsupported('symbolic format specification')
  t = type(x)
  if t not in (SymStr, SymInt, SymFloat, OpaqueNum):
    if spec == '':
      return to_str(x)
    f = getattr(t, '__format__', None)
    if isinstance(f, types.FunctionType) and (f.__module__ or '').startswith(PKG):
      return f(x, spec)
    return format(x, spec)
  if spec == '':
    return to_str(x)
  m = _SPEC.match(spec)
  if not m:
    raise ValueError('Invalid format specifier')
  fill, align, sign, z, alt, zero, width, group, prec, ty = m.groups()
  width = int(width) if width else 0
  if t is SymStr:
    if ty not in (None, 's') or sign or alt or group or align == '=':
      raise ValueError(f"Unknown format code '{ty}' for object of type 'str'")
    if prec is not None:
      x = x[:int(prec)]
    if zero and not align:
      fill, align = '0', '<'
    align = align or '<'
    sg, body = '', x
  else:
    if alt or group or z:
      raise Unsupported('number format ' + spec)
    if t is OpaqueNum:
      return x.formatted(spec)
    if ty in ('f', 'F') and t is SymFloat and int(prec if prec is not None else 6) < x.k:
      return K.promote(x).formatted(spec)
    if ty in ('f', 'F') or t is SymFloat:
      if t is SymInt:
        x = SymFloat(x, 0)
      if ty in ('f', 'F'):
        body = x.fixed(int(prec) if prec is not None else 6)
      elif ty is None and prec is None:
        body = x.text()
      else:
        raise Unsupported('number format ' + spec)
      sg = ''
    else:
      if ty not in (None, 'd') or prec is not None:
        raise Unsupported('number format ' + spec)
      sg, body = x.dec()
    if sg == '' and sign in ('+', ' '):
      sg = sign
    if zero and not align:
      fill, align = '0', '='
    align = align or '>'
  fill = fill or ' '
  n = width - len(sg) - len(body)
  if n <= 0:
    return sg + body
  if align == '=':
    return sg + fill * n + body
  s = sg + body
  if align == '<':
    return s + fill * n
  if align == '>':
    return fill * n + s
  return fill * (n // 2) + s + fill * (n - n // 2)


def conv(x, c):
  if c in (None, -1, ''):
    return x
  if c in ('s', 115):
    return to_str(x)
  if c in ('r', 114):
    return to_repr(x)
  if deep_sym(x):
    return h_ascii(x)
  return ascii(x)


def fstring(*parts):
  """parts: real strings, or (value, conversion, spec)"""
  out = []
  for p in parts:
    if type(p) is str:
      out.append(p)
    else:
      v, c, spec = p
      out.append(fmt(conv(v, c), spec))
  return cat(out)


def cat(parts):
  for p in parts:
    if type(p) is not str:
      t = []
      for q in parts:
        t += terms_of(q)
      return mk(t)
  return ''.join(parts)


_F = string.Formatter()


def str_format(s, args, kw):
  if type(s) is SymStr:
    raise Unsupported('symbolic format string')
  auto = 0
  out = []
  for lit, name, spec, c in _F.parse(s):
    out.append(lit)
    if name is None:
      continue
    if name == '' or name[:1] in '.[':
      name = str(auto) + name
      auto += 1
    first, rest = string._string.formatter_field_name_split(name)
    obj = args[first] if isinstance(first, int) else kw[first]
    for is_attr, i in rest:
      obj = getattr(obj, i) if is_attr else sub(obj, i)
    if '{' in spec:
      # nested fields continue the automatic numbering
      inner = []
      for l2, n2, _s2, _c2 in _F.parse(spec):
        inner.append(l2)
        if n2 is not None:
          if n2 == '':
            n2 = str(auto)
            auto += 1
          v2 = args[int(n2)] if n2.isdigit() else kw[n2]
          inner.append(fmt(v2))
      spec = cat(inner)
    out.append(fmt(conv(obj, c), spec))
  return cat(out)


_PCT = re.compile(r'%(?:\(([^)]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', re.S)


def mod(a, b):
  if type(a) is str and (deep_sym(b) or isinstance(b, ModelTable) or (type(b) is tuple and any(isinstance(x, ModelTable) for x in b))):
    return pct(a, b)
  if type(a) is SymStr:
    raise Unsupported('symbolic % format')
  return a % b


def pct(s, args):
  out = []
  pos = 0
  n = 0
  seq = args if type(args) is tuple else (args,)
  for m in _PCT.finditer(s):
    out.append(s[pos:m.start()])
    pos = m.end()
    key, flags, width, prec, ty = m.groups()
    if ty == '%':
      out.append('%')
      continue
    if width == '*' or prec == '*':
      raise Unsupported('% format with *')
    if key is not None:
      v = sub(args, key)
    else:
      if n >= len(seq):
        raise TypeError('not enough arguments for format string')
      v = seq[n]
      n += 1
    if ty in 'srd i u f F'.replace(' ', ''):
      if ty == 's':
        v = to_str(v)
      elif ty == 'r':
        v = to_repr(v)
      elif ty in 'diu':
        if isinstance(v, (str, SymStr)):
          raise TypeError('%d format: a real number is required, not str')
        if type(v) is SymFloat:
          raise Unsupported('%d of a float')
      elif isinstance(v, (str, SymStr)):
        raise TypeError('must be real number, not str')
      spec = ''
      if ty in 'sr':
        spec = ('<' if '-' in flags else '>') + (width or '') + (('.' + prec) if prec else '')
        if not width:
          spec = spec[1:]
      else:
        spec = ('<' if '-' in flags else '') + ('+' if '+' in flags else ' ' if ' ' in flags else '')
        spec += '0' if '0' in flags and '-' not in flags else ''
        spec += width or ''
        if ty in 'fF':
          spec += '.' + (prec or '6') + 'f'
        elif prec:
          raise Unsupported('%.d')
        else:
          spec += 'd'
      out.append(fmt(v, spec))
    else:
      raise Unsupported('% format ' + ty)
  if type(args) is tuple and n < len(seq):
    raise TypeError('not all arguments converted during string formatting')
  out.append(s[pos:])
  return cat(out)


# ---------------------------------------------------------------- containers with symbolic keys


def tainted(d):
  return id(d) in K.cur.tainted if K.cur is not None else False


def taint(d):
  K.cur.tainted[id(d)] = d


def keysym(k):
  return is_sym(k) or (type(k) is tuple and deep_sym(k))


def find(d, k):
  """(True, the stored key) or (False, None)"""
  keys = list(d)
  fs = []
  ks = []
  for q in keys:
    if q is k:
      return True, q
    f = deep_eq(q, k)
    if f is False:
      continue
    if f is True:
      return True, q
    fs.append(f)
    ks.append(q)
  if not fs:
    return False, None
  fs.append(f_and([f_not(f) for f in fs]))
  i = K.cur.pick(fs)
  return (True, ks[i]) if i < len(ks) else (False, None)


class _hash:
  def __enter__(self):
    SymStr.hash_ok = True

  def __exit__(self, *a):
    SymStr.hash_ok = False


HASH = _hash()


def rawget(d, k):
  with HASH:
    return dict.__getitem__(d, k)


def _ok_key(k):
  if type(k) is SymStr or (type(k) is tuple and all(type(x) is SymStr or not is_sym(x) for x in k)):
    return k
  if is_sym(k):
    return K.cur and k.fork_value() if type(k) is SymInt else concrete(k, 'number as a key')
  return k


def setitem(d, k, v):
  if isinstance(d, dict):
    k = _ok_key(k)
    if keysym(k) or tainted(d):
      hit, q = find(d, k)
      with HASH:
        dict.__setitem__(d, q if hit else k, v)
      if not hit and keysym(k):
        taint(d)
      return
  d[k] = v


def sub(d, k):
  if isinstance(d, dict):
    if keysym(k) or (K.cur is not None and K.cur.tainted and tainted(d)):
      k = _ok_key(k)
      g = type(d).__getitem__
      if isinstance(g, types.FunctionType):
        return g(d, k)
      hit, q = find(d, k)
      if hit:
        return rawget(d, q)
      ms = getattr(type(d), '__missing__', None)
      if isinstance(d, collections.defaultdict) and ms is collections.defaultdict.__missing__:
        if d.default_factory is None:
          raise KeyError(k)
        v = call(d.default_factory)
        setitem(d, k, v)
        return v
      if ms is not None:
        return ms(d, k)
      raise KeyError(k)
    return d[k]
  if isinstance(d, types.MappingProxyType) and keysym(k):
    return sub(dict(d), k)
  if isinstance(d, enum.EnumMeta) and is_sym(k):
    return sub(dict(d.__members__), k)
  if is_sym(k) and type(k) is not SymInt and not isinstance(d, (str, list, tuple)) and not is_sym(d):
    g = getattr(type(d), '__getitem__', None)
    if not isinstance(g, types.FunctionType):
      return guarded(d.__getitem__, (k,), {})
  return d[k]


def delitem(d, k):
  if isinstance(d, dict) and (keysym(k) or tainted(d)):
    hit, q = find(d, k)
    if not hit:
      raise KeyError(k)
    with HASH:
      dict.__delitem__(d, q)
    return
  del d[k]


def contains(c, x):
  t = type(c)
  if t is SymStr:
    return c.__contains__(x)
  if t is str:
    if type(x) is SymStr:
      return SymStr(tuple(c)).__contains__(x)
    return x in c
  if t is PendingSet:
    return x in c
  if isinstance(c, (dict, set, frozenset)) or t is _DK:
    if keysym(x) or tainted(c):
      g = getattr(t, '__contains__', None)
      if isinstance(g, types.FunctionType):
        return bool(g(c, x))
      fs = []
      for q in list(c):
        if q is x:
          return True
        fs.append(deep_eq(q, x))
      return K.cur.decide(f_or(fs))
    return x in c
  if t is types.MappingProxyType and keysym(x):
    return contains(dict(c), x)
  if t in (list, tuple) and is_sym(x):
    fs = []
    for q in c:
      if q is x:
        return True
      if is_sym(q) or type(q) in (str, int, float, bool, type(None)):
        fs.append(deep_eq(q, x) if not (isinstance(q, (int, float)) and isinstance(x, (int, float))) else bool(q == x))
      else:
        fs.append(bool(q == x))
    return K.cur.decide(f_or(fs))
  if isinstance(c, enum.EnumMeta) and is_sym(x):
    return contains([m.value for m in c], x)
  return x in c


_DK = type({}.keys())


def mkdict(pairs):
  d = {}
  for k, v in pairs:
    if k is STAR:
      for kk in v.keys():
        setitem(d, kk, sub(v, kk))
    else:
      setitem(d, k, v)
  return d


STAR = object()


class PendingSet(set):
  """a set of symbolic elements; which of them are equal is decided when it matters"""
  __slots__ = ('items',)

  def __init__(self, items):
    set.__init__(self)
    self.items = items

  def force(self):
    if self.items is not None:
      items, self.items = self.items, None
      for x in items:
        set_add(self, x)
    return self

  def size(self):
    if self.items is None:
      return len(self)
    return K.Count([f_and([f_not(deep_eq(y, x)) for y in self.items[:n]]) for n, x in enumerate(self.items)])

  def __bool__(self):
    return self.items is not None or set.__len__(self) > 0

  def copy(self):
    return PendingSet(list(self.items)) if self.items is not None else set_copy(self)

  def add(self, x):
    if self.items is not None:
      self.items.append(x)
    else:
      set_add(self, x)

  def update(self, *its):
    for it in its:
      for x in it:
        self.add(x)

  def __iter__(self):
    return set.__iter__(self.force())

  def __len__(self):
    return set.__len__(self.force())

  def __contains__(self, x):
    return K.cur.decide(_has(elems(self), x))

  def __deepcopy__(self, memo):
    return self.copy()

  def remove(self, x):
    hit, q = find(self.force(), x)
    if not hit:
      raise KeyError(x)
    with HASH:
      set.discard(self, q)

  def discard(self, x):
    if x in self:
      self.remove(x)

  def clear(self):
    self.items = None
    set.clear(self)


def set_copy(s):
  return mkset(list(s))


def _pending_ops():
  for n in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'):
    setattr(PendingSet, n, lambda self, *o, n=n: set_method(n, self, o))
  for n, op in (('and', 'and_'), ('or', 'or_'), ('sub', 'sub'), ('xor', 'xor')):
    setattr(PendingSet, f'__{n}__', lambda self, o, op=op: setop(op, self, o))
    setattr(PendingSet, f'__r{n}__', lambda self, o, op=op: setop(op, o, self))
  for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    setattr(PendingSet, f'__{op}__', lambda self, o, op=op: compare(op, self, o))
  PendingSet.__hash__ = None


def elems(s):
  return s.items if type(s) is PendingSet and s.items is not None else list(s)


def h_len(x):
  return x.size() if type(x) is PendingSet else len(x)


def mkset(items):
  if type(items) is SymStr or isinstance(items, (list, tuple)):
    items = list(items)
    if len(items) > 6 and sum(map(is_sym, items)) > 6:
      return PendingSet(items)
  s = set()
  for x in items:
    set_add(s, x)
  return s


def set_add(s, x):
  x = _ok_key(x)
  if keysym(x) or tainted(s):
    hit, _ = find(s, x)
    if not hit:
      with HASH:
        set.add(s, x)
      if keysym(x):
        taint(s)
    return
  set.add(s, x)


_SETS = (set, frozenset, PendingSet, type({}.keys()))
_ADT = (set, frozenset, PendingSet, type({}.keys()), dict, collections.defaultdict, collections.OrderedDict)


def _has(b, x):
  return f_or([deep_eq(q, x) for q in b])


def compare(op, a, b):
  if type(a) in _ADT and type(b) in _ADT and K.cur is not None and (type(a) is PendingSet or type(b) is PendingSet or K.cur.tainted and (symset(a) or symset(b))):
    if isinstance(a, dict) and isinstance(b, dict):
      if op in ('eq', 'ne'):
        f = len(a) == len(b) and f_and([f_or([f_and([deep_eq(k, q), deep_eq(rawget(a, k), rawget(b, q))]) for q in b]) for k in a])
        return K.cur.decide(f) == (op == 'eq')
    elif type(a) in _SETS and type(b) in _SETS:
      # elements of one set differ from each other on this path
      if op in ('gt', 'ge'):
        a, b, op = b, a, {'gt': 'lt', 'ge': 'le'}[op]
      ea, eb = elems(a), elems(b)
      f = [_has(eb, x) for x in ea]
      g = [_has(ea, x) for x in eb]
      if op in ('eq', 'ne'):
        return K.cur.decide(f_and(f + g)) == (op == 'eq')
      return K.cur.decide(f_and(f + [f_not(f_and(g))] if op == 'lt' else f))
  if type(a) is PendingSet or type(b) is PendingSet:
    return {'eq': a is b, 'ne': a is not b}[op] if op in ('eq', 'ne') else NotImplemented
  return getattr(operator, op)(a, b)


def symset(x):
  return type(x) is PendingSet or tainted(x) or any(keysym(y) for y in x)


def setop(op, a, b):
  if type(a) in _SETS and type(b) in _SETS and K.cur is not None and (type(a) is PendingSet or type(b) is PendingSet or K.cur.tainted and (symset(a) or symset(b))):
    return set_method({'and_': 'intersection', 'or_': 'union', 'sub': 'difference', 'xor': 'symmetric_difference'}[op], a, (b,))
  return getattr(operator, op)(a, b)


def set_method(n, s, others):
  if n == 'issubset':
    return compare('le', s, mkset(others[0]))
  if n == 'issuperset':
    return compare('le', mkset(others[0]), s)
  if n == 'isdisjoint':
    return not K.cur.decide(f_or([_has(elems(s), x) for x in elems(others[0])]))
  out = elems(s)
  for o in others:
    o = elems(o)
    if n == 'union':
      out = out + o
    elif n == 'intersection':
      out = [x for x in out if K.cur.decide(_has(o, x))]
    elif n == 'difference':
      out = [x for x in out if not K.cur.decide(_has(o, x))]
    else:
      out = [x for x in out if not K.cur.decide(_has(o, x))] + [x for x in o if not K.cur.decide(_has(out, x))]
  return mkset(out)


_pending_ops()
_SET_METHODS = ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint')


# ---------------------------------------------------------------- modelled library objects

_real_table = None


def real_table_class():
  global _real_table
  if _real_table is None:
    import prettytable
    _real_table = prettytable.PrettyTable
  return _real_table


class ModelTable:
  """prettytable.PrettyTable: remembers what it was given"""

  def __init__(self, field_names=None, **kw):
    o = object.__setattr__
    o(self, 'opts', [])
    o(self, 'kw', dict(kw))
    o(self, 'names', list(field_names) if field_names is not None else [])
    o(self, 'data', [])

  def __setattr__(self, k, v):
    if k == 'field_names':
      object.__setattr__(self, 'names', list(v))
    else:
      self.opts.append((k, v))

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    if k == 'field_names':
      return self.names
    if k in ('rows', '_rows'):
      return [list(r) for r in self.data]
    for a, v in reversed(self.opts):
      if a == k:
        return v
    if k == 'align':
      # table.align['Field'] = 'l'
      d = {}
      self.opts.append(('align', d))
      return d
    if hasattr(real_table_class(), k):
      raise Unsupported(f'PrettyTable.{k}')
    raise AttributeError(k)

  def add_row(self, row, **kw):
    row = list(row)
    if self.names and len(row) != len(self.names):
      raise ValueError(f'Row has incorrect number of values, (actual) {len(row)}!={len(self.names)} (expected)')
    if not self.names:
      object.__setattr__(self, 'names', [f'Field {n + 1}' for n in range(len(row))])
    self.data.append(row)
    if kw:
      self.opts.append(('divider', len(self.data)))

  def add_rows(self, rows):
    for r in rows:
      self.add_row(r)

  def clear_rows(self):
    self.data.clear()

  def del_row(self, i):
    del self.data[i]

  def clear(self):
    self.data.clear()
    self.names.clear()

  def get_string(self, **kw):
    rows = [[x if type(x) in (str, int, float, bool, type(None)) else to_str(x) for x in r] for r in self.data]
    names = list(self.names)
    if not deep_sym(rows) and not deep_sym(names) and not deep_sym(kw):
      return self.render(names, rows, kw)
    return SymStr((Opaque('table', (names, [[to_str(x) for x in r] for r in rows], sorted(self.opts_now().items()), sorted(kw.items())),
                          lambda m: self.render(realise(names, m), realise(rows, m), kw)),))

  def opts_now(self):
    d = dict(self.kw)
    d.update((k, v) for k, v in self.opts)
    return d

  def render(self, names, rows, kw):
    t = real_table_class()(field_names=names, **self.kw)
    for k, v in self.opts:
      if k == 'align' and isinstance(v, dict):
        t.align.update(v)
      elif k != 'divider':
        setattr(t, k, v)
    for r in rows:
      t.add_row(r)
    return t.get_string(**kw)

  def __str__(self):
    return self.get_string()

  def __len__(self):
    return len(self.data)


class ModelIO:
  """io.StringIO"""

  def __init__(self, initial='', newline='\n'):
    self.parts = [initial] if len(initial) else []
    self.closed = False

  def write(self, s):
    if not isinstance(s, (str, SymStr)):
      raise TypeError(f"string argument expected, got '{type(s).__name__}'")
    self.parts.append(s)
    return len(s) if type(s) is str else 0

  def writelines(self, it):
    for s in it:
      self.write(s)

  def getvalue(self):
    return cat(self.parts)

  def read(self, *a):
    if a or len(self.parts) > 1:
      raise Unsupported('StringIO.read')
    return self.getvalue()

  def flush(self):
    pass

  def close(self):
    self.closed = True

  def isatty(self):
    return False

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def __iter__(self):
    return iter(VFile(self.getvalue()).readlines())

  def __getattr__(self, k):
    raise Unsupported(f'StringIO.{k}')


class Out:
  """stands in for sys.stdout while a path runs"""
  encoding = 'utf-8'

  def __init__(self):
    self.items = []

  def write(self, s):
    if not isinstance(s, (str, SymStr)):
      raise TypeError('write() argument must be str')
    self.items.append(s)
    return 0

  def writelines(self, it):
    for s in it:
      self.write(s)

  def flush(self):
    pass

  def isatty(self):
    return False

  def fileno(self):
    raise io.UnsupportedOperation('fileno')

  def text(self):
    return cat(self.items)


class VFile:
  """a text file whose characters may be symbolic; lines end in '\\n' only,
  and symbolic characters are never '\\n' or '\\r' (see env.file)"""

  def __init__(self, text, name='?', mode='r', newline=None):
    self.lines = []
    self.name = name
    self.mode = mode
    self.closed = False
    t = terms_of(text)
    b = 0
    for i, c in enumerate(t):
      if c == '\n' or newline == '' and c == '\r' and tuple(t[i + 1:i + 2]) != ('\n',):
        self.lines.append(mk(t[b:i + 1]))
        b = i + 1
    if b < len(t):
      self.lines.append(mk(t[b:]))
    self.pos = 0

  def _open(self):
    if self.closed:
      raise ValueError('I/O operation on closed file.')

  def readlines(self, hint=-1):
    self._open()
    if hint is not None and hint > 0:
      out = []
      n = 0
      while self.pos < len(self.lines) and n < hint:
        out.append(self.lines[self.pos])
        n += len(self.lines[self.pos])
        self.pos += 1
      return out
    r = self.lines[self.pos:]
    self.pos = len(self.lines)
    return r

  def readline(self, size=-1):
    self._open()
    if size is not None and size >= 0:
      raise Unsupported('readline with a size')
    if self.pos >= len(self.lines):
      return ''
    self.pos += 1
    return self.lines[self.pos - 1]

  def read(self, n=-1):
    self._open()
    if n is not None and n >= 0:
      text = cat(self.lines[self.pos:])
      self.lines = VFile(text[n:]).lines
      self.pos = 0
      return text[:n]
    return cat(self.readlines())

  def __iter__(self):
    return self

  def __next__(self):
    r = self.readline()
    if r == '' and self.pos >= len(self.lines) and type(r) is str:
      raise StopIteration
    return r

  def seek(self, p, w=0):
    if p == 0 and w == 0:
      self.pos = 0
      return 0
    raise Unsupported('seek')

  def close(self):
    self.closed = True

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()

  def readable(self):
    return True

  def __getattr__(self, k):
    raise Unsupported(f'file.{k}')


class ModelCache:
  """functools.lru_cache / cache without the eviction"""

  def __init__(self, fn):
    self.fn = fn
    self.__wrapped__ = fn
    self.entries = []
    functools.update_wrapper(self, fn)

  def __call__(self, *a, **k):
    for ea, ek, r in self.entries:
      if len(ea) != len(a) or list(ek) != list(k):
        continue
      fs = []
      for x, y in list(zip(a, ea)) + [(k[n], ek[n]) for n in k]:
        if is_sym(x) or is_sym(y) or type(x) in (str, int, float, tuple, bool, type(None)):
          fs.append(deep_eq(x, y))
        else:
          fs.append(x is y or bool(hash(x) == hash(y) and x == y))
      if K.cur.decide(f_and(fs)):
        return r
    r = self.fn(*a, **k)
    self.entries.append((a, k, r))
    return r

  def __get__(self, obj, cls=None):
    return self if obj is None else functools.partial(self, obj)

  def cache_clear(self):
    self.entries.clear()

  def cache_info(self):
    return (0, 0, None, len(self.entries))


# ---------------------------------------------------------------- call hooks


def h_print(*a, sep=' ', end='\n', file=None, flush=False):
  parts = []
  for i, x in enumerate(a):
    if i:
      parts.append(' ' if sep is None else sep)
    parts.append(to_str(x))
  parts.append('\n' if end is None else end)
  f = sys.stdout if file is None else file
  f.write(cat(parts))


def h_open(file, mode='r', *a, **k):
  e = K.cur
  if e is not None and e.vfs and not isinstance(file, int):
    p = os.path.abspath(os.fspath(file))
    if p in e.vfs and set(mode) <= set('rtU'):
      enc = k.get('encoding', a[1] if len(a) > 1 else None)
      err = k.get('errors', a[2] if len(a) > 2 else None)
      nl = k.get('newline', a[3] if len(a) > 3 else None)
      v = e.vfs[p]
      enc = 'utf8' if enc is None else enc.lower().replace('-', '').replace('_', '')
      if nl in (None, '', '\n'):
        # the content is valid UTF-8; the other encodings agree with it on ASCII
        if enc in ('utf8', 'utf8sig', 'locale') or (
            enc in ('ascii', 'usascii', 'latin1', 'iso88591', 'cp1252') and v._text.isascii()):
          return VFile(v.text() if nl is None else v._text, p, mode, nl)
      # anything unusual: the real thing, on sample content
      v.materialise('open() with ' + repr((enc, err, nl)))
    elif p in e.vfs:
      e.vfs[p].materialise('open() in mode ' + mode)
  return REAL_OPEN(file, mode, *a, **k)


def h_str(*a, **k):
  if a and (is_sym(a[0]) or isinstance(a[0], (BaseException, ModelTable, list, tuple, dict))) and len(a) == 1 and not k:
    return to_str(a[0])
  if len(a) == 1 and not k:
    return to_str(a[0])
  return str(*a, **k)


def h_int(*a, **k):
  if not a or not is_sym(a[0]):
    if len(a) > 1 and is_sym(a[1]):
      return int(a[0], K.idx(a[1]))
    return int(*a, **k)
  x = a[0]
  base = a[1] if len(a) > 1 else k.get('base', 10)
  t = type(x)
  if t is SymStr:
    if base != 10:
      raise Unsupported('int() with a base')
    return K.parse_number(x, int)
  if t is SymInt:
    return x
  if t is SymFloat:
    if x.k == 0:
      return x.n
    if x.ops > 1:
      return K.promote(x)._map(int, 'int')
    return x.n // 10 ** x.k
  return x._map(int, 'int')


def h_float(*a):
  if not a or not is_sym(a[0]):
    return float(*a)
  x = a[0]
  t = type(x)
  if t is SymStr:
    return K.parse_number(x, float)
  if t is SymInt:
    return SymFloat(x, 0)
  if t is SymFloat:
    return x
  if t is OpaqueNum:
    fn = x.fn
    return OpaqueNum(float, lambda s: float(fn(s)), x.src, x.tag + ('float',))


def h_decimal(*a, **k):
  if len(a) != 1 or k or not is_sym(a[0]):
    return decimal.Decimal(*a, **k)
  x = a[0]
  if type(x) is SymStr:
    x = K.parse_number(x, decimal.Decimal)
    if not is_sym(x):
      return x
  x = K.promote(x)
  if x.kind is decimal.Decimal:
    return x
  fn = x.fn
  return OpaqueNum(decimal.Decimal, lambda s: decimal.Decimal(fn(s)), x.src, x.tag + ('decimal',))


def h_round(x, n=None):
  if type(x) is SymInt and (n is None or n >= 0):
    return x
  if type(x) is SymFloat:
    if n is not None and n >= x.k:
      return SymFloat(x.n, x.k, min(x.ops, 1))
  if is_sym(x):
    return K.promote(x).__round__(n)
  return round(x) if n is None else round(x, n)


def h_ord(x):
  if type(x) is not SymStr:
    return ord(x)
  if len(x.t) != 1:
    raise TypeError(f'ord() expected a character, but string of length {len(x.t)} found')
  c = x.t[0]
  tab = K.compose(c.tab, 'ord', ord) if c.tab is not None else K.tab_of('ord', ord)
  return SymInt([(1, c.var, tab)], 0)


def h_chr(x):
  if type(x) is SymInt:
    return chr(x.fork_value())
  return chr(x)


def h_type(*a):
  if len(a) == 1:
    t = type(a[0])
    if t is SymStr:
      return str
    if t is SymInt:
      return int
    if t is SymFloat:
      return float
    if t is OpaqueNum:
      return a[0].kind
    return t
  return type(*a)


def h_repr(x):
  return to_repr(x)


def h_format(x, spec=''):
  return fmt(x, spec)


def h_map(f, *its):
  return (call(f, *xs) for xs in zip(*its))


def h_filter(f, it):
  return (x for x in it if (x if f is None else call(f, x)))


def h_sorted(it, *, key=None, reverse=False):
  it = list(it)
  if key is not None:
    return sorted(it, key=lambda x: call(key, x), reverse=reverse)
  return sorted(it, reverse=reverse)


def h_minmax(fn):
  def h(*a, **k):
    if 'key' in k and k['key'] is not None:
      key = k['key']
      k = dict(k, key=lambda x: call(key, x))
    return fn(*a, **k)
  return h


def h_reduce(f, *a):
  return functools.reduce(lambda x, y: call(f, x, y), *a)


def h_dict(*a, **k):
  d = {}
  if a:
    dict_update(d, a[0])
  for n, v in k.items():
    d[n] = v
  return d


def dict_update(d, src):
  if hasattr(src, 'keys'):
    if isinstance(src, dict) and not tainted(src) and not tainted(d):
      d.update(src)
      return
    for kk in list(src.keys()):
      setitem(d, kk, rawget(src, kk) if isinstance(src, dict) else sub(src, kk))
  else:
    for kk, v in src:
      setitem(d, kk, v)


def h_set(*a):
  return mkset(a[0]) if a else set()


def h_frozenset(*a):
  if not a:
    return frozenset()
  items = list(a[0])
  if any(keysym(x) for x in items):
    return mkset(items)
  return frozenset(items)


def h_dumps(obj, **kw):
  if not deep_sym(obj) and not tainted(obj):
    return json.dumps(obj, **kw)
  if kw.get('cls') or kw.get('default'):
    raise Unsupported('json.dumps with an encoder')

  def norm(x):
    if isinstance(x, dict):
      items = list(x.items())
      if kw.get('sort_keys'):
        items = sorted(items, key=lambda p: p[0])
      return {'dict': [[k, norm(v)] for k, v in items]}
    if isinstance(x, (list, tuple)):
      return {'list': [norm(v) for v in x]}
    return {'atom': x}
  kws = sorted((k, v) for k, v in kw.items() if k not in ('sort_keys',))
  return SymStr((Opaque('json', (norm(obj), kws), lambda m: json.dumps(real_obj(obj, m), **kw)),))


def real_obj(obj, m):
  if isinstance(obj, dict):
    return {realise(k, m): real_obj(v, m) for k, v in obj.items()}
  if isinstance(obj, (list, tuple)):
    return [real_obj(v, m) for v in obj]
  return realise(obj, m)


def json_obj(text, pairs=False):
  """what json.loads makes of a modelled document"""
  def back(x):
    if 'dict' in x:
      items = [(k, back(v)) for k, v in x['dict']]
      return items if pairs else mkdict(items)
    if 'list' in x:
      return [back(v) for v in x['list']]
    return x['atom']
  return back(text.t[0].payload[0])


def h_loads(s, **kw):
  if type(s) is SymStr and len(s.t) == 1 and isinstance(s.t[0], Opaque) and s.t[0].kind == 'json' and not kw:
    return json_obj(s)
  if is_sym(s):
    return json.loads(concrete(s, 'json.loads'), **kw)
  return json.loads(s, **kw)


def h_dump(obj, fp, **kw):
  fp.write(h_dumps(obj, **kw))


def h_lru(maxsize=128, typed=False):
  if callable(maxsize):
    return ModelCache(maxsize)
  return ModelCache


def h_exit(code=None):
  raise SystemExit(code)


def h_colored(text, *a, **k):
  import termcolor
  if not deep_sym(text):
    return termcolor.colored(text, *a, **k)
  pat = termcolor.colored('\ue000', *a, **k)
  i = pat.index('\ue000')
  return pat[:i] + to_str(text) + pat[i + 1:]


def h_cprint(text, *a, **k):
  kw = {n: k.pop(n) for n in ('end', 'sep', 'file', 'flush') if n in k}
  h_print(h_colored(text, *a, **k), **kw)


def h_isinstance(x, c):
  return isinstance(x, c)


def h_sum(it, start=0):
  r = start
  for x in it:
    r = r + x
  return r


def h_any(it):
  for x in it:
    if x:
      return True
  return False


def h_all(it):
  for x in it:
    if not x:
      return False
  return True


def h_partial(f, *a, **k):
  def p(*b, **kk):
    return call(f, *a, *b, **{**k, **kk})
  return p


def h_ascii(x):
  if type(x) is SymStr:
    if all(not isinstance(c, K.Opaque) for c in x.t) and K.cur.decide(f_and([x._is(c, 'isascii', str.isascii) for c in x.t])):
      return to_repr(x)
    return SymStr((K.Opaque('ascii', (x,), lambda m: ascii(realise(x, m))),))
  if deep_sym(x):
    raise Unsupported('ascii')
  return ascii(x)


def h_capwords(s, sep=None):
  raise Unsupported('capwords')


HOOKS = {
  print: h_print, open: h_open, io.open: h_open, str: h_str, int: h_int, float: h_float, round: h_round, ord: h_ord, chr: h_chr,
  type: h_type, len: h_len, repr: h_repr, ascii: h_ascii, format: h_format, map: h_map, filter: h_filter, sorted: h_sorted,
  min: h_minmax(min), max: h_minmax(max), functools.reduce: h_reduce, dict: h_dict, set: h_set,
  frozenset: h_frozenset, json.dumps: h_dumps, json.loads: h_loads, json.dump: h_dump, functools.lru_cache: h_lru, functools.cache: h_lru,
  sys.exit: h_exit, os._exit: h_exit, io.StringIO: ModelIO, sum: h_sum, any: h_any, all: h_all,
  functools.partial: h_partial, decimal.Decimal: h_decimal,
}
for _n in ('exit', 'quit'):
  if hasattr(builtins, _n):
    HOOKS[getattr(builtins, _n)] = h_exit


def install(names):
  """hooks for the third-party classes, once they can be imported"""
  HOOKS[real_table_class()] = ModelTable
  import prettytable
  try:
    import termcolor
    HOOKS[termcolor.colored] = h_colored
    HOOKS[termcolor.cprint] = h_cprint
  except ImportError:
    pass
  from . import regex
  regex.install(HOOKS)


_BM = type(len)
_BM2 = type(re.compile("").match)      # methods implemented with METH_METHOD
_MD = type(str.strip)
_WD = type(str.__len__)
_MW = type(''.__len__)
_SAFE_SELF = (list, tuple)


def _vpath(p):
  e = K.cur
  if e is None or not e.vfs:
    return None
  return e.vfs.get(os.path.abspath(os.fspath(p)))


def truthy_get(d, k):
  """bool(d.get(k))"""
  if isinstance(d, dict) and type(d).get is dict.get and keysym(k) and not tainted(d):
    return K.cur.decide(f_or([deep_eq(q, k) for q, v in d.items() if v]))
  return call(d.get, k)


def none_get(d, k):
  """d.get(k) is None"""
  if isinstance(d, dict) and type(d).get is dict.get and keysym(k) and not tainted(d):
    return not K.cur.decide(f_or([deep_eq(q, k) for q, v in d.items() if v is not None]))
  return call(d.get, k) is None


def call(f, *a, **k):
  tf = type(f)
  if tf is types.FunctionType:
    if f.__module__ is not None and f.__module__.startswith(PKG):
      return f(*a, **k)
    h = HOOKS.get(f)
    if h is not None:
      return hooked(f, h, a, k)
    return guarded(f, a, k)
  if tf is types.MethodType:
    s = f.__self__
    ts = type(s)
    if ts is SymStr:
      return guarded(f, a, k)
    if isinstance(s, pathlib.Path):
      v = _vpath(s)
      if v is not None:
        n = f.__name__
        if n == 'open':
          return h_open(s, *a, **k)
        if n == 'read_text':
          return h_open(s, 'r', -1, *a, **k).read()
    return f(*a, **k)
  if tf is type or tf is _BM or tf is _BM2:
    h = HOOKS.get(f)
    if h is not None:
      return hooked(f, h, a, k)
    if tf is not type:
      return c_method(f, a, k)
    if f.__module__ is not None and f.__module__.startswith(PKG):
      return f(*a, **k)
    return guarded(f, a, k)
  if tf is ModelCache:
    return f(*a, **k)
  if tf is _MD or tf is _WD:
    if getattr(f, '__objclass__', None) is str and a and (type(a[0]) is SymStr or deep_sym(a[1:])):
      s = a[0] if type(a[0]) is SymStr else SymStr(tuple(a[0]))
      if f.__name__ == 'format':
        return str_format(a[0], a[1:], k)
      return call(getattr(s, f.__name__), *a[1:], **k)
    if getattr(f, '__objclass__', None) is dict and a:
      return call(getattr(a[0], f.__name__), *a[1:], **k)
    return guarded(f, a, k)
  if tf is _MW:
    return c_method(f, a, k)
  if tf is Missing:
    return concrete_call(f, a, k, f'str.{f.name}')
  if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k and is_sym(a[0]):
    for m in f:
      if K.cur.decide(deep_eq(m.value, a[0])):
        return m
    ms = f._missing_(a[0]) if '_missing_' in f.__dict__ else None
    if ms is not None:
      return ms
    raise ValueError(a[0])
  try:
    h = HOOKS.get(f)
  except TypeError:
    h = None
  if h is not None:
    return hooked(f, h, a, k)
  if callable(f) and hasattr(type(f), '__module__') and (type(f).__module__ or '').startswith(PKG):
    return f(*a, **k)
  return guarded(f, a, k)


def hooked(f, h, a, k):
  try:
    return h(*a, **k)
  except Unsupported as e:
    if h in (ModelTable, ModelIO, ModelCache):
      raise
    return concrete_call(f, a, k, str(e))


PURE = {n for n in ('int', 'float', 'round', 'divmod', 'abs', 'pow', 'ord', 'chr', 'hex', 'oct', 'bin', 'format', 'repr', 'ascii', 'bool', 'complex',
                    'len', 'max', 'min', 'sum', 'any', 'all', 'sorted', 'bytes')}
PURE_MODULES = {'math', 'decimal', '_decimal', 'fractions', 'unicodedata', 'textwrap', 'operator', '_operator', 'string', 'html', 'binascii', 're', 'urllib.parse',
                'datetime', 'calendar', 'numbers', 'statistics', 'json', 'json.encoder', 'json.decoder', 'ast', 'fnmatch', 'base64', 'zlib', 'difflib', 'stringprep'}


def pure(f):
  """calling f has no effect but its result"""
  m = getattr(f, '__module__', None)
  s = getattr(f, '__self__', None)
  if isinstance(s, (str, bytes, int, float)) or type(s) in (SymStr, SymInt, SymFloat, OpaqueNum):
    return True
  return (m == 'builtins' and getattr(f, '__name__', '') in PURE) or m in PURE_MODULES or type(s).__module__ in PURE_MODULES


_DICT_METHODS = {'get', 'pop', 'setdefault', '__contains__', '__getitem__', '__setitem__', 'update'}


def c_method(f, a, k):
  s = getattr(f, '__self__', None)
  ts = type(s)
  n = f.__name__
  if ts is str:
    if n == 'join' and len(a) == 1:
      items = list(a[0])
      if any(is_sym(x) for x in items):
        return hooked_lift(f, SymStr(tuple(s)), n, (items,), k, s)
      return s.join(items)
    if n == 'format':
      if k or any(type(x) not in (str, int, float) for x in a):
        try:
          return str_format(s, a, k)
        except Unsupported as e:
          return concrete_call(f, a, k, str(e))
      return s.format(*a)
    if n == '__contains__':
      return contains(s, a[0])
    if a and deep_sym(a):
      return hooked_lift(f, SymStr(tuple(s)), n, a, k, s)
    return f(*a, **k)
  if isinstance(s, dict) and n in _DICT_METHODS:
    if (a and keysym(a[0])) or tainted(s) or (n == 'update' and a and (tainted(a[0]) or deep_sym(a[0]))):
      if n == 'get':
        hit, q = find(s, a[0])
        return rawget(s, q) if hit else (a[1] if len(a) > 1 else k.get('default'))
      if n == 'pop':
        hit, q = find(s, a[0])
        if hit:
          with HASH:
            return dict.pop(s, q)
        if len(a) > 1:
          return a[1]
        raise KeyError(a[0])
      if n == 'setdefault':
        hit, q = find(s, a[0])
        if hit:
          return rawget(s, q)
        v = a[1] if len(a) > 1 else None
        setitem(s, a[0], v)
        return v
      if n == '__contains__':
        return contains(s, a[0])
      if n == '__getitem__':
        return sub(s, a[0])
      if n == '__setitem__':
        return setitem(s, a[0], a[1])
      if a:
        dict_update(s, a[0])
      for kk, v in k.items():
        setitem(s, kk, v)
      return None
    return f(*a, **k)
  if isinstance(s, (set, frozenset)) and n in ('add', 'discard', 'remove', '__contains__', 'update') and ((a and deep_sym(a)) or tainted(s)):
    if n == 'add':
      return set_add(s, a[0])
    if n == '__contains__':
      return contains(s, a[0])
    if n == 'update':
      for it in a:
        for x in it:
          set_add(s, x)
      return None
    hit, q = find(s, a[0])
    if hit:
      with HASH:
        set.discard(s, q)
    elif n == 'remove':
      raise KeyError(a[0])
    return None
  if isinstance(s, _SETS) and n in _SET_METHODS and a and not k and ((K.cur.tainted and symset(s)) or any(is_sym(x) or deep_sym(x) for x in a)):
    return set_method(n, s, a)
  if isinstance(s, (list, tuple)):
    if n == '__contains__':
      return contains(s, a[0])
    if n == 'sort' and k.get('key'):
      key = k['key']
      k = dict(k, key=lambda x: call(key, x))
    return f(*a, **k)
  return guarded(f, a, k)


def hooked_lift(f, sym, name, a, k, s):
  try:
    m = getattr(sym, name)
    if type(m) is Missing:
      raise Unsupported(f'str.{name}')
    return m(*a, **k)
  except Unsupported as e:
    return concrete_call(f, a, k, str(e))


def guarded(f, a, k):
  try:
    return f(*a, **k)
  except Unsupported as e:
    return concrete_call(f, a, k, f'{getattr(f, "__name__", f)}: {e}')
  except TypeError:
    if not (deep_sym(a) or deep_sym(k)) or isinstance(f, types.MethodType):
      raise
    return concrete_call(f, a, k, f'{getattr(f, "__qualname__", f)} of a symbolic value')


def probe(x, args):
  """before x is pinned to sample values: let some of them hold the texts among the arguments"""
  qs = [q for q in args if type(q) is str and 0 < len(q) <= 12][:3]
  if not qs:
    return
  runs = []

  def walk(y):
    if isinstance(y, SymStr):
      walk(y.t)
      if not any(isinstance(c, Opaque) for c in y.t):
        runs.append(y.t)
    elif isinstance(y, Opaque):
      walk(y.payload)
    elif isinstance(y, (list, tuple)):
      for z in y:
        walk(z)
    elif isinstance(y, dict):
      walk(list(y.values()))
  walk(x)
  runs.sort(key=len, reverse=True)
  for q in qs:
    if all(c == '\\' for c in q) or '"' in q:
      continue
    found = 0
    for t in runs:
      for i in range(len(t) - len(q) + 1):
        g = K.f_and([K.term_eq(c, d) for c, d in zip(t[i:i + len(q)], q)])
        if g is False or g is True:
          continue
        if K.cur.decide(g):
          return
        found += 1
        break
      if found == 2:
        break


def concrete_call(f, a, k, why):
  """the real function on sample values"""
  s = getattr(f, '__self__', None)
  if type(f) is Missing:
    s, name = f.s, f.name
  elif is_sym(s):
    name = f.__name__
  else:
    name = None
  try:
    if name is not None and not name.startswith('__'):
      return K.tabulate([s, list(a), dict(k)], lambda r: getattr(r[0], name)(*r[1], **r[2]), why)
    if name is None and (deep_sym(a) or deep_sym(k)) and pure(f):
      return K.tabulate([list(a), dict(k)], lambda r: f(*r[0], **r[1]), why)
  except Unsupported:
    pass
  probe(s if is_sym(s) else [a, k], list(a) + list(k.values()))
  if type(f) is Missing:
    r = concrete([s, list(a), dict(k)], why)
    return getattr(r[0], name)(*r[1], **r[2])
  if is_sym(s):
    r = concrete([s, list(a), dict(k)], why)
    return getattr(r[0], f.__name__)(*r[1], **r[2])
  if not (deep_sym(a) or deep_sym(k)):
    raise Unsupported(why)
  r = concrete([list(a), dict(k)], why)
  return f(*r[0], **r[1])


def deco(d):
  """a decorator used without a call"""
  try:
    h = HOOKS.get(d)
  except TypeError:
    h = None
  return h if h is h_lru else d
