"""Symbolic values, path conditions and the path explorer.

A symbolic string is a tuple of terms of known length: each term is a concrete
character, a character variable (optionally seen through a table, e.g. what
upper() makes of it) or an opaque token (the text of a table, a JSON document,
the text of an unusual number).  Strings fork the path as soon as the code under
test asks a yes/no question about them, so the code under test only ever sees
real bools.

Formulas are nested tuples over
  ('in', v, mask)         variable v is one of the characters of mask
  ('rel', a, b)           terms a and b (different variables) are the same character
  ('lin', terms, c, op)   sum(coef * table[v]) + c  op  0,   op in '<', '=='
  ('and', (..)), ('or', (..)), ('not', f), True, False
"""
import decimal
import fractions
import operator
import sys
import time
import unicodedata
import z3
from . import chars as C

NCH = C.N
FULL = C.FULL
CH = C.CH


class Control(BaseException):
  """never caught by the code under test"""


class Infeasible(Control):
  pass


class Unsupported(Control):
  pass


class Budget(Control):
  pass


# ---------------------------------------------------------------- terms


class Var:
  __slots__ = ('id', 'name', 'dom0', 'z')

  def __init__(self, id, name, dom0):
    self.id = id
    self.name = name
    self.dom0 = dom0
    self.z = z3.BitVec(f'c{id}', 8)

  def __repr__(self):
    return self.name


class Ch:
  """variable seen through a table (None: itself)"""
  __slots__ = ('var', 'tab')

  def __init__(self, var, tab=None):
    self.var = var
    self.tab = tab

  def out(self, i):
    return CH[i] if self.tab is None else self.tab[i]

  def __repr__(self):
    return f'<{self.var.name}{"" if self.tab is None else "~"}>'


class Opaque:
  """A piece of text whose characters are not modelled.

  kind, payload: structural identity; render(model) gives the real text."""
  __slots__ = ('kind', 'payload', 'render')

  def __init__(self, kind, payload, render):
    self.kind = kind
    self.payload = payload
    self.render = render

  def __repr__(self):
    return f'<<{self.kind}>>'


_tabs = {}


def tab_of(name, fn):
  if name not in _tabs:
    _tabs[name] = tuple(fn(c) for c in CH)
  return _tabs[name]


def compose(tab, name, fn):
  if tab is None:
    return tab_of(name, fn)
  key = (id(tab), name)
  if key not in _tabs:
    _tabs[key] = tuple(fn(c) for c in tab)
  return _tabs[key]


_pm = {}


def tmask(t, key, pred):
  """mask of the indices i with pred(t.out(i)); key identifies pred"""
  k = (None if t.tab is None else id(t.tab), key)
  m = _pm.get(k)
  if m is None:
    m = 0
    src = CH if t.tab is None else t.tab
    for i, c in enumerate(src):
      if pred(c):
        m |= 1 << i
    _pm[k] = m
  return m


# ---------------------------------------------------------------- formulas


def f_in(v, m):
  if m == 0:
    return False
  if m == FULL:
    return True
  return ('in', v, m)


def f_not(f):
  if f is True:
    return False
  if f is False:
    return True
  if f[0] == 'in':
    return f_in(f[1], FULL & ~f[2])
  if f[0] == 'not':
    return f[1]
  if f[0] == 'and':
    return f_or([f_not(g) for g in f[1]])
  if f[0] == 'or':
    return f_and([f_not(g) for g in f[1]])
  return ('not', f)


def _nary(op, fs):
  unit = op == 'and'
  masks = {}
  rest = []
  for f in fs:
    if f is unit:
      continue
    if f is (not unit):
      return f
    for g in (f[1] if f[0] == op else (f,)):
      if g[0] == 'in':
        v = g[1]
        if v in masks:
          masks[v] = (masks[v] & g[2]) if unit else (masks[v] | g[2])
        else:
          masks[v] = g[2]
      else:
        rest.append(g)
  out = []
  for v, m in masks.items():
    if unit and m == 0:
      return False
    if not unit and m == FULL:
      return True
    out.append(('in', v, m))
  out += rest
  if not out:
    return unit
  if len(out) == 1:
    return out[0]
  return (op, tuple(out))


def f_and(fs):
  return _nary('and', fs)


def f_or(fs):
  return _nary('or', fs)


def f_vars(f, acc):
  if f is True or f is False:
    return acc
  k = f[0]
  if k == 'in':
    acc.add(f[1])
  elif k == 'rel':
    acc.add(f[1].var)
    acc.add(f[2].var)
  elif k == 'same':
    for t in f[1:]:
      if isinstance(t, Ch):
        acc.add(t.var)
  elif k == 'lin':
    for _, v, _t in f[1]:
      acc.add(v)
  elif k == 'not':
    f_vars(f[1], acc)
  else:
    for g in f[1]:
      f_vars(g, acc)
  return acc


def f_least(fs, n):
  """at least n of these"""
  rest = [f for f in fs if f is not True and f is not False]
  n -= sum(f is True for f in fs)
  if n <= 0:
    return True
  if n > len(rest):
    return False
  if n == len(rest):
    return f_and(rest)
  if n == 1:
    return f_or(rest)
  return ('least', tuple(rest), n)


def f_lin(terms, const, op):
  """terms: [(coef, var, table of ints)]"""
  merged = {}
  for co, v, t in terms:
    key = (v, id(t))
    if key in merged:
      merged[key] = (merged[key][0] + co, v, t)
    else:
      merged[key] = (co, v, t)
  ts = tuple(x for x in merged.values() if x[0] != 0)
  if not ts:
    return (const < 0) if op == '<' else (const == 0)
  vs = {v for _, v, _ in ts}
  if len(vs) == 1:
    v = ts[0][1]
    m = 0
    for i in range(NCH):
      s = const + sum(co * t[i] for co, _, t in ts)
      if (s < 0) if op == '<' else (s == 0):
        m |= 1 << i
    return f_in(v, m)
  return ('lin', ts, const, op)


def term_eq(a, b):
  """formula: terms a and b are the same character"""
  if isinstance(a, str):
    if isinstance(b, str):
      return a == b
    a, b = b, a
  if isinstance(a, Opaque) or isinstance(b, Opaque):
    return opaque_eq(a, b)
  if isinstance(b, str):
    return f_in(a.var, tmask(a, ('=', b), lambda c: c == b))
  if a.var is b.var:
    if a.tab is b.tab:
      return True
    ta = CH if a.tab is None else a.tab
    tb = CH if b.tab is None else b.tab
    m = 0
    for i in range(NCH):
      if ta[i] == tb[i]:
        m |= 1 << i
    return f_in(a.var, m)
  return ('rel', a, b)


def opaque_eq(a, b):
  if a is b:
    return True
  if isinstance(a, Opaque) and isinstance(b, Opaque):
    if a.kind in SMALL and b.kind in SMALL:
      f = text_table((a,), (b,))
      if f is not None:
        return f
    if a.kind != b.kind:
      if a.kind in SMALL or b.kind in SMALL:
        raise Unsupported('two kinds of opaque text compared')
      return False
    return deep_eq(a.payload, b.payload)
  f = text_table((a,), (b,))
  if f is None:
    raise Unsupported('opaque text compared with characters')
  return f


SMALL = ('num', 'fun', 'repr')      # kinds of opaque text that depend on few variables


def text_table(ta, tb):
  """formula: two texts are the same, decided value by value; None if there are too many"""
  i, n = 0, min(len(ta), len(tb))
  while i < n and not isinstance(ta[i], Opaque) and not isinstance(tb[i], Opaque) and term_eq(ta[i], tb[i]) is True:
    i += 1
  j = 0
  while j < n - i and not isinstance(ta[-1 - j], Opaque) and not isinstance(tb[-1 - j], Opaque) and term_eq(ta[-1 - j], tb[-1 - j]) is True:
    j += 1
  x = [SymStr(tuple(ta[i:len(ta) - j])), SymStr(tuple(tb[i:len(tb) - j]))]
  return f_table(x, lambda r: r[0] == r[1])


TABLE = 110000      # the most values that are tabulated


def uses(x, acc):
  """{variable: tables it is seen through}"""
  t = type(x)
  if t is SymStr:
    for y in x.t:
      uses(y, acc)
  elif t is Ch:
    acc.setdefault(x.var, {})[None if x.tab is None else id(x.tab)] = CH if x.tab is None else x.tab
  elif t is Opaque:
    uses(x.payload, acc)
  elif t is SymInt:
    for _, v, tb in x.terms:
      acc.setdefault(v, {})[id(tb)] = tb
  elif t is SymFloat:
    uses(x.n, acc)
  elif t is OpaqueNum:
    uses(x.src, acc)
  elif t in (list, tuple, set, frozenset):
    for y in x:
      uses(y, acc)
  elif isinstance(x, dict):
    for k, v in x.items():
      uses(k, acc)
      uses(v, acc)
  elif isinstance(x, BaseException):
    uses(x.args, acc)
  return acc


def diagram(x, fn):
  """decision diagram of fn(value of x) over the variables of x: a key, or ('?', var, ((mask, diagram), ..)).
  Returns (diagram, {key: value}), or None when there are too many values"""
  cls = []
  size = 1
  for v, tabs in uses(x, {}).items():
    by = {}
    for i in C.bits(cur.dom[v]):
      k = tuple(t[i] for t in tabs.values())
      by[k] = by.get(k, 0) | 1 << i
    cls.append((v, [(m, m.bit_length() - 1) for m in by.values()]))
    size *= len(by)
    if size > TABLE:
      return None
  cls.sort(key=lambda c: c[0].id)
  vals = {}
  m = {}
  memo = {}

  def build(i):
    if i == len(cls):
      try:
        r = fn(realise(x, m))
        k = ('v', type(r).__name__, repr(r))
      except Exception as e:
        r = e
        k = ('x', type(e).__name__, '')
      if k not in vals:
        vals[k] = r
      return k
    v, cs = cls[i]
    by = {}
    for mask, rep in cs:
      m[v] = rep
      d = build(i + 1)
      by[d] = by.get(d, 0) | mask
    cur.tick()
    if len(by) == 1:
      return next(iter(by))
    r = ('?', v, tuple((mask, d) for d, mask in by.items()))
    r = Node(r)
    return memo.setdefault(r.key, r)
  return build(0), vals


class Node:
  """a node of a decision diagram; equal nodes are the same object"""
  __slots__ = ('var', 'arcs', 'key')

  def __init__(self, r):
    self.var, self.arcs = r[1], r[2]
    self.key = (id(self.var), tuple((m, id(d) if isinstance(d, Node) else d) for m, d in self.arcs))


def f_diagram(d, want):
  """formula: the diagram ends in a key that satisfies want"""
  memo = {}

  def go(d):
    if not isinstance(d, Node):
      return want(d)
    if id(d) not in memo:
      by = {}
      for mask, c in d.arcs:
        f = go(c)
        by[f] = by.get(f, 0) | mask
      full = 0
      for m in by.values():
        full |= m
      if len(by) == 1:
        memo[id(d)] = next(iter(by))
      else:
        memo[id(d)] = f_or([f_and([f_in(d.var, mask), f]) for f, mask in by.items()])
    return memo[id(d)]
  return go(d)


def f_table(x, pred):
  """formula: pred(value of x); None when there are too many values"""
  r = diagram(x, lambda v: bool(pred(v)))
  if r is None:
    return None
  d, vals = r
  if any(k[0] == 'x' for k in vals):
    # values that the path excludes
    f = cur.simp(f_diagram(d, lambda k: k[0] == 'x'))
    if f is not False and (f is True or cur.feasible(f)):
      raise Unsupported('a question that fails')
  return f_diagram(d, lambda k: k[2] == 'True')


def tabulate(x, fn, why):
  """fn(value of x): every different result is a path of its own, or the result is
  a number or text that depends on the value of x"""
  r = diagram(x, fn)
  if r is None:
    raise Unsupported(why)
  d, vals = r
  bad = [k for k in vals if k[0] == 'x']
  good = [k for k in vals if k[0] == 'v']
  few = len(good) <= 24
  groups = [[k] for k in bad] + ([[k] for k in good] if few else [good])
  groups = [g for g in groups if g]
  if len(groups) > 1:
    fs = [f_diagram(d, lambda k, g=set(g): k in g) for g in groups]
    g = groups[cur.pick(fs)]
  else:
    g = groups[0]
  if len(g) == 1:
    r = vals[g[0]]
    if g[0][0] == 'x':
      raise r
    return r
  kinds = {type(vals[k]) for k in g}
  if len(kinds) == 1:
    kind = kinds.pop()
    if kind is str:
      return SymStr((Opaque('fun', (x, Same(fn)), lambda m: fn(realise(x, m))),))
    if kind in NUMBERS:
      return OpaqueNum(kind, fn, x, (Same(fn),))
  raise Unsupported(why)


class Same:
  """equal to itself only"""

  def __init__(self, x):
    self.x = x


def deep_eq(a, b):
  """formula: two nested values are equal (types included)"""
  if isinstance(a, SymStr) or isinstance(b, SymStr):
    if not (isinstance(a, (SymStr, str)) and isinstance(b, (SymStr, str))):
      return False
    return str_eq(a, b)
  if isinstance(a, (SymInt, SymFloat, OpaqueNum)) or isinstance(b, (SymInt, SymFloat, OpaqueNum)):
    return num_eq(a, b)
  if type(a) is not type(b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
      pass
    else:
      return False
  if isinstance(a, (list, tuple)):
    if len(a) != len(b):
      return False
    return f_and([deep_eq(x, y) for x, y in zip(a, b)])
  if isinstance(a, dict):
    ia, ib = list(a.items()), list(b.items())
    if len(ia) != len(ib):
      return False
    return f_and([f_or([f_and([deep_eq(k, q), deep_eq(v, w)]) for q, w in ib]) for k, v in ia])
  return bool(a == b)


def terms_of(s):
  return s.t if isinstance(s, SymStr) else tuple(s)


def str_eq(a, b):
  ta, tb = terms_of(a), terms_of(b)
  oa, ob = [isinstance(x, Opaque) for x in ta], [isinstance(x, Opaque) for x in tb]
  if oa != ob and (any(oa) or any(ob)):
    f = text_table(ta, tb)
    if f is None:
      raise Unsupported('opaque text compared with characters')
    return f
  if len(ta) != len(tb):
    return False
  out = []
  for x, y in zip(ta, tb):
    if x is y:
      continue
    f = term_eq(x, y)
    if f is False:
      return False
    out.append(f)
  return f_and(out)


def same(a, b):
  """the same question as str_eq, but left for the solver to settle:
  nothing is simplified away, not even x = x"""
  ta, tb = terms_of(a), terms_of(b)
  if len(ta) != len(tb) or [isinstance(x, Opaque) for x in ta] != [isinstance(x, Opaque) for x in tb]:
    return str_eq(a, b)
  out = []
  for x, y in zip(ta, tb):
    if isinstance(x, Ch) and isinstance(y, Ch) and x.tab is None and y.tab is None:
      out.append(('same', x, y))
    else:
      out.append(term_eq(x, y))
  if any(f is False for f in out):
    return False
  out = [f for f in out if f is not True]
  if not out:
    return True
  return ('and', tuple(out)) if len(out) > 1 else out[0]


# ---------------------------------------------------------------- the engine

cur = None          # the engine of the running path


class Stats:
  def __init__(self):
    self.paths = 0
    self.decisions = 0
    self.queries = 0
    self.solver_s = 0.0
    self.obligations = 0
    self.discharged = 0
    self.witnessed = 0
    self.fast = 0
    self.infeasible = 0
    self.unknown = 0
    self.sampled = 0
    self.unsupported = {}
    self.functions = set()
    self.max_depth = 0
    self.cross = 0

  def merge(self, o):
    for k, v in o.__dict__.items():
      if isinstance(v, (int, float)):
        if k == 'max_depth':
          self.max_depth = max(self.max_depth, v)
        else:
          setattr(self, k, getattr(self, k) + v)
    for k, n in o.unsupported.items():
      self.unsupported[k] = self.unsupported.get(k, 0) + n
    self.functions |= o.functions


_zmask = {}
_ranges = {}


def ranges(m):
  r = _ranges.get(m)
  if r is None:
    r = []
    i = 0
    x = m
    while x:
      low = (x & -x).bit_length() - 1
      x >>= low
      i += low
      n = ((~x) & (x + 1)).bit_length() - 1
      r.append((i, i + n - 1))
      x >>= n
      i += n
    _ranges[m] = r
  return r


def z_in(v, m):
  key = (v.id, m)
  e = _zmask.get(key)
  if e is None:
    ors = []
    for a, b in ranges(m):
      if a == b:
        ors.append(v.z == a)
      elif a == 0:
        ors.append(z3.ULE(v.z, b))
      else:
        ors.append(z3.And(z3.UGE(v.z, a), z3.ULE(v.z, b)))
    e = z3.Or(ors) if len(ors) != 1 else ors[0]
    _zmask[key] = e
  return e


def z_num(v, tab):
  """32-bit value of table[v]"""
  byval = {}
  for i, x in enumerate(tab):
    byval.setdefault(x, []).append(i)
  base = max(byval, key=lambda x: len(byval[x]))
  e = z3.BitVecVal(base, 32)
  zx = z3.ZeroExt(24, v.z)
  # runs tab[i] = i + d are one case each
  runs = []
  i = 0
  while i < NCH:
    if tab[i] == base:
      i += 1
      continue
    j = i
    while j + 1 < NCH and tab[j + 1] == tab[j] + 1 and tab[j + 1] != base:
      j += 1
    runs.append((i, j))
    i = j + 1
  for i, j in runs:
    cond = z3.And(z3.UGE(v.z, i), z3.ULE(v.z, j)) if i != j else v.z == i
    e = z3.If(cond, zx + z3.BitVecVal(tab[i] - i, 32), e)
  return e


_znum = {}


def z_of(f):
  if f is True:
    return z3.BoolVal(True)
  if f is False:
    return z3.BoolVal(False)
  k = f[0]
  if k == 'in':
    return z_in(f[1], f[2])
  if k == 'same':
    return f[1].var.z == f[2].var.z
  if k == 'least':
    return z3.AtLeast(*[z_of(g) for g in f[1]], f[2])
  if k == 'rel':
    a, b = f[1], f[2]
    if a.tab is None and b.tab is None:
      return a.var.z == b.var.z
    outs = {}
    for i in range(NCH):
      outs.setdefault(a.out(i), [0, 0])[0] |= 1 << i
      outs.setdefault(b.out(i), [0, 0])[1] |= 1 << i
    return z3.Or([z3.And(z_in(a.var, x), z_in(b.var, y)) for x, y in outs.values() if x and y])
  if k == 'lin' and all(set(t) <= {0, 1} for _, _, t in f[1]) and len(f[1]) > 6 and all(co == f[1][0][0] for co, _, _ in f[1]) and f[1][0][0] in (1, -1):
    # a count: how many of these are true
    co = f[1][0][0]
    bs = [z_in(v, sum(1 << i for i in range(NCH) if t[i])) for _, v, t in f[1]]
    if f[3] == '==':
      n = -f[2] * co
      return z3.BoolVal(False) if not 0 <= n <= len(bs) else z3.PbEq([(b, 1) for b in bs], n)
    if co == 1:                       # n + const < 0
      return z3.BoolVal(False) if -f[2] - 1 < 0 else z3.AtMost(*bs, -f[2] - 1)
    return z3.AtLeast(*bs, max(0, f[2] + 1))      # const - n < 0
  if k == 'lin':
    s = z3.BitVecVal(f[2], 32)
    for co, v, t in f[1]:
      key = (v.id, id(t))
      e = _znum.get(key)
      if e is None:
        e = _znum[key] = (z_num(v, t), t)
      s = s + z3.BitVecVal(co, 32) * e[0]
    return (s < 0) if f[3] == '<' else (s == 0)
  if k == 'not':
    return z3.Not(z_of(f[1]))
  e = _zmemo.get(f)
  if e is None:
    if len(_zmemo) > 100000:
      _zmemo.clear()
    e = _zmemo[f] = (z3.And if k == 'and' else z3.Or)([z_of(g) for g in f[1]])
  return e


_zmemo = {}


_varpool = []


def get_var(i, name, dom):
  """variables are reused between paths, so that their z3 terms are, too"""
  while len(_varpool) <= i:
    _varpool.append(Var(len(_varpool), '?', FULL))
  v = _varpool[i]
  v.name = name
  v.dom0 = dom
  return v


SAMPLES = 5


class Engine:
  """one path"""

  def __init__(self, prefix, stats, stack, cross=False, deadline=None):
    self.prefix = prefix
    self.trace = []
    self.stats = stats
    self.stack = stack
    self.dom = {}
    self.rels = []
    self.known = set()
    self.linked = set()
    self.nvars = 0
    self.incomplete = []
    self.cross = cross
    self.deadline = deadline
    self.solver = z3.SolverFor('QF_BV')
    self.solver.set('timeout', 20000)
    self.tainted = {}
    self.out = []
    self.vfs = {}
    self.ticks = 0

  # -- variables
  def var(self, name, dom=FULL):
    v = get_var(self.nvars, name, dom)
    self.nvars += 1
    self.dom[v] = dom
    return v

  # -- simplification under the domains
  def simp(self, f):
    if f is True or f is False:
      return f
    k = f[0]
    if k == 'in':
      d = self.dom[f[1]]
      m = d & f[2]
      if m == 0:
        return False
      if m == d:
        return True
      return f
    if k in ('and', 'or'):
      return self.by_known(_nary(k, [self.simp(g) for g in f[1]]))
    if k == 'not':
      return f_not(self.simp(f[1]))
    if k == 'same':
      return self.simp(term_eq(f[1], f[2]))
    if k == 'least':
      return f_least([self.simp(g) for g in f[1]], f[2])
    if k == 'rel':
      a, b = f[1], f[2]
      da, db = self.dom[a.var], self.dom[b.var]
      if da & (da - 1) == 0:
        c = a.out(da.bit_length() - 1)
        return self.simp(term_eq(b, c))
      if db & (db - 1) == 0:
        c = b.out(db.bit_length() - 1)
        return self.simp(term_eq(a, c))
      return f
    if k == 'lin':
      lo = hi = f[2]
      ts = []
      c = f[2]
      fixed = False
      for co, v, t in f[1]:
        d = self.dom[v]
        vals = [t[i] for i in C.bits(d)]
        a, b = min(vals) * co, max(vals) * co
        lo += min(a, b)
        hi += max(a, b)
        if len(vals) == 1:
          c += vals[0] * co
          fixed = True
        else:
          ts.append((co, v, t))
      if f[3] == '<':
        if hi < 0:
          return True
        if lo >= 0:
          return False
      elif lo > 0 or hi < 0:
        return False
      if fixed:
        return self.simp(f_lin(ts, c, f[3]))
      return f
    raise AssertionError(k)

  def by_known(self, f):
    """what has been assumed on this path is true"""
    if self.known and f is not True and f is not False and f[0] in ('and', 'or'):
      if f in self.known:
        return True
      if f_not(f) in self.known:
        return False
    return f

  # -- constraints
  def assume(self, f):
    f = self.simp(f)
    if f is True:
      return
    if f is False:
      raise Infeasible()
    if f[0] == 'in':
      self.dom[f[1]] &= f[2]
      return
    if f[0] == 'and':
      for g in f[1]:
        self.assume(g)
      return
    self.rels.append((f, frozenset(f_vars(f, set()))))
    self.known.add(f)
    self.linked |= self.rels[-1][1]

  def component(self, vs):
    vs = set(vs)
    out = []
    todo = list(self.rels)
    changed = True
    while changed:
      changed = False
      rest = []
      for f, fv in todo:
        if vs & fv:
          vs |= fv
          out.append(f)
          changed = True
        else:
          rest.append((f, fv))
      todo = rest
    return vs, out

  def z3check(self, *extra):
    t = time.perf_counter()
    self.stats.queries += 1
    r = self.solver.check(*extra)
    self.stats.solver_s += time.perf_counter() - t
    if r == z3.unknown:
      self.stats.unknown += 1
    return r

  def _load(self, vs, fs):
    for v in vs:
      if self.dom[v] != FULL or True:
        self.solver.add(z_in(v, self.dom[v]))
    for f in fs:
      self.solver.add(z_of(f))

  def feasible(self, f):
    """is PC and f satisfiable (f already simplified, not constant)"""
    fv = f_vars(f, set())
    if not (fv & self.linked):
      q = self._quick(f)
      if q is not None:
        self.stats.fast += 1
        if self.cross:
          self.stats.cross += 1
          assert (self._zfeasible(f, fv) == z3.sat) == q, f
        return q
    r = self._zfeasible(f, fv)
    return r != z3.unsat

  def _zfeasible(self, f, fv):
    vs, fs = self.component(fv)
    self.solver.push()
    self._load(vs, fs)
    self.solver.add(z_of(f))
    r = self.z3check()
    self.solver.pop()
    return r

  def _quick(self, f):
    """f is simplified under the domains and its variables are independent"""
    k = f[0]
    if k == 'in':
      return True
    if k == 'and':
      # 'in' literals of an 'and' are about distinct variables
      return True if all(g[0] == 'in' for g in f[1]) else None
    if k == 'or':
      return True if any(self._quick(g) for g in f[1]) else None
    return None

  def tick(self):
    self.ticks += 1
    if self.deadline is not None and time.monotonic() > self.deadline:
      raise Budget('deadline')

  # -- decisions
  def decide(self, f):
    f = self.simp(f)
    if f is True or f is False:
      return f
    self.tick()
    pos = len(self.trace)
    nf = f_not(f)
    if pos < len(self.prefix):
      r = self.prefix[pos]
    else:
      r = 1
      t = self.feasible(f)
      ns = self.simp(nf)
      n = ns if ns is True or ns is False else self.feasible(ns)
      if not t and not n:
        raise Infeasible()
      if t and n:
        self.stack.append(self.trace + [0])
      elif n:
        r = 0
    self.trace.append(r)
    self.stats.decisions += 1
    self.assume(f if r else nf)
    return bool(r)

  def pick(self, fs):
    """index of the alternative taken; the formulas exclude each other and
    together cover the path (None entries: the rest)"""
    self.tick()
    pos = len(self.trace)
    if pos < len(self.prefix):
      i = self.prefix[pos]
    else:
      ok = []
      for i, f in enumerate(fs):
        f = self.simp(f)
        if f is False:
          continue
        if f is True or self.feasible(f):
          ok.append(i)
          if f is True:
            break
      if not ok:
        raise Infeasible()
      i = ok[0]
      for j in reversed(ok[1:]):
        self.stack.append(self.trace + [j])
    self.trace.append(i)
    self.stats.decisions += 1
    self.assume(fs[i])
    return i

  def choose(self, n):
    """a free choice (part of the input)"""
    pos = len(self.trace)
    if pos < len(self.prefix):
      i = self.prefix[pos]
    else:
      i = 0
      for j in reversed(range(1, n)):
        self.stack.append(self.trace + [j])
    self.trace.append(i)
    self.stats.decisions += 1
    return i

  # -- models
  PREF = [C.IDX[ord(c)] for c in '0A1 B27ZSTEW9KXYC3NLRFPDM5']

  def model_of(self, vs, extra=()):
    """one assignment {var: index} of the path condition, or None"""
    vs = list(vs)
    need = set(vs)
    m = {}
    lv = set()
    for f in extra:
      f_vars(f, lv)
    linked = (need & self.linked) | lv
    if linked:
      comp, fs = self.component(linked)
      self.solver.push()
      self._load(comp, fs)
      for f in extra:
        self.solver.add(z_of(f))
      r = self.z3check()
      if r != z3.sat:
        self.solver.pop()
        return None
      mod = self.solver.model()
      self.solver.pop()
      for v in comp:
        x = mod.eval(v.z, model_completion=True).as_long()
        m[v] = x
    for v in vs:
      if v not in m:
        d = self.dom[v]
        for p in self.PREF:
          if d >> p & 1:
            m[v] = p
            break
        else:
          m[v] = (d & -d).bit_length() - 1
    return m

  def samples(self, vs, count=SAMPLES):
    """a few different assignments of vs; together they have every character somewhere
    if there are enough variables"""
    vs = list(vs)
    out = []
    m = self.model_of(vs)
    if m is None:
      raise Infeasible()
    out.append({v: m[v] for v in vs})
    free = [v for v in vs if v not in self.linked]
    if free:
      for k in range(1, count):
        s = {v: m[v] for v in vs}
        for n, v in enumerate(free):
          b = C.bits(self.dom[v])
          if k == 1:
            s[v] = b[-1] if b[-1] < 128 else [x for x in b if x < 128 or x == b[-1]][-1]
          elif k == 4:                # a letter and a combining character, in turn
            x = C.IDX[0x301] if n % 2 else ord('e')
            s[v] = x if self.dom[v] >> x & 1 else b[0]
          elif k % 2:
            s[v] = b[(k * 7919 + n * 31 + len(b) // 2) % len(b)]
          else:
            s[v] = b[(n + k * 41) % len(b)]
        if s not in out:
          out.append(s)
    else:
      block = []
      for k in range(1, count):
        block.append(f_not(f_and([f_in(v, 1 << out[-1][v]) for v in vs])))
        m = self.model_of(vs, block)
        if m is None:
          break
        out.append({v: m[v] for v in vs})
    return out

  def concretise(self, vs, why):
    """pin the variables to sample values: the path is no longer exhaustive"""
    vs = [v for v in vs if self.dom[v] & (self.dom[v] - 1)]
    if not vs:
      return
    if why not in self.incomplete:
      self.incomplete.append(why)
    s = self.samples(vs)
    pos = len(self.trace)
    if pos < len(self.prefix):
      i = self.prefix[pos]
    else:
      i = 0
      for j in range(1, len(s)):
        self.stack.append(self.trace + [j])
    self.trace.append(i)
    self.stats.sampled += 1
    self.assume(f_and([f_in(v, 1 << x) for v, x in s[i].items()]))

  # -- end of the path
  def discharge(self, checks):
    """checks: [(name, formula)]; returns None or (name, model)"""
    # variables that neither the checks nor a relation mention are independent of both:
    # their domains are not empty, so they cannot make the conjunction unsatisfiable
    self.solver.push()
    vs = set(self.linked)
    for _, f in checks:
      f_vars(f, vs)
    self._load(vs, [f for f, _ in self.rels])
    r = self.z3check()
    if r == z3.unsat:
      self.solver.pop()
      raise AssertionError('a path with an unsatisfiable condition was explored')
    if r == z3.sat:
      self.stats.witnessed += 1
    self.stats.obligations += len(checks)
    if any(f is False for _, f in checks):
      bad = [n for n, f in checks if f is False][0]
      m = self.solver.model() if r == z3.sat else None
      self.solver.pop()
      return (bad, self._zmodel(m))
    self.solver.add(z3.Not(z3.And([z_of(f) for _, f in checks])))
    r = self.z3check()
    if r == z3.unsat:
      self.solver.pop()
      self.stats.discharged += len(checks)
      return None
    if r == z3.unknown:
      self.solver.pop()
      return None
    m = self.solver.model()
    bad = None
    for n, f in checks:
      if not z3.is_true(m.eval(z_of(f), model_completion=True)):
        bad = n
        break
    # prefer readable characters: pin one variable after the other
    full = self._readable(m)
    self.solver.pop()
    return (bad, full)

  def _readable(self, m):
    out = {}
    for v, d in self.dom.items():
      x = m.eval(v.z, model_completion=False)
      if z3.is_bv_value(x):
        out[v] = x.as_long()
      if v not in out or not d >> out[v] & 1:
        out[v] = next((p for p in self.PREF if d >> p & 1), (d & -d).bit_length() - 1)
    return out

  def _zmodel(self, m):
    if m is None:
      return self.model_of(self.dom)
    mm = self.model_of(self.dom)
    return mm if mm is not None else self._readable(m)


def explore(run, stats, stack=None, max_paths=None, deadline=None, cross=False):
  """run(engine) is called once per path.  Returns True if the tree was exhausted."""
  global cur
  stack = [[]] if stack is None else stack
  n = 0
  while stack:
    if max_paths is not None and n >= max_paths:
      return False
    if deadline is not None and time.monotonic() > deadline:
      return False
    prefix = stack.pop()
    e = Engine(prefix, stats, stack, cross, deadline)
    cur = e
    try:
      run(e)
      stats.paths += 1
    except Infeasible:
      stats.infeasible += 1
    except Budget:
      return False
    finally:
      cur = None
    stats.max_depth = max(stats.max_depth, len(e.trace))
    n += 1
  return True


# ---------------------------------------------------------------- strings


def mk(terms):
  for t in terms:
    if not isinstance(t, str):
      return SymStr(tuple(terms))
  return ''.join(terms)


def is_sym(x):
  return isinstance(x, SYM)


WS = None
PREDS = {'isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isspace', 'isprintable', 'isascii'}


class SymStr:
  __slots__ = ('t', 'h', 'flat')
  hash_ok = False

  def __init__(self, t):
    self.t = t
    self.h = None
    self.flat = False

  @property
  def __class__(self):
    return str

  # -- construction and structure
  def __len__(self):
    for x in self.t:
      if isinstance(x, Opaque):
        raise Unsupported('length of opaque text')
    return len(self.t)

  def _flat(self, what):
    if not self.flat:
      for x in self.t:
        if isinstance(x, Opaque):
          raise Unsupported(f'{what} of opaque text')
      self.flat = True
    return self.t

  def __getitem__(self, k):
    t = self._flat('part')
    if isinstance(k, slice):
      return mk(t[slice(*(idx(x) for x in (k.start, k.stop, k.step)))])
    return mk((t[idx(k)],))

  def __iter__(self):
    for x in self._flat('characters'):
      yield mk((x,))

  def __reversed__(self):
    return iter(list(self)[::-1])

  def __add__(self, o):
    if isinstance(o, (SymStr, str)):
      return mk(self.t + terms_of(o))
    return NotImplemented

  def __radd__(self, o):
    if isinstance(o, (SymStr, str)):
      return mk(terms_of(o) + self.t)
    return NotImplemented

  def __mul__(self, n):
    return mk(self.t * idx(n))

  __rmul__ = __mul__

  def __mod__(self, args):
    raise Unsupported('symbolic % format')

  # -- questions
  def __bool__(self):
    return len(self.t) > 0

  def __eq__(self, o):
    if isinstance(o, (SymStr, str)):
      return cur.decide(str_eq(self, o))
    return False

  def __ne__(self, o):
    return not self.__eq__(o)

  def __hash__(self):
    r = pinned(self)
    if r is not None:
      return hash(r)
    # only the modelled dict and set operations may store a symbolic key
    if SymStr.hash_ok:
      if self.h is None:
        cur.ticks += 1
        self.h = 0x5eed0000 + cur.ticks * 7919
      return self.h
    raise Unsupported('hash of a symbolic string')

  def _less(self, o, strict):
    a, b = self._flat('order'), terms_of(o)
    fs = []
    eqs = []
    for x, y in zip(a, b):
      if isinstance(x, Opaque) or isinstance(y, Opaque):
        raise Unsupported('order of opaque text')
      if isinstance(x, Ch) and isinstance(y, Ch):
        if x.var is y.var and x.tab is y.tab:
          continue
        lt = f_lin([(1, x.var, compose(x.tab, 'ord', ord)), (-1, y.var, compose(y.tab, 'ord', ord))], 0, '<')
      elif isinstance(x, Ch):
        lt = f_in(x.var, tmask(x, ('<', y), lambda c: c < y))
      elif isinstance(y, Ch):
        lt = f_in(y.var, tmask(y, ('>', x), lambda c: c > x))
      else:
        lt = x < y
      fs.append(f_and(eqs + [lt]))
      eqs.append(term_eq(x, y))
    last = len(a) < len(b) or (not strict and len(a) == len(b))
    fs.append(f_and(eqs + [last]))
    return f_or(fs)

  def __lt__(self, o):
    if not isinstance(o, (SymStr, str)):
      return NotImplemented
    return cur.decide(self._less(o, True))

  def __le__(self, o):
    if not isinstance(o, (SymStr, str)):
      return NotImplemented
    return cur.decide(self._less(o, False))

  def __gt__(self, o):
    if not isinstance(o, (SymStr, str)):
      return NotImplemented
    return not self.__le__(o)

  def __ge__(self, o):
    if not isinstance(o, (SymStr, str)):
      return NotImplemented
    return not self.__lt__(o)

  def _at(self, i, o):
    """formula: o is found at position i"""
    return f_and([term_eq(x, y) for x, y in zip(self.t[i:i + len(o)], o)])

  def __contains__(self, o):
    if not isinstance(o, (SymStr, str)):
      raise TypeError(f"'in <string>' requires string as left operand, not {type(o).__name__}")
    t = self._flat('content')
    o = terms_of(o)
    return cur.decide(f_or([self._at(i, o) for i in range(len(t) - len(o) + 1)]))

  def _range(self, a):
    n = len(self)
    start, stop, _ = slice(*(list(a) + [None] * (2 - len(a)))).indices(n)
    return start, stop

  def startswith(self, p, *a):
    t = self._flat('start')
    s, e = self._range(a)
    ps = p if isinstance(p, tuple) else (p,)
    fs = []
    for q in ps:
      if not isinstance(q, (SymStr, str)):
        raise TypeError(f'startswith first arg must be str or a tuple of str, not {type(q).__name__}')
      q = terms_of(q)
      if s + len(q) <= e:
        fs.append(self._at(s, q))
    return cur.decide(f_or(fs))

  def endswith(self, p, *a):
    t = self._flat('end')
    s, e = self._range(a)
    ps = p if isinstance(p, tuple) else (p,)
    fs = []
    for q in ps:
      if not isinstance(q, (SymStr, str)):
        raise TypeError(f'endswith first arg must be str or a tuple of str, not {type(q).__name__}')
      q = terms_of(q)
      if s + len(q) <= e:
        fs.append(self._at(e - len(q), q))
    return cur.decide(f_or(fs))

  def _occ(self, o, a):
    self._flat('content')
    s, e = self._range(a)
    o = terms_of(o)
    return [(i, self._at(i, o)) for i in range(s, e - len(o) + 1)]

  def _search(self, occ):
    fs = []
    nots = []
    for i, f in occ:
      fs.append(f_and(nots + [f]))
      nots.append(f_not(f))
    live = [k for k, f in enumerate(fs) if f is not False]
    if not live or not cur.decide(f_not(f_and(nots))):
      return -1
    if len(live) == 1:
      return occ[live[0]][0]
    return LazyInt(min(occ[k][0] for k in live), lambda: occ[cur.pick(fs)][0])

  def find(self, o, *a):
    return self._search(self._occ(o, a))

  def rfind(self, o, *a):
    return self._search(self._occ(o, a)[::-1])

  def index(self, o, *a):
    r = self.find(o, *a)
    if r < 0:
      raise ValueError('substring not found')
    return r

  def rindex(self, o, *a):
    r = self.rfind(o, *a)
    if r < 0:
      raise ValueError('substring not found')
    return r

  def count(self, o, *a):
    s, e = self._range(a)
    n = 0
    ln = len(o)
    if ln == 0:
      return max(0, e - s + 1)
    o = terms_of(o)
    if not cur.decide(f_or([self._at(i, o) for i in range(s, e - ln + 1)])):
      return 0
    if ln == 1 and isinstance(o[0], str) and all(isinstance(x, (str, Ch)) for x in self.t[s:e]):
      part = self.t[s:e]
      terms = [(1, x.var, is_char(x.tab, o[0])) for x in part if not isinstance(x, str)]
      return SymInt(terms, sum(x == o[0] for x in part if isinstance(x, str)))

    if ln == 1:
      return Count([self._at(i, o) for i in range(s, e)])

    def count():
      n = 0
      i = s
      while i + ln <= e:
        if cur.decide(self._at(i, o)):
          n += 1
          i += ln
        else:
          i += 1
      return n
    return LazyInt(1, count)

  # -- stripping, splitting
  def _strip_set(self, chars):
    if chars is None:
      return ('ws', str.isspace)
    if isinstance(chars, SymStr):
      raise Unsupported('strip with symbolic characters')
    return (('set', chars), lambda c: c in chars)

  def _is(self, t, key, pred):
    if isinstance(t, str):
      return pred(t)
    if isinstance(t, Opaque):
      if t.kind in ('table', 'json'):
        return False
      raise Unsupported('strip of opaque text')
    return f_in(t.var, tmask(t, key, pred))

  def _lskip(self, t, key, pred):
    i = 0
    while i < len(t) and cur.decide(self._is(t[i], key, pred)):
      i += 1
    return t[i:]

  def _rskip(self, t, key, pred):
    i = len(t)
    while i > 0 and cur.decide(self._is(t[i - 1], key, pred)):
      i -= 1
    return t[:i]

  def strip(self, chars=None):
    key, pred = self._strip_set(chars)
    return mk(self._rskip(self._lskip(self.t, key, pred), key, pred))

  def lstrip(self, chars=None):
    return mk(self._lskip(self.t, *self._strip_set(chars)))

  def rstrip(self, chars=None):
    return mk(self._rskip(self.t, *self._strip_set(chars)))

  def removeprefix(self, p):
    return self[len(p):] if self.startswith(p) else self

  def removesuffix(self, p):
    return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

  def split(self, sep=None, maxsplit=-1):
    t = self._flat('split')
    if sep is not None and len(sep) == 0:
      raise ValueError('empty separator')
    if maxsplit == 0 or sum(not isinstance(x, str) for x in t) < 6:
      return self._split(sep, maxsplit)
    # where the pieces are is decided when it matters
    if sep is None:
      ws = [self._is(x, 'ws', str.isspace) for x in t]
      if cur.decide(f_and(ws)):
        return []

      def first():
        s = mk(self._lskip(t, 'ws', str.isspace))
        ts = terms_of(s)
        fs = [self._is(x, 'ws', str.isspace) for x in ts]
        i = SymStr._search(self, list(enumerate(fs)))
        return s if i < 0 else s[:i]

      def last():
        s = mk(self._rskip(t, 'ws', str.isspace))
        ts = terms_of(s)
        fs = [self._is(x, 'ws', str.isspace) for x in ts]
        i = SymStr._search(self, list(enumerate(fs))[::-1])
        return s if i < 0 else s[i + 1:]
    else:
      if not cur.decide(f_or([self._at(i, terms_of(sep)) for i in range(len(t) - len(sep) + 1)])):
        return [self]

      def first():
        return self.partition(sep)[0]

      def last():
        return self.rpartition(sep)[2]
    return Pieces(lambda: self._split(sep, maxsplit), first, last if maxsplit < 0 and (sep is None or len(sep) == 1) else None)

  def _split(self, sep, maxsplit):
    t = self._flat('split')
    out = []
    if sep is None:
      i = 0
      n = len(t)
      key, pred = ('ws', str.isspace)
      while True:
        while i < n and cur.decide(self._is(t[i], key, pred)):
          i += 1
        if i >= n:
          break
        if 0 <= maxsplit <= len(out):
          out.append(mk(t[i:]))
          break
        j = i
        while j < n and not cur.decide(self._is(t[j], key, pred)):
          j += 1
        out.append(mk(t[i:j]))
        i = j
      return out
    o = terms_of(sep)
    i = b = 0
    while i + len(o) <= len(t):
      if (maxsplit < 0 or len(out) < maxsplit) and cur.decide(self._at(i, o)):
        out.append(mk(t[b:i]))
        i += len(o)
        b = i
      else:
        i += 1
    out.append(mk(t[b:]))
    return out

  def rsplit(self, sep=None, maxsplit=-1):
    if maxsplit < 0:
      if sep is None or len(sep) == 1:
        return self.split(sep)
      raise Unsupported('rsplit')
    if sep is None:
      raise Unsupported('rsplit')
    if len(sep) == 0:
      raise ValueError('empty separator')
    out = []
    rest = self
    while len(out) < maxsplit:
      i = rest.rfind(sep)
      if i < 0:
        break
      out.append(rest[i + len(sep):])
      rest = rest[:i]
    return [rest] + out[::-1]

  def partition(self, sep):
    i = self.find(sep)
    if i < 0:
      return (self, '', '')
    return (self[:i], sep, self[i + len(sep):])

  def rpartition(self, sep):
    i = self.rfind(sep)
    if i < 0:
      return ('', '', self)
    return (self[:i], sep, self[i + len(sep):])

  def splitlines(self, keepends=False):
    t = self._flat('splitlines')
    out = []
    b = i = 0
    while i < len(t):
      if cur.decide(self._is(t[i], 'lb', lambda c: len(('a' + c + 'b').splitlines()) > 1)):
        j = i + 1
        if j < len(t) and cur.decide(f_and([term_eq(t[i], '\r'), term_eq(t[j], '\n')])):
          j += 1
        out.append(mk(t[b:j if keepends else i]))
        b = i = j
      else:
        i += 1
    if b < len(t):
      out.append(mk(t[b:]))
    return out

  def join(self, it):
    out = []
    for k, x in enumerate(it):
      if not isinstance(x, (SymStr, str)):
        raise TypeError(f'sequence item {k}: expected str instance, {type(x).__name__} found')
      if k:
        out += self.t
      out += terms_of(x)
    return mk(out)

  def replace(self, a, b, count=-1):
    t = self._flat('replace')
    o = terms_of(a)
    nb = terms_of(b)
    if len(o) == 0:
      raise Unsupported('replace of the empty string')
    if len(o) == 1 and len(nb) == 1 and isinstance(o[0], str) and isinstance(nb[0], str) and count < 0:
      x, y = o[0], nb[0]
      return self._map(('repl', x, y), lambda c: y if c == x else c)
    out = []
    i = n = 0
    while i < len(t):
      if i + len(o) <= len(t) and (count < 0 or n < count) and cur.decide(self._at(i, o)):
        out += nb
        i += len(o)
        n += 1
      else:
        out.append(t[i])
        i += 1
    return mk(out)

  # -- character-wise maps
  def _map(self, name, fn):
    out = []
    for x in self._flat('mapping'):
      if isinstance(x, str):
        out += fn(x)
      else:
        tab = compose(x.tab, name, fn)
        if any(len(c) != 1 for c in tab):
          raise Unsupported('mapping that changes the length')
        out.append(Ch(x.var, tab))
    return mk(out)

  def upper(self):
    return self._map('upper', str.upper)

  def lower(self):
    return self._map('lower', str.lower)

  def casefold(self):
    return self._map('casefold', str.casefold)

  def swapcase(self):
    return self._map('swapcase', str.swapcase)

  def capitalize(self):
    if not self.t:
      return ''
    return self[:1]._up1() + (self[1:].lower() if len(self.t) > 1 else '')

  def _up1(self):
    return self._map('title', str.title)

  def translate(self, table):
    def fn(c):
      r = table.get(ord(c), c) if hasattr(table, 'get') else table[ord(c)]
      if r is None:
        return ''
      return chr(r) if isinstance(r, int) else r
    return self._map(('translate', id(table), repr(table)), fn)

  def zfill(self, w):
    w = idx(w)
    if len(self.t) == 1 and isinstance(self.t[0], Opaque) and self.t[0].kind == 'num':
      o = self.t[0]
      if o.payload[0] in ('str', '', 'd') and o.payload[2] == 'int':
        return SymStr((Opaque('num', (f'0{w}d',) + o.payload[1:], lambda m: o.render(m).zfill(w)),))
    t = self._flat('zfill')
    if len(t) >= w:
      return self
    if t and cur.decide(f_or([term_eq(t[0], '+'), term_eq(t[0], '-')])):
      return mk(t[:1] + ('0',) * (w - len(t)) + t[1:])
    return mk(('0',) * (w - len(t)) + t)

  def ljust(self, w, c=' '):
    return mk(self.t + (c,) * (idx(w) - len(self)))

  def rjust(self, w, c=' '):
    return mk((c,) * (idx(w) - len(self)) + self.t)

  def center(self, w, c=' '):
    n = idx(w) - len(self)
    if n <= 0:
      return self
    l = n // 2 + (n & idx(w) & 1)
    return mk((c,) * l + self.t + (c,) * (n - l))

  # -- predicates
  def _all(self, name, empty=False):
    t = self._flat(name)
    if not t:
      return empty
    p = getattr(str, name)
    return cur.decide(f_and([self._is(x, name, p) for x in t]))

  def isupper(self):
    return self._cased('isupper', 'islower')

  def islower(self):
    return self._cased('islower', 'isupper')

  def _cased(self, yes, no):
    t = self._flat(yes)
    ny = [self._is(x, yes, getattr(str, yes)) for x in t]
    nn = [f_not(self._is(x, ('bad', no), lambda c: getattr(c, no)() or unicodedata.category(c) == 'Lt')) for x in t]
    return cur.decide(f_and(nn + [f_or(ny)]))

  def isidentifier(self):
    t = self._flat('isidentifier')
    if not t:
      return False
    return cur.decide(f_and([self._is(t[0], 'isidentifier', str.isidentifier)] +
                            [self._is(x, 'idcont', lambda c: ('a' + c).isidentifier()) for x in t[1:]]))

  def encode(self, *a, **k):
    raise Unsupported('encode')

  def __str__(self):
    raise Unsupported('str() outside the modelled calls')

  def __repr__(self):
    return 'SymStr' + repr(self.t)

  def __format__(self, spec):
    raise Unsupported('format() outside the modelled calls')

  def __getattr__(self, name):
    if hasattr(str, name) and not name.startswith('__'):
      return Missing(self, name)
    raise AttributeError(f"'str' object has no attribute '{name}'")

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self


for _n in ('isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isspace'):
  setattr(SymStr, _n, (lambda n: lambda self: self._all(n))(_n))
SymStr.isprintable = lambda self: self._all('isprintable', True)
SymStr.isascii = lambda self: self._all('isascii', True)


def pinned(s):
  """the real string, if the path leaves only one"""
  out = []
  for x in s.t:
    if isinstance(x, Ch):
      d = cur.dom[x.var]
      if d & (d - 1):
        return None
      out.append(x.out(d.bit_length() - 1))
    elif isinstance(x, str):
      out.append(x)
    else:
      return None
  return ''.join(out)


class Missing:
  """a str method that is not modelled"""

  def __init__(self, s, name):
    self.s = s
    self.name = name

  def __call__(self, *a, **k):
    raise Unsupported(f'str.{self.name}')


class Pieces(list):
  """the pieces of a split text; which they are is decided when it matters"""
  __slots__ = ('fn', 'first', 'last')

  def __init__(self, fn, first, last):
    list.__init__(self)
    self.fn = fn
    self.first = first
    self.last = last

  def force(self):
    if self.fn is not None:
      fn, self.fn = self.fn, None
      list.extend(self, fn())
    return self

  def __getitem__(self, k):
    if self.fn is not None and type(k) is int:
      if k == 0:
        return self.first()
      if k == -1 and self.last is not None:
        return self.last()
    return list.__getitem__(self.force(), k)

  def __bool__(self):
    return True

  def __reduce_ex__(self, p):
    return list(self).__reduce_ex__(p)

  def __deepcopy__(self, memo):
    return list(self)

  def copy(self):
    return list(self)


def _pieces_ops():
  for n in ('__len__', '__iter__', '__contains__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__add__', '__iadd__', '__mul__', '__rmul__',
            '__imul__', '__setitem__', '__delitem__', '__reversed__', '__repr__', 'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', 'index', 'count', 'clear'):
    f = getattr(list, n)
    setattr(Pieces, n, lambda self, *a, f=f, **k: f(self.force(), *[x.force() if type(x) is Pieces else x for x in a], **k))


_pieces_ops()


class LazyInt:
  """an integer that is not less than lo; which one is decided when it matters"""
  __slots__ = ('lo', 'fn', 'v')

  def __init__(self, lo, fn):
    self.lo = lo
    self.fn = fn
    self.v = None

  @property
  def __class__(self):
    return int

  def force(self):
    if self.v is None:
      self.v = self.fn()
    return self.v

  def _cmp(self, o, below, how):
    if self.v is None and isinstance(o, (int, float)) and not isinstance(o, (SymInt, SymFloat)) and not issubclass(type(o), LazyInt) and below(o, self.lo):
      # o < lo (or, for < and >=, o <= lo) settles it
      return how(o)
    return NotImplemented if not isinstance(o, (int, float)) else None

  def __eq__(self, o):
    r = self._cmp(o, lambda x, lo: x < lo, lambda x: False)
    return self.force() == o if r is None else r

  def __ne__(self, o):
    r = self._cmp(o, lambda x, lo: x < lo, lambda x: True)
    return self.force() != o if r is None else r

  def __lt__(self, o):
    r = self._cmp(o, lambda x, lo: x <= lo, lambda x: False)
    return self.force() < o if r is None else r

  def __ge__(self, o):
    r = self._cmp(o, lambda x, lo: x <= lo, lambda x: True)
    return self.force() >= o if r is None else r

  def __le__(self, o):
    r = self._cmp(o, lambda x, lo: x < lo, lambda x: False)
    return self.force() <= o if r is None else r

  def __gt__(self, o):
    r = self._cmp(o, lambda x, lo: x < lo, lambda x: True)
    return self.force() > o if r is None else r

  def __bool__(self):
    return self.lo > 0 or self.force() != 0

  def __hash__(self):
    return hash(self.force())

  def __index__(self):
    return self.force()

  __int__ = __index__

  def __float__(self):
    return float(self.force())

  def __str__(self):
    return str(self.force())

  __repr__ = __str__

  def __format__(self, spec):
    return format(self.force(), spec)

  def __getattr__(self, k):
    return getattr(self.force(), k)


class Count(LazyInt):
  """how many of these formulas hold; at least one does"""
  __slots__ = ('fs',)

  def __init__(self, fs):
    LazyInt.__init__(self, 1, lambda: sum(cur.decide(f) for f in fs))
    self.fs = fs

  def __ge__(self, o):
    if self.v is None and type(o) in (int, bool):
      return cur.decide(f_least(self.fs, int(o)))
    return LazyInt.__ge__(self, o)

  def __gt__(self, o):
    if self.v is None and type(o) in (int, bool):
      return cur.decide(f_least(self.fs, int(o) + 1))
    return LazyInt.__gt__(self, o)

  def __lt__(self, o):
    if self.v is None and type(o) in (int, bool):
      return not cur.decide(f_least(self.fs, int(o)))
    return LazyInt.__lt__(self, o)

  def __le__(self, o):
    if self.v is None and type(o) in (int, bool):
      return not cur.decide(f_least(self.fs, int(o) + 1))
    return LazyInt.__le__(self, o)

  def __eq__(self, o):
    if self.v is None and type(o) in (int, bool):
      return cur.decide(f_and([f_least(self.fs, int(o)), f_not(f_least(self.fs, int(o) + 1))]))
    return LazyInt.__eq__(self, o)

  def __ne__(self, o):
    return not self.__eq__(o)

  __hash__ = LazyInt.__hash__


def _lazy_ops():
  import operator
  for n in ('add', 'sub', 'mul', 'floordiv', 'truediv', 'mod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift'):
    f = getattr(operator, n, None) or getattr(operator, n + '_')
    setattr(LazyInt, f'__{n}__', lambda self, o, f=f: f(self.force(), o.force() if issubclass(type(o), LazyInt) else o))
    setattr(LazyInt, f'__r{n}__', lambda self, o, f=f: f(o, self.force()))
  for n in ('neg', 'pos', 'abs', 'invert'):
    f = getattr(operator, n)
    setattr(LazyInt, f'__{n}__', lambda self, f=f: f(self.force()))


_lazy_ops()


def idx(x):
  """a concrete index"""
  if issubclass(type(x), LazyInt):
    return x.force()
  if isinstance(x, SymInt):
    return x.fork_value()
  return x


# ---------------------------------------------------------------- numbers


def _dec(c):
  return unicodedata.decimal(c, None)


DIG = tuple((_dec(c) if _dec(c) is not None else 0) for c in CH)
_dig = {None: DIG}


_ischar = {}


def is_char(tab, c):
  """1 where the character is c"""
  k = (None if tab is None else id(tab), c)
  if k not in _ischar:
    _ischar[k] = (tuple(int(x == c) for x in (CH if tab is None else tab)), tab)
  return _ischar[k][0]


def digtab(tab):
  k = None if tab is None else id(tab)
  if k not in _dig:
    _dig[k] = tuple((_dec(c) if len(c) == 1 and _dec(c) is not None else 0) for c in tab)
  return _dig[k]


def asc_digit(c):
  d = _dec(c)
  return c if d is None else str(d)


class SymInt:
  """terms: ((coef, var, table), ..) + const.  digits: the decimal digits that
  make up the value, when it is exactly the number they spell."""
  __slots__ = ('terms', 'const', 'digits')

  def __init__(self, terms, const=0, digits=None):
    self.terms = tuple(terms)
    self.const = const
    self.digits = digits

  @property
  def __class__(self):
    return int

  @staticmethod
  def of_digits(ts):
    terms = []
    const = 0
    n = len(ts)
    for i, x in enumerate(ts):
      p = 10 ** (n - 1 - i)
      if isinstance(x, str):
        const += p * _dec(x)
      else:
        terms.append((p, x.var, digtab(x.tab)))
    if not terms:
      return const
    digits = []
    for x in ts:
      if isinstance(x, str):
        digits.append(asc_digit(x))
      else:
        # over ASCII digits the table is the identity
        d = cur.dom[x.var]
        if x.tab is None and d & ~C.DIGIT0_9 == 0:
          digits.append(x)
        else:
          digits.append(Ch(x.var, compose(x.tab, 'ascdigit', asc_digit)))
    return SymInt(terms, const, tuple(digits))

  def bounds(self):
    lo = hi = self.const
    for co, v, t in self.terms:
      vals = [t[i] for i in C.bits(cur.dom[v])]
      a, b = min(vals) * co, max(vals) * co
      lo += min(a, b)
      hi += max(a, b)
    return lo, hi

  def fork_value(self):
    lo, hi = self.bounds()
    if lo == hi:
      return lo
    vals = None
    if len(self.terms) == 1:
      co, v, t = self.terms[0]
      vals = sorted({co * t[i] + self.const for i in C.bits(cur.dom[v])})
    elif hi - lo <= 200:
      vals = list(range(lo, hi + 1))
    if vals is None or len(vals) > 256:
      v = tabulate(self, lambda n: n, 'the value of a wide symbolic integer')
      if is_sym(v):
        raise Unsupported('the value of a wide symbolic integer')
      return v
    k = cur.pick([f_lin(self.terms, self.const - x, '==') for x in vals])
    return vals[k]

  def _lin(self, o):
    if isinstance(o, SymInt):
      return self.terms + tuple((-c, v, t) for c, v, t in o.terms), self.const - o.const
    if isinstance(o, (bool, int)):
      return self.terms, self.const - int(o)
    return None

  def _cmp(self, o, how):
    if type(o) is OpaqueNum:
      return promote(self)._cmp(o, how)
    if isinstance(o, SymFloat):
      return SymFloat(self, 0)._cmp(o, how)
    if isinstance(o, float):
      import math
      if o != o or o in (math.inf, -math.inf):
        raise Unsupported('comparison with inf')
      if o == int(o):
        o = int(o)
      else:
        fl = math.floor(o)
        # n < o  iff n <= floor(o);  n <= o the same;  n == o never
        if how == '==':
          return False
        if how in ('<', '<='):
          return self._cmp(fl, '<=')
        return self._cmp(fl, '>')
    l = self._lin(o)
    if l is None:
      return NotImplemented
    ts, c = l
    neg = tuple((-a, v, t) for a, v, t in ts)
    f = {'<': lambda: f_lin(ts, c, '<'), '<=': lambda: f_lin(ts, c - 1, '<'),
         '>': lambda: f_lin(neg, -c, '<'), '>=': lambda: f_lin(neg, -c - 1, '<'),
         '==': lambda: f_lin(ts, c, '==')}[how]()
    return cur.decide(f)

  def __lt__(self, o): return self._cmp(o, '<')
  def __le__(self, o): return self._cmp(o, '<=')
  def __gt__(self, o): return self._cmp(o, '>')
  def __ge__(self, o): return self._cmp(o, '>=')

  def __eq__(self, o):
    r = self._cmp(o, '==')
    return False if r is NotImplemented else r

  def __ne__(self, o):
    return not self.__eq__(o)

  def __hash__(self):
    raise Unsupported('hash of a symbolic integer')

  def __bool__(self):
    return not self.__eq__(0)

  def __neg__(self):
    return SymInt([(-c, v, t) for c, v, t in self.terms], -self.const)

  def __pos__(self):
    return self

  def __abs__(self):
    return self if self.__ge__(0) else -self

  def __add__(self, o):
    if type(o) is OpaqueNum:
      return promote(self) + o
    if isinstance(o, SymInt):
      return SymInt(self.terms + o.terms, self.const + o.const)
    if isinstance(o, (bool, int)):
      return self if o == 0 else SymInt(self.terms, self.const + o)
    if isinstance(o, (float, SymFloat)):
      return SymFloat(self, 0) + o
    return NotImplemented

  __radd__ = __add__

  def __sub__(self, o):
    return self + (-o)

  def __rsub__(self, o):
    return (-self) + o

  def __mul__(self, o):
    if type(o) is OpaqueNum:
      return promote(self) * o
    if isinstance(o, SymInt):
      return self * o.fork_value()
    if isinstance(o, (bool, int)):
      digits = None
      if o > 0 and self.digits and str(o) == '1' + '0' * (len(str(o)) - 1):
        digits = self.digits + ('0',) * (len(str(o)) - 1)
      return SymInt([(c * o, v, t) for c, v, t in self.terms], self.const * o, digits)
    if isinstance(o, float):
      return SymFloat(self, 0) * o
    if isinstance(o, (str, SymStr, list, tuple)):
      return o * self.fork_value()
    return NotImplemented

  __rmul__ = __mul__

  def __truediv__(self, o):
    if type(o) is OpaqueNum:
      return promote(self) / o
    return SymFloat(self, 0) / o

  def _split(self, o):
    """digits, p  when o is the power of ten 10**p"""
    if isinstance(o, int) and o > 0 and self.digits:
      s = str(o)
      if s[0] == '1' and not s[1:].strip('0'):
        return len(s) - 1
    return None

  def __floordiv__(self, o):
    if type(o) is OpaqueNum:
      return promote(self) // o
    p = self._split(o)
    if p is not None:
      d = self.digits[:len(self.digits) - p]
      return SymInt.of_digits(d) if d else 0
    return self._small() // o

  def __mod__(self, o):
    if type(o) is OpaqueNum:
      return promote(self) % o
    p = self._split(o)
    if p is not None:
      d = self.digits[len(self.digits) - p:] if p else ()
      return SymInt.of_digits(d) if d else 0
    return self._small() % o

  def __divmod__(self, o):
    return (self // o, self % o)

  def _small(self):
    lo, hi = self.bounds()
    return self.fork_value() if hi - lo <= 100 else promote(self)

  def __rfloordiv__(self, o):
    return o // self._small()

  def __rmod__(self, o):
    if isinstance(o, (str, SymStr)):
      return NotImplemented
    return o % self._small()

  def __rtruediv__(self, o):
    return o / self._small()

  def __pow__(self, o):
    return self._small() ** o

  def __rpow__(self, o):
    return o ** self._small()

  def _bit(name):
    def f(self, o):
      return getattr(operator, name)(self._small(), o)
    return f

  __and__ = __rand__ = _bit('and_')
  __or__ = __ror__ = _bit('or_')
  __xor__ = __rxor__ = _bit('xor')
  __lshift__ = _bit('lshift')
  __rshift__ = _bit('rshift')
  del _bit

  def __index__(self):
    return self.fork_value()

  def __int__(self):
    return self.fork_value()

  def __float__(self):
    raise Unsupported('float() of a symbolic integer outside the modelled calls')

  def __str__(self):
    raise Unsupported('str() of a symbolic integer')

  def __repr__(self):
    return f'SymInt({self.terms},{self.const})'

  def __format__(self, spec):
    raise Unsupported('format() of a symbolic integer')

  def __deepcopy__(self, memo):
    return self

  def dec(self):
    """('-' or '', decimal digits without leading zeros)"""
    if self.digits is not None and (self.terms or True):
      t = self.digits
      i = 0
      while i < len(t) - 1 and cur.decide(term_eq(t[i], '0')):
        i += 1
      return '', mk(t[i:])
    v = self.fork_value()
    return ('-' if v < 0 else ''), str(abs(v))

  def text(self):
    try:
      s, d = self.dec()
    except Unsupported:
      return promote(self).text()
    return s + d


class SymFloat:
  """n / 10**k, as the float the code computed.  ops: how many rounding
  operations lie between the integer and the float (its text is only known
  for at most one)"""
  __slots__ = ('n', 'k', 'ops', 'fn')

  def __init__(self, n, k, ops=0, fn=None):
    self.n = n
    self.k = k
    self.ops = ops
    self.fn = fn or (lambda n: n / 10 ** k if k else float(n))

  @property
  def __class__(self):
    return float

  def _scale(self, o):
    """p when o is 10**p"""
    if type(o) is int or (type(o) is float and o == o // 1):
      s = str(int(o))
      if s[0] == '1' and not s[1:].strip('0'):
        return len(s) - 1
    return None

  def __truediv__(self, o):
    p = self._scale(o)
    if p is None:
      return promote(self) / o
    if p == 0:
      return self
    fn = self.fn
    return SymFloat(self.n, self.k + p, self.ops + 1, lambda n: fn(n) / o)

  def __mul__(self, o):
    p = self._scale(o)
    if p is not None and p <= self.k:
      fn = self.fn
      return SymFloat(self.n, self.k - p, self.ops + 1 if self.ops else 0, lambda n: fn(n) * o)
    if p is not None and self.ops == 0:
      return SymFloat(self.n * 10 ** (p - self.k), 0)
    for q in (1, 2, 3):
      if type(o) is float and o == float(f'1e-{q}'):
        fn = self.fn
        return SymFloat(self.n, self.k + q, self.ops + 2, lambda n: fn(n) * o)
    return promote(self) * o

  __rmul__ = __mul__

  def _cmp(self, o, how):
    if type(o) is OpaqueNum:
      return promote(self)._cmp(o, how)
    if self.ops > 1:
      return promote(self)._cmp(o, how)
    if isinstance(o, (int, SymInt)):
      o = SymFloat(o, 0)
    if isinstance(o, float) and not isinstance(o, SymFloat):
      from fractions import Fraction
      fr = Fraction(o)
      if fr.denominator != 1:
        # n/10^k ? o   iff  n * den ? num * 10^k   (the division rounds monotonically;
        # only a tie with the rounded float could differ)
        return promote(self)._cmp(o, how)
      o = SymFloat(int(fr), 0)
    if isinstance(o, SymFloat):
      if o.ops > 1:
        return promote(self)._cmp(o, how)
      a, b = self.n * 10 ** o.k, o.n * 10 ** self.k
      if not isinstance(a, SymInt):
        a = SymInt((), a)
      return a._cmp(b, how)
    return NotImplemented

  def __lt__(self, o): return self._cmp(o, '<')
  def __le__(self, o): return self._cmp(o, '<=')
  def __gt__(self, o): return self._cmp(o, '>')
  def __ge__(self, o): return self._cmp(o, '>=')

  def __eq__(self, o):
    r = self._cmp(o, '==')
    return False if r is NotImplemented else r

  def __ne__(self, o):
    return not self.__eq__(o)

  def __bool__(self):
    return not self.__eq__(0)

  def __hash__(self):
    raise Unsupported('hash of a symbolic float')

  def _no(self, *a):
    raise Unsupported('arithmetic on a symbolic float')

  def _up(name):
    def f(self, *o):
      return getattr(promote(self), name)(*o)
    return f

  for _n in ('add', 'radd', 'sub', 'rsub', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'neg', 'pow', 'rpow', 'round', 'abs', 'divmod', 'pos'):
    locals()[f'__{_n}__'] = _up(f'__{_n}__')
  del _up, _n
  __int__ = __float__ = __str__ = __format__ = _no

  def __repr__(self):
    return f'SymFloat({self.n!r}/10^{self.k})'

  def __deepcopy__(self, memo):
    return self

  def fixed(self, p):
    """text with p decimals"""
    n = self.n
    if not isinstance(n, SymInt):
      raise Unsupported('format of a constant symbolic float')
    if n.digits is None:
      return promote(self).formatted(f'.{p}f')
    else:
      digits = n.digits
    if len(digits) > 15:
      raise Unsupported('a float of more than 15 digits')
    k = self.k
    if p < k:
      return promote(self).formatted(f'.{p}f')
    if len(digits) <= k:
      digits = ('0',) * (k + 1 - len(digits)) + digits
    ip, fp = digits[:len(digits) - k], digits[len(digits) - k:]
    i = 0
    while i < len(ip) - 1 and cur.decide(term_eq(ip[i], '0')):
      i += 1
    r = ip[i:]
    if p:
      r = r + ('.',) + fp + ('0',) * (p - k)
    return mk(r)

  def text(self):
    if self.ops > 1:
      return promote(self).text()
    s = self.fixed(max(self.k, 1))
    t = terms_of(s)
    if any(isinstance(x, Opaque) for x in t):
      return promote(self).text()
    i = len(t)
    while i > 2 and isinstance(t[i - 2], (str, Ch)) and t[i - 2] != '.' and cur.decide(term_eq(t[i - 1], '0')):
      i -= 1
    return mk(t[:i])


NUMBERS = (int, float, decimal.Decimal, fractions.Fraction)


def promote(x):
  """any symbolic number as a function of what it was made from"""
  t = type(x)
  if t is OpaqueNum:
    return x
  if t is SymInt:
    return OpaqueNum(int, lambda n: n, x, ('int',))
  return OpaqueNum(float, x.fn, x.n, ('float', x.k) if x.ops < 2 else (Same(x.fn),))


class OpaqueNum:
  """a number that is fn(value of src): what an unusual literal (exponent, sign, underscore, inf ..)
  stands for, or the result of arithmetic that is not linear.  Questions about it are
  settled value by value, if there are not too many"""
  __slots__ = ('kind', 'fn', 'src', 'tag')

  def __init__(self, kind, fn, src, tag=()):
    self.kind = kind
    self.fn = fn
    self.src = src
    self.tag = tag

  @property
  def __class__(self):
    return self.kind

  def _bin(self, o, name, swap=False, total=True):
    op = getattr(operator, name) if name != 'divmod' else divmod
    if issubclass(type(o), LazyInt):
      o = o.force()
    if is_sym(o):
      if type(o) is SymStr:
        return NotImplemented
      o = promote(o)
    elif not isinstance(o, NUMBERS):
      return NotImplemented
    f = self.fn
    if is_sym(o):
      g = o.fn
      src = [self.src, o.src]
      fn = (lambda s: op(g(s[1]), f(s[0]))) if swap else (lambda s: op(f(s[0]), g(s[1])))
      tag = self.tag + o.tag + (name, swap)
      other = o.kind
    else:
      src = self.src
      fn = (lambda s: op(o, f(s))) if swap else (lambda s: op(f(s), o))
      tag = self.tag + ((name, swap, repr(o)),)
      other = type(o)
    if name in ('add', 'sub', 'mul', 'truediv') and not (name == 'truediv' and (swap or is_sym(o))):
      if not is_sym(o) and name == 'truediv' and o == 0:
        raise ZeroDivisionError('division by zero')
      ks = {self.kind, other} - {bool}
      kind = decimal.Decimal if decimal.Decimal in ks else float if float in ks or name == 'truediv' and fractions.Fraction not in ks else \
        fractions.Fraction if fractions.Fraction in ks else int
      return OpaqueNum(kind, fn, src, tag)
    return tabulate(src, fn, 'arithmetic on an unusual number')

  def _op(name, swap=False):
    return lambda self, o: self._bin(o, name, swap)

  for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    locals()[f'__{_n}__'] = _op(_n)
    locals()[f'__r{_n}__'] = _op(_n, True)
  for _n, _m in (('and', 'and_'), ('or', 'or_'), ('xor', 'xor'), ('lshift', 'lshift'), ('rshift', 'rshift')):
    locals()[f'__{_n}__'] = _op(_m)
  del _op, _n, _m

  def __divmod__(self, o):
    return (self // o, self % o)

  def _map(self, g, name):
    f = self.fn
    return tabulate(self.src, lambda s: g(f(s)), name + ' of an unusual number')

  def __neg__(self):
    f = self.fn
    return OpaqueNum(self.kind, lambda s: -f(s), self.src, self.tag + ('neg',))

  def __pos__(self):
    return self

  def __abs__(self):
    return self._map(abs, 'abs')

  def __round__(self, n=None):
    return self._map(lambda x: round(x, n) if n is not None else round(x), 'round')

  def _cmp(self, o, how):
    if issubclass(type(o), LazyInt):
      o = o.force()
    if is_sym(o):
      if type(o) is SymStr:
        return NotImplemented
      o = promote(o)
    elif not isinstance(o, NUMBERS):
      return NotImplemented
    op = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq}[how]
    f = self.fn
    if is_sym(o):
      g = o.fn
      q = f_table([self.src, o.src], lambda s: op(f(s[0]), g(s[1])))
    else:
      q = f_table(self.src, lambda s: op(f(s), o))
    if q is None:
      raise Unsupported('a question about an unusual number')
    return cur.decide(q)

  def __lt__(self, o): return self._cmp(o, '<')
  def __le__(self, o): return self._cmp(o, '<=')
  def __gt__(self, o): return self._cmp(o, '>')
  def __ge__(self, o): return self._cmp(o, '>=')

  def __eq__(self, o):
    r = self._cmp(o, '==')
    return False if r is NotImplemented else r

  def __ne__(self, o):
    return not self.__eq__(o)

  def __bool__(self):
    return not self.__eq__(0)

  def _no(self, *a):
    raise Unsupported('a question about an unusual number')

  __hash__ = __float__ = __str__ = __format__ = _no

  def __index__(self):
    r = tabulate(self.src, self.fn, 'the value of an unusual number')
    if is_sym(r):
      raise Unsupported('the value of an unusual number')
    return r

  def __int__(self):
    r = self._map(int, 'int')
    if is_sym(r):
      raise Unsupported('the value of an unusual number')
    return r

  def __repr__(self):
    return f'OpaqueNum({self.src!r})'

  def __getattr__(self, name):
    if name.startswith('_') or not hasattr(self.kind, name):
      raise AttributeError(f"'{self.kind.__name__}' object has no attribute '{name}'")
    if not callable(getattr(self.kind, name)):
      return self._map(lambda x: getattr(x, name), name)
    return Missing(self, name)

  def __deepcopy__(self, memo):
    return self

  def formatted(self, spec):
    fn, src = self.fn, self.src
    return SymStr((Opaque('num', (spec, src, self.kind.__name__, self.tag), lambda m: format(fn(realise(src, m)), spec)),))

  def text(self):
    fn, src = self.fn, self.src
    return SymStr((Opaque('num', ('str', src, self.kind.__name__, self.tag), lambda m: str(fn(realise(src, m)))),))


def num_eq(a, b):
  if isinstance(a, OpaqueNum) or isinstance(b, OpaqueNum):
    if a is b:
      return True
    if not all(isinstance(x, NUMBERS) and not isinstance(x, bool) for x in (a, b)):
      return False
    x = [promote(y) if is_sym(y) else y for y in (a, b)]
    f = f_table(x, lambda r: type(r[0]) is type(r[1]) and r[0] == r[1])
    if f is None:
      raise Unsupported('comparison of unusual numbers')
    return f
  fa, fb = isinstance(a, float), isinstance(b, float)
  if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
    return False
  if fa != fb:
    return False
  def norm(x):
    if isinstance(x, SymFloat):
      return x.n, x.k
    if isinstance(x, float):
      return None, 0
    return x, 0
  (na, ka), (nb, kb) = norm(a), norm(b)
  if na is None or nb is None:
    f = f_table([a, b], lambda r: r[0] == r[1])
    if f is None:
      raise Unsupported('comparison of a symbolic and a concrete float')
    return f
  na, nb = na * 10 ** kb, nb * 10 ** ka
  ta, ca = (na.terms, na.const) if isinstance(na, SymInt) else ((), na)
  tb, cb = (nb.terms, nb.const) if isinstance(nb, SymInt) else ((), nb)
  return f_lin(list(ta) + [(-c, v, t) for c, v, t in tb], ca - cb, '==')


SYM = (SymStr, SymInt, SymFloat, OpaqueNum)
_types = {SymStr, SymInt, SymFloat, OpaqueNum}


def is_sym(x):
  return type(x) in _types


def deep_sym(x, depth=4):
  t = type(x)
  if t in _types:
    return True
  if depth and t in (list, tuple, set, frozenset):
    for y in x:
      if deep_sym(y, depth - 1):
        return True
  elif depth and isinstance(x, dict):
    for k, v in x.items():
      if type(k) in _types or deep_sym(v, depth - 1):
        return True
  elif depth and isinstance(x, BaseException):
    return deep_sym(x.args, depth - 1)
  return False


def vars_in(x, acc=None):
  acc = [] if acc is None else acc
  t = type(x)
  if t is SymStr:
    for y in x.t:
      if isinstance(y, Ch):
        if y.var not in acc:
          acc.append(y.var)
      elif isinstance(y, Opaque):
        vars_in(y.payload, acc)
  elif t is SymInt:
    for _, v, _t in x.terms:
      if v not in acc:
        acc.append(v)
  elif t is SymFloat:
    vars_in(x.n, acc)
  elif t is OpaqueNum:
    vars_in(x.src, acc)
  elif t in (list, tuple, set, frozenset):
    for y in x:
      vars_in(y, acc)
  elif isinstance(x, dict):
    for k, v in x.items():
      vars_in(k, acc)
      vars_in(v, acc)
  elif isinstance(x, BaseException):
    vars_in(x.args, acc)
  return acc


def realise(x, m):
  """the concrete value of x under the assignment m {var: index}"""
  t = type(x)
  if t is SymStr:
    out = []
    for y in x.t:
      if isinstance(y, str):
        out.append(y)
      elif isinstance(y, Ch):
        out.append(y.out(m[y.var]))
      else:
        out.append(y.render(m))
    return ''.join(out)
  if t is SymInt:
    return x.const + sum(co * tb[m[v]] for co, v, tb in x.terms)
  if t is SymFloat:
    return x.fn(realise(x.n, m))
  if t is OpaqueNum:
    return x.fn(realise(x.src, m))
  if t in (list, tuple, set, frozenset):
    return t(realise(y, m) for y in x)
  if t is dict:
    return {realise(k, m): realise(v, m) for k, v in x.items()}
  return x


def concrete(x, why):
  """pin everything symbolic in x to sample values"""
  cur.concretise(vars_in(x), why)
  m = {v: (cur.dom[v]).bit_length() - 1 for v in vars_in(x)}
  return realise(x, m)


# ---------------------------------------------------------------- int() and float()


def _accepts(ts, kind):
  """formula: the characters ts are a literal that int() / float() accepts"""
  def cls(x, name, pred):
    if isinstance(x, str):
      return pred(x)
    return f_in(x.var, tmask(x, ('num', name), pred))
  dig = lambda x: cls(x, 'd', lambda c: _dec(c) is not None)
  one = lambda x, s: cls(x, s, lambda c: c in s)
  # states: S start, G after sign, I int digits, U underscore after int digits, P point after digits,
  # Q point first, F fraction digits, V underscore in the fraction, X exponent letter, Y its sign,
  # Z exponent digits, W underscore in the exponent
  tr = [('S', '+-', 'G'), ('S', 'd', 'I'), ('G', 'd', 'I'), ('I', 'd', 'I'), ('I', '_', 'U'), ('U', 'd', 'I')]
  acc = {'I'}
  if kind is float:
    tr += [('I', '.', 'P'), ('S', '.', 'Q'), ('G', '.', 'Q'), ('Q', 'd', 'F'), ('P', 'd', 'F'), ('F', 'd', 'F'),
           ('F', '_', 'V'), ('V', 'd', 'F'), ('I', 'eE', 'X'), ('P', 'eE', 'X'), ('F', 'eE', 'X'),
           ('X', '+-', 'Y'), ('X', 'd', 'Z'), ('Y', 'd', 'Z'), ('Z', 'd', 'Z'), ('Z', '_', 'W'), ('W', 'd', 'Z')]
    acc |= {'P', 'F', 'Z'}
  st = {'S': True}
  for x in ts:
    nx = {}
    for a, s, b in tr:
      if a in st:
        f = f_and([st[a], dig(x) if s == 'd' else one(x, s)])
        if f is not False:
          nx.setdefault(b, []).append(f)
    st = {b: f_or(fs) for b, fs in nx.items()}
  alts = [f for s, f in st.items() if s in acc]
  if kind is float:
    for w in ('inf', 'infinity', 'nan'):
      for sg in (0, 1):
        if len(ts) == len(w) + sg:
          fs = [one(ts[0], '+-')] if sg else []
          fs += [one(x, c + c.upper()) for x, c in zip(ts[sg:], w)]
          alts.append(f_and(fs))
  return f_or(alts)


def parse_number(s, kind):
  s._flat('value')
  if len(s.t) > 40:
    raise Unsupported('a long number')

  def alldec(x):
    t = terms_of(x)
    return f_and([(_dec(c) is not None) if isinstance(c, str) else f_in(c.var, tmask(c, 'isdec', lambda y: _dec(y) is not None))
                  for c in t])

  def good(x):
    t = terms_of(x)
    if type(x) is str:
      return kind(x)
    n = SymInt.of_digits(t)
    if kind is not float:
      return n if kind is int or is_sym(n) else kind(n)
    if not isinstance(n, SymInt):
      return float(n)
    if len(t) > 15:
      raise Unsupported('a float of more than 15 digits')
    return SymFloat(n, 0)

  if cur.decide(alldec(s)):
    return good(s)
  s = s.strip()
  if type(s) is str:
    return kind(s)
  if cur.decide(alldec(s)):
    return good(s)
  if kind is decimal.Decimal:
    return tabulate(s, kind, 'Decimal of an unusual literal')
  if cur.decide(_accepts(s.t, kind)):
    return OpaqueNum(kind, kind, s)
  raise ValueError(mk(tuple(f'invalid literal for {kind.__name__}(): ') + s.t))
