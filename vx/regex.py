"""re on symbolic strings: a backtracking matcher over the parsed pattern."""
import re
from re import _parser as P, _constants as S
from . import core as K
from .core import SymStr, Unsupported, is_sym, mk, f_in, f_or, f_and, f_not, tmask


def _cat(code):
  return {
    S.CATEGORY_DIGIT: lambda c: c.isdecimal(), S.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    S.CATEGORY_SPACE: lambda c: c.isspace(), S.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    S.CATEGORY_WORD: lambda c: c.isalnum() or c == '_', S.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
  }[code]


def _ascii(p):
  return lambda c: c.isascii() and p(c)


def _not(p):
  return lambda c: not p(c)


def _cat_a(code):
  """with re.ASCII"""
  n = str(code)
  pos = {'NOT_DIGIT': S.CATEGORY_DIGIT, 'NOT_SPACE': S.CATEGORY_SPACE, 'NOT_WORD': S.CATEGORY_WORD}.get(n.replace('CATEGORY_', ''))
  base = {S.CATEGORY_DIGIT: '0123456789', S.CATEGORY_SPACE: ' \t\n\r\f\v'}.get(pos or code)
  p = (lambda c: c in base) if base is not None else _ascii(_cat(S.CATEGORY_WORD))
  return _not(p) if pos else p


def _in_pred(items, flags):
  neg = False
  preds = []
  for op, av in items:
    if op is S.NEGATE:
      neg = True
    elif op is S.LITERAL:
      preds.append(lambda c, x=chr(av): c == x)
    elif op is S.RANGE:
      preds.append(lambda c, a=av[0], b=av[1]: a <= ord(c) <= b)
    elif op is S.CATEGORY:
      preds.append((_cat_a if flags & re.ASCII else _cat)(av))
    else:
      raise Unsupported(f'regex {op}')
  if flags & re.IGNORECASE:
    if flags & re.ASCII:
      raise Unsupported('regex ASCII flag')
    base = preds
    preds = [lambda c: any(p(c.lower()) or p(c.upper()) or p(c) for p in base)]
  return lambda c: any(p(c) for p in preds) != neg


class Match:
  def __init__(self, pat, s, spans, b, e):
    self.re = pat
    self.string = s
    self.spans = spans
    self.b = b
    self.e = e

  def _g(self, i):
    if i == 0:
      return (self.b, self.e)
    if isinstance(i, str):
      i = self.re.groupindex[i]
    if i > self.re.groups:
      raise IndexError('no such group')
    return self.spans.get(i)

  def group(self, *gs):
    gs = gs or (0,)
    out = []
    for g in gs:
      sp = self._g(g)
      out.append(None if sp is None else self.string[sp[0]:sp[1]])
    return out[0] if len(out) == 1 else tuple(out)

  __getitem__ = group

  def groups(self, default=None):
    return tuple(default if self._g(i) is None else self.group(i) for i in range(1, self.re.groups + 1))

  def groupdict(self, default=None):
    return {n: (default if self._g(i) is None else self.group(i)) for n, i in self.re.groupindex.items()}

  def span(self, g=0):
    return self._g(g) or (-1, -1)

  def start(self, g=0):
    return self.span(g)[0]

  def end(self, g=0):
    return self.span(g)[1]

  def __bool__(self):
    return True


class M:
  def __init__(self, pat, s):
    self.pat = pat
    self.s = s
    self.t = s._flat('regex')
    self.flags = pat.flags
    self.tree = list(P.parse(pat.pattern, pat.flags & ~re.DEBUG))

  def test(self, i, key, pred):
    if i >= len(self.t):
      return False
    x = self.t[i]
    f = pred(x) if isinstance(x, str) else f_in(x.var, tmask(x, ('re', key, self.flags), pred))
    return K.cur.decide(f)

  def seq(self, ops, k, i, sp, cont):
    """match ops[k:] at i, then cont(i, spans)"""
    if k == len(ops):
      return cont(i, sp)
    op, av = ops[k]
    nxt = lambda j, q: self.seq(ops, k + 1, j, q, cont)
    if op is S.LITERAL or op is S.NOT_LITERAL:
      x = chr(av)
      ic = self.flags & re.IGNORECASE
      eq = (lambda c: c.lower() == x.lower()) if ic else (lambda c: c == x)
      pred = eq if op is S.LITERAL else (lambda c: not eq(c))
      return self.test(i, (str(op), av), pred) and nxt(i + 1, sp)
    if op is S.ANY:
      d = self.flags & re.DOTALL
      return self.test(i, 'any', lambda c: bool(d) or c != '\n') and nxt(i + 1, sp)
    if op is S.IN:
      return self.test(i, repr(av), _in_pred(av, self.flags)) and nxt(i + 1, sp)
    if op is S.BRANCH:
      for alt in av[1]:
        r = self.seq(list(alt), 0, i, sp, nxt)
        if r:
          return r
      return False
    if op is S.SUBPATTERN:
      g, af, df, p = av
      if af or df:
        raise Unsupported('regex inline flags')
      return self.seq(list(p), 0, i, sp, lambda j, q: nxt(j, {**q, g: (i, j)} if g is not None else q))
    if op in (S.MAX_REPEAT, S.MIN_REPEAT):
      lo, hi, p = av
      p = list(p)
      greedy = op is S.MAX_REPEAT

      def rep(n, j, q):
        def more():
          if hi is not S.MAXREPEAT and n >= hi:
            return False
          return self.seq(p, 0, j, q, lambda j2, q2: (j2 > j or n < lo) and rep(n + 1, j2, q2))
        if n < lo:
          return more()
        if greedy:
          return more() or nxt(j, q)
        return nxt(j, q) or more()
      return rep(0, i, sp)
    if op in (S.ASSERT, S.ASSERT_NOT):
      d, p = av
      p = list(p)
      if d > 0:
        r = self.seq(p, 0, i, sp, lambda j, q: (q,))
      else:
        lo, hi = P.SubPattern(P.State(), p).getwidth()
        if lo != hi:
          raise Unsupported('regex look-behind')
        r = i >= lo and self.seq(p, 0, i - lo, sp, lambda j, q: (q,))
      if op is S.ASSERT:
        return r and nxt(i, r[0])
      return not r and nxt(i, sp)
    if op is S.GROUPREF:
      if sp.get(av) is None:
        return False
      b, e = sp[av]
      n = e - b
      if i + n > len(self.t) or self.flags & re.IGNORECASE:
        if i + n > len(self.t):
          return False
        raise Unsupported('regex back reference')
      return K.cur.decide(K.str_eq(mk(self.t[b:e]), mk(self.t[i:i + n]))) and nxt(i + n, sp)
    if op is S.ATOMIC_GROUP or op is S.POSSESSIVE_REPEAT:
      inner = list(av) if op is S.ATOMIC_GROUP else [(S.MAX_REPEAT, av)]
      r = self.seq(inner, 0, i, sp, lambda j, q: (j, q))
      return r and nxt(*r)
    if op is S.AT and av in (S.AT_BOUNDARY, S.AT_NON_BOUNDARY):
      word = _cat_a(S.CATEGORY_WORD) if self.flags & re.ASCII else _cat(S.CATEGORY_WORD)
      a = i > 0 and self.test(i - 1, 'word', word)
      b = self.test(i, 'word', word)
      return (a != b) == (av is S.AT_BOUNDARY) and len(self.t) > 0 and nxt(i, sp)
    if op is S.AT and self.flags & re.MULTILINE and av in (S.AT_BEGINNING, S.AT_END):
      nl = lambda c: c == '\n'
      if av is S.AT_BEGINNING:
        return (i == 0 or self.test(i - 1, 'nl', nl)) and nxt(i, sp)
      return (i == len(self.t) or self.test(i, 'nl', nl)) and nxt(i, sp)
    if op is S.AT:
      n = len(self.t)
      if av in (S.AT_BEGINNING, S.AT_BEGINNING_STRING):
        return i == 0 and nxt(i, sp)
      if av is S.AT_END_STRING:
        return i == n and nxt(i, sp)
      if av is S.AT_END and not self.flags & re.MULTILINE:
        if i == n:
          return nxt(i, sp)
        return i == n - 1 and self.test(i, 'nl', lambda c: c == '\n') and nxt(i, sp)
      raise Unsupported(f'regex {av}')
    raise Unsupported(f'regex {op}')

  def at(self, i, full=False, grow=False):
    n = len(self.t)

    def fin(j, sp):
      if full and j != n or grow and j == i:
        return False
      return Match(self.pat, self.s, sp, i, j)
    return self.seq(self.tree, 0, i, {}, fin) or None


def finditer(m):
  i = 0
  grow = False                        # right after an empty match: not another one
  while i <= len(m.t):
    r = m.at(i, grow=grow)
    if r:
      yield r
      grow = r.e == r.b
      i = r.e
    else:
      grow = False
      i += 1


def compiled(p, flags=0):
  return p if isinstance(p, re.Pattern) else re.compile(p, flags)


def single(m):
  """the predicate of a pattern that is one character, or None"""
  if len(m.tree) != 1:
    return None
  op, av = m.tree[0]
  if op is S.LITERAL and not m.flags & re.IGNORECASE:
    return lambda c: c == chr(av)
  if op is S.NOT_LITERAL and not m.flags & re.IGNORECASE:
    return lambda c: c != chr(av)
  if op is S.IN:
    return _in_pred(av, m.flags)
  return None


def expand(m, repl):
  """what a match is replaced with"""
  if not isinstance(repl, str):
    from . import rt
    return rt.call(repl, m)
  if is_sym(repl):
    raise Unsupported('re.sub with a symbolic template')
  if '\\' not in repl:
    return repl
  out = ''
  t = P.parse_template(repl, m.re)
  if isinstance(t, list):             # 3.12: [text, group, text ..]
    for x in t:
      out = out + (x if isinstance(x, str) else m.group(x) or '')
    return out
  raise Unsupported('re.sub template')


def sub(p, repl, s, count=0, flags=0):
  p = compiled(p, flags)
  m = M(p, s)
  one = single(m)
  if one is not None and type(repl) is str and len(repl) == 1 and repl != '\\' and not count:
    return s._map(('re.sub', p.pattern, p.flags, repl), lambda c: repl if one(c) else c), None
  out = ''
  last = n = 0
  for r in do('finditer', p, s):
    out = out + s[last:r.b] + expand(r, repl)
    last = r.e
    n += 1
    if n == count:
      break
  return out + s[last:], n


def do(kind, p, s, flags=0):
  p = compiled(p, flags)
  if kind == 'findall':
    out = []
    for r in do('finditer', p, s):
      g = [x if x is not None else '' for x in r.groups()]
      out.append(r.group() if not g else g[0] if len(g) == 1 else tuple(g))
    return out
  m = M(p, s)
  if kind == 'match':
    return m.at(0)
  if kind == 'fullmatch':
    return m.at(0, True)
  if kind == 'search':
    for i in range(len(m.t) + 1):
      r = m.at(i)
      if r:
        return r
    return None
  if kind == 'finditer':
    return finditer(m)
  if kind == 'split':
    out = []
    last = 0
    for r in finditer(m):
      out.append(s[last:r.b])
      out.extend(r.groups())
      last = r.e
    return out + [s[last:]]
  raise Unsupported(f're.{kind}')


KINDS = ('match', 'fullmatch', 'search', 'finditer', 'findall', 'split')


def install(HOOKS):
  from . import rt

  def h_sub(p, repl, s, count=0, flags=0):
    if type(s) is SymStr:
      return sub(p, repl, s, count, flags)[0]
    if callable(repl):
      return re.sub(p, lambda m: rt.call(repl, m), s, count=count, flags=flags)
    return re.sub(p, repl, s, count=count, flags=flags)
  HOOKS[re.sub] = h_sub
  for kind in KINDS:
    real = getattr(re, kind)

    def h(p, s, flags=0, kind=kind, real=real):
      if type(s) is SymStr:
        return do(kind, p, s, flags)
      return real(p, s, flags)
    HOOKS[real] = h

  base = rt.c_method

  def c_method(f, a, k):
    s = getattr(f, '__self__', None)
    if type(s) is re.Pattern and f.__name__ in KINDS and len(a) == 1 and not k and type(a[0]) is SymStr:
      try:
        return do(f.__name__, s, a[0])
      except Unsupported as e:
        return rt.concrete_call(f, a, k, str(e))
    if type(s) is re.Pattern and f.__name__ == 'sub' and len(a) >= 2 and type(a[1]) is SymStr:
      try:
        return sub(s, *a, **k)[0]
      except Unsupported as e:
        return rt.concrete_call(f, a, k, str(e))
    return base(f, a, k)
  rt.c_method = c_method
