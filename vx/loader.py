"""Loads the package from its source, rewritten so that the operations which
CPython's C code would not do on symbolic values go through rt.

The rewriting is purely local (one expression at a time) and knows nothing of
what the package does; on concrete values every rewritten expression does what
the original did."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from . import rt

SRC = '/repo/src'
PKG = 'arinc424'
SKIP = {'super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir'}


def _v(name):
  return ast.Attribute(ast.Name('_vx', ast.Load()), name, ast.Load())


OPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Sub: 'sub', ast.BitAnd: 'and_', ast.BitOr: 'or_', ast.BitXor: 'xor'}


class Rewrite(ast.NodeTransformer):
  def __init__(self, mod):
    self.mod = mod
    self.path = []

  def visit_FunctionDef(self, n):
    self.path.append(n.name)
    decs = [self.visit(d) for d in n.decorator_list]
    decs = [d if isinstance(d, ast.Call) or isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property')
            else ast.Call(_v('deco'), [d], []) for d in decs]
    n.decorator_list = []
    n = self.generic_visit(n)
    n.decorator_list = decs
    doc = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
    n.body.insert(doc, ast.Expr(ast.Call(_v('enter'), [ast.Constant(f'{self.mod}.{".".join(self.path)}')], [])))
    self.path.pop()
    return n

  visit_AsyncFunctionDef = visit_FunctionDef

  def visit_ClassDef(self, n):
    self.path.append(n.name)
    n = self.generic_visit(n)
    self.path.pop()
    return n

  def visit_Call(self, n):
    n = self.generic_visit(n)
    if isinstance(n.func, ast.Name) and n.func.id in SKIP:
      return n
    return ast.Call(_v('call'), [n.func] + n.args, n.keywords)

  # where only the truth of d.get(k) matters, or whether it is None, it is not decided which entry it is
  def truth(self, n):
    if self.is_get(n):
      return ast.Call(_v('truthy_get'), [self.visit(n.func.value), self.visit(n.args[0])], [])
    if isinstance(n, ast.BoolOp):
      n.values = [self.truth(x) for x in n.values]
      return n
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      n.operand = self.truth(n.operand)
      return n
    return self.visit(n)

  @staticmethod
  def is_get(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 1 and not n.keywords and \
      not isinstance(n.args[0], ast.Starred)

  def visit_If(self, n):
    n.test = self.truth(n.test)
    n.body = self.block(n.body)
    n.orelse = self.block(n.orelse)
    return n

  visit_While = visit_If

  def block(self, body):
    out = []
    for x in body:
      r = self.visit(x)
      out += r if isinstance(r, list) else [r] if r is not None else []
    return out

  def visit_IfExp(self, n):
    n.test = self.truth(n.test)
    n.body = self.visit(n.body)
    n.orelse = self.visit(n.orelse)
    return n

  def visit_UnaryOp(self, n):
    if isinstance(n.op, ast.Not):
      return self.truth(n)
    return self.generic_visit(n)

  def visit_comprehension(self, n):
    n.target = self.visit(n.target)
    n.iter = self.visit(n.iter)
    n.ifs = [self.truth(x) for x in n.ifs]
    return n

  def visit_Compare(self, n):
    if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and self.is_get(n.left) and \
        isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
      c = ast.Call(_v('none_get'), [self.visit(n.left.func.value), self.visit(n.left.args[0])], [])
      return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.IsNot) else c
    n = self.generic_visit(n)
    if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
      # evaluation order: left operand first
      c = ast.Call(_v('contains_lr'), [n.left, n.comparators[0]], [])
      return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c
    if len(n.ops) == 1 and type(n.ops[0]) in OPS and not isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant):
      return ast.Call(_v('compare'), [ast.Constant(OPS[type(n.ops[0])]), n.left, n.comparators[0]], [])
    return n

  def visit_Subscript(self, n):
    n = self.generic_visit(n)
    if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice):
      if isinstance(n.slice, ast.Constant) and not isinstance(n.slice.value, str):
        return n
      return ast.Call(_v('sub'), [n.value, n.slice], [])
    return n

  def visit_AnnAssign(self, n):
    # annotations are left alone
    n.target = self.visit(n.target)
    if n.value is not None:
      n.value = self.visit(n.value)
    return n

  def visit_arg(self, n):
    return n

  def visit_Assign(self, n):
    n = self.generic_visit(n)
    if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice):
      t = n.targets[0]
      return ast.Expr(ast.Call(_v('assign'), [n.value, t.value, t.slice], []))
    return n

  def visit_AugAssign(self, n):
    n = self.generic_visit(n)
    if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
      return ast.Assign([n.target], ast.Call(_v('mod'), [ast.Name(n.target.id, ast.Load()), n.value], []))
    if isinstance(n.target, ast.Subscript) and not isinstance(n.target.slice, ast.Slice):
      fn = ast.Lambda(ast.arguments([], [ast.arg('a'), ast.arg('b')], None, [], [], None, []),
                      ast.BinOp(ast.Name('a', ast.Load()), n.op, ast.Name('b', ast.Load())))
      return ast.Expr(ast.Call(_v('aug'), [n.target.value, n.target.slice, fn, n.value], []))
    return n

  def visit_Delete(self, n):
    n = self.generic_visit(n)
    if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and not isinstance(n.targets[0].slice, ast.Slice):
      t = n.targets[0]
      return ast.Expr(ast.Call(_v('delitem'), [t.value, t.slice], []))
    return n

  def visit_BinOp(self, n):
    n = self.generic_visit(n)
    if isinstance(n.op, ast.Mod):
      return ast.Call(_v('mod'), [n.left, n.right], [])
    if type(n.op) in OPS and not isinstance(n.left, ast.Constant) and not isinstance(n.right, ast.Constant):
      return ast.Call(_v('setop'), [ast.Constant(OPS[type(n.op)]), n.left, n.right], [])
    return n

  def visit_JoinedStr(self, n):
    parts = []
    for p in n.values:
      if isinstance(p, ast.Constant):
        parts.append(p)
      else:
        spec = ast.Constant('') if p.format_spec is None else self.visit_JoinedStr(p.format_spec)
        c = ast.Constant(None) if p.conversion == -1 else ast.Constant(chr(p.conversion))
        parts.append(ast.Tuple([self.visit(p.value), c, spec], ast.Load()))
    return ast.Call(_v('fstring'), parts, [])

  def visit_Dict(self, n):
    n = self.generic_visit(n)
    if all(isinstance(k, ast.Constant) for k in n.keys):
      return n
    return ast.Call(_v('mkdict'), [ast.List([ast.Tuple([_v('STAR') if k is None else k, v], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load())], [])

  def visit_DictComp(self, n):
    n = self.generic_visit(n)
    return ast.Call(_v('mkdict'), [ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])

  def visit_Set(self, n):
    n = self.generic_visit(n)
    if all(isinstance(k, ast.Constant) for k in n.elts):
      return n
    return ast.Call(_v('mkset'), [ast.List(n.elts, ast.Load())], [])

  def visit_SetComp(self, n):
    n = self.generic_visit(n)
    return ast.Call(_v('mkset'), [ast.ListComp(n.elt, n.generators)], [])

  def visit_Try(self, n):
    n = self.generic_visit(n)
    if n.handlers:
      n.handlers.insert(0, ast.ExceptHandler(_v('Control'), None, [ast.Raise(None, None)]))
    return n

  def visit_Match(self, n):
    # patterns are left alone; guards and bodies are rewritten
    n.subject = self.visit(n.subject)
    for c in n.cases:
      if c.guard is not None:
        c.guard = self.visit(c.guard)
      c.body = [x for s in c.body for x in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))]
    return n


def contains_lr(x, c):
  return rt.contains(c, x)


def assign(v, d, k):
  rt.setitem(d, k, v)


def aug(d, k, fn, v):
  old = rt.sub(d, k)
  rt.setitem(d, k, fn(old, v))


rt.contains_lr = contains_lr
rt.assign = assign
rt.aug = aug


class Code:
  def __init__(self, src=SRC):
    self.src = src
    self.code = {}
    self.lines = 0
    root = os.path.join(src, PKG)
    for d, dirs, files in os.walk(root):
      dirs[:] = sorted(x for x in dirs if x != '__pycache__')
      for f in sorted(files):
        if not f.endswith('.py'):
          continue
        p = os.path.join(d, f)
        rel = os.path.relpath(p, src)[:-3].split(os.sep)
        pkg = rel[-1] == '__init__'
        name = '.'.join(rel[:-1] if pkg else rel)
        with open(p, encoding='utf-8') as fh:
          text = fh.read()
        self.lines += text.count('\n')
        tree = Rewrite(name).visit(ast.parse(text, p))
        ast.fix_missing_locations(tree)
        self.code[name] = (compile(tree, p, 'exec', dont_inherit=True), pkg, p)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  def __init__(self, code):
    self.code = code

  def find_spec(self, name, path, target=None):
    if name not in self.code.code:
      return None
    c, pkg, p = self.code.code[name]
    spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
    if pkg:
      spec.submodule_search_locations = [os.path.dirname(p)]
    return spec

  def create_module(self, spec):
    return None

  def exec_module(self, m):
    c, pkg, p = self.code.code[m.__name__]
    m.__dict__['_vx'] = rt
    m.__dict__['__file__'] = p
    exec(c, m.__dict__)


_finder = None


def setup(src=SRC, site='/opt/venv/lib/python3.12/site-packages'):
  global _finder
  if site not in sys.path:
    sys.path.append(site)
  _finder = Finder(Code(src))
  sys.meta_path.insert(0, _finder)
  rt.install(None)
  return _finder.code


def fresh():
  """the package, newly executed: nothing a previous path did to it is left"""
  for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
    del sys.modules[n]
  import importlib
  return importlib.import_module(PKG)
