"""What a harness sees.  The same harness runs symbolically (symenv.py) and, on
the values of a counterexample, concretely against the unmodified package (here).

A character specification is one of
  'x'              that character (a string of length 1)
  'any' 'ws' 'nonws' 'digit'
  ('in', chars)  ('notin', chars)
"""
import importlib
import io
import json
import os
import shutil
import sys
import tempfile


PKG = 'arinc424'


class Skip(Exception):
  """the inputs do not meet the harness's assumption"""


def spec_ok(spec, c):
  if isinstance(spec, tuple):
    return (c in spec[1]) == (spec[0] == 'in')
  if spec == 'any':
    return True
  if spec == 'ws':
    return c.isspace()
  if spec == 'nonws':
    return not c.isspace()
  if spec == 'digit':
    return c in '0123456789'
  if spec == 'line':
    return c not in '\n\r'
  return c == spec


class Base:
  symbolic = False

  def alone(self, f):
    """f(the package, newly executed): nothing that happened before is known to it"""
    mine = {n: m for n, m in sys.modules.items() if n == PKG or n.startswith(PKG + '.')}
    for n in mine:
      del sys.modules[n]
    try:
      return f(importlib.import_module(PKG))
    finally:
      for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
        del sys.modules[n]
      sys.modules.update(mine)

  def run(self, f, *a, **k):
    """('ok', result) or ('exc', exception); process exits count as exceptions"""
    try:
      return ('ok', f(*a, **k))
    except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
      return ('exc', e)


class ConcEnv(Base):
  def __init__(self, pkg, inputs):
    self.arinc = pkg
    self.inputs = inputs
    self.failed = []
    self.checks = 0
    self.tmp = None
    self.out = io.StringIO()

  def string(self, name, specs):
    s = self.inputs['strings'][name]
    if len(s) != len(specs) or not all(spec_ok(p, c) for p, c in zip(specs, s)):
      raise Skip(name)
    return s

  def choose(self, name, options):
    return options[self.inputs['choices'][name]]

  def assume(self, ok):
    if not ok:
      raise Skip()

  def one_column(self, a, b):
    """assume: a and b differ in at most one column"""
    self.assume(sum(x != y for x, y in zip(a, b)) <= 1)

  def at_most_one_differs(self, pairs):
    return sum(x != y for x, y in pairs) <= 1

  def check(self, name, ok):
    self.checks += 1
    if not ok:
      self.failed.append(name)

  def eq(self, a, b):
    if isinstance(a, str) and isinstance(b, str):
      return a == b
    return type(a) is type(b) and a == b

  def differs(self, a, b):
    return a != b

  def text(self, v):
    return str(v)

  def both(self, *fs):
    return all(fs)

  def either(self, *fs):
    """some of the (delayed) conditions holds"""
    return any(f() for f in fs)

  def contains(self, text, part):
    return part in text

  def table(self, rows):
    """the text of the table with these rows"""
    from prettytable import PrettyTable
    t = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
    t.align = 'l'
    for r in rows:
      t.add_row(list(r))
    return t.get_string()

  def pairs(self, text):
    """the members of a JSON object, in order, duplicates included; None if it is not one"""
    try:
      r = json.loads(text, object_pairs_hook=lambda p: ['obj', p])
    except ValueError:
      return None
    return r[1] if isinstance(r, list) and r[:1] == ['obj'] else None

  def colored(self, text, colour):
    from termcolor import colored
    return colored(text, colour)

  def mark(self):
    return len(self.out.getvalue())

  def since(self, m):
    return self.out.getvalue()[m:]

  def folder(self, files):
    """a folder with these files [(name, text)]; returns its path"""
    if self.tmp is None:
      self.tmp = tempfile.mkdtemp(prefix='vx')
    d = os.path.join(self.tmp, 'd')
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    for n, text in files:
      with open(os.path.join(d, n), 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return d

  def close(self):
    if self.tmp is not None:
      shutil.rmtree(self.tmp, ignore_errors=True)


def run_concrete(harness, unit, inputs, pkg):
  """(status, failed check names, number of checks)"""
  env = ConcEnv(pkg, inputs)
  old = sys.stdout
  cwd = os.getcwd()
  sys.stdout = env.out
  try:
    harness(env, **unit)
  except Skip:
    return ('skip', [], env.checks)
  except (Exception, SystemExit) as e:
    return ('ran', env.failed + [f'unexpected {type(e).__name__}'], env.checks)
  finally:
    sys.stdout = old
    env.close()
    os.chdir(cwd)
  return ('ran', env.failed, env.checks)
