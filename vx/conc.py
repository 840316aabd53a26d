"""Runs harnesses on concrete inputs against the unmodified package, one request
per line on stdin.  Started with the interpreter the package's tests use."""
import importlib
import importlib.abc
import importlib.machinery
import json
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VX_SRC', '/repo/src')
PKG = 'arinc424'


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
  """the package as it is in the source tree, compiled once and executed anew for every request"""

  def __init__(self):
    self.cache = {}

  def find_spec(self, name, path, target=None):
    if name != PKG and not name.startswith(PKG + '.'):
      return None
    base = os.path.join(SRC, *name.split('.'))
    for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
      if os.path.isfile(p):
        spec = importlib.machinery.ModuleSpec(name, self, origin=p, is_package=pkg)
        if pkg:
          spec.submodule_search_locations = [base]
        return spec
    return None

  def create_module(self, spec):
    return None

  def exec_module(self, m):
    p = m.__spec__.origin
    if p not in self.cache:
      with open(p, encoding='utf-8') as f:
        self.cache[p] = compile(f.read(), p, 'exec', dont_inherit=True)
    m.__dict__['__file__'] = p
    exec(self.cache[p], m.__dict__)


def fresh():
  for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
    del sys.modules[n]
  return importlib.import_module(PKG)


def main():
  try:                                # end with the process that started this one, and never run on for ever
    import ctypes
    ctypes.CDLL(None).prctl(1, 9)
  except Exception:
    pass
  import signal
  sys.path.insert(0, VERIF)
  sys.meta_path.insert(0, Finder())
  from vx import env
  from checks import HARNESS
  reply = os.fdopen(os.dup(1), 'w', encoding='utf-8')
  os.dup2(2, 1)
  for line in sys.stdin:
    q = json.loads(line)
    signal.alarm(300)                 # the code under test may hang: the parent has given up by then
    try:
      st, failed, n = env.run_concrete(HARNESS[q['check']], q['unit'], q['inputs'], fresh())
      r = {'status': st, 'failed': failed, 'checks': n}
    except BaseException as e:
      r = {'status': 'error', 'failed': [], 'checks': 0, 'error': f'{type(e).__name__}: {e}'}
    signal.alarm(0)
    reply.write(json.dumps(r) + '\n')
    reply.flush()


if __name__ == '__main__':
  main()
