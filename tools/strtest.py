"""the model of str against the real one: every path of every expression, on sampled models of the path

  python3-vt tools/strtest.py"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast
from vx import core as K, chars as C, loader, rt

OPS = ["s.split()", "s.split('#')", "s.split('#')[0]", "s.split('#')[-1]", "s.split()[:1]", "s.split(None, 1)", "s.split('#', 1)", "s.split('##')", "s.rsplit('#', 1)",
       "s.rsplit('#', 2)", "s.rsplit('#')", "len(s.split('#'))", "bool(s.split())", "s.split()[0] if s.split() else ''", "s.split()[-1] if s.split() else ''",
       "'-'.join(s.split('#'))", "list(s.split('#'))", "s.split('#') == ['a']", "'a' in s.split('#')", "s.split('#', 2)[0]", "s.split('##')[-1]", "s.split(' ')[0]",
       "s.count('#')", "s.count('#') == 3", "s.count(s[0]) == 2", "s.count(s[0]) > 3", "s.count(s[0]) < 2", "s.count(s[0]) >= s.count(s[-1])", "s.count(s[0]) != 1", "s.count(s[0]) * 2", "s.count(s[0]) <= 2", "s.count(s[:2])", "s.count('#') > 2", "s.count('#') < 2", "s.count('#') <= 2", "s.count('#') >= 5", "s.count('#') + s.count('a') == 6",
       "s.count('#') - s.count('a') > 0", "'x' * s.count('#')", "s[s.count('#'):]", "s.upper().count('A')", "s.count('##')", "s.count('#', 2)", "s.count('#') % 2 == 0",
       "s.count('#') // 2", "str(s.count('#'))", "f'{s.count(\"#\"):02d}'", "s.partition('#')", "s.rpartition('##')", "s.strip('# ')", "s.replace('#', '')", "s.replace('a#', 'b', 1)",
       "s.find('#a')", "s.rfind('#')", "s.splitlines()", "s.title()", "s.capitalize()", "s.swapcase()", "s.zfill(9)", "s.center(10, '-')", "s.isalnum()", "s.isupper()",
       "s.removeprefix('#a')", "s.removesuffix('a')", "s.strip().isdigit()", "sorted(s.split('#'))[0] if '#' not in s else ''", "s.expandtabs()", "s.lstrip('a').rstrip()", "s < '#a'", "s.startswith(('#', 'a'), 1)",
       "set(s) <= set('a#')", "set(s) & set('a# ')", "set(s).issubset('a#')", "set(s) - {'#'}", "set(s).isdisjoint('#9')", "set('a').issubset(s)", "len(set(s) | {'a'})", "set(s) ^ {'a'}", "set('a#') >= set(s)",
       "set(s) == set(s[::-1])", "set(s[0]) != {'#'}", "frozenset(s) <= frozenset('a#9')", "frozenset('a# 9') > frozenset(s)", "{s[0]: 1} == {'a': 1}", "{s[0]: 1, 'x': 2} == {'x': 2, '#': 1}", "{'a': s} == {'a': 'a#9'}",
       "set(s) < {'a', '#', ' '}", "{'a', '#'}.union(s)", "{'a', '#'}.intersection(s)", "{'a', '#'}.difference(s)", "{'a', '#'} & set(s)", "bool({'a', '#'} & set(s))", "{c: 1 for c in s}.keys() <= {'a', '#'}", "ascii(s)",
       "s.islower()", "s.istitle()", "s.isspace()", "s.isprintable()", "s.isascii()", "s.isidentifier()", "s.endswith('a', 0, 2)", "s[::-1]", "s[1:-1]", "s[-1]", "s[0] + s[-1]", "s * 2",
       "s in '#a# 9'", "s[0] in 'a#'", "s[0] not in ('a', '#')", "s == s[::-1]", "s[0] == s[-1]", "s.ljust(9, '.')", "s.rjust(9)", "f'{s:>9}'", "f'{s!r}'", "'%s|%5s' % (s, s[0])",
       "'{0}-{x}'.format(s, x=s[0])", "''.join(reversed(s))", "''.join(c for c in s if c != '#')", "[c for c in s if c.isdigit()]", "any(c == '#' for c in s)", "all(c in 'a9' for c in s)",
       "{c for c in s} == {'a'}", "len(set(s)) == 1", "len(set(s)) < 4", "len(set(s)) > 4", "len(set(s)) - 1", "bool(set(s))", "'a' in set(s)", "sorted(set(s))[0]", "set(s[1:]) <= set(s[:2])", "len(set(s) - set('#a')) > 1", "len({c.lower() for c in s}) != len(set(s))", "max(s)", "min(s)", "s > s[::-1]", "s.translate({ord('#'): 'x', ord('a'): None})", "s.maketrans('a', 'b')", "ord(s[0])", "chr(ord(s[0]) + 1)",
       "s.encode('ascii').decode()", "s[0:1].isalpha() and s[1:].isdigit()", "dict.fromkeys(s)", "{'a': 1, '#': 2}.get(s[0], 3)", "{'a': 1, '#': 2}.get(s[0])", "s.index('#') if '#' in s else -1",
       "list(enumerate(s))[0]", "list(zip(s, s[1:]))[:1]", "s.casefold() == s", "not s.strip()", "s.strip() or '-'", "s.lstrip().rstrip('#')", "s.find('#', 1)", "s.rfind('a', 0, 3)",
       "hash(s) == hash(s)", "sum(c == '#' for c in s)", "sum(1 for c in s if c.isspace())", "next((i for i, c in enumerate(s) if c == '#'), None)", "s.splitlines(True)", "s.rstrip('\\n')",
       "[x for x in ('a', '#', '9') if s.startswith(x)]", "(lambda a, *b: a)(*s)", "s.upper() == s.lower()", "s.swapcase().upper()", "str(s) is not None and str(s)", "s + '' == s", "s.replace('', '-')",
       "s.replace('a', 'aa')", "s.replace('#', '').replace(' ', '')", "s.replace(' ', '0')", "'a' <= s[0] <= 'z'", "s.join(['x', 'y'])", "'#'.join(s)", "tuple(s)", "sorted(s)", "s.removeprefix('a').removesuffix('#')"]
NUM = ["int(s)", "float(s)", "int(s) / 10", "int(s) // 10", "int(s) % 10", "int(s) + 1", "-int(s)", "int(s) == 7", "int(s) > 42", "int(s) <= 9", "f'{int(s)}'", "f'{int(s):05d}'", "f'{int(s):,}'", "f'{int(s) / 10:.1f}'",
       "'{:.2f}'.format(float(s) / 100)", "'%d' % int(s)", "'%.1f' % (int(s) / 10)", "str(int(s))", "str(float(s))", "str(int(s) / 10)", "round(int(s) / 10)", "round(float(s) / 10, 1)", "divmod(int(s), 60)", "int(s) * 3",
       "float(s) * 0.1", "float(s) + 0.5", "int(s[:1]) * 60 + int(s[1:] or '0')", "s.lstrip('0') or '0'", "s.zfill(8)", "int(s, 10)", "int(s) == float(s)", "abs(int(s) - 50)", "min(int(s), 50)", "max(int(s), 50)",
       "int(s) in (1, 2, 3)", "int(s) in range(10, 20)", "bool(int(s))", "int(s) and s", "int(float(s))", "s.isdigit() and int(s)", "s.isdecimal()", "s.isnumeric()", "float(s) > 1e3", "float('-' + s)", "int(s) & 1", "int(s) >> 1",
       "f'{int(s):x}'", "f'{float(s):g}'", "f'{float(s):e}'", "f'{float(s):.0f}'", "f'{int(s) / 10:6.1f}'", "repr(float(s))", "int(s) ** 2", "10 - int(s)", "int(s) - int(s[::-1])", "str(int(s)) == s", "int(s) != 0",
       "'abcdefghij'[int(s[0])]", "'x' * int(s[0])", "[10, 20, 30][int(s[0])] if s[0] < '3' else None", "{1: 'a', 2: 'b'}.get(int(s), 'c')", "range(int(s[0])).stop", "len(range(int(s[0])))", "int(s) < 5 or int(s) > 90"]
MIX = ["int(s)", "float(s)", "s.isdigit()", "s.isdecimal()", "s.isnumeric()", "int(s) if s.isdigit() else s", "int(s.strip() or 0)", "float(s.replace(' ', '0'))", "s.lstrip('0')", "s.strip('0 ')", "s.isalnum()", "s.isascii()", "int(s[1:]) if s[0] == 'N' else None",
       "s.upper()", "s.lower()", "s.casefold()", "s.title()", "s.split('.')", "s.partition('.')", "s.isupper()", "s.islower()", "s.capitalize()", "s.swapcase()", "s.encode()", "ascii(s)", "s.isprintable()", "int(s, 16)", "complex(s)", "s.istitle()"]
SETS = [('a# 9\nA', OPS), ('0123456789', NUM), ('019 .-+_N²٣', MIX), ('aZß\u01c5\u0130é\u0301.', [x for x in MIX if 'int' not in x and 'float' not in x] + OPS[41:])]


def set_of(x):
  x.force()
  with rt.HASH:
    return set(set.__iter__(x))


def plain(x):
  if type(x) is K.Pieces:
    return [plain(y) for y in x]
  if issubclass(type(x), K.LazyInt):
    return x.force()
  if type(x) is rt.PendingSet:
    return set_of(x)
  if type(x) in (list, tuple):
    return type(x)(plain(y) for y in x)
  return x


def code(op):
  tree = loader.Rewrite('x').visit(ast.parse('def f(s):\n  return ' + op))
  g = {'_vx': rt}
  exec(compile(ast.fix_missing_locations(tree), 'x', 'exec'), g)
  return g['f']


def main():
  loader.setup()
  rnd = random.Random(1)
  total = bad = 0
  skipped = {}
  for alphabet, n, op in [(a, n, op) for a, ops in SETS for n in (1, 3, 7) for op in ops]:
    if True:
      st = K.Stats()
      f = code(op)

      def path(e):
        nonlocal total, bad
        K.cur = e
        dom = sum(1 << C.IDX[ord(c)] for c in alphabet if ord(c) in C.IDX)
        vs = [e.var(f'c{i}', dom) for i in range(n)]
        s = K.SymStr(tuple(K.Ch(v) for v in vs))
        try:
          r = plain(f(s))
        except K.Unsupported as x:
          skipped[op] = str(x)
          return
        except K.Control:
          raise
        except Exception as x:
          r = x
        for m in [dict(m) for m in e.samples(vs, 4)]:
          t = ''.join(C.CH[m[v]] for v in vs)
          try:
            want = eval(op, {'s': t})
          except Exception as x:
            want = type(x)
          got = type(r) if isinstance(r, Exception) else K.realise(r, m)
          total += 1
          if got != want or type(got) is not type(want) or repr(got) != repr(want) and not isinstance(got, set):
            bad += 1
            print(op, repr(t), repr(got), repr(want))
      K.explore(path, st, max_paths=150)
  for op, why in skipped.items():
    print('not modelled:', op, why)
  print(total, 'cases', bad, 'differences')
  sys.exit(bad > 0)


main()
