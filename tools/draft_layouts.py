"""One-off: drafted spec/layouts.json from the tree, for review against ARINC 424-18.

No check runs this.  The committed spec/layouts.json is the oracle; it is only
ever edited by hand afterwards.
"""
import sys, json, inspect, string
sys.path[:0] = ['/repo/src', '/opt/venv/lib/python3.12/site-packages']
from arinc424.record import records


class T(str):
  """a string that remembers which columns it came from"""
  def __new__(cls, s, cols):
    o = str.__new__(cls, s)
    o.cols = cols
    return o

  def __getitem__(self, i):
    if isinstance(i, slice):
      return T(str.__getitem__(self, i), self.cols[i])
    return T(str.__getitem__(self, i), [self.cols[i]])

  def __add__(self, o):
    return T(str(self) + str(o), self.cols + o.cols)


def layout(d, line, primary):
  out = []
  for f in d.read(T(line, list(range(132))), primary):
    c = f.value.cols
    spans = []
    for x in c:
      if spans and spans[-1][1] == x:
        spans[-1][1] = x + 1
      else:
        spans.append([x, x + 1])
    out.append([f.name, spans, f.decode_fn.__name__[-3:]])
  return out


sections, layouts = {}, {}
for ident, d in records.items():
  s = {}
  base = [' '] * 132
  cls = type(d).__name__
  if hasattr(d, 'cont_idx'):
    s['cont'] = d.cont_idx
    if ident == 'EU':
      s['app'] = [15, 17]
      for key, prim, apps in (('primary_apps', True, ['AE', 'TC', 'SC', 'NR']), ('cont_apps', False, ['AE', 'TC', 'NR'])):
        s[key] = {}
        for a in apps:
          b = base[:]
          b[15], b[16] = a
          k = f'{ident}/{"primary" if prim else "cont"}/{a}'
          layouts[k] = layout(d, ''.join(b), prim)
          s[key][a] = k
    else:
      s['app'] = [d.app_idx, d.app_idx + 1]
      layouts[ident + '/primary'] = layout(d, ' ' * 132, True)
      s['primary'] = ident + '/primary'
      s['cont_apps'] = {}
      for a in map(chr, range(128)):
        b = base[:]
        b[d.app_idx] = a
        l = layout(d, ''.join(b), False)
        if l:
          layouts[f'{ident}/cont/{a}'] = l
          s['cont_apps'][a] = f'{ident}/cont/{a}'
  else:
    layouts[ident + '/primary'] = layout(d, ' ' * 132, True)
    s['primary'] = ident + '/primary'
  sections[ident] = s

with open('/verif/spec/layouts.json', 'w') as f:
  f.write('{\n"sections": {\n')
  f.write(',\n'.join(f'{json.dumps(k)}: {json.dumps(v)}' for k, v in sections.items()))
  f.write('\n},\n"layouts": {\n')
  f.write(',\n'.join(f'{json.dumps(k)}: [\n' + ',\n'.join('  ' + json.dumps(x) for x in v) + '\n]' for k, v in layouts.items()))
  f.write('\n}}\n')
# overlap / duplicate report
for k, v in layouts.items():
  names = [x[0] for x in v]
  if len(set(names)) != len(names):
    print('DUP', k, [n for n in names if names.count(n) > 1])
  own = {}
  for n, sp, _ in v:
    for a, b in sp:
      for c in range(a, b):
        if c in own: print('OVERLAP', k, n, own[c], c)
        own[c] = n
  ident=k.split('/')[0]; s=sections[ident]
  cr=[x for x in v if 'ontinuation' in x[0]]
  if 'cont' in s and cr[0][1]!=[[s['cont'],s['cont']+1]]: print('CONT',k,cr)
  ap=[x for x in v if x[0].startswith('Application')]
  if 'cont' in s and ap and ident!='EU' and ap[0][1]!=[s['app']]: print('APP',k,ap)
  last=0
  for n,sp,_ in v:
    if sp[0][0]<last and n!='Section Code': print('ORDER',k,n)
    last=sp[-1][1] if n!='Section Code' else 6
print(len(layouts), sum(len(v) for v in layouts.values()))
