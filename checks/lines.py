"""Symbolic record lines: which columns are fixed, constrained or free."""
from spec import ref


def targets():
  """every (section, layout, 'p'rimary or 'c'ontinuation, application type or None)"""
  out = []
  for sec in ref.NAMES:
    s = ref.SECTIONS[sec]
    if 'primary' in s:
      out.append((sec, s['primary'], 'p', None))
    for a, lay in s.get('primary_apps', {}).items():
      out.append((sec, lay, 'p', a))
    for a, lay in s.get('cont_apps', {}).items():
      out.append((sec, lay, 'c', a))
  return out


def unit(t, form=1):
  return {'sec': t[0], 'lay': t[1], 'kind': t[2], 'app': t[3], 'form': form}


def other_sections(first):
  return ''.join(n[1] for n in ref.NAMES if n[0] == first)


def specs(sec, lay, kind, app, form=1):
  """all lines of this section and layout.  form 1: section code in columns 5-6,
  form 2: in columns 5 and 13 (columns 5-6 do not spell a section); None if there are none"""
  s = ref.SECTIONS[sec]
  out = ['any'] * 132
  out[0] = ('in', 'ST')
  for k in range(123, 132):
    out[k] = 'digit'
  out[4] = sec[0]
  if form == 1:
    out[5] = sec[1]
  else:
    out[5] = ('notin', other_sections(sec[0]))
    out[12] = sec[1]
  if 'cont' in s:
    k = s['cont']
    if out[k] != 'any':
      return None
    out[k] = ('in', '01' if kind == 'p' else ref.CONT_FURTHER)
  if app is not None:
    for k, c in zip(range(*s['app']), app):
      if out[k] == 'any':
        out[k] = c
      elif out[k] != c:
        return None
  return out


def fixed(specs, fields, symbolic=()):
  """the same lines, but with a decodable value in every field that is not in symbolic (indices)"""
  out = list(specs)
  for i, (name, spans, num) in enumerate(fields):
    if i in symbolic:
      continue
    cols = [k for a, b in spans for k in range(a, b)]
    for k, c in zip(cols, ref.benign(num, len(cols))):
      if out[k] == 'any' or out[k] == 'digit':
        out[k] = c
      elif isinstance(out[k], tuple):
        out[k] = c if ok(out[k], c) else pick(out[k])
  return out


def ok(spec, c):
  return (c in spec[1]) == (spec[0] == 'in')


def pick(spec):
  if spec[0] == 'in':
    return spec[1][0]
  return [c for c in 'A1 B2' + ''.join(map(chr, range(33, 127))) if c not in spec[1]][0]


def plain(num):
  """a field that is shown as it is"""
  return num not in ref.CODE and num not in ref.NUMBER and num not in ref.TEXT
