#!/usr/bin/env python3
"""run.py CHECK [--tier quick|thorough]     decide one property on /repo's current tree
run.py --replay FILE                        a stored counterexample against the real code

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed."""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
EVID = os.path.join(VERIF, 'evidence')
CPUS = int(os.environ.get('VX_CPUS', '0')) or max(1, min(8, os.cpu_count() or 1))
PATH_LIMIT = 60
FALLBACK = 12        # concrete runs on a path that could not be followed to its end


def kill(signum, frame):
  from vx import core as K
  raise K.Budget('path time limit')


W = {}


def init():
  sys.setrecursionlimit(20000)
  from vx import core, loader, server
  W['code'] = loader.setup(os.environ.get('VX_SRC', loader.SRC))
  W['server'] = server.Server()


def work(job):
  """explore one unit"""
  check, index, unit, opt = job
  from vx import core as K, loader, rt, symenv
  from checks import HARNESS
  harness = HARNESS[check]
  st = K.Stats()
  srv = W['server']
  res = {'index': index, 'fail': [], 'spurious': [], 'incomplete': {}, 'samples': [], 'validated': 0, 'mismatch': [], 'done': False}
  rnd = random.Random(f"{opt['seed']}:{check}:{index}")
  end = time.monotonic() + min(opt['unit_s'], max(5, opt['until'] - time.time()))
  stop = []
  count = [0]

  def note(why):
    res['incomplete'][why] = res['incomplete'].get(why, 0) + 1

  def confirm(env, name, m):
    if not isinstance(name, list):
      name = [name]
    inputs = env.concrete_inputs(m)
    r = srv.ask(check, unit, inputs)
    if r['status'] in ('ran', 'hang', 'died') and r['failed']:
      res['fail'].append({'unit': unit, 'inputs': inputs, 'failed': r['failed'], 'symbolic': name})
      stop.append(1)
      return True
    if len(res['spurious']) < 5:
      res['spurious'].append({'inputs': inputs, 'symbolic': name, 'real': r})
    note('counterexample not reproduced by the real code: ' + name[0])
    return False

  def validate(env, e):
    m = e.model_of(e.dom)
    if m is None:
      return
    inputs = env.concrete_inputs(m)
    r = srv.ask(check, unit, inputs)
    if r['status'] in ('ran', 'hang', 'died') and r['failed']:
      res['fail'].append({'unit': unit, 'inputs': inputs, 'failed': r['failed'], 'symbolic': []})
      stop.append(1)
    elif r['status'] == 'ran':
      res['validated'] += 1
      if len(res['samples']) < 2:
        res['samples'].append(inputs)
    else:
      res['mismatch'].append(str(r)[:200])

  def path(e):
    if stop:
      raise K.Budget('stopped')
    out = rt.Out()
    old = sys.stdout
    sys.stdout = out
    env = None
    bad = None
    gave_up = None
    signal.alarm(PATH_LIMIT)
    try:
      env = symenv.SymEnv(e, loader.fresh(), out)
      harness(env, **unit)
    except (K.Infeasible,):
      raise
    except K.Unsupported as x:
      gave_up = str(x) or 'unsupported operation'
    except K.Budget as x:
      if str(x) == 'deadline':
        raise
      gave_up = str(x)
    except (Exception, SystemExit) as x:
      bad = f'unexpected {type(x).__name__}'
      if os.environ.get('VX_DEBUG'):
        import traceback
        traceback.print_exc()
    finally:
      signal.alarm(0)
      sys.stdout = old
    for why in e.incomplete:
      note(why)
    if gave_up is not None:
      note(gave_up)
      st.unsupported[gave_up] = st.unsupported.get(gave_up, 0) + 1
      # the path condition so far still has models: run the real code on some
      vs = list(e.dom)
      try:
        for m in [dict(m) for m in e.samples(vs, FALLBACK)]:
          r = srv.ask(check, unit, env.concrete_inputs(m))
          if r['status'] in ('ran', 'hang', 'died') and r['failed']:
            res['fail'].append({'unit': unit, 'inputs': env.concrete_inputs(m), 'failed': r['failed'], 'symbolic': [gave_up]})
            stop.append(1)
            return
      except (K.Unsupported, K.Infeasible):
        pass
      return
    if bad is not None:
      env.todo.append((bad, False))
    c = e.discharge(env.todo)
    if c is not None:
      confirm(env, c[0], c[1])
      return
    count[0] += 1
    if count[0] <= opt['validate'] or rnd.random() < opt['rate']:
      validate(env, e)

  old = signal.signal(signal.SIGALRM, kill)
  try:
    res['done'] = K.explore(path, st, deadline=end, cross=opt['cross'])
  finally:
    signal.signal(signal.SIGALRM, old)
    symenv.cleanup()
  if not res['done'] and not stop:
    note('time limit')
  res['stats'] = st
  return res


def known_findings():
  p = os.path.join(VERIF, 'known_findings.jsonl')
  out = []
  if os.path.exists(p):
    with open(p) as f:
      for line in f:
        if line.startswith('{'):
          out.append(json.loads(line))
  return out


def is_known(check, fail, known):
  for k in known:
    if k['property'] == check and k['unit'] == fail['unit'] and set(fail['failed']) <= set(k['failed']) and k['inputs'] == fail['inputs']:
      return k
  return None


def store(check, fail):
  d = os.path.join(EVID, 'replays')
  os.makedirs(d, exist_ok=True)
  body = dict(fail, check=check)
  h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
  p = os.path.join(d, f'{check}-{h}.json')
  with open(p, 'w') as f:
    json.dump(body, f, indent=1)
  return p


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('check', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
  ap.add_argument('--replay')
  ap.add_argument('--only', help='substring of the unit (debugging)')
  ap.add_argument('--keep', action='store_true', help='go on after a violation')
  a = ap.parse_args()
  from checks import CHECKS
  if a.replay:
    return replay(a.replay)
  c = CHECKS[a.check]
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  thorough = a.tier == 'thorough'
  limit = float(os.environ.get('VX_LIMIT', 0)) or (3000 if thorough else 420)
  units = c.units(a.tier)
  if a.only:
    units = [u for u in units if a.only in json.dumps(u)]
  opt = {'seed': seed, 'until': t0 + limit, 'unit_s': limit if thorough else limit / 2, 'validate': 3 if thorough else 1,
         'rate': 0.05 if thorough else 0.02, 'cross': thorough}
  jobs = [(a.check, i, u, opt) for i, u in enumerate(units)]
  random.Random(seed).shuffle(jobs)
  from vx import core
  st = core.Stats()
  known = known_findings()
  fails, spurious, samples, mismatch = [], [], [], []
  inc = {}
  done = validated = ran = 0
  ctx = mp.get_context('fork')
  pool = ctx.Pool(min(CPUS, max(1, len(jobs))), init)
  tw = []
  try:
    it = pool.imap_unordered(work, jobs, 1)
    while True:
      try:
        r = it.next(timeout=max(30, t0 + limit + 90 - time.time()))
      except StopIteration:
        break
      except mp.TimeoutError:
        inc['no answer from a worker'] = [1, [{}]]
        break
      ran += 1
      st.merge(r['stats'])
      done += r['done'] and not r['fail']
      validated += r['validated']
      spurious += r['spurious']
      mismatch += r['mismatch']
      samples += r['samples'][:1] if len(samples) < 5 else []
      for k, n in r['incomplete'].items():
        inc.setdefault(k, [0, []])
        inc[k][0] += n
        if len(inc[k][1]) < 3:
          inc[k][1].append(units[r['index']])
      for f in r['fail']:
        k = is_known(a.check, f, known)
        if k:
          print(f"KNOWN-FINDING: property={a.check} {k['what']}")
        else:
          fails.append(f)
      if fails and not a.keep or time.time() > t0 + limit + 60:
        break
  finally:
    pool.terminate()
    pool.join()
  wall = time.time() - t0
  os.makedirs(EVID, exist_ok=True)
  cov = {
    'states': st.paths, 'transitions': st.decisions, 'traces_validated_against_impl': validated, 'samples': samples[:5],
    'units': len(units), 'units_exhausted': done, 'units_run': ran,
    'functions_encoded': len(st.functions), 'functions': sorted(st.functions)[:400],
    'bounds': c.bounds, 'queries_discharged': st.queries, 'obligations': st.obligations, 'obligations_discharged': st.discharged,
    'path_conditions_witnessed_by_solver': st.witnessed, 'solver_seconds': round(st.solver_s, 2), 'solver_unknown': st.unknown,
    'branch_feasibility_without_solver': st.fast, 'cross_checked_by_solver': st.cross,
    'incomplete': [{'why': k, 'times': n, 'units': u} for k, (n, u) in sorted(inc.items())],
    'not_reproduced': spurious[:3], 'sample_mismatch': mismatch[:3],
  }
  ev = {'property': a.check, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(wall, 2),
        'assumptions': c.assumptions, 'violations': len(fails)}
  with open(os.path.join(EVID, f'{a.check}.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  print(f'{a.check} {a.tier}: {done}/{len(units)} units exhausted, {st.paths} paths, {st.decisions} decisions, {st.queries} solver queries '
        f'({st.solver_s:.1f} s), {st.discharged}/{st.obligations} obligations discharged, {validated} traces validated, {wall:.1f} s')
  for k, (n, u) in sorted(inc.items()):
    print(f'  incomplete: {k} ({n} times, e.g. {json.dumps(u[0])[:300]})')
  for m in mismatch[:3]:
    print('  sample mismatch:', m)
  if spurious and a.keep:
    print('  not reproduced:', json.dumps(spurious[:2])[:1500])
  if fails:
    for f in fails[:5 if a.keep else 1]:
      p = store(a.check, f)
      print(f"  failed: {f['failed'][:4]} unit {json.dumps(f['unit'])[:300]}")
      print(f'VIOLATION property={a.check} replay={p}')
    return 1
  return 0


def replay(path):
  from vx import server
  with open(path) as f:
    q = json.load(f)
  s = server.Server()
  r = s.ask(q['check'], q['unit'], q['inputs'])
  s.stop()
  print(json.dumps(r))
  if r['failed']:
    print(f"VIOLATION property={q['check']} replay={path}")
    return 1
  return 0


if __name__ == '__main__':
  code = main()
  sys.stdout.flush()
  os._exit(code)
