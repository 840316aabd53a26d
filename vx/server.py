"""Client of conc.py: harness runs on concrete inputs against the unmodified package."""
import json
import os
import select
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
LIMIT = 60


class Server:
  def __init__(self):
    self.p = None
    self.runs = 0

  def start(self):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    self.p = subprocess.Popen([PYTHON, os.path.join(VERIF, 'vx', 'conc.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                              stderr=subprocess.DEVNULL, env=env, cwd=VERIF)

  def ask(self, check, unit, inputs):
    """{'status': ran | skip | error | hang | died, 'failed': [..]}"""
    if self.p is None or self.p.poll() is not None:
      self.start()
    self.runs += 1
    try:
      self.p.stdin.write((json.dumps({'check': check, 'unit': unit, 'inputs': inputs}) + '\n').encode())
      self.p.stdin.flush()
    except OSError:
      self.stop()
      return {'status': 'error', 'failed': [], 'error': 'no server'}
    buf = b''
    while not buf.endswith(b'\n'):
      r, _, _ = select.select([self.p.stdout], [], [], LIMIT)
      if not r:
        self.stop()
        return {'status': 'hang', 'failed': [f'no answer within {LIMIT} s']}
      x = os.read(self.p.stdout.fileno(), 65536)
      if not x:
        rc = self.p.wait()
        self.stop()
        return {'status': 'died', 'failed': [f'the process ended (status {rc})']}
      buf += x
    return json.loads(buf)

  def stop(self):
    if self.p is not None:
      self.p.kill()
      self.p.wait()
      self.p.stdout.close()
      try:
        self.p.stdin.close()
      except OSError:
        pass
      self.p = None
