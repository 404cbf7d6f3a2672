#!/usr/bin/env python
"""run.py <property> [--replay FILE | --hashes SEED N]"""

import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
        'PYTHONPATH': ''}


def main():
  env = dict(os.environ)
  changed = False
  for name, value in WANT.items():
    if env.get(name) != value:
      env[name] = value
      changed = True
  if 'PYTHONHASHSEED' not in env:
    env['PYTHONHASHSEED'] = '0'
    changed = True
  if not env.get('MPLCONFIGDIR') and os.access('/opt/mplconfig', os.W_OK):
    env['MPLCONFIGDIR'] = '/opt/mplconfig'
    changed = True
  if not os.access(env.get('MPLCONFIGDIR', '/nonexistent'), os.W_OK):
    env['MPLCONFIGDIR'] = os.path.join(tempfile.gettempdir(), 'hesim-mpl')
    os.makedirs(env['MPLCONFIGDIR'], exist_ok=True)
    changed = True
  if changed:
    os.execve(sys.executable, [sys.executable] + sys.argv, env)
  sys.path.insert(0, HERE)
  if sys.argv[1:2] == ['--setup']:
    # Nothing to build; fail early if the tools are missing.
    from sim import kernel
    kernel.install()
    print('setup ok')
    return
  from sim import engine
  code = 2
  try:
    code = engine.main(sys.argv[1], sys.argv[2:])
  except BaseException:
    import traceback
    traceback.print_exc()
    print('ERROR: the check itself failed')
  sys.stdout.flush()
  os._exit(code)


if __name__ == '__main__':
  main()
