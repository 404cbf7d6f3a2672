"""Runs a shell script of the repository with simulated commands.

The script is executed by the real bash, as an unprivileged user where that is
possible, with a search path that holds only harmless programs, stand-ins for
the ones that change files (they refuse to leave the scratch directory) and
`rosrun`, which hands every call to the simulator and waits for the verdict.
"""

import os
import select
import shutil
import signal
import stat

from sim import kernel
from sim.kernel import HarnessError

HARMLESS = ['basename', 'dirname', 'cat', 'readlink', 'realpath', 'sed', 'grep',
            'cut', 'tr', 'head', 'tail', 'date', 'sleep', 'true', 'false', 'env',
            'expr', 'wc', 'ls', 'cmp', 'diff', 'sort', 'mktemp', 'seq', 'bash',
            'sh', 'awk', 'uniq', 'xargs', 'printf', 'pwd', 'test', 'id', 'uname']
GUARDED = ['rm', 'mv', 'cp', 'mkdir', 'rmdir', 'ln', 'touch', 'tee', 'install',
           'chmod', 'truncate', 'unlink']

ROSRUN = '''#!/bin/bash
# Hands the call to the simulator: {name} arguments
reply="$SIM_DIR/reply.$$"
/usr/bin/mkfifo "$reply" || exit 98
{{ printf '%s\\0' "$$" "$PWD" {name} "$@"; printf '\\1\\0'; }} > "$SIM_DIR/msg.$$"
printf '%s\\n' "$$" > "$SIM_DIR/request"
read -r verdict < "$reply"
case "$verdict" in
  kill) kill -9 $$ ;;
  exit*) exit "${{verdict#exit}}" ;;
esac
exit 97
'''

GUARD = '''#!/bin/bash
# {name} inside the scratch directory only.
for arg in "$@"; do
  case "$arg" in
    -*) ;;
    *) target=$(/usr/bin/realpath -m -- "$arg")
       case "$target" in
         "$SIM_ROOT"/*|/dev/null) ;;
         *) printf '%s %s\\n' {name} "$target" >> "$SIM_DIR/escapes"; exit 96 ;;
       esac ;;
  esac
done
exec {real} "$@"
'''


def _program(path, text):
  with kernel.real.open(path, 'w') as f:
    f.write(text)
  os.chmod(path, 0o755)


def prepare(k):
  """Directory with the commands; returns it."""
  os.chmod(k.root, 0o755)
  sim = os.path.join(k.root, 'sim')
  os.makedirs(os.path.join(sim, 'bin'))
  os.chmod(sim, 0o777)
  for name in HARMLESS:
    real_path = shutil.which(name, path='/usr/bin:/bin')
    if real_path:
      os.symlink(real_path, os.path.join(sim, 'bin', name))
  for name in GUARDED:
    real_path = shutil.which(name, path='/usr/bin:/bin')
    if real_path:
      _program(os.path.join(sim, 'bin', name),
               GUARD.format(name=name, real=real_path))
  _program(os.path.join(sim, 'bin', 'rosrun'), ROSRUN.format(name='rosrun'))
  os.mkfifo(os.path.join(sim, 'request'), 0o666)
  os.chmod(os.path.join(sim, 'request'), 0o666)
  return sim


def _unprivileged():
  os.setsid()
  if os.getuid() == 0:
    try:
      os.setgroups([])
      os.setgid(65534)
      os.setuid(65534)
    except OSError:
      pass


def run(k, sim, script, argv, cwd, serve, limit=60):
  """Runs the script; serve(cwd, argv) decides every call.

  serve returns an exit status, 'kill' (the called program dies) or 'crash'
  (everything dies).  Returns the exit status of the script.
  """
  env = {'PATH': os.path.join(sim, 'bin'), 'SIM_DIR': sim, 'SIM_ROOT': k.root,
         'HOME': k.root, 'LC_ALL': 'C.UTF-8', 'TMPDIR': os.path.join(sim)}
  fifo = kernel.real.osopen(os.path.join(sim, 'request'),
                            os.O_RDWR | os.O_NONBLOCK)
  null = kernel.real.osopen(os.devnull, os.O_RDWR)
  out = kernel.real.osopen(os.path.join(sim, 'output'),
                           os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
  bash = kernel.real.Popen([script] + argv, cwd=cwd, env=env, stdin=null,
                           stdout=out, stderr=out, preexec_fn=_unprivileged)
  done = os.pidfd_open(bash.pid)
  pending = b''
  try:
    while True:
      ready = select.select([fifo, done], [], [], limit)[0]
      if not ready:
        raise HarnessError('the script neither ends nor calls anything')
      if fifo not in ready:
        break
      pending += kernel.real.osread(fifo, 65536)
      while b'\n' in pending:
        line, pending = pending.split(b'\n', 1)
        message = os.path.join(sim, 'msg.' + line.decode())
        with kernel.real.open(message, 'rb') as f:
          parts = f.read().split(b'\0')
        os.unlink(message)
        parts = [os.fsdecode(p) for p in parts[:-2]]
        verdict = serve(parts[1], parts[2:])
        if verdict == 'crash':
          os.killpg(bash.pid, signal.SIGKILL)
          bash.wait()
          break
        text = 'kill' if verdict == 'kill' else 'exit%d' % (verdict & 0xff)
        with kernel.real.open(os.path.join(sim, 'reply.' + parts[0]),
                              'w') as f:
          f.write(text + '\n')
    return bash.wait()
  finally:
    if bash.poll() is None:
      os.killpg(bash.pid, signal.SIGKILL)
      bash.wait()
    for fd in (fifo, null, out, done):
      kernel.real.close(fd)
    for name in os.listdir(sim):
      if name.startswith(('reply.', 'msg.')):
        os.unlink(os.path.join(sim, name))


def output(sim):
  with kernel.real.open(os.path.join(sim, 'output'), 'rb') as f:
    return f.read().decode('utf-8', 'replace')


def escapes(sim):
  try:
    with kernel.real.open(os.path.join(sim, 'escapes')) as f:
      return f.read().splitlines()
  except FileNotFoundError:
    return []


def copy_scripts(k, directory):
  """Copy of a directory of scripts that the unprivileged user can run."""
  target = k.path('scripts')
  os.makedirs(target)
  for name in os.listdir(directory):
    source = os.path.join(directory, name)
    if os.path.isfile(source):
      with kernel.real.open(source, 'rb') as f:
        data = f.read()
      path = os.path.join(target, name)
      with kernel.real.open(path, 'wb') as f:
        f.write(data)
      os.chmod(path, stat.S_IMODE(os.stat(source).st_mode) | 0o555)
  return target
