"""The simulator: one Python process in which the programs of the repository run
as simulated processes.

Every source of nondeterminism is behind a seam owned by a Kernel object:

  file operations   builtins.open / io.open / the os.* calls below, for paths
                    inside the scratch directory of the run
  processes         subprocess.Popen, os.system, multiprocessing.Pool and
                    relatives, concurrent.futures executors, threads, exit
                    handlers
  scheduling        workers run one at a time and are switched at the seams only
  clocks            time.*, timeit.default_timer, file modification times
  randomness        random, numpy.random, os.urandom, process ids, names of
                    temporary files

Each passage through a seam is one numbered operation.  A fault is attached to
an operation number; the sequence of operations is the recorded history.  The
scratch directory is the durable state: a crashed process loses everything that
has not passed through the write seam.

The seams are installed once per interpreter (install()) and are transparent
unless a kernel is active and a simulated process is running.
"""

import atexit
import builtins
import collections
import contextlib
import copy
import errno
import gc
import hashlib
import importlib.abc
import importlib.util
import io
import os
import pickle
import random
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import timeit
import traceback
import types
import warnings

import multiprocessing
import multiprocessing.pool
import concurrent.futures

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
PY_DIRS = [REPO + '/hand_eye_calibration/python',
           REPO + '/hand_eye_calibration_experiments/python']
REPO_PACKAGES = ('hand_eye_calibration', 'hand_eye_calibration_experiments')

ACTIVE = None  # The running kernel.


class SimKilled(BaseException):
  """Unwinds the Python frames of a simulated process that was killed."""


class SimHang(BaseException):
  """The program under test used more CPU time than any correct run could."""


class HarnessError(Exception):
  """The simulator met something it does not model; never a verdict."""


class Unusable(Exception):
  """An output of the code under test that cannot be judged at all."""


class Proc(object):

  def __init__(self, kernel, label, parent=None):
    self.kernel = kernel
    self.label = label
    self.parent = parent
    self.dead = False
    self.exited = False
    self.pending = []  # Children that were started but not yet waited for.
    self.threads = []  # Threads and forked children that have not run yet.
    self.at_exit = []
    self.exit_code = None  # Of a process that ended by os._exit().
    kernel.last_pid += 1
    self.pid = kernel.last_pid

  def __repr__(self):
    return self.label


class Result(object):

  def __init__(self, code, out, exc, killed=False):
    self.code = code
    self.out = out
    self.exc = exc
    self.killed = killed


# ----------------------------------------------------------------------------
# Real functions, saved before anything is replaced.

real = types.SimpleNamespace(
    open=io.open, stat=os.stat, lstat=os.lstat, mkdir=os.mkdir,
    rmdir=os.rmdir, unlink=os.unlink, rename=os.rename, replace=os.replace,
    listdir=os.listdir, scandir=os.scandir, truncate=os.truncate,
    ftruncate=os.ftruncate, link=os.link, symlink=os.symlink, chmod=os.chmod,
    utime=os.utime, access=os.access, osopen=os.open, oswrite=os.write,
    osread=os.read, fsync=os.fsync, fdatasync=os.fdatasync, close=os.close,
    lseek=os.lseek, fstat=os.fstat, readlink=os.readlink, getcwd=os.getcwd,
    chdir=os.chdir, system=os.system, popen=os.popen, urandom=os.urandom,
    kill=os.kill, Popen=subprocess.Popen,
    Pool=multiprocessing.Pool, PoolClass=multiprocessing.pool.Pool,
    ThreadPool=multiprocessing.pool.ThreadPool,
    ProcessPoolExecutor=concurrent.futures.ProcessPoolExecutor,
    ThreadPoolExecutor=concurrent.futures.ThreadPoolExecutor,
    time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
    process_time=time.process_time, sleep=time.sleep, time_ns=time.time_ns,
    default_timer=timeit.default_timer, np_seed=np.random.seed,
    random_seed=random.Random.seed, getpid=os.getpid, sendfile=os.sendfile,
    copy_file_range=os.copy_file_range, Thread=threading.Thread,
    Process=multiprocessing.Process, _exit=os._exit, register=atexit.register,
    unregister=atexit.unregister, stdout=sys.stdout)

WRITE_FAULTS = ('enospc', 'eio', 'short', 'full')
READ_FAULTS = ('eio', 'short')


class Kernel(object):

  BLKSIZES = (512, 1024, 4096, 8192)

  def __init__(self, seed=0, clock0=1.5e9, blksize=4096, tick=1e-3,
               sched=None, faults=(), keep_ops=True, hang_cpu_s=None):
    self.rng = random.Random('kernel-%s' % (seed,))
    self.last_pid = 4000
    self.seed = seed
    self.wall = float(clock0)
    self.mono = 1000.0
    self.clock0 = float(clock0)
    self.simulated = 0.0
    self.tick = tick
    self.clock_cost = 1e-6  # Time that passes between two clock readings.
    self.blksize = blksize
    self.root = None
    self.cur = None
    self.nops = 0
    self.ops = []
    self.keep_ops = keep_ops
    self.digest = hashlib.sha256()
    self.fired = collections.Counter()
    self.kinds = collections.Counter()
    self.disk_full = False
    self.escapes = []
    self.faults = {}
    self.set_faults(faults)
    # Scheduling.
    self.sched = dict(sched or {'mode': 'random', 'seed': 0})
    self.sched_rng = random.Random('sched-%s' % (self.sched.get('seed', 0),))
    self.choices = []
    self.parallel = None
    self.switches = 0
    # Environment of simulated processes.
    self.commands = {}
    self.rosrun = {}
    self.module_hooks = {}
    self.stub_modules = {}
    self.calls = []
    self.nproc = 0
    self.log = None
    self.read_chunk = None  # Upper bound for the size of one read.
    self.op_listener = None
    self.hang_cpu_s = hang_cpu_s

  # -- life cycle --------------------------------------------------------------

  def __enter__(self):
    global ACTIVE
    assert ACTIVE is None
    install()
    self.root = os.path.realpath(tempfile.mkdtemp(prefix='hesim-'))
    self.old_cwd = real.getcwd()
    real.chdir(self.root)
    gc.disable()
    ACTIVE = self
    return self

  def __exit__(self, *exc):
    global ACTIVE
    ACTIVE = None
    self.cur = None
    gc.enable()
    real.chdir(self.old_cwd)
    shutil.rmtree(self.root, ignore_errors=True)
    return False

  def set_faults(self, faults):
    """faults: iterable of dicts {op: number, kind: ..., ...}."""
    self.faults = {}
    for fault in faults:
      self.faults.setdefault(int(fault['op']), fault)

  def path(self, *parts):
    return os.path.join(self.root, *parts)

  # -- seams -------------------------------------------------------------------

  def inside(self, path):
    return path == self.root or path.startswith(self.root + '/')

  def rel(self, path):
    if path is None:
      return None
    if isinstance(path, (list, tuple)):
      return [self.rel(p) for p in path]
    return str(path).replace(self.root, '$R')

  def op(self, kind, path=None, info=None):
    """One passage through a seam.  Returns the fault attached to it or None."""
    proc = self.cur
    if proc.dead:
      raise SimKilled()
    if self.parallel is not None:
      self.parallel.switch()
      proc = self.cur
      if proc.dead:
        raise SimKilled()
    number = self.nops
    self.nops += 1
    self.advance(self.tick)
    record = (number, proc.label, kind, self.rel(path), info)
    self.kinds[kind] += 1
    self.digest.update(repr(record).encode())
    if self.keep_ops:
      self.ops.append(record)
    if self.op_listener is not None:
      self.op_listener(record)
    fault = self.faults.get(number)
    if fault is None:
      return None
    fkind = fault['kind']
    if fkind == 'crash':
      self.fired['crash'] += 1
      self.kill_all()
      raise SimKilled()
    if fkind == 'kill':
      self.fired['kill'] += 1
      proc.dead = True
      raise SimKilled()
    if fkind == 'clock':
      self.fired['clock_jump'] += 1
      self.wall += fault['jump']
      return None
    return fault

  def kill_all(self):
    proc = self.cur
    while proc is not None:
      proc.dead = True
      proc = proc.parent
    if self.parallel is not None:
      self.parallel.kill_all()

  def advance(self, seconds):
    self.wall += seconds
    self.mono += seconds
    self.simulated += seconds

  def touch(self, path):
    """Give a file the modification time of the simulated clock."""
    ns = int(self.wall * 1e9)
    try:
      real.utime(path, ns=(ns, ns))
    except OSError:
      pass

  def fire(self, name):
    self.fired[name] += 1

  # -- simulated processes -----------------------------------------------------

  def start_proc(self, label):
    self.nproc += 1
    return Proc(self, '%s#%d' % (label, self.nproc), self.cur)

  def run_function(self, label, func, seed=None):
    """Run func() as a simulated process."""
    proc = self.start_proc(label)
    return self._run(proc, func, seed)

  def run_python(self, script, argv, label=None, seed=None):
    """Run a Python script of the repository as a simulated process."""
    proc = self.start_proc(label or os.path.basename(script))
    return self._run(proc, lambda: self.exec_script(script, argv), seed)

  def exec_script(self, script, argv):
    """The script in the current simulated process."""
    module = types.ModuleType('__main__')
    module.__file__ = script
    module.__dict__['__builtins__'] = builtins
    sys.modules['__main__'] = module
    sys.argv = [script] + list(argv)
    sys.path.insert(0, os.path.dirname(script))
    try:
      try:
        exec(script_code(script), module.__dict__)
        self.wait_pending()
      finally:
        self.run_exit_handlers()
    finally:
      sys.path.remove(os.path.dirname(script))
      # What the interpreter does at exit: drop the module, which closes
      # (and thereby flushes) the files that are still open.
      if not self.cur.dead:
        sys.stdout.flush()
      module.__dict__.clear()

  def run_exit_handlers(self):
    """Threads that are waited for and exit handlers; their errors are printed
    but do not change the exit status."""
    proc = self.cur
    if proc.dead:
      return
    for thread in list(proc.threads):
      if not thread.daemon:
        thread.join()
    while proc.at_exit:
      func, args, kwargs = proc.at_exit.pop()
      try:
        func(*args, **kwargs)
      except Exception:
        traceback.print_exc(file=sys.stdout)

  def wait_pending(self):
    for child in list(self.cur.pending):
      child._finish()

  def _run(self, proc, body, seed):
    saved_main = sys.modules.get('__main__')
    saved_argv = sys.argv
    saved_out, saved_err = sys.stdout, sys.stderr
    saved_np = np.random.get_state(legacy=False)
    saved_random = random.getstate()
    saved_cwd = real.getcwd()
    saved_cur = self.cur
    saved_modules = {}
    for name in list(sys.modules):
      if is_repo_module(name):
        saved_modules[name] = sys.modules.pop(name)
    for name in self.stub_modules:
      saved_modules.setdefault(name, sys.modules.get(name))
    sys.modules.update(self.stub_modules)
    saved_names = tempfile._name_sequence
    tempfile._name_sequence = None
    seed = self.rng.getrandbits(32) if seed is None else seed
    random.seed(seed)
    real.np_seed((seed * 2654435761 + 1) % (2 ** 32))
    out = io.StringIO()
    sys.stdout = sys.stderr = out
    self.cur = proc
    exc = None
    killed = False
    try:
      try:
        try:
          body()
        finally:
          self.run_exit_handlers()
        code = 0
      except SystemExit as e:
        if e.code is None:
          code = 0
        elif isinstance(e.code, int):
          code = e.code & 0xff
        else:
          out.write('%s\n' % (e.code,))
          code = 1
        e.__traceback__ = None
      except SimKilled as e:
        code = -9
        killed = True
        e.__traceback__ = None
      except SimHang:
        raise
      except (HarnessError, KeyboardInterrupt, MemoryError):
        raise
      except BaseException as e:
        code = 1
        exc = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        out.write(exc)
        # Drop the frames, they keep the open files alive.
        traceback.clear_frames(e.__traceback__)
        e.__traceback__ = None
      body = None
      gc.collect()
      if proc.dead:
        killed = True
        code = -9
      if proc.exit_code is not None:
        killed = False
        code = proc.exit_code
    finally:
      proc.exited = True
      self.cur = saved_cur
      sys.stdout, sys.stderr = saved_out, saved_err
      sys.argv = saved_argv
      for name in list(sys.modules):
        if is_repo_module(name):
          del sys.modules[name]
      for name in self.stub_modules:
        sys.modules.pop(name, None)
      for name, module in saved_modules.items():
        if module is not None:
          sys.modules[name] = module
      if saved_main is not None:
        sys.modules['__main__'] = saved_main
      np.random.set_state(saved_np)
      random.setstate(saved_random)
      tempfile._name_sequence = saved_names
      real.chdir(saved_cwd)
    if saved_cur is not None and saved_cur.dead:
      raise SimKilled()
    return Result(code, out.getvalue(), exc, killed)

  def spawn(self, argv):
    """Run a child command of the current process to its end; exit code."""
    argv = [os.fspath(a) for a in argv]
    self.calls.append([self.rel(a) for a in argv])
    name = os.path.basename(argv[0])
    if name == 'rosrun' and len(argv) >= 3:
      handler = self.rosrun.get((argv[1], argv[2]))
      if handler is None:
        handler = self.rosrun.get((argv[1], os.path.basename(argv[2])))
      if handler is None:
        return 3  # rosrun: could not find the executable.
      return handler(argv[3:])
    handler = self.commands.get(name)
    if handler is None:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
    return handler(argv[1:])

  def python_tool(self, script):
    def handler(argv):
      return self.run_python(script, argv).code
    return handler

  def native_tool(self, label, func):
    """A stub for a program that is not Python: func(argv) -> exit code."""
    def handler(argv):
      result = {}

      def body():
        result['code'] = func(argv)
        if result['code']:
          raise SystemExit(result['code'])
      if self.parallel is not None:
        # A child of a pool worker: it runs in the worker's thread.
        proc = self.start_proc(label)
        saved, self.cur = self.cur, proc
        try:
          return func(argv)
        except SimKilled:
          if saved.dead:
            raise
          return -9
        finally:
          self.cur = saved
      res = self.run_function(label, body)
      if res.exc is not None:
        raise HarnessError('stub %s failed:\n%s' % (label, res.exc))
      return res.code if res.killed else result['code']
    return handler

  # -- history -----------------------------------------------------------------

  def note(self, *what):
    """Add something observed by the harness to the recorded history."""
    self.digest.update(repr(what).encode())

  def hash(self):
    return self.digest.hexdigest()[:24]


def is_repo_module(name):
  return name.split('.', 1)[0] in REPO_PACKAGES


# ----------------------------------------------------------------------------
# Importing the repository: fresh module objects per simulated process, compiled
# once per interpreter.

_code_cache = {}


def script_code(path):
  with real.open(path, 'rb') as f:
    source = f.read()
  key = (path, source)
  if key not in _code_cache:
    _code_cache[key] = compile(source, path, 'exec', dont_inherit=True)
  return _code_cache[key]


class RepoLoader(importlib.abc.Loader):

  def __init__(self, name, path):
    self.name = name
    self.path = path

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    module.__file__ = self.path
    exec(script_code(self.path), module.__dict__)
    if ACTIVE is not None:
      hook = ACTIVE.module_hooks.get(self.name)
      if hook is not None:
        hook(module)

  def get_filename(self, name):
    return self.path


class RepoFinder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path=None, target=None):
    if not is_repo_module(fullname):
      return None
    parts = fullname.split('.')
    for base in PY_DIRS:
      stem = os.path.join(base, *parts)
      for candidate, package in ((stem + '/__init__.py', True),
                                 (stem + '.py', False)):
        try:
          real.stat(candidate)
        except OSError:
          continue
        spec = importlib.util.spec_from_loader(
            fullname, RepoLoader(fullname, candidate), origin=candidate,
            is_package=package)
        if package:
          spec.submodule_search_locations = [stem]
        return spec
    return None


# ----------------------------------------------------------------------------
# Files.


def _sim():
  k = ACTIVE
  if k is None or k.cur is None:
    return None
  return k


def _abs(path):
  path = os.fspath(path)
  if isinstance(path, bytes):
    path = os.fsdecode(path)
  if not path.startswith('/'):
    path = real.getcwd() + '/' + path
  return os.path.normpath(path)


def _error(code, path):
  return OSError(code, os.strerror(code), path)


HARMLESS = ('/dev/null', '/dev/stdout', '/dev/stderr')


def _guard(k, path):
  """Nothing outside the scratch directory is ever changed."""
  if path in HARMLESS:
    return
  k.escapes.append(path)
  raise PermissionError(errno.EACCES, 'outside the simulated disk', path)


class SimRaw(io.RawIOBase):

  def __init__(self, k, path, fd, readable, writable, append):
    self.k = k
    self.proc = k.cur
    self.path = path
    self.fd = fd
    self._readable = readable
    self._writable = writable
    self.append = append
    self.name = path
    self.pending = None  # Error of the next write.

  def readable(self):
    return self._readable

  def writable(self):
    return self._writable

  def seekable(self):
    return True

  def fileno(self):
    return self.fd

  def isatty(self):
    return False

  def seek(self, pos, whence=0):
    return real.lseek(self.fd, pos, whence)

  def tell(self):
    return real.lseek(self.fd, 0, 1)

  def truncate(self, size=None):
    if size is None:
      size = self.tell()
    if self.proc.dead:
      return size
    self.k.op('truncate', self.path)
    real.ftruncate(self.fd, size)
    self.k.touch(self.path)
    return size

  def readinto(self, b):
    k = self.k
    n = len(b)
    if self.proc.dead:
      raise SimKilled()
    if k.read_chunk is not None:
      n = max(1, min(n, 1 + k.rng.randrange(k.read_chunk)))
    if k.cur is not None:
      fault = k.op('read', self.path)
      if fault is not None:
        if fault['kind'] == 'eio':
          k.fire('read_eio')
          raise _error(errno.EIO, self.path)
        if fault['kind'] == 'short' and n > 1:
          k.fire('short_read')
          n = max(1, int(n * fault.get('frac', 0.5)))
    data = real.osread(self.fd, n)
    b[:len(data)] = data
    return len(data)

  def write(self, b):
    k = self.k
    data = bytes(b)
    if self.proc.dead:
      return len(data)  # Lost with the process.
    if k.cur is not None and not self.proc.exited:
      fault = k.op('write', self.path, len(data))
    else:
      fault = None
    if fault is not None:
      kind = fault['kind']
      keep = data[:int(len(data) * fault.get('frac', 0.0))]
      if kind in ('enospc', 'full'):
        k.fire('disk_full' if kind == 'full' else 'write_enospc')
        if kind == 'full':
          k.disk_full = True
        return self._fail(keep, errno.ENOSPC)
      if kind == 'eio':
        k.fire('write_eio')
        return self._fail(keep, errno.EIO)
      if kind in ('torn', 'tornkill'):
        # The process (or everything) dies inside the write.
        k.fire('torn_write')
        k.fire('crash' if kind == 'torn' else 'kill')
        self._put(keep)
        if kind == 'torn':
          k.kill_all()
        k.cur.dead = True
        raise SimKilled()
      if kind == 'short' and len(data) > 1:
        k.fire('short_write')
        data = data[:max(1, int(len(data) * fault.get('frac', 0.5)))]
    if self.pending is not None:
      error, self.pending = self.pending, None
      raise _error(error, self.path)
    if k.disk_full:
      k.fire('write_on_full_disk')
      raise _error(errno.ENOSPC, self.path)
    self._put(data)
    return len(data)

  def _fail(self, keep, error):
    """Like the system call: a part is written, the next call fails."""
    if not keep:
      raise _error(error, self.path)
    self.k.fire('torn_write')
    self._put(keep)
    self.pending = error
    return len(keep)

  def _put(self, data):
    if not data:
      return
    if self.append:
      real.lseek(self.fd, 0, 2)
    done = 0
    while done < len(data):
      done += real.oswrite(self.fd, data[done:])
    self.k.touch(self.path)

  def close(self):
    if self.closed:
      return
    try:
      super(SimRaw, self).close()
    finally:
      if self.fd >= 0:
        fd, self.fd = self.fd, -1
        try:
          real.close(fd)
        except OSError:
          pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
  k = _sim()
  if k is None:
    return real.open(file, mode, buffering, encoding, errors, newline, closefd,
                     opener)
  modes = set(mode)
  writing = bool(modes & set('wax+'))
  if isinstance(file, int):
    try:
      path = real.readlink('/proc/self/fd/%d' % file)
    except OSError:
      path = ''
    if not k.inside(path):
      return real.open(file, mode, buffering, encoding, errors, newline,
                       closefd, opener)
    fd = file
  else:
    path = _abs(file)
    if not k.inside(path):
      if writing:
        _guard(k, path)
      return real.open(file, mode, buffering, encoding, errors, newline,
                       closefd, opener)
    fd = None
  if len(modes & set('rwax')) != 1 or ('b' in modes and 't' in modes):
    raise ValueError('invalid mode: %r' % (mode,))
  if fd is None:
    flags = os.O_CLOEXEC
    plus = '+' in modes
    if 'r' in modes:
      flags |= os.O_RDWR if plus else os.O_RDONLY
    else:
      flags |= os.O_RDWR if plus else os.O_WRONLY
      flags |= os.O_CREAT
      if 'w' in modes:
        flags |= os.O_TRUNC
      elif 'x' in modes:
        flags |= os.O_EXCL
      else:
        flags |= os.O_APPEND
    if opener is not None:
      fd = opener(file, flags)
      path = _fd_path(k, fd) or path
    else:
      fd = _open_fd(k, path, flags, 0o666)
  raw = SimRaw(k, path, fd, 'r' in modes or '+' in modes, writing,
               'a' in modes)
  binary = 'b' in modes
  if buffering == 0:
    if not binary:
      raise ValueError("can't have unbuffered text I/O")
    return raw
  size = buffering if buffering > 1 else k.blksize
  if '+' in modes:
    buffer = io.BufferedRandom(raw, size)
  elif writing:
    buffer = io.BufferedWriter(raw, size)
  else:
    buffer = io.BufferedReader(raw, size)
  if binary:
    return buffer
  text = io.TextIOWrapper(buffer, encoding or 'utf-8', errors, newline,
                          line_buffering=(buffering == 1))
  text.mode = mode
  return text


def _open_fd(k, path, flags, mode):
  write = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
  kind = 'open-w' if write else 'open-r'
  if flags & os.O_APPEND:
    kind = 'open-a'
  fault = k.op(kind, path)
  if fault is not None:
    if fault['kind'] in ('eio', 'eacces'):
      k.fire('open_' + fault['kind'])
      raise _error(errno.EIO if fault['kind'] == 'eio' else errno.EACCES, path)
    if fault['kind'] in ('enospc', 'full') and write:
      k.fire('open_enospc')
      k.disk_full = k.disk_full or fault['kind'] == 'full'
      if not os.path.lexists(path):
        raise _error(errno.ENOSPC, path)
  existed = True
  try:
    real.stat(path)
  except OSError:
    existed = False
  if not existed and flags & os.O_CREAT and k.disk_full:
    raise _error(errno.ENOSPC, path)
  fd = real.osopen(path, flags, mode)
  if flags & os.O_TRUNC or not existed:
    k.touch(path)
  return fd


def _patch_path(name, kind, write, touch=()):
  """Seam for os.<name>(path, ...)."""
  func = getattr(os, name)

  def seam(path, *args, **kwargs):
    k = _sim()
    if k is None or isinstance(path, int) or kwargs.get('dir_fd') is not None:
      return func(path, *args, **kwargs)
    full = _abs(path)
    if not k.inside(full):
      if write:
        _guard(k, full)
      return func(path, *args, **kwargs)
    fault = k.op(kind, full)
    if fault is not None:
      if write and fault['kind'] in ('enospc', 'full', 'eio'):
        k.fire(kind + '_' + fault['kind'])
        k.disk_full = k.disk_full or fault['kind'] == 'full'
        raise _error(errno.EIO if fault['kind'] == 'eio' else errno.ENOSPC,
                     full)
    if write and k.disk_full and kind == 'mkdir':
      raise _error(errno.ENOSPC, full)
    result = func(path, *args, **kwargs)
    if kind == 'mkdir':
      k.touch(full)
    return result

  seam.__name__ = name
  return seam


def _patch_path2(name, kind):
  """Seam for os.<name>(src, dst)."""
  func = getattr(os, name)

  def seam(src, dst, *args, **kwargs):
    k = _sim()
    if k is None or kwargs.get('src_dir_fd') is not None:
      return func(src, dst, *args, **kwargs)
    a, b = _abs(src), _abs(dst)
    for p in (a, b):
      if not k.inside(p):
        _guard(k, p)
    fault = k.op(kind, [a, b])
    if fault is not None and fault['kind'] in ('eio', 'enospc', 'full'):
      k.fire(kind + '_' + fault['kind'])
      k.disk_full = k.disk_full or fault['kind'] == 'full'
      raise _error(errno.EIO if fault['kind'] == 'eio' else errno.ENOSPC, a)
    return func(src, dst, *args, **kwargs)

  seam.__name__ = name
  return seam


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
  k = _sim()
  if k is None or dir_fd is not None:
    return real.osopen(path, flags, mode, dir_fd=dir_fd)
  full = _abs(path)
  if not k.inside(full):
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
      _guard(k, full)
    return real.osopen(path, flags, mode)
  return _open_fd(k, full, flags, mode)


def _fd_path(k, fd):
  try:
    path = real.readlink('/proc/self/fd/%d' % fd)
  except OSError:
    return None
  return path if k.inside(path) else None


def sim_os_write(fd, data):
  k = _sim()
  path = _fd_path(k, fd) if k is not None else None
  if path is None:
    return real.oswrite(fd, data)
  raw = SimRaw(k, path, fd, False, True, False)
  try:
    return raw.write(data)
  finally:
    raw.fd = -1


class Entries(list):
  """Directory entries, as a context manager."""

  def __enter__(self):
    return iter(self)

  def __exit__(self, *args):
    pass

  def __next__(self):
    if not self:
      raise StopIteration
    return self.pop(0)

  def close(self):
    pass


def sim_scandir(path='.'):
  k = _sim()
  if k is None or isinstance(path, int) or not k.inside(_abs(path)):
    return real.scandir(path)
  k.op('listdir', _abs(path))
  with real.scandir(path) as it:
    entries = sorted(it, key=lambda e: e.name)
  k.rng.shuffle(entries)
  return Entries(entries)


def sim_os_writev(fd, buffers):
  return sim_os_write(fd, b''.join(bytes(b) for b in buffers))


def sim_os_pwrite(fd, data, offset):
  here = real.lseek(fd, 0, 1)
  real.lseek(fd, offset, 0)
  try:
    return sim_os_write(fd, data)
  finally:
    real.lseek(fd, here, 0)


def sim_sendfile(out_fd, in_fd, offset=None, count=0, *args, **kwargs):
  if _sim() is None:
    return real.sendfile(out_fd, in_fd, offset, count, *args, **kwargs)
  if offset is None:
    data = real.osread(in_fd, count)
  else:
    data = os.pread(in_fd, count, offset)
  return sim_os_write(out_fd, data) if data else 0


def sim_copy_file_range(src, dst, count, offset_src=None, offset_dst=None):
  if _sim() is None:
    return real.copy_file_range(src, dst, count, offset_src, offset_dst)
  if offset_src is None:
    data = real.osread(src, count)
  else:
    data = os.pread(src, count, offset_src)
  if not data:
    return 0
  if offset_dst is None:
    return sim_os_write(dst, data)
  return sim_os_pwrite(dst, data, offset_dst)


def sim_ftruncate(fd, length):
  k = _sim()
  path = _fd_path(k, fd) if k is not None else None
  if path is None:
    return real.ftruncate(fd, length)
  k.op('truncate', path)
  real.ftruncate(fd, length)
  k.touch(path)
  return None


def _patch_sync(name):
  func = getattr(os, name)

  def seam(fd):
    k = _sim()
    if k is None:
      return func(fd)
    fileno = fd if isinstance(fd, int) else fd.fileno()
    path = _fd_path(k, fileno)
    if path is not None:
      fault = k.op('fsync', path)
      if fault is not None and fault['kind'] == 'eio':
        k.fire('fsync_eio')
        raise _error(errno.EIO, path)
    return None
  return seam


# ----------------------------------------------------------------------------
# Clocks and randomness.


def _clock(name, attr, scale=None):
  func = getattr(real, name)

  def seam():
    k = _sim()
    if k is None:
      return func()
    k.advance(k.clock_cost)
    value = getattr(k, attr)
    return int(value * scale) if scale else value
  return seam


def sim_sleep(seconds):
  k = _sim()
  if k is None:
    return real.sleep(seconds)
  k.op('sleep')
  k.advance(float(seconds))


def sim_urandom(n):
  k = _sim()
  if k is None:
    return real.urandom(n)
  return bytes(k.rng.getrandbits(8) for _ in range(n))


def sim_random_seed(self, a=None, version=2):
  k = _sim()
  if k is not None and a is None:
    a = k.rng.getrandbits(64)
  return real.random_seed(self, a, version)


def sim_getpid():
  k = _sim()
  return real.getpid() if k is None else k.cur.pid


def sim_np_seed(seed=None):
  k = _sim()
  if k is not None and seed is None:
    seed = k.rng.getrandbits(32)
  return real.np_seed(seed)


# ----------------------------------------------------------------------------
# Child processes.


class SimPopen(object):
  """subprocess.Popen.  The child runs when it is first waited for: the latest
  moment at which a real child could do its work."""

  def __new__(cls, *args, **kwargs):
    if _sim() is None:
      return real.Popen(*args, **kwargs)
    return object.__new__(cls)

  def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
               stderr=None, preexec_fn=None, close_fds=True, shell=False,
               cwd=None, env=None, universal_newlines=None, startupinfo=None,
               creationflags=0, restore_signals=True, start_new_session=False,
               pass_fds=(), *, text=None, encoding=None, errors=None, **_):
    k = ACTIVE
    self.args = args
    self.k = k
    self.returncode = None
    self.pid = 10000 + len(k.calls)
    self.stdin = self.stdout = self.stderr = None
    self.text = bool(text or universal_newlines or encoding)
    self.want_out = stdout == subprocess.PIPE
    self.captured = ''
    self.cwd = cwd
    self.polls = 0
    if isinstance(args, (str, bytes)):
      args = os.fsdecode(args)
      if not shell and ' ' in args:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args)
    else:
      args = [os.fsdecode(a) for a in args]
    if shell:
      text_args = args if isinstance(args, str) else ' '.join(args)
      if any(c in text_args for c in '|&;<>`$'):
        raise HarnessError('shell syntax is not simulated: %r' % text_args)
      args = shlex.split(text_args)
    elif isinstance(args, str):
      args = [args]
    self.argv = args
    fault = k.op('spawn', None, [k.rel(a) for a in args])
    if fault is not None and fault['kind'] in ('eagain', 'enospc', 'eio'):
      k.fire('spawn_eagain')
      raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
    if os.path.basename(args[0]) != 'rosrun' and \
        os.path.basename(args[0]) not in k.commands:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), args[0])
    k.cur.pending.append(self)

  def _finish(self):
    if self.returncode is None:
      k = self.k
      if self in k.cur.pending:
        k.cur.pending.remove(self)
      saved = real.getcwd()
      if self.cwd is not None:
        real.chdir(self.cwd)
      try:
        self.returncode = k.spawn(self.argv)
      finally:
        if self.cwd is not None:
          real.chdir(saved)
    return self.returncode

  def wait(self, timeout=None):
    return self._finish()

  def poll(self):
    self.polls += 1
    if self.returncode is None and self.polls > 1:
      self._finish()
    return self.returncode

  def communicate(self, input=None, timeout=None):
    self._finish()
    out = self.captured if self.text else self.captured.encode()
    return (out if self.want_out else None, None)

  def send_signal(self, sig):
    if self.returncode is None:
      if self in self.k.cur.pending:
        self.k.cur.pending.remove(self)
      self.returncode = -int(sig)

  def kill(self):
    self.send_signal(signal.SIGKILL)

  def terminate(self):
    self.send_signal(signal.SIGTERM)

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    self._finish()
    return False


def sim_system(command):
  k = _sim()
  if k is None:
    return real.system(command)
  try:
    code = SimPopen(command, shell=True).wait()
  except FileNotFoundError:
    code = 127
  return -code if code < 0 else code << 8


def sim_kill(pid, sig):
  k = _sim()
  if k is None:
    return real.kill(pid, sig)
  k.escapes.append('kill %s' % pid)
  raise PermissionError(errno.EPERM, 'kill')


# ----------------------------------------------------------------------------
# Worker pools.


class Worker(object):

  def __init__(self, index, proc):
    self.index = index
    self.proc = proc
    self.go = threading.Semaphore(0)
    self.done = False
    self.np_state = None
    self.random_state = None
    self.main = None
    self.cur = proc
    self.thread = None
    self.error = None


class Parallel(object):
  """Runs worker bodies one at a time; the schedule decides who continues at
  every passage through a seam."""

  def __init__(self, k):
    self.k = k
    self.workers = []
    self.active = None
    self.back = threading.Semaphore(0)

  def add(self, label, body, isolated=True, np_state=None, random_state=None,
          main=None):
    k = self.k
    worker = Worker(len(self.workers), k.start_proc(label))
    worker.isolated = isolated
    worker.np_state = np_state
    worker.random_state = random_state
    worker.main = main

    def run():
      worker.go.acquire()
      self._enter(worker)
      try:
        body()
      except SimKilled:
        pass
      except BaseException as e:
        worker.error = e
      finally:
        worker.proc.exited = True
        worker.done = True
        self._leave(worker)
        self.back.release()

    worker.thread = real.Thread(target=run)
    worker.thread.daemon = True
    self.workers.append(worker)
    return worker

  def _enter(self, worker):
    self.active = worker
    self.k.cur = worker.cur
    if worker.isolated:
      if worker.np_state is not None:
        np.random.set_state(worker.np_state)
      if worker.random_state is not None:
        random.setstate(worker.random_state)
      if worker.main is not None:
        sys.modules['__main__'] = worker.main

  def _leave(self, worker):
    worker.cur = self.k.cur
    if worker.isolated:
      worker.np_state = np.random.get_state(legacy=False)
      worker.random_state = random.getstate()
      if worker.main is not None:
        worker.main = sys.modules['__main__']

  def switch(self):
    """Called by the running worker at a seam."""
    worker = self.active
    self._leave(worker)
    self.back.release()
    worker.go.acquire()
    self._enter(worker)

  def kill_all(self):
    for worker in self.workers:
      worker.proc.dead = True
      if worker.cur is not None:
        worker.cur.dead = True

  def run(self):
    """Scheduler loop, in the thread of the parent process."""
    k = self.k
    parent = k.cur
    saved_np = np.random.get_state(legacy=False)
    saved_random = random.getstate()
    saved_main = sys.modules.get('__main__')
    assert k.parallel is None
    k.parallel = self
    last = None
    try:
      for worker in self.workers:
        worker.thread.start()
      while True:
        runnable = [w for w in self.workers if not w.done]
        if not runnable:
          break
        worker = runnable[choose(k, [w.index for w in runnable])]
        if last is not worker:
          k.switches += 1
          last = worker
        worker.go.release()
        self.back.acquire()
    finally:
      k.parallel = None
      k.cur = parent
      if self.workers and self.workers[0].isolated:
        np.random.set_state(saved_np)
        random.setstate(saved_random)
      if saved_main is not None:
        sys.modules['__main__'] = saved_main
    for worker in self.workers:
      worker.thread.join(10)
    if parent is not None and parent.dead:
      raise SimKilled()


def choose(k, ids):
  """Pick the position in ids of the worker that runs next."""
  n = len(ids)
  if n == 1:
    pick = 0
  else:
    sched = k.sched
    mode = sched.get('mode', 'random')
    if mode == 'list':
      seq = sched['list']
      pos = len(k.choices)
      pick = (seq[pos] % n) if pos < len(seq) else 0
    elif mode == 'random':
      pick = k.sched_rng.randrange(n)
    elif mode == 'rr':
      pick = len(k.choices) % n
    elif mode == 'sticky':
      # Run the same worker with some probability, else switch.
      prev = getattr(k, 'last_id', None)
      if prev in ids and k.sched_rng.random() < sched.get('p', 0.8):
        pick = ids.index(prev)
      else:
        pick = k.sched_rng.randrange(n)
    elif mode == 'prio':
      # Random priorities that change at a few random points.
      prio = getattr(k, 'prio', None)
      if prio is None:
        prio = k.prio = {}
      for i in ids:
        if i not in prio:
          prio[i] = k.sched_rng.random()
      if k.sched_rng.random() < sched.get('p', 0.05):
        prio[k.sched_rng.choice(ids)] = k.sched_rng.random() - 1.0
      pick = max(range(n), key=lambda j: prio[ids[j]])
    elif mode == 'lockstep':
      # Everybody does the same step before anybody does the next one.
      counts = getattr(k, 'step_counts', None)
      if counts is None:
        counts = k.step_counts = collections.Counter()
      pick = min(range(n), key=lambda j: (counts[ids[j]], j))
      counts[ids[pick]] += 1
    else:
      raise HarnessError('unknown schedule mode %r' % mode)
  k.last_id = ids[pick]
  if n > 1:
    k.choices.append(pick)
  k.digest.update(b'%d' % ids[pick])
  return pick


def clone_main(module):
  """What a forked child sees as its __main__."""
  clone = types.ModuleType('__main__')
  target = clone.__dict__
  source = module.__dict__
  for name, value in source.items():
    if isinstance(value, types.FunctionType) and value.__globals__ is source:
      func = types.FunctionType(value.__code__, target, value.__name__,
                                value.__defaults__, value.__closure__)
      func.__kwdefaults__ = value.__kwdefaults__
      func.__module__ = value.__module__
      func.__qualname__ = value.__qualname__
      func.__dict__.update(value.__dict__)
      target[name] = func
    elif name == '__builtins__' or isinstance(
        value, (types.ModuleType, type, types.FunctionType,
                types.BuiltinFunctionType, io.IOBase)):
      target[name] = value
    else:
      try:
        target[name] = copy.deepcopy(value)
      except Exception:
        target[name] = value
  return clone


class AsyncResult(object):

  def __init__(self, pool):
    self.pool = pool
    self.value = None
    self.ok = None
    self.callback = None
    self.error_callback = None

  def ready(self):
    return self.ok is not None

  def successful(self):
    return bool(self.ok)

  def wait(self, timeout=None):
    if self.ok is None:
      self.pool._drain()

  def get(self, timeout=None):
    self.wait()
    if not self.ok:
      raise self.value
    return self.value

  # concurrent.futures spelling.
  def result(self, timeout=None):
    return self.get()

  def exception(self, timeout=None):
    self.wait()
    return None if self.ok else self.value

  def done(self):
    return self.ready()

  def add_done_callback(self, fn):
    self.wait()
    fn(self)


class SimPool(object):
  """multiprocessing.Pool with the fork start method: tasks and results are
  pickled, every worker has a copy of the parent's globals and generator state,
  the chunks of a map are handed out in order to whichever worker is free."""

  isolated = True

  def __init__(self, processes=None, initializer=None, initargs=(),
               maxtasksperchild=None, context=None):
    k = _sim()
    if k is None:
      raise HarnessError('pool outside of a simulated process')
    self.k = k
    self.n = processes or 8
    self.initializer = initializer
    self.initargs = initargs
    self.queue = []
    self.main = sys.modules['__main__']
    self.states = None
    k.op('fork', None, self.n)
    np_state = np.random.get_state(legacy=False)
    self.states = []
    if self.isolated:
      for i in range(self.n):
        # The C library of CPython reseeds 'random' in a forked child.
        child = random.Random(k.rng.getrandbits(64))
        self.states.append([np_state, child.getstate(), clone_main(self.main),
                            False])
    else:
      self.states = [[None, None, None, False] for _ in range(self.n)]

  def _submit(self, func, items, star, chunksize, single=False):
    items = list(items)
    result = AsyncResult(self)
    if not items:
      result.ok, result.value = True, []
      return result
    chunks = []
    for start in range(0, len(items), chunksize):
      batch = (func, items[start:start + chunksize], star)
      chunks.append(pickle.dumps(batch) if self.isolated else batch)
    entry = {'result': result, 'chunks': chunks, 'out': [None] * len(chunks),
             'single': single}
    self.queue.append(entry)
    return result

  def _drain(self):
    k = self.k
    entries, self.queue = self.queue, []
    if not entries:
      return
    tasks = collections.deque(
        (entry, i) for entry in entries for i in range(len(entry['chunks'])))
    par = Parallel(k)
    count = min(self.n, max(1, len(tasks)))
    for index in range(count):
      state = self.states[index]

      def body(index=index, state=state):
        if not state[3]:
          state[3] = True
          if self.initializer is not None:
            self.initializer(*self.initargs)
        while True:
          k.op('task', None, index)
          if not tasks:
            return
          entry, i = tasks.popleft()
          chunk = entry['chunks'][i]
          out = []
          try:
            func, items, star = pickle.loads(chunk) if self.isolated else chunk
            for item in items:
              out.append(func(*item) if star else func(item))
            answer = (True, out)
            if self.isolated:
              answer = (True, pickle.dumps(out))
          except Exception as e:
            traceback.print_exc(file=sys.stdout)
            # The traceback would keep the frames of the task alive.
            e.__traceback__ = None
            answer = (False, e)
          entry['out'][i] = answer
          k.op('task-done', None, index)

      par.add('worker%d' % index, body, self.isolated, state[0], state[1],
              state[2])
    par.run()
    for index, worker in enumerate(par.workers):
      self.states[index][0] = worker.np_state
      self.states[index][1] = worker.random_state
      self.states[index][2] = worker.main
      if worker.error is not None:
        raise HarnessError('worker died: %r' % (worker.error,))
    for entry in entries:
      result = entry['result']
      failed = [v for ok, v in entry['out'] if not ok]
      if failed:
        result.ok, result.value = False, failed[0]
        if result.error_callback:
          result.error_callback(result.value)
        continue
      values = []
      for ok, v in entry['out']:
        values.extend(pickle.loads(v) if self.isolated else v)
      result.ok = True
      result.value = values[0] if entry['single'] else values
      if result.callback:
        result.callback(result.value)

  def _chunk(self, items, chunksize):
    if chunksize is None:
      chunksize, extra = divmod(len(items), self.n * 4)
      if extra:
        chunksize += 1
    return max(1, chunksize)

  def map_async(self, func, iterable, chunksize=None, callback=None,
                error_callback=None):
    items = list(iterable)
    result = self._submit(func, items, False, self._chunk(items, chunksize))
    result.callback, result.error_callback = callback, error_callback
    return result

  def map(self, func, iterable, chunksize=None):
    return self.map_async(func, iterable, chunksize).get()

  def starmap(self, func, iterable, chunksize=None):
    items = list(iterable)
    return self._submit(func, items, True, self._chunk(items, chunksize)).get()

  def starmap_async(self, func, iterable, chunksize=None, callback=None,
                    error_callback=None):
    items = list(iterable)
    return self._submit(func, items, True, self._chunk(items, chunksize))

  def imap(self, func, iterable, chunksize=1):
    results = [self._submit(func, [item], False, 1, True) for item in iterable]
    self._drain()
    for result in results:
      yield result.get()

  def imap_unordered(self, func, iterable, chunksize=1):
    order = []
    results = []
    for item in iterable:
      result = self._submit(func, [item], False, 1, True)
      results.append(result)
    self._drain()
    # Completion order: any permutation can happen.
    order = list(range(len(results)))
    self.k.sched_rng.shuffle(order)
    for i in order:
      yield results[i].get()

  def apply_async(self, func, args=(), kwds={}, callback=None,
                  error_callback=None):
    def_call = (func, tuple(args), dict(kwds))
    result = self._submit(_apply, [def_call], True, 1, True)
    result.callback, result.error_callback = callback, error_callback
    return result

  def apply(self, func, args=(), kwds={}):
    return self.apply_async(func, args, kwds).get()

  def close(self):
    pass

  def terminate(self):
    self.queue = []

  def join(self):
    self._drain()

  def __enter__(self):
    return self

  def __exit__(self, *exc):
    self.terminate()
    return False


def _apply(func, args, kwds):
  return func(*args, **kwds)


class SimThreadPool(SimPool):
  isolated = False


class SimExecutor(SimPool):
  """concurrent.futures.ProcessPoolExecutor."""

  def __init__(self, max_workers=None, mp_context=None, initializer=None,
               initargs=(), **_):
    SimPool.__init__(self, max_workers, initializer, initargs)

  def submit(self, fn, *args, **kwargs):
    return self.apply_async(fn, args, kwargs)

  def map(self, fn, *iterables, timeout=None, chunksize=1):
    results = [self._submit(fn, [args], True, 1, True)
               for args in zip(*iterables)]
    self._drain()
    return iter([r.get() for r in results])

  def shutdown(self, wait=True, **_):
    self._drain()

  def __exit__(self, *exc):
    self.shutdown()
    return False


class SimThreadExecutor(SimExecutor):
  isolated = False

  def __init__(self, max_workers=None, thread_name_prefix='', initializer=None,
               initargs=()):
    SimPool.__init__(self, max_workers, initializer, initargs)


class SimThread(real.Thread):
  """A thread of a simulated process runs as a whole, either when it is
  started or when it is waited for; the seed decides."""

  sim_state = None

  def start(self):
    k = _sim()
    if k is None:
      return real.Thread.start(self)
    self.sim_state = 'started'
    self.sim_kernel = k
    self.sim_proc = k.cur
    k.op('thread')
    self.sim_proc.threads.append(self)
    if k.rng.random() < 0.5:
      self.sim_run()

  def sim_run(self):
    if self.sim_state != 'started':
      return
    self.sim_state = 'done'
    self.sim_proc.threads.remove(self)
    try:
      self.run()
    except SystemExit:
      pass
    except Exception:
      traceback.print_exc(file=sys.stdout)

  def join(self, timeout=None):
    if self.sim_state is None:
      return real.Thread.join(self, timeout)
    self.sim_run()

  def is_alive(self):
    if self.sim_state is None:
      return real.Thread.is_alive(self)
    return self.sim_state == 'started'


class SimProcess(object):
  """multiprocessing.Process with the fork start method, run like SimThread but
  with its own copy of the globals of the script and the generators."""

  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
               daemon=None):
    self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
    self.name = name or 'Process'
    self.daemon = bool(daemon)
    self.exitcode = None
    self.pid = None
    self.sim_state = None

  def run(self):
    if self._target is not None:
      self._target(*self._args, **self._kwargs)

  def start(self):
    k = _sim()
    if k is None:
      raise HarnessError('process outside of a simulated process')
    k.op('fork')
    self.sim_kernel = k
    self.sim_parent = k.cur
    self.sim_child = k.start_proc('child')
    self.pid = self.sim_child.pid
    self.sim_np = np.random.get_state(legacy=False)
    self.sim_random = random.Random(k.rng.getrandbits(64)).getstate()
    self.sim_main = clone_main(sys.modules['__main__'])
    self.sim_state = 'started'
    self.sim_parent.threads.append(self)
    if k.rng.random() < 0.5:
      self.sim_run()

  def sim_run(self):
    if self.sim_state != 'started':
      return
    self.sim_state = 'done'
    k = self.sim_kernel
    self.sim_parent.threads.remove(self)
    saved = (np.random.get_state(legacy=False), random.getstate(),
             sys.modules['__main__'], k.cur)
    np.random.set_state(self.sim_np)
    random.setstate(self.sim_random)
    sys.modules['__main__'] = self.sim_main
    k.cur = self.sim_child
    target = self._target
    if target is not None and getattr(target, '__module__', '') == '__main__':
      self._target = getattr(self.sim_main, target.__name__, target)
    try:
      self.run()
      self.exitcode = 0
    except SystemExit as e:
      self.exitcode = e.code if isinstance(e.code, int) else 0 if e.code is None \
          else 1
    except SimKilled:
      self.exitcode = -9 if self.sim_child.exit_code is None else \
          self.sim_child.exit_code
    except Exception:
      traceback.print_exc(file=sys.stdout)
      self.exitcode = 1
    finally:
      self.sim_child.exited = True
      np.random.set_state(saved[0])
      random.setstate(saved[1])
      sys.modules['__main__'] = saved[2]
      k.cur = saved[3]
    if k.cur is not None and k.cur.dead:
      raise SimKilled()

  def join(self, timeout=None):
    self.sim_run()

  def is_alive(self):
    return self.sim_state == 'started'

  def terminate(self):
    if self.sim_state == 'started':
      self.sim_state = 'done'
      self.sim_parent.threads.remove(self)
      self.exitcode = -15

  kill = terminate

  def close(self):
    pass


def sim_exit(status):
  k = _sim()
  if k is None:
    real._exit(status)
  k.cur.exit_code = status & 0xff
  k.cur.dead = True
  raise SimKilled()


def sim_register(func, *args, **kwargs):
  k = _sim()
  if k is None:
    return real.register(func, *args, **kwargs)
  k.cur.at_exit.append((func, args, kwargs))
  return func


def sim_unregister(func):
  k = _sim()
  if k is None:
    return real.unregister(func)
  k.cur.at_exit = [h for h in k.cur.at_exit if h[0] != func]


def _factory(name, cls):
  """Stand-in for a pool class: simulated inside simulated processes."""
  base = getattr(real, name)
  if not isinstance(base, type):
    def make(*args, **kwargs):
      if _sim() is None:
        return base(*args, **kwargs)
      return cls(*args, **kwargs)
    return make

  def new(this, *args, **kwargs):
    if _sim() is None:
      return object.__new__(this)
    return cls(*args, **kwargs)
  return type(base.__name__, (base,), {'__new__': new})


# ----------------------------------------------------------------------------

_installed = False


def install():
  global _installed
  if _installed:
    return
  _installed = True
  warnings.simplefilter('ignore')
  sys.dont_write_bytecode = True
  sys.meta_path.insert(0, RepoFinder())
  for name in ('tf', 'rospy', 'rosbag', 'tf2_msgs', 'tf2_msgs.msg'):
    if name not in sys.modules:
      sys.modules[name] = types.ModuleType(name)
  # Load what the repository imports before the seams are in place.
  os.environ.setdefault('MPLBACKEND', 'Agg')
  import matplotlib.pyplot  # noqa
  import mpl_toolkits.mplot3d  # noqa
  import scipy.signal  # noqa
  import yaml  # noqa
  import csv, argparse, json, itertools, bisect, math, functools  # noqa
  import matplotlib.mlab, scipy.interpolate  # noqa

  builtins.open = io.open = sim_open
  import numpy.lib._datasource as ds
  ds._file_openers._load()
  ds._file_openers._file_openers[None] = sim_open
  os.stat = _patch_path('stat', 'stat', False)
  os.lstat = _patch_path('lstat', 'stat', False)
  os.access = _patch_path('access', 'stat', False)
  os.mkdir = _patch_path('mkdir', 'mkdir', True)
  os.rmdir = _patch_path('rmdir', 'rmdir', True)
  os.unlink = _patch_path('unlink', 'unlink', True)
  os.remove = _patch_path('remove', 'unlink', True)
  os.truncate = _patch_path('truncate', 'truncate', True)
  os.chmod = _patch_path('chmod', 'chmod', True)
  os.utime = _patch_path('utime', 'utime', True)
  os.rename = _patch_path2('rename', 'rename')
  os.replace = _patch_path2('replace', 'rename')
  os.link = _patch_path2('link', 'link')
  os.symlink = _patch_path2('symlink', 'link')
  os.open = sim_os_open
  os.write = sim_os_write
  os.writev = sim_os_writev
  os.pwrite = sim_os_pwrite
  os.sendfile = sim_sendfile
  os.copy_file_range = sim_copy_file_range
  os.ftruncate = sim_ftruncate
  shutil._USE_CP_SENDFILE = False
  os.fsync = _patch_sync('fsync')
  os.fdatasync = _patch_sync('fdatasync')

  listdir = os.listdir

  def sim_listdir(path='.'):
    k = _sim()
    if k is not None and not isinstance(path, int) and k.inside(_abs(path)):
      k.op('listdir', _abs(path))
      # The order of directory entries is arbitrary.
      names = sorted(listdir(path))
      k.rng.shuffle(names)
      return names
    return listdir(path)
  os.listdir = sim_listdir
  os.scandir = sim_scandir

  time.time = _clock('time', 'wall')
  time.time_ns = _clock('time_ns', 'wall', 1e9)
  time.monotonic = _clock('monotonic', 'mono')
  time.perf_counter = _clock('perf_counter', 'mono')
  time.process_time = _clock('process_time', 'mono')
  timeit.default_timer = _clock('default_timer', 'mono')
  time.sleep = sim_sleep
  os.urandom = sim_urandom
  random._urandom = sim_urandom
  np.random.seed = sim_np_seed
  random.Random.seed = sim_random_seed
  random.seed = random._inst.seed
  os.getpid = sim_getpid

  subprocess.Popen = SimPopen
  os.system = sim_system
  os.kill = sim_kill
  threading.Thread = SimThread
  multiprocessing.Process = _factory('Process', SimProcess)
  os._exit = sim_exit
  atexit.register = sim_register
  atexit.unregister = sim_unregister
  multiprocessing.Pool = _factory('Pool', SimPool)
  multiprocessing.pool.Pool = _factory('PoolClass', SimPool)
  multiprocessing.pool.ThreadPool = _factory('ThreadPool', SimThreadPool)
  concurrent.futures.ProcessPoolExecutor = _factory('ProcessPoolExecutor',
                                                    SimExecutor)
  concurrent.futures.ThreadPoolExecutor = _factory('ThreadPoolExecutor',
                                                   SimThreadExecutor)
