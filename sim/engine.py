"""Seeded search over simulated executions: run, count, minimise, replay.

A check is a module in checks/ with

  ID, TECHNIQUE_RULE    property id, how cases are made and counted
  RUNS                  {'quick': n, 'thorough': n}
  gen(rng, tier)        -> plan, a JSON object that fixes one execution
  run(plan, stats)      -> None or a violation {'kind': ..., 'what': ...}
  shrink(plan)          -> yields smaller plans (optional)
  warm()                work shared by all runs (optional)
  REAL, STUB            components that run real code / are simulated
  ASSUMPTIONS
  PROBES                names of situations that the search has to reach
"""

import collections
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from sim import kernel

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

# Real clock; the simulator replaces time.* for simulated processes only, but
# these must not depend on that.
_now = time.monotonic

HANG_CPU_S = 240
SOFT_CAP_S = {'quick': 600, 'thorough': 5400}
SHRINK_S = 60


class Stats(object):

  def __init__(self):
    self.runs = 0
    self.fired = collections.Counter()
    self.probes = collections.Counter()
    self.kinds = collections.Counter()
    self.simulated = 0.0
    self.ops = 0
    self.procs = 0
    self.switches = 0
    self.evaluations = 0
    self.nontrivial = set()
    self.states = set()
    self.history = None
    self.samples = []
    self.sched = None
    self.escapes = 0
    self.run_fired = None

  def begin(self):
    self.history = hashlib.sha256()
    self.trivial = True
    self.sched = None
    self.executions = 0

  def kernel(self, k):
    """Account for a finished simulation of this run."""
    self.executions += 1
    self.fired.update(k.fired)
    self.kinds.update(k.kinds)
    self.simulated += k.simulated
    self.ops += k.nops
    self.procs += k.nproc
    self.switches += k.switches
    self.history.update(k.hash().encode())
    self.escapes += len(k.escapes)
    if k.choices:
      self.sched = list(k.choices)
    if k.fired or k.choices:
      self.trivial = False

  def note(self, *what):
    self.history.update(repr(what).encode())

  def state(self, *what):
    self.states.add(hashlib.sha256(repr(what).encode()).digest()[:8])

  def probe(self, name, n=1):
    self.probes[name] += n

  def nontrivial_now(self):
    self.trivial = False

  def end(self):
    self.runs += 1
    digest = self.history.hexdigest()[:16]
    if not self.trivial:
      self.nontrivial.add(digest)
    return digest

  def merge(self, other):
    self.runs += other.runs
    for name in ('fired', 'probes', 'kinds'):
      getattr(self, name).update(getattr(other, name))
    for name in ('simulated', 'ops', 'procs', 'switches', 'evaluations',
                 'escapes'):
      setattr(self, name, getattr(self, name) + getattr(other, name))
    self.nontrivial |= other.nontrivial
    self.states |= other.states
    self.samples += other.samples

  def packed(self):
    self.history = None
    return self


def plan_for(check, seed, index, tier):
  rng = random.Random('%s/%s/%s' % (check.ID, seed, index))
  plan = check.gen(rng, tier)
  # Plans are what gets replayed: nothing may hide in Python objects.
  return json.loads(json.dumps(plan))


def execute(check, plan, stats):
  stats.begin()
  try:
    violation = check.run(plan, stats)
  except kernel.Unusable as e:
    violation = {'kind': 'unusable', 'what': str(e)}
  return violation, stats.end()


# ----------------------------------------------------------------------------
# Worker processes of the search.


class Board(object):
  """Shared memory: lowest failing run so far."""

  def __init__(self):
    self.map = mmap.mmap(-1, 16)
    self.map[0:8] = struct.pack('q', 1 << 60)

  def lowest(self):
    return struct.unpack('q', self.map[0:8])[0]

  def report(self, index):
    if index < self.lowest():
      self.map[0:8] = struct.pack('q', index)


def watchdog(seconds, on_fire):
  def handler(signum, frame):
    on_fire(frame)
  signal.signal(signal.SIGVTALRM, handler)
  signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def worker_main(check, seed, tier, indices, board, deadline, out_path):
  stats = Stats()
  report = {'violations': [], 'error': None, 'hashes': [], 'stats': None,
            'known': collections.Counter()}
  known = [kind for kind, text in known_findings(check.ID)]

  def save():
    report['stats'] = stats.packed()
    tmp = out_path + '.part'
    with open(tmp, 'wb') as f:
      pickle.dump(report, f)
    os.rename(tmp, out_path)

  current = [None, None]

  def hung(frame):
    from sim import kernel
    kernel.ACTIVE = None
    where = ''.join(traceback.format_stack(frame, 6))
    report['violations'].append(
        {'index': current[0], 'plan': current[1], 'hash': None, 'sched': None,
         'violation': {'kind': 'hang', 'what': 'no end after %d s of CPU time'
                       ' in one execution\n%s' % (HANG_CPU_S, where)}})
    board.report(current[0])
    save()
    kernel.real._exit(0)

  try:
    for index in indices:
      if _now() > deadline or index > board.lowest():
        break
      plan = plan_for(check, seed, index, tier)
      current[:] = [index, plan]
      watchdog(HANG_CPU_S, hung)
      violation, digest = execute(check, plan, stats)
      signal.setitimer(signal.ITIMER_VIRTUAL, 0)
      if index < 6:
        report['hashes'].append((index, digest))
        if len(stats.samples) < 1:
          stats.samples.append({'index': index, 'plan': abridged(plan),
                                'history': digest})
      if violation is not None:
        if violation['kind'] in known:
          report['known'][violation['kind']] += 1
          continue
        report['violations'].append(
            {'index': index, 'plan': plan, 'hash': digest,
             'violation': violation, 'sched': stats.sched})
        board.report(index)
        break
  except BaseException:
    report['error'] = 'run %s: %s' % (current[0], traceback.format_exc())
  save()
  kernel.real._exit(0)


def abridged(value, limit=1500):
  text = json.dumps(value)
  if len(text) <= limit:
    return value
  return text[:limit] + '...'


def child(func, timeout=None):
  """Run func() in a forked process; (value, error)."""
  fd, path = tempfile.mkstemp(prefix='hesim-r')
  os.close(fd)
  sys.stdout.flush()
  pid = os.fork()
  if pid == 0:
    try:
      value = (func(), None)
    except BaseException:
      value = (None, traceback.format_exc())
    try:
      with open(path, 'wb') as f:
        pickle.dump(value, f)
    finally:
      kernel.real._exit(0)
  end = _now() + timeout if timeout else None
  while True:
    done, _ = os.waitpid(pid, os.WNOHANG if end else 0)
    if done:
      break
    if _now() > end:
      os.kill(pid, signal.SIGKILL)
      os.waitpid(pid, 0)
      os.unlink(path)
      return None, 'timeout'
    time.sleep(0.005)
  try:
    with open(path, 'rb') as f:
      return pickle.load(f)
  except EOFError:
    return None, 'died'
  finally:
    os.unlink(path)


# ----------------------------------------------------------------------------
# Minimisation.


def ddmin_lists(plan, key, placeholder=None):
  """Candidates with parts of the list plan[key] removed."""
  items = plan[key]
  n = len(items)
  size = n
  while size >= 1:
    for start in range(0, n, size):
      out = dict(plan)
      out[key] = items[:start] + items[start + size:]
      if len(out[key]) < n:
        yield out
    size //= 2


def shrink(check, plan, kind, budget):
  deadline = _now() + budget
  tried = 0

  def attempt(candidate):
    def go():
      signal.setitimer(signal.ITIMER_VIRTUAL, 0)
      violation, digest = execute(check, candidate, Stats())
      return violation
    value, error = child(go, timeout=max(5.0, deadline - _now()))
    return error is None and value is not None and value['kind'] == kind

  progress = True
  while progress and _now() < deadline:
    progress = False
    for candidate in check.shrink(plan):
      candidate = json.loads(json.dumps(candidate))
      if candidate == plan:
        continue
      tried += 1
      if attempt(candidate):
        plan = candidate
        progress = True
        break
      if _now() > deadline:
        break
  return plan, tried


# ----------------------------------------------------------------------------


def known_findings(prop):
  known = []
  if os.path.exists(KNOWN):
    for line in open(KNOWN):
      line = line.strip()
      if line.startswith('known: property=%s ' % prop):
        rest = line.split(' ', 2)[2]
        kind = rest.split(' ', 1)[0]
        if kind.startswith('kind='):
          known.append((kind[5:], rest.split(' ', 1)[1]))
  return known


def main(check_name, argv):
  check = importlib.import_module('checks.' + check_name.lower())
  if argv and argv[0] == '--replay':
    return replay(check, argv[1])
  if argv and argv[0] == '--hashes':
    return print_hashes(check, int(argv[1]), int(argv[2]))
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  runs = int(os.environ.get('VERIF_RUNS', check.RUNS[tier]))
  jobs = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 1))
  started = _now()
  deadline = started + SOFT_CAP_S[tier]
  try:
    if hasattr(check, 'warm'):
      check.warm()
  except BaseException as e:
    traceback.print_exc()
    print('ERROR: preparing the check failed')
    return 2
  warm_s = _now() - started

  board = Board()
  jobs = max(1, min(jobs, runs))
  tmp = tempfile.mkdtemp(prefix='hesim-w')
  pids = {}
  sys.stdout.flush()
  for w in range(jobs):
    pid = os.fork()
    if pid == 0:
      worker_main(check, seed, tier, range(w, runs, jobs), board, deadline,
                  os.path.join(tmp, '%d' % w))
    pids[pid] = w
  error = None
  hard = deadline + 200
  while pids:
    pid, status = os.waitpid(-1, os.WNOHANG)
    if pid:
      pids.pop(pid, None)
    elif _now() > hard:
      for pid in pids:
        os.kill(pid, signal.SIGKILL)
      for pid in list(pids):
        os.waitpid(pid, 0)
      error = 'wall clock limit'
      break
    else:
      time.sleep(0.02)
  stats = Stats()
  violations = []
  known = collections.Counter()
  hashes = {}
  for w in range(jobs):
    path = os.path.join(tmp, '%d' % w)
    if not os.path.exists(path):
      error = error or 'worker %d died' % w
      continue
    with open(path, 'rb') as f:
      report = pickle.load(f)
    os.unlink(path)
    stats.merge(report['stats'])
    hashes.update(report['hashes'])
    violations += report['violations']
    known.update(report['known'])
    if report['error']:
      error = error or report['error']
  os.rmdir(tmp)
  search_s = _now() - started

  violations.sort(key=lambda v: v['index'])
  for kind, text in known_findings(check.ID):
    if known[kind]:
      print('KNOWN-FINDING: property=%s %s' % (check.ID, text))
      stats.probes['known ' + kind] = known[kind]
  fresh = violations

  code = 0
  replay_path = None
  recheck = 0
  if fresh:
    v = fresh[0]
    print('run %d of seed %d: %s' % (v['index'], seed, v['violation']['what']))
    replay_path, ok = report_violation(check, seed, v)
    if ok:
      code = 1
    else:
      print('ERROR: the failure does not replay; not a verdict')
      code = 2
  elif error is not None:
    print('ERROR: %s' % error)
    code = 2
  elif stats.runs < 0.25 * runs:
    print('ERROR: only %d of %d runs in the time limit' % (stats.runs, runs))
    code = 2
  else:
    # Some runs again, in another process: the histories must be the same.
    for index in sorted(hashes)[:3]:
      plan = plan_for(check, seed, index, tier)
      value, err = child(lambda: execute(check, plan, Stats())[1], 600)
      recheck += 1
      if value != hashes[index]:
        print('ERROR: run %d is not repeatable (%s, %s) %s' % (
            index, hashes[index], value, err or ''))
        code = 2

  missed = [p for p in getattr(check, 'PROBES', ()) if not stats.probes[p]]
  if code == 0 and missed and stats.runs == runs and \
      runs >= check.RUNS['quick']:
    print('ERROR: the search did not reach: %s' % ', '.join(missed))
    code = 2
  write_evidence(check, seed, tier, stats, code, search_s, warm_s, runs, jobs,
                 _now() - started, recheck, 1 if code == 1 else 0)
  print('%s: %d runs, %d distinct histories, %d operations, %.1f s' % (
      check.ID, stats.runs, len(stats.nontrivial), stats.ops,
      _now() - started))
  print('faults fired: %s' % (dict(sorted(stats.fired.items())),))
  print('reached: %s' % (dict(sorted(stats.probes.items())),))
  if code == 1:
    print('VIOLATION property=%s replay=%s' % (check.ID, replay_path))
  return code


def report_violation(check, seed, v):
  kind = v['violation']['kind']
  plan = v['plan']
  if v['sched'] is not None and 'sched' in plan:
    explicit = dict(plan)
    explicit['sched'] = {'mode': 'list', 'list': v['sched']}
    value, err = child(lambda: execute(check, explicit, Stats())[0], 600)
    if err is None and value is not None and value['kind'] == kind:
      plan = explicit
  original = plan
  tried = 0
  if hasattr(check, 'shrink') and kind != 'hang':
    plan, tried = shrink(check, plan, kind, SHRINK_S)
  for candidate in (plan, original, v['plan']):
    path = write_replay(check, seed, v, candidate, kind, tried)
    if kind == 'hang':
      return path, True
    res = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'),
                          check.ID, '--replay', path], stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, timeout=900)
    text = res.stdout.decode(errors='replace')
    if res.returncode == 1:
      print('minimised with %d attempts; replayed in a fresh process' % tried)
      print(text)
      return path, True
    os.unlink(path)
  print(text)
  return None, False


def write_replay(check, seed, v, plan, kind, tried):
  os.makedirs(REPLAYS, exist_ok=True)
  digest = None
  what = v['violation']['what']
  if kind != 'hang':
    value, err = child(lambda: execute(check, plan, Stats()), 600)
    if err is None and value[0] is not None:
      what = value[0]['what']
      digest = value[1]
  data = {'property': check.ID, 'seed': seed, 'index': v['index'],
          'kind': kind, 'what': what, 'history': digest, 'plan': plan}
  text = json.dumps(data, indent=1, sort_keys=True)
  name = '%s-%s.json' % (check.ID, hashlib.sha256(
      text.encode()).hexdigest()[:12])
  path = os.path.join(REPLAYS, name)
  with open(path, 'w') as f:
    f.write(text + '\n')
  return path


def replay(check, path):
  with open(path) as f:
    data = json.load(f)
  if hasattr(check, 'warm'):
    check.warm()

  def hung(frame):
    print('VIOLATION property=%s replay=%s' % (check.ID, path))
    sys.stdout.flush()
    kernel.real._exit(1)
  watchdog(HANG_CPU_S, hung)
  violation, digest = execute(check, data['plan'], Stats())
  signal.setitimer(signal.ITIMER_VIRTUAL, 0)
  print('history %s (recorded %s)' % (digest, data.get('history')))
  if violation is None:
    print('the recorded failure does not occur')
    return 0
  print('%s: %s' % (violation['kind'], violation['what']))
  if violation['kind'] != data['kind']:
    return 3
  if data.get('history') is not None and digest != data['history']:
    print('but the history differs')
    return 3
  print('VIOLATION property=%s replay=%s' % (check.ID, path))
  return 1


def print_hashes(check, seed, n):
  """History hashes of the first n runs, for comparing whole processes."""
  if hasattr(check, 'warm'):
    check.warm()
  for index in range(n):
    plan = plan_for(check, seed, index, 'quick')
    violation, digest = execute(check, plan, Stats())
    print(index, digest, violation['kind'] if violation else '-')
  return 0


def write_evidence(check, seed, tier, stats, code, search_s, warm_s, runs, jobs,
                   wall_s, recheck, violations):
  os.makedirs(EVIDENCE, exist_ok=True)
  per_hour = stats.runs / max(1e-9, search_s - warm_s) * 3600.0
  data = {
      'property': check.ID,
      'tier': tier,
      'seed': seed,
      'level': getattr(check, 'LEVEL', 'exploration'),
      'coverage': {
          'evaluations': stats.evaluations or stats.runs,
          'distinct_nontrivial': len(stats.nontrivial),
          'rule': check.RULE,
          'samples': stats.samples[:2],
          'simulated_runs': stats.runs,
          'planned_runs': runs,
          'seeds_per_hour': round(per_hour),
          'simulated_seconds': round(stats.simulated, 3),
          'operations': stats.ops,
          'simulated_processes': stats.procs,
          'context_switches': stats.switches,
          'operations_by_kind': dict(sorted(stats.kinds.items())),
          'faults_fired': dict(sorted(stats.fired.items())),
          'situations_reached': dict(sorted(stats.probes.items())),
          'distinct_states': len(stats.states),
          'state_measure': getattr(check, 'STATE_MEASURE', ''),
          'runs_repeated_with_equal_history': recheck,
          'refused_accesses_outside_scratch': stats.escapes,
          'real_components': check.REAL,
          'stub_components': check.STUB,
          'worker_processes': jobs,
          'exit_code': code,
      },
      'assumptions': check.ASSUMPTIONS,
      'wall_s': round(wall_s, 3),
      'violations': violations,
  }
  path = os.path.join(EVIDENCE, check.ID + '.json')
  tmp = path + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(data, f, indent=1, sort_keys=True)
    f.write('\n')
  os.rename(tmp, path)
