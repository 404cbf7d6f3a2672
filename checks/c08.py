"""C08: the incremental circle calibration converges to a from-scratch result."""

import hashlib
import json
import os

import numpy as np

from checks.common import BIN, SCRIPTS, calibration, csv_text, parse_csv
from checks.common import read_bytes, tail
from checks.common import violation, write_text
from sim import geom, memo, world
from sim.inject import Injector, random_fault
from sim.kernel import Kernel

ID = 'C08'
RUNS = {'quick': 1200, 'thorough': 12000}
RULE = ('a history of edits of the recordings, deletions of intermediate files '
        'and runs of the circle calibration with crashes, killed, failing and '
        'torn steps, then a fault-free run compared with a run in an empty '
        'directory; non-trivial: a fault fired or a file was deleted; distinct '
        'by history hash')
STATE_MEASURE = ('(recordings given, which of the intermediate files of each '
                 'group exist and whether they are newer than the recordings, '
                 'before every run)')
REAL = ['scripts/close_the_circle_test.py', 'bin/compute_aligned_poses.py',
        'bin/compute_hand_eye_calibration.py', 'bash_utils.py', 'csv_io.py',
        'extrinsic_calibration.py']
STUB = ['rosrun', 'batch_estimator (writes a calibration that names the digest '
        'of its inputs)', 'file system faults, process deaths, clock',
        'offset estimation and calibration are real code whose result is '
        'remembered per input']
ASSUMPTIONS = ['recordings are edited between runs, not during one, and an '
               'edit gives a recording a newer modification time (no clock '
               'that goes back)',
               'the same recordings are named in every run of a history',
               'process death, not power loss']
PROBES = ['two', 'three', 'edited', 'deleted', 'crash', 'failed_run',
          'partial_estimate_left', 'partial_alignment_left', 'succeeded_later',
          'up_to_date', 'known_state', 'faulty_but_0']

VERSIONS = [3, 2, 2]
T = 6.5
SPAN = {'any': 220, 'write': 22, 'change': 60, 'read': 90, 'rename': 14,
        'spawn': 9}


def gen(rng, tier):
  n = rng.choice([2, 3])
  versions = [rng.randrange(VERSIONS[i]) for i in range(n)]
  now = list(versions)
  events = []
  plain = {'do': 'run', 'faults': [], 'estimator': ['ok'] * n, 'status': 1}

  def edit():
    i = rng.randrange(n)
    now[i] = (now[i] + rng.randrange(VERSIONS[i])) % VERSIONS[i]
    events.append({'do': 'edit', 'i': i, 'v': now[i]})
  if rng.random() < 0.35:
    # Everything is there, then something changes.
    events.append(plain)
    for _ in range(rng.choice([0, 1, 1, 2])):
      edit()
  for _ in range(rng.choice([1, 2, 3, 3, 4, 6])):
    what = rng.random()
    if what < 0.25:
      edit()
    elif what < 0.4:
      events.append({'do': 'delete', 'which': rng.getrandbits(18)})
    else:
      span = SPAN if n == 3 else dict((c, v // 3 + 1) for c, v in SPAN.items())
      faults = [random_fault(rng, span)
                for _ in range(rng.choice([0, 1, 1, 1, 2]))]
      estimator = ['ok'] * n
      if rng.random() < 0.4:
        if rng.random() < 0.5:
          faults = []
        estimator[rng.randrange(n if n > 2 else 1)] = rng.choice(['early', 'early', 'middle',
                                                  'late'])
      events.append({'do': 'run', 'faults': faults, 'estimator': estimator,
                     'status': rng.choice([1, 2, 3, 134, 255])})
  return {'n': n, 'seed': rng.getrandbits(30), 'versions': versions,
          'events': events,
          'careful': rng.random() < 0.93, 'blksize': rng.choice([64, 4096])}


_recordings = {}


def recording(i, version):
  if (i, version) not in _recordings:
    motion = world.Trajectory(500, 1.5, T - 1.5, speed=1.4)
    import random
    rng = random.Random('circle-%d-%d' % (i, version))
    spec = {'rate': 16, 't0': 0.0, 't1': T, 'clock': 10.0 * i + version * 0.5,
            'grid': True}
    rows = world.Sensor(spec, i).record(motion, geom.random_pose(rng, 0.3),
                                        geom.random_pose(rng, 1.0))
    _recordings[(i, version)] = csv_text(rows)
  return _recordings[(i, version)]


def groups(n):
  """(group, first, second)."""
  return [('test', 0, 1)] if n == 2 else [('0_1', 0, 1), ('1_2', 1, 2),
                                          ('2_0', 2, 0)]


def intermediates(n):
  files = []
  for g, a, b in groups(n):
    files += [g + '/r%d_aligned.csv' % a, g + '/r%d_aligned.csv' % b,
              g + '/time_offset.csv', g + '/pose.csv', g + '_init_guess.json',
              g + '.json']
  return files


def estimator(k, modes, status=1):
  """Stub of the batch estimator: writes its output in place, in pieces."""
  count = [0]

  def body(argv):
    args = dict(a.lstrip('-').split('=', 1) for a in argv if '=' in a)
    mode = modes[count[0] % len(modes)]
    count[0] += 1
    digest = hashlib.sha256()
    for name in ('pose1_csv', 'pose2_csv', 'init_guess_file'):
      try:
        with open(args[name], 'rb') as f:
          data = f.read()
      except (IOError, OSError, KeyError):
        return 1
      digest.update(data + b'|')
    try:
      calib = json.loads(data.decode())
    except ValueError:
      return 1
    calib['source'] = digest.hexdigest()
    if mode == 'early':
      k.fire('estimator_fails')
      return status
    text = json.dumps(calib, indent=1, sort_keys=True)
    pieces = [text[:40], text[40:120], text[120:]]
    try:
      with open(args['output_file'], 'w', 1) as f:
        for i, piece in enumerate(pieces):
          if mode == 'middle' and i == 2:
            k.fire('estimator_fails')
            return status
          f.write(piece)
          f.flush()
    except (IOError, OSError):
      return 1
    if mode == 'late':
      k.fire('estimator_fails')
      return status
    return 0
  return body


def tools(k, modes, status=1):
  memo.attach(k)
  pkg = 'hand_eye_calibration'
  for tool in ('compute_aligned_poses.py', 'compute_hand_eye_calibration.py'):
    k.rosrun[(pkg, tool)] = k.python_tool(BIN + tool)
  k.rosrun[('hand_eye_calibration_batch_estimation', 'batch_estimator')] = \
      k.native_tool('batch_estimator', estimator(k, modes, status))


def circle(k, n, modes, status=1):
  tools(k, modes, status)
  k.calls[:] = []

  def body():
    os.chdir(k.path('work'))
    k.exec_script(SCRIPTS + 'close_the_circle_test.py',
                  ['../r%d.csv' % i for i in range(n)])
  return k.run_function('circle', body, seed=1)


def results(k, n):
  return dict((name, read_bytes(k.path('work', name)))
              for g, a, b in groups(n)
              for name in (g + '.json', g + '_init_guess.json'))


def summary(out):
  return [l for l in out.splitlines() if l.startswith('Circle')]


_scratch = {}


def scratch(n, versions):
  """(results, summary, problem) of a run in an empty directory."""
  key = (n, tuple(versions))
  if key not in _scratch:
    with Kernel(seed=1) as k:
      os.makedirs(k.path('work'))
      for i in range(n):
        write_text(k, 'r%d.csv' % i, recording(i, versions[i]))
      res = circle(k, n, ['ok'])
      found = results(k, n)
      problem = None
      if res.code != 0:
        problem = 'a run in an empty directory ended with %s:\n%s' % (
            res.code, tail(res.out))
      else:
        problem = sane(k, n, versions, found)
    _scratch[key] = (found, summary(res.out), problem)
  return _scratch[key]


def sane(k, n, versions, found):
  """The results of a run in an empty directory belong to its inputs."""
  for g, a, b in groups(n):
    init, final = found[g + '_init_guess.json'], found[g + '.json']
    if init is None or final is None:
      return 'a result of group %s is missing' % g
    digest = hashlib.sha256()
    for data in (recording(a, versions[a]).encode(),
                 recording(b, versions[b]).encode(), init):
      digest.update(data + b'|')
    if json.loads(final.decode())['source'] != digest.hexdigest():
      return 'the calibration of group %s was computed from other files' % g
    calib = calibration(init, g + '_init_guess.json')
    offset = parse_csv(read_bytes(k.path('work', g, 'time_offset.csv')))
    pose = parse_csv(read_bytes(k.path('work', g, 'pose.csv')))
    if offset is None or pose is None or calib['delay'] != offset[0][0]:
      return 'the initial guess of group %s has another offset' % g
    got = [calib['translation'][c] for c in 'xyz'] + \
        [calib['rotation'][c] for c in 'ijkw']
    err = geom.p_err(np.array(got), np.array([v for r in pose for v in r]))
    if err[0] > 1e-9 or err[1] > 1e-5:
      return 'the initial guess of group %s has another pose' % g
  return None


def condition(k, n, expected):
  """The two states that the script does not recover from: some but not all
  outputs of an alignment exist; an unfinished output of the estimator."""
  kinds = {}
  for g, a, b in groups(n):
    align = [g + '/r%d_aligned.csv' % a, g + '/r%d_aligned.csv' % b,
             g + '/time_offset.csv']
    have = [f for f in align if os.path.exists(k.path('work', f))]
    if 0 < len(have) < 3:
      kinds.setdefault('partial_alignment', []).extend(have)
    data = read_bytes(k.path('work', g + '.json'))
    if data is not None:
      try:
        json.loads(data.decode())
      except ValueError:
        kinds.setdefault('partial_estimate', []).append(g + '.json')
  return kinds


def state_of(k, n, times):
  row = []
  for name in intermediates(n):
    path = k.path('work', name)
    if not os.path.exists(path):
      row.append(0)
    else:
      row.append(1 if os.path.getmtime(path) >= max(times) else 2)
  return row


def run(plan, stats):
  stats.evaluations += 1
  n = plan['n']
  stats.probe('two' if n == 2 else 'three')
  versions = list(plan['versions'])
  with Kernel(seed=plan['seed'] & 0xffff, blksize=plan['blksize']) as k:
    try:
      return history(plan, k, n, versions, stats)
    finally:
      stats.kernel(k)


def judge(k, n, versions, res, before, when):
  expected, lines, problem = scratch(n, versions)
  if problem:
    return violation('scratch', problem)
  found = results(k, n)
  for name in sorted(expected):
    if found[name] != expected[name]:
      return violation('stale', '%s ended with status 0, but %s differs from '
                       'that of a run in an empty directory', when, name)
  if summary(res.out) != lines:
    return violation('summary', '%s reports %r; a run in an empty directory %r',
                     when, summary(res.out), lines)
  return None


def history(plan, k, n, versions, stats):
  os.makedirs(k.path('work'))
  times = [0.0] * n

  def edit(i):
    k.advance(1.0)
    write_text(k, 'r%d.csv' % i, recording(i, versions[i]))
    times[i] = os.path.getmtime(k.path('r%d.csv' % i))
    k.advance(1.0)
  for i in range(n):
    edit(i)
  failed = False
  for number, event in enumerate(plan['events']):
    if event['do'] == 'edit':
      versions[event['i']] = event['v']
      edit(event['i'])
      stats.probe('edited')
    elif event['do'] == 'delete':
      for j, name in enumerate(intermediates(n)):
        if (event['which'] >> j) & 1 and os.path.exists(k.path('work', name)):
          os.unlink(k.path('work', name))
          k.fire('file_deleted')
          stats.probe('deleted')
    else:
      stats.state(n, state_of(k, n, times))
      before = condition(k, n, None)
      fired = sum(k.fired.values())
      inject = Injector(k, event['faults'])
      res = circle(k, n, event['estimator'],
                   event.get('status', 1))
      inject.stop()
      k.set_faults([])
      k.note(number, res.code, sorted(results(k, n).items()))
      if res.killed:
        stats.probe('crash')
      if res.code == 0:
        if sum(k.fired.values()) > fired:
          stats.probe('faulty_but_0')
        bad = judge(k, n, versions, res, before, 'run %d' % number)
        if bad:
          return bad
      else:
        failed = True
        stats.probe('failed_run')
      after = condition(k, n, None)
      for kind in after:
        stats.probe(kind + '_left')
    k.advance(1.0)
  left = condition(k, n, None)
  if left and plan['careful']:
    # Not what this history is about: the user removes the partial results.
    for names in left.values():
      for name in names:
        os.unlink(k.path('work', name))
    left = {}
  elif left:
    stats.probe('known_state')
  stats.state(n, state_of(k, n, times))
  res = circle(k, n, ['ok'])
  k.note(res.code, k.calls)
  if res.code != 0:
    kind = 'fails'
    for known in ('partial_alignment', 'partial_estimate'):
      if known in left:
        kind = known
    return violation(kind, 'a fault-free run ended with status %s:\n%s',
                     res.code, tail(res.out))
  if failed:
    stats.probe('succeeded_later')
  bad = judge(k, n, versions, res, left, 'the last run')
  if bad:
    return bad
  k.advance(1.0)
  found = results(k, n)
  stats.probe('up_to_date')
  res = circle(k, n, ['ok'])
  if res.code != 0 or found != results(k, n):
    return violation('again', 'a repeated run ended with status %s or changed '
                     'the results:\n%s', res.code, tail(res.out))
  if k.calls:
    return violation('repeats', 'a run whose results are up to date started '
                     '%r', k.calls[0][:3])
  return None


def shrink(plan):
  for i in range(len(plan['events'])):
    yield dict(plan, events=plan['events'][:i] + plan['events'][i + 1:])
  if plan['n'] == 3:
    events = [dict(e, estimator=e['estimator'][:2]) if e['do'] == 'run' else e
              for e in plan['events'] if e.get('i', 0) < 2]
    yield dict(plan, n=2, versions=plan['versions'][:2], events=events)
  for i, event in enumerate(plan['events']):
    if event['do'] != 'run':
      continue
    options = [dict(event, faults=event['faults'][:j] + event['faults'][j + 1:])
               for j in range(len(event['faults']))]
    if any(m != 'ok' for m in event['estimator']):
      options.append(dict(event, estimator=['ok'] * len(event['estimator'])))
    for option in options:
      yield dict(plan, events=plan['events'][:i] + [option] +
                 plan['events'][i + 1:])


def warm():
  import itertools
  try:
    for versions in itertools.product(*[range(v) for v in VERSIONS]):
      scratch(3, versions)
    for versions in itertools.product(*[range(v) for v in VERSIONS[:2]]):
      scratch(2, versions)
  except Exception:
    pass
