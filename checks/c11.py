"""C11: parallel optimisation experiments keep their results apart."""

import json
import math
import os

import numpy as np

from checks import c10
from checks.common import EXP_BIN, read_bytes, tail, violation, write_text
from sim import geom
from sim.inject import Injector, random_fault
from sim.kernel import Kernel

ID = 'C11'
RUNS = {'quick': 260, 'thorough': 5000}
RULE = ('the whole optimisation experiment (12 x 10 perturbation ranges, 8 '
        'workers) under a seeded schedule with failing optimiser calls; every '
        'result line is matched with the call it belongs to; non-trivial: '
        'always; distinct by schedule and history hash')
STATE_MEASURE = ('(schedule of the workers at the seams, number of recordings '
                 'and iterations, pattern of failing optimiser calls)')
REAL = ['bin/optimization_experiments.py', 'experiment_results.py',
        'all_algorithm_configs.py', 'csv_io.py', 'bash_utils.py',
        'extrinsic_calibration.py', 'calibration_verification.py '
        '(compute_loop_error)', 'quaternion.py', 'dual_quaternion.py']
STUB = ['multiprocessing.Pool (workers as fibres with copies of the parent\'s '
        'globals and generator state, one runs at a time, switched at every '
        'seam)', 'initial calibrations, offset estimation, evaluation '
        '(scripted, values that occur only once)', 'batch_estimator',
        'file system faults']
ASSUMPTIONS = ['workers interact through files, directories and processes '
               'only; module level state of the libraries is shared between '
               'the simulated workers',
               'the perturbation ranges are the committed ones (12 steps of '
               '15 degrees, 10 steps of 0.1 m)']
PROBES = ['estimator_failed', 'no_match', 'loop_error', 'second_run',
          'many_pairs', 'fault', 'mkdir_race', 'fresh_directory', 'spawn_failed']

ANGLES = 12
LENGTHS = 10
SPAN = {'any': 6000, 'write': 700, 'change': 1500, 'read': 1200, 'rename': 300,
        'spawn': 200}


def gen(rng, tier):
  mode = rng.choice(['random', 'random', 'rr', 'sticky', 'prio', 'prio',
                     'lockstep'])
  sched = {'mode': mode, 'seed': rng.getrandbits(30)}
  if mode == 'sticky':
    sched['p'] = rng.choice([0.5, 0.9, 0.98])
  if mode == 'prio':
    sched['p'] = rng.choice([0.003, 0.02, 0.1])
  n = rng.choice([2, 2, 2, 3])
  faults = []
  if rng.random() < 0.25:
    faults = [random_fault(rng, SPAN, ['spawn', 'spawn', 'change', 'read'])
              for _ in range(rng.choice([1, 2]))]
  return {'n': n, 'iterations': rng.choice([1, 1, 2]) if n == 2 else 1,
          'sched': sched, 'faults': faults,
          'opt_fail': rng.choice([0.0, 0.05, 0.3]),
          'flags': rng.choice([None, [rng.randrange(2) for _ in range(n)]]),
          'fresh': rng.random() < 0.8, 'twice': rng.random() < 0.1,
          'long': False, 'fail': 0.0, 'configs': None,
          'seed': rng.getrandbits(30)}


class Script(c10.Script):

  def __init__(self, plan, k):
    c10.Script.__init__(self, plan, k)
    self.all = []
    self.broken = []

  def estimator(self, argv):
    args = dict(a.lstrip('-').split('=', 1) for a in argv if '=' in a)
    rng = self.rng
    mode = 'ok'
    if rng.random() < self.plan['opt_fail']:
      mode = rng.choice(['early', 'late', 'kill', 'nomatch'])
    pose = geom.random_pose(rng, 1.0)
    pose[0] = self.unique()
    estimate = {'args': args, 'guess': None, 'code': None, 'pose': pose,
                'delay': rng.uniform(-1, 1), 'evaluations': [],
                'run': self.run, 'nomatch': mode == 'nomatch'}
    self.all.append(estimate)
    self.estimates[round(pose[0], 6)] = estimate
    if mode in ('early', 'late', 'kill'):
      self.k.fire('estimator_fails')
    try:
      with open(args['init_guess_file']) as f:
        estimate['guess'] = json.load(f)
    except (IOError, OSError, KeyError, ValueError) as e:
      self.broken.append(repr(e))
      estimate['code'] = 1
      return 1
    # Other workers run while this one computes.
    for _ in range(rng.choice([0, 1, 5])):
      self.k.op('compute', None)
    if mode == 'early':
      estimate['code'] = 1
      return 1
    try:
      with open(args['output_file'], 'w') as f:
        json.dump({'delay': estimate['delay'],
                   'rotation': dict(zip('ijkw', map(float, pose[3:]))),
                   'translation': dict(zip('xyz', map(float, pose[:3])))}, f)
    except (IOError, OSError, KeyError) as e:
      self.broken.append(repr(e))
      estimate['code'] = 1
      return 1
    estimate['code'] = {'late': 2, 'kill': -9}.get(mode, 0)
    return estimate['code']

  def evaluations(self, module):
    def evaluate_calibration(poses_B_H, poses_W_E, dq_H_E, time_offset, config):
      estimate = self.estimates.get(round(dq_H_E.to_pose()[0], 6))
      rmse = (self.rng.random(), self.rng.random())
      inliers = self.rng.randrange(10, 99)
      if estimate is not None:
        if estimate['nomatch']:
          rmse, inliers = (float('inf'), float('inf')), 0
          self.k.fire('no_matching_poses')
        steps = (int(round((poses_B_H[1, 1] - poses_B_H[0, 1]) / 0.125)) - 1,
                 int(round((poses_W_E[1, 1] - poses_W_E[0, 1]) / 0.125)) - 1)
        estimate['evaluations'].append((rmse, inliers, float(time_offset),
                                        steps))
      return (rmse, inliers)
    if hasattr(module, 'evaluate_calibration'):
      module.evaluate_calibration = evaluate_calibration

  def configs(self, module):
    pass


def experiments(plan):
  return [(angle, length, iteration) for angle in range(ANGLES)
          for length in range(LENGTHS)
          for iteration in range(plan['iterations'])]


def run(plan, stats):
  stats.evaluations += 1
  with Kernel(seed=plan['seed'] & 0xffff, blksize=8192, sched=plan['sched'],
              keep_ops=False) as k:
    k.probe_loop = False
    try:
      return history(plan, k, stats)
    finally:
      stats.kernel(k)
      if k.probe_loop:
        stats.probe('loop_error')


class Watch(object):
  """Notices workers inside the creation of a directory at the same time."""

  def __init__(self):
    self.wanted = {}
    self.race = False

  def __call__(self, record):
    if record[2] == 'mkdir':
      if self.wanted.setdefault(record[3], record[1]) != record[1]:
        self.race = True


def history(plan, k, stats):
  files = c10.paths(plan)
  os.makedirs(k.path('in'), exist_ok=True)
  for i, path in enumerate(files):
    write_text(k, path, c10.recording(i))
  if not plan['fresh']:
    os.makedirs(k.path('results/optimization'))
  else:
    stats.probe('fresh_directory')
  script = Script(plan, k)
  script.attach()
  if plan['n'] > 2:
    stats.probe('many_pairs')
  done = []
  for number in range(2 if plan['twice'] else 1):
    script.run += 1
    argv = ['--aligned_poses_B_H_csv_files'] + files
    if plan['flags'] is not None:
      argv += ['--is_absolute_pose_sensor'] + [str(f) for f in plan['flags']]
    argv += ['--result_directory', 'results', '--num_iterations',
             str(plan['iterations'])]
    watch = Watch()
    faults = plan['faults'] if number == 0 else []
    inject = Injector(k, faults, watch)
    res = k.run_python(EXP_BIN + 'optimization_experiments.py', argv, 'exp',
                       seed=(plan['seed'] + number) & 0xfffff)
    inject.stop()
    k.set_faults([])
    data = read_bytes(k.path('results/results_optimization.csv'))
    k.note(number, res.code, data)
    if watch.race:
      stats.probe('mkdir_race')
    for name in ('estimator_fails', 'no_matching_poses', 'spawn_eagain'):
      if k.fired[name]:
        stats.probe({'estimator_fails': 'estimator_failed',
                     'no_matching_poses': 'no_match',
                     'spawn_eagain': 'spawn_failed'}[name])
    if inject.hit:
      stats.probe('fault')
    if res.code != 0:
      if inject.hit:
        break
      return violation('fails', 'the experiment ended with status %s without '
                       'any failing system call:\n%s', res.code, tail(res.out))
    missing = k.fired['spawn_eagain'] if inject.hit else 0
    bad = examine(plan, k, script, data, done, missing, bool(inject.hit))
    if bad:
      return bad
    if number:
      stats.probe('second_run')
  stats.state(plan['n'], plan['iterations'], k.choices, plan['sched']['mode'],
              [e['code'] for e in script.all])
  return None


def examine(plan, k, script, data, done, missing, faulty):
  if data is None:
    return violation('lines', 'there is no result file')
  lines = data.decode('utf-8', 'replace').split('\n')
  if lines.pop() != '':
    return violation('lines', 'the result file ends with a partial line')
  if not lines or not lines[0].startswith('algorithm_name,'):
    return violation('lines', 'the result file has no header')
  rows = [line.split(',') for line in lines[1:]]
  if rows[:len(done)] != done:
    return violation('lines', 'lines of the earlier run were changed')
  rows = rows[len(done):]
  pairs = c10.pairs(plan['n'])
  table = experiments(plan)
  if len(rows) != len(table) * len(pairs):
    return violation('lines', '%d result lines for %d experiments with %d '
                     'pairs', len(rows), len(table), len(pairs))
  calls = [e for e in script.all if e['run'] == script.run]
  bad = check_calls(plan, calls, script, faulty)
  if bad:
    return bad
  index = {}
  for e in calls:
    if e['guess'] is not None:
      key = (e['args'].get('pose1_csv'), e['args'].get('pose2_csv'))
      index.setdefault(key, []).append(e)
  places = {key: np.array([[e['guess']['translation'][c] for c in 'xyz']
                           for e in found]) for key, found in index.items()}
  used = set()
  for i, row in enumerate(rows):
    try:
      wrong, missing = check_row(plan, script, row, table[i // len(pairs)],
                                 i % len(pairs), index, places, used, missing)
    except (ValueError, IndexError) as e:
      wrong = 'cannot be read: %r' % (e,)
    if wrong:
      return violation('line', 'result line %d (%s) %s', i + 1,
                       ','.join(row)[:80], wrong)
  for i in range(0, len(rows), len(pairs)):
    try:
      wrong = check_loop(plan, script, rows[i:i + len(pairs)])
    except ValueError as e:
      wrong = 'cannot be read: %r' % (e,)
    if wrong:
      return violation('loop', 'result lines from %d on: %s', i + 1, wrong)
  done.extend(rows)
  return None


def check_calls(plan, calls, script, faulty):
  seen = {}
  if script.broken and not faulty:
    return violation('call', 'an optimiser call could not use its files: %s',
                     script.broken[0])
  for e in calls:
    for name in ('init_guess_file', 'output_file'):
      path = e['args'].get(name)
      if path in seen:
        return violation('shared', 'two optimiser calls use %s', path)
      seen[path] = True
  guesses = set()
  for e in calls:
    if e['guess'] is None:
      continue
    key = json.dumps([e['guess']['translation'], e['guess']['rotation']])
    if key in guesses:
      return violation('identical', 'two optimiser calls got the same '
                       'perturbation %s', key)
    guesses.add(key)
  return None


def vector(text):
  return np.array([float(v) for v in text.strip().strip('[]').split()])


def check_row(plan, script, row, experiment, pair_idx, index, places, used,
              missing):
  angle_idx, length_idx, iteration = experiment
  pair = c10.pairs(plan['n'])[pair_idx]
  files = c10.paths(plan)
  if len(row) != c10.COLUMNS:
    return 'has %d columns' % len(row), missing
  if (int(row[1]), int(row[2])) != (pair_idx, iteration):
    return 'is pair %s iteration %s instead of %d, %d' % (
        row[1], row[2], pair_idx, iteration), missing
  key = (row[4], row[5])
  if key != (files[pair[0]], files[pair[1]]):
    return 'names %r' % (key,), missing
  initial = script.calls.get(float(row[12]))
  if initial is None or initial['pair'] != pair or \
      initial['run'] != script.run:
    return 'has the initial calibration of something else', missing
  if row[6] != str(initial['success']) or int(row[10]) != initial['n'] or \
      int(row[11]) != initial['kept'] or row[16] != str(initial['bad']):
    return 'does not report the initial calibration', missing
  angle, offset, time = float(row[20]), vector(row[21]), float(row[22])
  length = np.linalg.norm(offset)
  tol = 1e-6
  if not math.radians(15 * angle_idx) - tol <= angle <= \
      math.radians(15 * angle_idx + 15) + tol:
    return 'perturbed by %r rad, outside of range %d' % (angle,
                                                         angle_idx), missing
  if not 0.1 * length_idx - tol <= length <= 0.1 * length_idx + 0.1 + tol:
    return 'perturbed by %r m, outside of range %d' % (length,
                                                       length_idx), missing
  if time != 0:
    return 'perturbed by %r s' % time, missing
  found = None
  if key in places:
    distances = np.linalg.norm(places[key] - initial['pose'][:3] - offset,
                               axis=1)
    if distances.min() < 1e-6:
      found = index[key][int(np.argmin(distances))]
  if found is None:
    missing -= 1
    if missing < 0 and not script.broken:
      return 'belongs to no optimiser call', missing
    expected = (False, (-1, -1), 0, None)
  else:
    if id(found) in used:
      return 'belongs to the same optimiser call as another line', missing
    used.add(id(found))
    wrong = check_guess(plan, found, initial, pair, angle)
    if wrong:
      return wrong, missing
    expected = (False, (-1, -1), 0, None)
    if found['code'] == 0:
      if len(found['evaluations']) != 1:
        return 'was evaluated %d times' % len(found['evaluations']), missing
      rmse, inliers, delay, steps = found['evaluations'][0]
      if abs(delay - found['delay']) > 1e-9 or steps != pair:
        return 'was evaluated with other data', missing
      expected = (inliers > 0, rmse, inliers, found['pose'])
  if row[18] != str(expected[0]):
    return 'reports optimisation success %s instead of %s' % (
        row[18], expected[0]), missing
  if not c10.same(float(row[7]), expected[1][0]) or \
      not c10.same(float(row[8]), expected[1][1]) or \
      int(row[9]) != expected[2]:
    return 'reports errors %s, %s, %s instead of %r, %r' % (
        row[7], row[8], row[9], expected[1], expected[2]), missing
  row_final = script.__dict__.setdefault('finals', {})
  row_final[id(row)] = (expected[0], expected[3])
  return None, missing


def check_guess(plan, found, initial, pair, angle):
  guess = found['guess']
  rotation = np.array([guess['rotation'][c] for c in 'ijkw'])
  got = geom.q_angle(rotation, initial['pose'][3:])
  if abs(got - min(angle, 2 * math.pi - angle)) > 1e-5:
    return 'reports a perturbation of %r rad, %r was applied' % (angle, got)
  if abs(guess['delay'] - 10.0 * (pair[1] - pair[0])) > 1e-9:
    return 'was started with the offset %r' % guess['delay']
  flags = plan['flags'] or [0] * plan['n']
  text = ('pose1/absoluteMeasurements=%s,pose2/absoluteMeasurements=%s' % (
      bool(flags[pair[0]]), bool(flags[pair[1]]))).lower()
  if found['args'].get('model_config') != text:
    return 'was optimised with model %r' % found['args'].get('model_config')
  return None


def check_loop(plan, script, group):
  finals = [script.finals[id(row)] for row in group]
  if all(ok for ok, _ in finals):
    position, angle = c10.loop_error([pose for _, pose in finals], plan['n'])
    script.k.probe_loop = True
    for row in group:
      a = float(row[14])
      if abs(float(row[13]) - position) > 1e-6 * max(1, position) or \
          min(abs(a - angle), abs(360 - a - angle)) > 1e-3:
        return 'loop error %s m, %s deg instead of %r, %r' % (
            row[13], row[14], position, angle)
  else:
    for row in group:
      if float(row[13]) != -1 or float(row[14]) != -1:
        return 'a loop error although an optimisation failed'
  return None


def shrink(plan):
  for i in range(len(plan['faults'])):
    yield dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:])
  if plan['sched']['mode'] not in ('sticky', 'rr') or \
      plan['sched'].get('p', 0) != 1.0:
    yield dict(plan, sched={'mode': 'sticky', 'seed': 0, 'p': 1.0})
  if plan['sched']['mode'] not in ('rr', 'sticky', 'lockstep'):
    yield dict(plan, sched={'mode': 'rr', 'seed': 0})
    yield dict(plan, sched={'mode': 'lockstep', 'seed': 0})
  for key, value in (('iterations', 1), ('twice', False), ('opt_fail', 0.0),
                     ('flags', None), ('fresh', False)):
    if plan[key] != value:
      yield dict(plan, **{key: value})
  if plan['n'] > 2:
    yield dict(plan, n=2, flags=(
        None if plan['flags'] is None else plan['flags'][:2]))
